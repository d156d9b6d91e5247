#!/usr/bin/env python3
"""run.py check <property> [--tier quick|thorough] | run.py replay <file> | run.py setup"""
import argparse, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import checks, core


def main():
    a = argparse.ArgumentParser()
    a.add_argument("cmd", choices=["check", "replay", "setup"])
    a.add_argument("what", nargs="?")
    a.add_argument("--tier", default="quick", choices=["quick", "thorough"])
    a = a.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        if a.cmd == "setup":
            core.build()
            return 0
        if a.cmd == "replay":
            return checks.replay(a.what)
        return checks.check(a.what, a.tier, seed)
    except core.ToolError as e:
        print("TOOL ERROR:", e, file=sys.stderr)
        return 2
    except Exception:  # a failure of the machinery is no verdict
        traceback.print_exc()
        return 2


sys.exit(main())
