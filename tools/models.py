"""Runs the models of a tier by themselves: tools/models.py [quick|thorough] [PROPERTY...]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import core, models
tier = sys.argv[1] if len(sys.argv) > 1 else "quick"
for cid in sys.argv[2:] or models.MODELS:
    for m in models.MODELS[cid][tier]:
        try:
            print(cid, core.model_check(*m), flush=True)
        except core.ToolError as e:
            print(cid, m, "FAILS", str(e)[-1500:], flush=True)
