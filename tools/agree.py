"""How often the buffers recorded from the code are exactly those the physical model predicts:
tools/agree.py [PROPERTY...] (see spec/Agree.tla; a measurement, not a check)."""
import collections, json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp import checks, coll, core
CFG = """SPECIFICATION ASpec
CONSTANTS
  W = 8
  CHUNK = 1024
  On = {}
  Rebase = FALSE
CHECK_DEADLOCK FALSE
"""
N = int(os.environ.get("N", "600"))
for cid in sys.argv[1:] or ["C03", "C04", "C05"]:
    b = os.path.join(core.build(), "coll")
    g = coll.Gen(cid, "quick", 1, coll.Subs(checks.subs(b)))
    coll.CHECKS[cid]["gen"](g)
    scripts = g.scripts[::max(1, len(g.scripts) // N)]
    traces = core.record(b, scripts, "agree")
    d = os.path.join(core.WORK, "agree")
    os.makedirs(d, exist_ok=True)
    open(d + "/c.cfg", "w").write(CFG)
    open(d + "/t.ndjson", "w").write("\n".join(traces) + "\n")
    out, r = core.tlc(os.path.join(core.SPEC, "Agree.tla"), d + "/c.cfg", d + "/w", env={"TRACE": d + "/t.ndjson"}, workers=4)
    if not r["ok"]:
        sys.exit(out[-3000:])
    ev = {j["id"]: j for j in map(json.loads, traces)}
    n = collections.Counter()
    for w, t, l in re.findall(r'^"(AGREE|DIFFER) (\S+) (\d+)"$', out, re.M):
        e = ev[t]["ev"][int(l) - 1]
        n[w] += 1
        if w == "DIFFER":
            n[(w, ev[t]["sub"], e["op"], e["res"])] += 1
            if n[(w, ev[t]["sub"], e["op"], e["res"])] == 1:
                print("  first:", ev[t]["sub"], t, l, json.dumps(ev[t]["ev"][int(l) - 2].get("obs", {}).get("ph"))[:300], "->", json.dumps({k: v for k, v in e.items() if k != "obs"})[:300], "->", json.dumps(e["obs"]["ph"])[:300])
    print(cid, n["AGREE"], "agree", n["DIFFER"], "differ", {k: v for k, v in n.items() if isinstance(k, tuple)})
