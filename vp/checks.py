"""One check per property: model checking, script generation, replay, judgement, evidence."""
import json, os, random, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from . import coll, core, ffi
from .models import MODELS


def subs(binary):
    return json.loads(subprocess.run([binary, "list"], stdout=subprocess.PIPE, text=True, check=True).stdout)


def signature(script, clauses, event):
    return f"{script.get('sub', '')}|{','.join(clauses)}|{json.dumps(event, separators=(',', ':'))}"


def report(cid, scripts, traces, rej):
    """Prints findings and violations; returns the number of violations."""
    known = core.known_findings()
    byid = {s["id"]: s for s in scripts}
    lines = {}
    for t in traces if rej else []:
        lines[json.loads(t)["id"]] = t
    d = os.path.join(core.ROOT, "evidence", "replay", cid)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        os.remove(os.path.join(d, f))
    bad, seen = 0, set()
    for n, (tid, l, cl) in enumerate(sorted(rej, key=lambda x: (x[1], x[0]))):
        t = json.loads(lines[tid])
        ev = t["ev"][l - 1] if 0 < l <= len(t["ev"]) else {}
        sig = signature(byid[tid], cl, byid[tid].get("ops", [{}])[l - 1] if byid[tid].get("ops") and 0 < l <= len(byid[tid]["ops"]) else {})
        hit = [k for k in known if k[0] == cid and k[1].search(sig)]
        if hit:
            if hit[0][2] not in seen:
                seen.add(hit[0][2])
                print(f"KNOWN-FINDING: property={cid} {hit[0][2]}")
            continue
        bad += 1
        if bad <= 10:
            p = os.path.join(d, f"{n}.json")
            with open(p, "w") as f:
                json.dump({"property": cid, "event": l, "clauses": cl, "script": byid[tid], "trace": t}, f)
            print(f"VIOLATION property={cid} replay={p}")
            print(f"  sub={byid[tid].get('sub')} event {l} ({ev.get('op')}) rejected by {','.join(cl)}: {ev.get('msg', '')}")
    if bad > 10:
        print(f"  ... {bad - 10} more")
    return bad


def check(cid, tier, seed):
    t0 = time.time()
    bad, cov, level = run(cid, tier, seed)
    ev = {"property": cid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "wall_s": round(time.time() - t0, 1), "violations": bad}
    os.makedirs(os.path.join(core.ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(core.ROOT, "evidence", cid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{cid} {tier}: {cov['traces_validated_against_impl']} traces, {bad} violations, {ev['wall_s']} s")
    return 1 if bad else 0


def claimed():
    return set(coll.CHECKS) | set(ffi.CHECKS)


def parts(cid):
    """Family, harness binary and trace specification of a property."""
    return (ffi, "ffi", "FfiTrace") if cid in ffi.CHECKS else (coll, "coll", "Trace")


def judge(cid, traces, tag):
    fam, _, module = parts(cid)
    c = fam.CHECKS[cid]
    return core.validate(traces, c["on"], tag, module=module, rebase=c.get("rebase", fam is ffi))


def run(cid, tier, seed):
    fam, binary, _ = parts(cid)
    c = fam.CHECKS[cid]
    # the models do not depend on the code: check them beside the build and the replay
    pool = ThreadPoolExecutor(1)
    models = MODELS[cid][tier]
    # deep searches share a time budget; what they reached within it is what they cover
    deep = {} if tier == "quick" else {"timeout": 780 // len(models), "partial": True}
    checking = [pool.submit(core.model_check, *m, **deep) for m in models]
    b = os.path.join(core.build(), binary)
    g = fam.Gen(cid, tier, seed, fam.Subs(subs(b)))
    c["gen"](g)
    core.log(f"{cid}: {len(g.scripts)} scripts")
    t = time.time()
    traces = core.record(b, g.scripts, cid)
    core.log(f"{cid}: recorded in {time.time() - t:.1f} s, {sum(map(len, traces)) >> 20} MB")
    t = time.time()
    rej, st = judge(cid, traces, cid)
    core.log(f"{cid}: validated in {time.time() - t:.1f} s")
    if len(traces) != len(g.scripts) and not rej:
        raise core.ToolError(f"{len(traces)} traces for {len(g.scripts)} scripts")
    bad = report(cid, g.scripts, traces, rej)
    models = [m.result() for m in checking] + g.model
    events = sum(map(core.events, traces))
    r = random.Random(seed)
    cov = {"states": sum(m["states"] for m in models) + st["states"],
           "transitions": sum(m["transitions"] for m in models) + st["transitions"],
           "traces_validated_against_impl": len(traces), "events": events,
           "subjects": len({s["sub"] for s in g.scripts}), "clauses": c["on"], "models": models,
           "trace_states": st["states"], "samples": [s for s in r.sample(g.scripts, 3)]}
    return bad, cov, "model_checking"


def replay(path):
    j = json.load(open(path))
    cid = j["property"]
    b = os.path.join(core.build(), parts(cid)[1])
    tr = core.record(b, [j["script"]], "replay", nproc=1)
    rej, _ = judge(cid, tr, "replay")
    print(tr[0])
    print("rejected:", rej)
    return 1 if rej else 0
