"""Shared machinery: building the harness, running TLC, recording and judging traces."""
import hashlib, json, os, random, re, resource, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(ROOT, ".work")
SPEC = os.path.join(ROOT, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
MEM = 8 << 30


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "src"), os.path.join(REPO, "narrow-ffi"), os.path.join(REPO, "narrow-derive"),
                 os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock"), os.path.join(REPO, "README.md"),
                 os.path.join(ROOT, "harness")):
        files = [base] if os.path.isfile(base) else sorted(
            os.path.join(d, f) for d, ds, fs in os.walk(base) if "target" not in d.split(os.sep) for f in fs)
        for f in files:
            if os.path.exists(f):
                h.update(f.encode() + b"\0" + open(f, "rb").read())
    return h.hexdigest()


def build():
    """Builds the harness against the current /repo; returns the directory of its binaries."""
    target = os.path.join(WORK, "target")
    stamp = os.path.join(WORK, "stamp")
    os.makedirs(WORK, exist_ok=True)
    want = tree_hash()
    have = open(stamp).read() if os.path.exists(stamp) else ""
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
    env["RUSTFLAGS"] = "--cfg narrow_verif"
    if have != want:
        # Content decides, not time stamps.
        shutil.rmtree(os.path.join(target, "debug", ".fingerprint"), ignore_errors=True)
    if not os.path.exists(os.path.join(ROOT, "harness", "Cargo.lock")):
        raise ToolError("harness/Cargo.lock missing")
    cmd = ["cargo", "build", "--offline", "--locked", "--bins", "--manifest-path", os.path.join(ROOT, "harness", "Cargo.toml")]
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        # The hooks may not fit a rearranged crate; everything public still does.
        env.pop("RUSTFLAGS")
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        log("built without hooks")
    if r.returncode != 0:
        raise ToolError("harness does not build:\n" + r.stdout[-4000:])
    with open(stamp, "w") as f:
        f.write(want)
    return os.path.join(target, "debug")


# --------------------------------------------------------------------- TLC
def tlc(module, cfg, workdir, env=None, workers=1, heap="3g", timeout=800, extra=(), partial=False):
    """Runs TLC; returns (output, stats). A search cut short counts, if partial, for the states it reached."""
    os.makedirs(workdir, exist_ok=True)
    meta = os.path.join(workdir, "states")
    tmp = os.path.join(workdir, "tmp")
    for d in (meta, tmp):
        shutil.rmtree(d, ignore_errors=True)
    os.makedirs(tmp)
    cmd = ["java", "-Djava.io.tmpdir=" + tmp, "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-nowarning", "-noGenerateSpecTE", "-metadir", meta, "-config", cfg, *extra, module]
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        text = x.stdout or b""
        text = text if isinstance(text, str) else text.decode(errors="replace")
        m = re.findall(r"Progress\((\d+)\) at [^:]*:\d\d:\d\d: ([\d,]+) states generated .*?, ([\d,]+) distinct", text)
        if not partial or "Error:" in text or not m:
            raise ToolError(f"TLC timed out on {module} {cfg}")
        for d in (meta, tmp):
            shutil.rmtree(d, ignore_errors=True)
        n = [int(v.replace(",", "")) for v in m[-1]]
        return text, {"rc": 0, "wall": time.time() - t, "stats": {"generated": n[1], "distinct": n[2]}, "ok": True, "depth": n[0]}
    for d in (meta, tmp):
        shutil.rmtree(d, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
    st = {"generated": int(m[-1][0]), "distinct": int(m[-1][1])} if m else None
    return r.stdout, {"rc": r.returncode, "wall": time.time() - t, "stats": st,
                      "ok": "No error has been found" in r.stdout}


def model_check(name, module, cfg, consts=(), workers=8, heap="4g", timeout=800, env=None, partial=False):
    """Exhaustively checks a model, with some constants replaced; any error is a defect of the model itself."""
    text = open(os.path.join(SPEC, cfg)).read()
    for k, v in dict(consts).items():
        text, n = re.subn(rf"(?m)^  {k} (=|<-) .*$", f"  {k} {v}", text)
        assert n == 1, (cfg, k)
    path = os.path.join(WORK, "mc", name + ".cfg")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)
    out, r = tlc(os.path.join(SPEC, module + ".tla"), path, os.path.join(WORK, "mc", name),
                 workers=workers, heap=heap, timeout=timeout, env=env, partial=partial)
    if not r["ok"] or not r["stats"]:
        raise ToolError(f"model {module}/{cfg} fails:\n" + out[-3000:])
    return {"model": module + "/" + cfg + "".join(f" {k}{v}" for k, v in dict(consts).items()), "states": r["stats"]["distinct"], "transitions": r["stats"]["generated"],
            "wall_s": round(r["wall"], 1), **({"cut_short_at_depth": r["depth"]} if "depth" in r else {})}


# ----------------------------------------------------------------- harness
def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def record(binary, scripts, tag, nproc=8, secs=30):
    """Runs scripts on the real code; returns the recorded traces (one JSON line each)."""
    d = os.path.join(WORK, "run", tag)
    os.makedirs(d, exist_ok=True)
    sp, tp = os.path.join(d, "scripts.ndjson"), os.path.join(d, "traces.ndjson")
    # long scripts come in clusters: spread them over the workers
    scripts = random.Random(1).sample(scripts, len(scripts))
    with open(sp, "w") as f:
        for s in scripts:
            f.write(json.dumps(s, separators=(",", ":")) + "\n")
    r = subprocess.run([binary, sp, tp, str(nproc), str(secs)], preexec_fn=limits, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("harness failed:\n" + r.stdout[-3000:])
    lines = open(tp).read().splitlines()
    return lines


CFG = """SPECIFICATION %s
CONSTANTS
  W = 8
  On = {%s}
  Rebase = %s
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
"""


def events(line):
    """How many events a recorded trace has."""
    return line.count('"op":"')


def validate(lines, on, tag, module="Trace", rebase=False, cfgtext=None, chunk=16 << 20, par=6, workers=1):
    """Checks traces against the trace specification.

    Returns (rejections, stats): rejections are (trace id, event number, clauses)."""
    d = os.path.join(WORK, "val", tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    cfg = os.path.join(d, "trace.cfg")
    with open(cfg, "w") as f:
        f.write(cfgtext or CFG % ("FSpec" if module == "FfiTrace" else "Spec", ", ".join('"%s"' % c for c in sorted(on)), "TRUE" if rebase else "FALSE"))
    parts, cur, size = [], [], 0
    per = max(1 << 16, min(chunk, sum(map(len, lines)) // par + 1))
    for s in lines:
        cur.append(s)
        size += len(s)
        if size >= per:
            parts.append(cur)
            cur, size = [], 0
    if cur:
        parts.append(cur)

    def one(i):
        todo, rej, seen, gen = parts[i], [], 0, 0
        for attempt in range(6):
            if not todo:
                break
            f = os.path.join(d, f"t{i}.ndjson")
            with open(f, "w") as h:
                h.write("\n".join(todo) + "\n")
            out, r = tlc(os.path.join(SPEC, module + ".tla"), cfg, os.path.join(d, f"w{i}"), env={"TRACE": f}, workers=workers)
            os.remove(f)
            found = re.findall(r'^"REJECT (\S+) (\d+) (.*)"$', out, re.M)
            evs = {}
            for s in todo:
                evs[re.match(r'\{"id":"([^"]+)"', s).group(1)] = events(s)
            if r["ok"] and r["stats"]:
                bad = {}
                for t, l, c in found:
                    bad[t] = (t, int(l), sorted(re.findall(r'\w+', c.replace("\\", ""))))
                expect = sum((bad[t][1] if t in bad else n + 1) for t, n in evs.items())
                if expect != r["stats"]["distinct"]:
                    raise ToolError(f"trace validation incomplete: {r['stats']['distinct']} of {expect} states\n" + out[-2000:])
                rej += bad.values()
                seen += r["stats"]["distinct"]
                gen += r["stats"]["generated"]
                break
            # Observations that are not even of the right shape: find the trace.
            m = re.findall(r"tid = (\d+)", out)
            if not m or attempt == 5:
                raise ToolError("trace validation failed:\n" + out[-3000:])
            k = int(m[-1]) - 1
            ls = re.findall(r"/\\ l = (\d+)", out)
            rej.append((json.loads(todo[k])["id"], int(ls[-1]) + 1 if ls else 0, ["shape"]))
            m = re.search(r"Error: TLC.*?(?=Error: The behavior)", out, re.S)
            log("uninterpretable trace", rej[-1][0], (m.group(0) if m else out[-500:])[:600])
            todo = todo[:k] + todo[k + 1:]
        return rej, seen, gen

    with ThreadPoolExecutor(par) as ex:
        res = list(ex.map(one, range(len(parts))))
    rej = [x for r in res for x in r[0]]
    return rej, {"states": sum(r[1] for r in res), "transitions": sum(r[2] for r in res)}


# ---------------------------------------------------------- script generation
def skeletons(layouts, starts, ops, depth, maxlen, tag):
    """Histories enumerated by TLC from the physical model (module Gen)."""
    d = os.path.join(WORK, "gen", tag)
    os.makedirs(d, exist_ok=True)
    g = os.path.join(d, "gen.json")
    with open(g, "w") as f:
        json.dump({"layouts": layouts, "starts": starts, "ops": ops, "depth": depth, "maxlen": maxlen}, f)
    out, r = tlc(os.path.join(SPEC, "Gen.tla"), os.path.join(SPEC, "Gen.cfg"), d, env={"GEN": g}, workers=1)
    if not r["ok"]:
        raise ToolError("script generation failed:\n" + out[-3000:])
    sk = []
    for s in re.findall(r'^"@(.*)"$', out, re.M):
        j = json.loads(s.replace('\\"', '"'))
        sk.append((j["l"] - 1, j["h"]))
    return sk, {"states": r["stats"]["distinct"], "transitions": r["stats"]["generated"]}


def programs(lens, skips, depth, tag):
    """Read programs enumerated by TLC from the cursor of ArraySpec (module Reads)."""
    d = os.path.join(WORK, "gen", tag)
    os.makedirs(d, exist_ok=True)
    g = os.path.join(d, "reads.json")
    with open(g, "w") as f:
        json.dump({"lens": lens, "skips": skips, "depth": depth}, f)
    out, r = tlc(os.path.join(SPEC, "Reads.tla"), os.path.join(SPEC, "Reads.cfg"), d, env={"GEN": g}, workers=1)
    if not r["ok"]:
        raise ToolError("program generation failed:\n" + out[-3000:])
    ps = {}
    for s in re.findall(r'^"@(.*)"$', out, re.M):
        j = json.loads(s.replace('\\"', '"'))
        ps.setdefault(j["n"], []).append(j["p"])
    return ps, {"states": r["stats"]["distinct"], "transitions": r["stats"]["generated"]}


# ------------------------------------------------------------------ findings
def known_findings():
    """finding: property=<id> match=<regex over "sub|clauses|event json"> <text>"""
    res = []
    p = os.path.join(ROOT, "known-findings.txt")
    for s in open(p):
        m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", s.strip())
        if m:
            res.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return res
