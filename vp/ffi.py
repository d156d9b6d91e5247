"""Scripts for arrays crossing the C Data Interface (C13..C17)."""
import copy, json, os, random, re
from . import items as I
from . import core
from .coll import Gen as Base, new, op, start, BITLENS, HINTS
from .coll import BIGO, boundary, cuts, ext, trunc, weight

from .coll import BIGO as EXTREME
WRAP = {0: 6, 4: 7, 8: 8}    # child lengths that 4 * (2^62 + k) comes back to: the code of 2^62 + k


class Subs:
    def __init__(self, listing):
        self.every = [s for s in listing]
        self.all = [s for s in listing if "*0" not in s["sub"]]
        self.rw = [s for s in self.all if s["kind"] == "build_rw"]
        self.by = {s["sub"]: s for s in self.every}


def core_of(L):
    return L["c"] if L["k"] == "null" else L


def child(L):
    return core_of(L).get("c")


def chain(L):
    r = []
    while L:
        r.append(L)
        L = child(L)
    return r


class Gen(Base):
    off = 0

    def fixed(self, s):
        return int(s["sub"][1]) if re.match(r"a\d:", s["sub"]) else 0

    def build(self, s, n=None, big=False, panics=0.3):
        """Operations that build an array of subject s."""
        r, L = self.r, s["L"]
        if self.fixed(s):
            return [new("phys", ph=I.rep_exact(L, self.fixed(s), r, off=0))]
        if s["kind"] == "build_ro":
            return [new("phys", ph=I.rep(L, I.items(L, r.choice(BITLENS) if n is None else n, r), r, 0))]
        if n is not None:
            xs = I.small_items(L, n, r) if big else I.items(L, n, r)
            return [new(r.choice(["collect", "from_iter_in", "try_from_iter_in"]), items=xs)]
        return self.history(s, r.choice([0, 1, 2, 4, 7]), panics=panics, faults=0.2, hints=r.random() < 0.2)[:-2]


EXPORT = {"op": "export"}
IMPORT = {"op": "import"}


def node(o, w, i=0):
    return {"op": o, "w": w, "i": i}


def reread(i):
    return {"op": "reread", "i": i}


# ----------------------------------------------------------- C13 and C17
def exports(g, tail):
    r = g.r
    for s in g.subs.all:
        few = s["kind"] == "build_ro"
        for n in ([0, 1] if g.fixed(s) else BITLENS + [25]):
            for _ in range(g.pick(1, 6)):
                g.add(s, g.build(s, n) + tail(s))
        for _ in range(g.pick(8 if few else 16, 60 if few else 300)):
            g.add(s, g.build(s) + tail(s))
        if not few:
            for n in r.sample([127, 128, 129, 1023, 1024, 1025, 2049], g.pick(1, 4)):
                g.add(s, g.build(s, n, big=True) + tail(s))
    # all truncations of a nested array with explicit and implicit validity, then growth
    tour(g, [s for s in g.subs.rw], tail)


def tour(g, subs, tail):
    starts = [start("default"), start("collect", 7), start("phys", 9, 0, 1), start("phys", 5, 0, 0), start("with_capacity", 4)]
    ops = [op("ext", n) for n in (1, 8)] + [op("ext", 9, x) for x in (3, 8)] + [op("tryext", 2)] + \
          [op("trunc", n) for n in (0, 1, 4, 8)] + [op("res", 9)]
    mark = len(g.scripts)
    g.tour(subs, starts, ops, g.pick(2, 3), 24, g.pick(25, 400), "ffi", final=False)
    for x in g.scripts[mark:]:
        x["ops"] += tail(None)


def c13(g):
    exports(g, lambda s: [EXPORT])


def c17(g):
    exports(g, lambda s: [EXPORT, IMPORT, IMPORT] + ([node("drop", "s")] if g.r.random() < 0.5 else [node("move", "s")]) +
            [reread(0), reread(1)])


# ------------------------------------------------------------------- C14
def lives(g, D, maxops, sim=0, cap=None):
    """Histories of exported structures, from module MCFfiLife."""
    d = os.path.join(core.WORK, "gen", f"{g.cid}-life{D}-{maxops}")
    os.makedirs(d, exist_ok=True)
    cfg = os.path.join(d, "life.cfg")
    with open(cfg, "w") as f:
        f.write(f"SPECIFICATION Spec\nCONSTANTS\n  D = {D}\n  SHARED = TRUE\n  EMIT = TRUE\n  MAXOPS = {maxops}\n"
                "INVARIANTS ReadSafe FreedOnce NoLeak Owned Done\nCHECK_DEADLOCK FALSE\n")
    extra = ["-simulate", f"num={sim}", "-depth", str(maxops + 1), "-seed", str(g.r.randint(1, 1 << 30))] if sim else []
    out, r = core.tlc(os.path.join(core.SPEC, "MCFfiLife.tla"), cfg, d, workers=1, extra=extra)
    hs = {m for m in re.findall(r'^"@(.*)"$', out, re.M)}
    if not hs or "violated" in out or (not sim and not r["ok"]):
        raise core.ToolError("life histories: " + out[-2000:])
    st = r["stats"] or {"distinct": 0, "generated": 0}
    g.model.append({"model": f"MCFfiLife/D={D},ops={maxops}{',simulated' if sim else ''}", "states": st["distinct"],
                    "transitions": st["generated"], "histories": len(hs)})
    hs = [json.loads(x.replace('\\"', '"')) for x in sorted(hs)]
    g.r.shuffle(hs)
    return hs[:cap] if cap else hs


def c14(g):
    r = g.r
    byd = {}
    for s in g.subs.all:
        byd.setdefault(len(chain(s["L"])), []).append(s)
    for D, subs in sorted(byd.items()):
        hs = lives(g, D, 5 if D == 1 else 4) if D <= 2 else []
        hs2 = lives(g, D, 8 if D == 1 else 14, sim=g.pick(400, 4000))
        per = g.pick(60, 700) if D == 1 else g.pick(140, 1800)
        for s in subs:
            mine = (r.sample(hs, min(len(hs), per // 2)) if hs else []) + r.sample(hs2, min(len(hs2), per))
            for h in mine:
                ops = [reread(0) if x["op"] == "reread" else dict(IMPORT) if x["op"] == "import" else node(x["op"], x["w"], x["i"])
                       for x in h]
                b = g.build(s, r.choice([0, 1, 3, 9]) if s["kind"] == "build_rw" and r.random() < 0.8 else None)
                g.add(s, b + [EXPORT] + ops)


# ------------------------------------------------------------------- C15
def bitmaps(L, p, path=()):
    """Paths of the bitmaps present in parts p."""
    k = L["k"]
    if k == "bool":
        return [path]
    if k == "null":
        return ([path + ("bm", 0)] if p["bm"] else []) + bitmaps(L["c"], p["c"], path + ("c",))
    return bitmaps(L["c"], p["c"], path + ("c",)) if "c" in L else []


def shift(p, path, off, r):
    q = copy.deepcopy(p)
    b = q
    for k in path:
        b = b[k]
    bs = [str(b["by"][(b["off"] + i) // 8] >> ((b["off"] + i) % 8) & 1) for i in range(b["len"])]
    b.update(I.bits(bs, off, r, r.choice([0, 1])))
    return q


def c15(g):
    r = g.r
    for s in g.subs.all:
        L = s["L"]
        if g.fixed(s):
            for _ in range(g.pick(12, 60)):
                g.add(s, [new("phys", ph=I.rep_exact(L, g.fixed(s), r, off=r.choice([0, None]))), EXPORT])
            continue
        for n in ([0, 1, 5, 9] if g.quick else [0, 1, 2, 5, 7, 8, 9, 17]):
            for ex in (0, 1, None):
                p = I.rep(L, I.items(L, n, r, 0.0 if ex == 0 else 0.4), r, 0, ex)
                g.add(s, [new("phys", ph=p), EXPORT, IMPORT])
                pos = bitmaps(L, p)
                for at in pos:
                    for off in ([1, 8] + [r.choice([2, 3, 5, 7, 9, 15, 16, 64])] if g.quick else [1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 63, 64]):
                        g.add(s, [new("phys", ph=shift(p, at, off, r)), EXPORT])
                for _ in range(g.pick(2, 10)):
                    if len(pos) > 1:
                        q = p
                        for at in r.sample(pos, r.randint(2, len(pos))):
                            q = shift(q, at, r.choice([1, 3, 8, 9]), r)
                        g.add(s, [new("phys", ph=q), EXPORT])
        if s["kind"] == "build_rw":
            # offsets survive (and only survive) operations on the array
            g.off = None
            for _ in range(g.pick(6, 80)):
                g.add(s, g.build(s) + [EXPORT])
            g.off = 0
            for _ in range(g.pick(4, 40)):
                g.add(s, g.build(s) + [EXPORT])


# ------------------------------------------------------------------- C16
def unset(by, n):
    return sum(1 for i in range(n) if not by[i // 8] >> (i % 8) & 1)


def fmt(L):
    X = core_of(L)
    return {"prim": X.get("f"), "bool": "b", "list": "+l" if X.get("w") == "32" else "+L"}.get(X["k"]) or f"+w:{X['n']}"


def foreign(L, p, r):
    """A well-formed array and schema for valid, offset-free parts p."""
    X = core_of(L)
    nul = L["k"] == "null"
    c = p["c"] if nul else p
    n = I_len(L, p)
    b1, nc = [], 0
    if nul:
        if p["bm"]:
            by = p["bm"][0]["by"]
            b1 = [{"v": by, "mis": r.choice([0, 0, 1, 3])}]
            nc = unset(by, n)
        nc = r.choice([nc, nc, -1]) if b1 or n == 0 else 0
    else:
        nc = r.choice([0, 0, 0, -1])
        if r.random() < 0.15:
            b1 = [{"v": [255] * ((n + 7) // 8), "mis": 0}]
    a = {"rel": 0, "len": n, "nc": nc, "off": 0, "nb": 1 if X["k"] == "fsl" else 2, "nch": 0, "dict": 0, "bt": 1, "ct": 0, "ch": [], "bufs": [b1]}
    fl = (2 if nul else 0) | r.choice([0, 0, 0, 1, 4, 5, 8])
    sc = {"rel": 0, "fmt": [fmt(L)], "name": r.choice([[], [""], ["x"], ["item"]]), "fl": fl, "nch": 0, "dict": 0, "ct": 0, "ch": []}
    if X["k"] == "prim":
        al = X["al"]
        a["bufs"].append([] if n == 0 and r.random() < 0.5 else [{"v": c["v"], "mis": r.choice([0, al]) % 16}])
    elif X["k"] == "bool":
        a["bufs"].append([] if n == 0 and r.random() < 0.5 else [{"v": c["by"], "mis": r.choice([0, 1])}])
    elif X["k"] == "list":
        al = 4 if X["w"] == "32" else 8
        a["bufs"].append([{"v": c["o"], "mis": r.choice([0, al])}])
    if "c" in X:
        ca, cs = foreign(X["c"], c["c"], r)
        a.update(nch=1, ct=1, ch=[ca])
        sc.update(nch=1, ct=1, ch=[cs])
    return a, sc


def I_len(L, p):
    k = L["k"]
    if k == "prim":
        return len(p["v"])
    if k == "bool":
        return p["len"]
    if k == "fsl":
        return I_len(L["c"], p["c"]) // L["n"] if L["n"] else 0
    if k == "list":
        return len(p["o"]) - 1
    return I_len(L["c"], p["c"])


def near_formats(L):
    """Wrong formats a careless parser of list sizes might accept."""
    X = core_of(L)
    if X["k"] != "fsl":
        return []
    n = X["n"]
    out = [f"+w:{n + 1}", f"+w:{n}0", f"+w:-{n}", f"+w:{n + 2 ** 64}", f"+w:{n + 2 ** 32}", f"+w:{n},", f"+w:{n}.0", f"+w:0x{n}", f"+w: {n}",
           f"w:{n}", f"+W:{n}", f"+w{n}", f"+w:{n}:", "+w:" + chr(47), "+w:" + chr(58), f"+w:{n}/", "+w:99999999999999999999999", f"+l:{n}", "+w:\u0663",
           "+w:", "+w", f"+w:{n}b", f"+w:{n + 2 ** 16}", f"+w:{n + 2 ** 8}", f"+w:+{n}", f"+w:{n}\t", f"+w:\t{n}", f"+w:{n}_0", f"+w:_{n}"]
    if n:
        out.append(f"+w:{n - 1}")
    # characters that are not digits, but have the right distance from one
    if n < 78:
        out.append("+w:" + chr(48 + n) if n > 9 else "+w:" + chr(48 + 10 + n))
    if n >= 10:
        out += [f"+w:{n // 10 - 1 or ''}{chr(48 + 10 + n % 10)}", f"+w:{n // 10 - 1}{chr(48 + 10 + n % 10)}", f"+w:{n // 10 + 1}{chr(48 + n % 10 - 10)}"]
    else:
        out.append(f"+w:1{chr(48 + n - 10)}" if n > 0 else "+w:1&")
    return out


def wrong_formats(L):
    good = fmt(L)
    base = ["c", "C", "s", "S", "i", "I", "l", "L", "f", "g", "b", "n", "e", "u", "U", "z", "Z", "+l", "+L", "+s", "+m", "+w:1", "+w:2", "+w:3",
            "", " ", good + " ", " " + good, good + "x", good + good, "+", "+w", "+w:", "w:4", "vu", "+vl", "+r", "tdD", "d:10,2"]
    return [f for f in base + near_formats(L) if f != good]


def big_enough(L, a):
    """Makes the buffers hold what the (small) declared length calls for."""
    X, n = core_of(L), a["len"]
    if n < 0 or n > 10 ** 6:
        return
    if a["bufs"] and a["bufs"][0]:
        v = a["bufs"][0][0]["v"]
        v += [255] * ((n + 7) // 8 - len(v))
    if len(a["bufs"]) > 1 and a["bufs"][1]:
        v = a["bufs"][1][0]["v"]
        if X["k"] == "prim":
            v += ["5"] * (n - len(v))
        elif X["k"] == "bool":
            v += [0] * ((n + 7) // 8 - len(v))
        elif X["k"] == "list":
            v += [v[-1] if v else 0] * (n + 1 - len(v))


def shifted(x, by):
    """x + by, unless x is the code of an extreme number, which stands for itself."""
    return x if abs(x) >= BIGO[0] else x + by


def defects(L, depth):
    """Ways to spoil the node: name -> function(a, s, r); a and s are edited in place, or
    replaced through their holder lists ha and hs."""
    X = core_of(L)
    nul = L["k"] == "null"
    d = {}

    def put(name):
        def w(f):
            d[name] = f
            return f
        return w

    def clear(x):
        for k in list(x):
            del x[k]

    @put("rel_a")
    def _(a, s, r):
        clear(a)
        a["rel"] = 1

    @put("rel_s")
    def _(a, s, r):
        clear(s)
        s["rel"] = 1
    if depth:
        @put("null_a")
        def _(a, s, r):
            clear(a)
            a["rel"] = 2

        @put("null_s")
        def _(a, s, r):
            clear(s)
            s["rel"] = 2

    @put("nofmt")
    def _(a, s, r):
        s["fmt"] = []

    @put("fmt")
    def _(a, s, r):
        s["fmt"] = [r.choice(wrong_formats(L))]

    @put("flag")
    def _(a, s, r):
        s["fl"] = r.choice([0, 1, 4, 8, 5, 9, -4, -3] if nul else [2, 3, 6, 7, 10, 15, -1, -2])

    @put("flag_ok")
    def _(a, s, r):
        s["fl"] = r.choice([2, 3, 6, 7, 10, 15, -1, -2] if nul else [0, 1, 4, 8, 5, 9, -4, -3])

    @put("len_neg")
    def _(a, s, r):
        a["len"] = r.choice([-1, -2, -1 - a["len"]] + [-x for x in EXTREME])

    @put("len")
    def _(a, s, r):
        a["len"] = max(0, shifted(a["len"], r.choice([-2, -1, 1, 1, 2, 7])))
        big_enough(L, a)
    if X["k"] == "fsl" and not nul:
        @put("len_huge")
        def _(a, s, r):
            a["len"] = r.choice(EXTREME)
    if X["k"] == "fsl" and X["n"] == 4 and not nul:
        @put("len_wrap")
        def _(a, s, r):
            if a["ch"] and a["ch"][0].get("len") in WRAP:
                a["len"] = EXTREME[WRAP[a["ch"][0]["len"]]]

    @put("off")
    def _(a, s, r):
        a["off"] = r.choice([1, 2, 8, -1, a["len"]] + EXTREME + [-EXTREME[-1]])

    @put("nc")
    def _(a, s, r):
        a["nc"] = r.choice([-1, -2, -3, 0, 1, 2, a["len"], shifted(a["len"], 1), shifted(a["nc"], 1), shifted(a["nc"], -1)] + [EXTREME[-1], -EXTREME[-1], EXTREME[1], EXTREME[2], -EXTREME[2]])

    @put("nc_off_by_one")
    def _(a, s, r):
        a["nc"] = shifted(a["nc"], r.choice([-1, 1]))

    @put("nc_byte")
    def _(a, s, r):
        if abs(a["nc"]) < EXTREME[0]:
            xs = [x for d in (512, 256, 128, 64, 32, 8) for x in (a["nc"] + d, a["nc"] - d) if 0 <= x <= a["len"]]
            if xs:
                a["nc"] = r.choice(xs[:4])

    @put("nb")
    def _(a, s, r):
        a["nb"] = r.choice([0, 1, 2, 3, 4, -1, -2, EXTREME[-1], EXTREME[3]])

    @put("nch_a")
    def _(a, s, r):
        a["nch"] = r.choice([0, 1, 2, -1, EXTREME[-1], EXTREME[3]])

    @put("nch_s")
    def _(a, s, r):
        s["nch"] = r.choice([0, 1, 2, -1, EXTREME[-1], EXTREME[3]])

    @put("dict_a")
    def _(a, s, r):
        a["dict"] = 1

    @put("dict_s")
    def _(a, s, r):
        s["dict"] = 1

    @put("nobufs")
    def _(a, s, r):
        a["bt"] = 0
        if r.random() < 0.5:
            a["bufs"] = [[] for _ in a["bufs"]]
    if "c" in X:
        @put("noch_a")
        def _(a, s, r):
            a["ct"] = 0

        @put("noch_s")
        def _(a, s, r):
            s["ct"] = 0
    if nul:
        @put("novalid")
        def _(a, s, r):
            a["bufs"][0] = []

        @put("valid")
        def _(a, s, r):
            n = max(0, a["len"] if a["len"] < 10 ** 6 else 900)
            a["bufs"][0] = [{"v": [r.randrange(256) for _ in range((n + 7) // 8)], "mis": 0}]
    if X["k"] != "fsl":
        @put("nobuf")
        def _(a, s, r):
            a["bufs"][1] = []

        @put("mis")
        def _(a, s, r):
            if a["bufs"][1] and (a["len"] > 0 or X["k"] == "list"):
                a["bufs"][1][0]["mis"] = r.randint(1, 15)
    if X["k"] == "list":
        @put("offsets")
        def _(a, s, r):
            if a["bufs"][1]:
                v = a["bufs"][1][0]["v"]
                i = r.randrange(len(v))
                wide = X["w"] != "32"
                top = EXTREME[-1] if wide else BIGO[0]
                x = r.choice([0, 1, shifted(v[i], 1), max(0, shifted(v[i], -1)), shifted(v[-1], 1), -1, BIGO[0], -BIGO[0]] + (EXTREME if wide else []))
                v[i] = max(-top, min(top, x))

        @put("dip")
        def _(a, s, r):
            if a["bufs"][1]:
                v = a["bufs"][1][0]["v"]
                at = boundary(len(v), r)
                if 0 < at and 0 < v[at - 1] < BIGO[0]:
                    v[at] = r.randrange(v[at - 1])

        @put("first")
        def _(a, s, r):
            if a["bufs"][1]:
                a["bufs"][1][0]["v"][0] = r.choice([1, 2, -1])

        @put("last")
        def _(a, s, r):
            if a["bufs"][1]:
                v = a["bufs"][1][0]["v"]
                i = min(a["len"], len(v) - 1) if 0 <= a["len"] < 10 ** 6 else 0
                v[i] = shifted(v[i], r.choice([1, 2, 30]))
    return d


def spoil(L, a, s, plan, r):
    """Applies (depth, name) defects; deepest first so that all apply."""
    for depth, name in sorted(plan, key=lambda x: (-x[0], x[1].startswith(("rel", "null")))):
        X, x, y = L, a, s
        for _ in range(depth):
            X = child(X)
            x, y = x["ch"][0], y["ch"][0]
        if x.get("rel", 0) or y.get("rel", 0):
            if not (name.endswith("_a") and not x.get("rel") or name.endswith("_s") and not y.get("rel")):
                continue
        defects(X, depth)[name](x, y, r)
    clamp(a)
    clamp(s)


def clamp(x):
    """Keeps numbers within what the harness can name (EXTREME)."""
    for k in ("len", "nc", "off", "nb", "nch", "fl"):
        if k in x:
            x[k] = max(-EXTREME[-1], min(EXTREME[-1], x[k]))
    for y in x.get("ch", []):
        clamp(y)


def c16(g):
    r = g.r
    subs, seen = [], set()
    for s in g.subs.every:
        k = json.dumps(s["L"], sort_keys=True)
        if k not in seen and not g.fixed(s):
            seen.add(k)
            subs.append(s)

    def make(L, n=None):
        if "n" in L and L["n"] == 0 or L["k"] == "null" and L["c"].get("n") == 0:
            X = core_of(L)
            p = {"c": empty(X["c"])}
            p = {"bm": [], "c": p} if L["k"] == "null" else p
            return foreign(L, p, r)
        return foreign(L, I.rep(L, I.items(L, r.choice([0, 1, 2, 3, 5, 8, 9]) if n is None else n, r), r, 0), r)

    def go(s, plans, n=None):
        evs = []
        for plan in plans:
            a, c = make(s["L"], n)
            spoil(s["L"], a, c, plan, r)
            evs.append({"op": "foreign", "a": a, "s": c})
        g.add(s, evs)
    for s in subs:
        L = s["L"]
        nodes = chain(L)
        kinds = [(i, k) for i, X in enumerate(nodes) for k in defects(X, i)]
        for _ in range(g.pick(4, 20)):
            go(s, [[] for _ in range(5)])
        for k in kinds:
            for _ in range(g.pick(2, 12)):
                go(s, [[k] for _ in range(3)])
                go(s, [[k]], 0)
        pairs = [(x, y) for i, x in enumerate(kinds) for y in kinds[i + 1:]]
        for x, y in (pairs if len(pairs) <= g.pick(120, 10 ** 9) else r.sample(pairs, g.pick(120, 10 ** 9))):
            for _ in range(g.pick(1, 3)):
                go(s, [[x, y] for _ in range(2)])
        for _ in range(g.pick(3, 40)):
            go(s, [r.sample(kinds, min(len(kinds), 3)) for _ in range(2)])
        # every wrong format at every depth
        for i, X in enumerate(nodes):
            fs = wrong_formats(X)
            for f in (r.sample(fs, 12) + near_formats(X) if g.quick else fs):
                a, c = make(L)
                y = c
                for _ in range(i):
                    y = y["ch"][0]
                y["fmt"] = [f]
                g.add(s, [{"op": "foreign", "a": a, "s": c}])
        # structures that describe another type
        for t in r.sample(subs, g.pick(8, len(subs))):
            a, c = make(t["L"])
            g.add(s, [{"op": "foreign", "a": a, "s": c, "fmts": [fmt(X) for X in chain(t["L"])]}])


def empty(L):
    k = L["k"]
    return {"prim": {"v": []}, "bool": {"by": [], "len": 0, "off": 0}}.get(k) or (
        {"o": [0], "c": empty(L["c"])} if k == "list" else {"bm": [], "c": empty(L["c"])} if k == "null" else {"c": empty(L["c"])})


def widest(g, subs, n):
    """(subject, items) with one long level, n of them."""
    subs = [s for s in subs if not g.fixed(s)]
    for k in range(n):
        s = subs[k % len(subs)] if n >= len(subs) else g.r.choice(subs)
        yield s, I.wide_items(s["L"], g.r)
    kinds = {}
    for s in subs:
        if weight(s["L"]) <= 3:
            kinds.setdefault((s["L"]["k"], s["L"].get("c", {}).get("k"), s["L"].get("c", {}).get("c", {}).get("k")), []).append(s)
    for k in sorted(kinds, key=str) * g.pick(1, 2):
        s = g.r.choice(kinds[k])
        yield s, I.small_items(s["L"], g.r.choice(I.GIANT), g.r, g.r.choice([0.0, 0.02, 0.3, 0.97, 1.0])) if k[0] not in ("list", "null") or g.r.random() < 0.7 \
            else I.wide_items(s["L"], g.r, sizes=I.GIANT)


def wide(cid, g):
    """Long arrays, long rows and, where they matter, far bit offsets across the interface."""
    r, few = g.r, g.pick(1, 12)
    if cid in ("C13", "C14", "C17"):
        def tail(s):
            if cid == "C13":
                return [EXPORT]
            if cid == "C17":
                return [EXPORT, IMPORT, node("drop", "s"), reread(0)]
            deep = len(chain(s["L"])) > 1
            return [EXPORT, IMPORT, reread(0), node("drop", "s")] + ([node("out", "a", 1)] if deep else []) + \
                [node(r.choice(["drop", "rel"]), "a")] + ([node("drop", "a", 1)] if deep else [])
        for s, xs in widest(g, g.subs.all, {"C13": 120, "C17": 100, "C14": 60}[cid] * few):
            ops = [new("phys", ph=I.rep(s["L"], xs, r, 0))] if s["kind"] == "build_ro" or r.random() < 0.5 else \
                [new(r.choice(["collect", "from_iter_in"]), items=xs)]
            if s["kind"] == "build_rw" and r.random() < 0.4:
                ops += [trunc(cuts(len(xs), r))] + ([ext(I.small_items(s["L"], r.choice([1, 8, 9]), r))] if r.random() < 0.5 else [])
            g.add(s, ops + tail(s), "w")
    elif cid == "C15":
        for s, xs in widest(g, g.subs.all, 100 * few):
            p = I.rep(s["L"], xs, r, 0)
            for at in bitmaps(s["L"], p) or []:
                g.add(s, [new("phys", ph=shift(p, at, r.choice([x for x in I.WOFF if x]), r)), EXPORT], "w")
            g.add(s, [new("phys", ph=p), EXPORT], "w")
    elif cid == "C16":
        subs = [s for s in g.subs.all if not g.fixed(s)]
        for s, xs in widest(g, subs, 160 * few):
            evs, L = [], s["L"]
            kinds = [(i, k) for i, X in enumerate(chain(L)) for k in defects(X, i)]
            for _ in range(5):
                a, c = foreign(L, I.rep(L, xs, r, 0), r)
                longs = [i for i, n in enumerate(lengths(a)) if n > 30]
                spots = [k for k in kinds if k[1] in SPOTS and k[0] in longs]
                spoil(L, a, c, r.choice([[], [r.choice(kinds)], [r.choice(spots or kinds)], [r.choice(spots or kinds)]]), r)
                evs.append({"op": "foreign", "a": a, "s": c})
            g.add(s, evs, "w")


def lengths(a):
    return [a["len"]] + (lengths(a["ch"][0]) if a["ch"] else [])


SPOTS = ("nc_byte", "nc_off_by_one", "dip", "dip", "offsets", "last", "valid", "len")


def longer(cid, gen):
    def both(g):
        gen(g)
        wide(cid, g)
    return both


OBS = ["len", "empty", "view", "owned", "iter", "oob", "nested", "format", "encode", "agree", "queries", "inplace"]
CHECKS = {
    "C13": dict(gen=c13, on=["schema", "fields", "decode", "nocopy", "nopanic", "alive", "shape"]),
    "C14": dict(gen=c14, on=["stable", "released", "freed", "once", "nocopy", "alive", "shape"]),
    "C15": dict(gen=c15, on=["exportok", "truth", "freed", "once", "nopanic", "alive", "shape"]),
    "C16": dict(gen=c16, on=OBS + ["accept", "truth", "untouched", "nopanic", "alive", "shape"]),
    "C17": dict(gen=c17, on=OBS + ["accept", "nopanic", "alive", "shape"]),
}
for _cid, _c in CHECKS.items():
    _c["gen"] = longer(_cid, _c["gen"])
