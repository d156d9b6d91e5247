"""Scripts for the collection properties (C01..C12, C18)."""
import json, random
from . import items as I
from .core import skeletons, programs

EXACT = {"hint": "exact", "panic": -1, "after": []}
HUGE = [-1, -2, -3, -4, -5, -6, -7, -8]
HINTS = ["exact", "zero", "zeroexact", "half", "one", "loose", "huge", "lowhuge", "near", "nohi", "big"]


def std_arr(s):
    return s["sub"].startswith("std:a") and s["sub"][5].isdigit()


def src(hint="exact", panic=-1, after=()):
    return {"hint": hint, "panic": panic, "after": list(after)}


def new(how, n=0, items=(), s=None, al=0, fail=-1, ph=None):
    e = {"op": "new", "how": how, "n": n, "items": list(items), "src": s or dict(EXACT), "al": al, "fail": fail}
    if ph is not None:
        e["ph"] = ph
    return e


def ext(items, s=None, op="ext", fail=-1):
    return {"op": op, "n": 0, "items": list(items), "src": s or dict(EXACT), "fail": fail}


def trunc(n):
    return {"op": "trunc", "n": n, "items": []}


def res(n, op="res", fail=-1):
    return {"op": op, "n": n, "items": [], "fail": fail}


def it(steps=(), tail="rest", op="iter"):
    return {"op": op, "steps": list(steps), "tail": tail}


class Subs:
    def __init__(self, listing):
        for s in listing:
            base, _, ext = s["kind"].partition("_")
            if ext in ("rows", "eq", "clone"):
                s["kind"], s["ext"] = "run_" + base, ext
        self.std = [s for s in listing if s["sub"].startswith("std:")]
        self.units = [s for s in listing if s["sub"].startswith("units:")]
        self.all = [s for s in listing if s not in self.std and s not in self.units]
        self.rw = [s for s in self.all if s["kind"] == "run_rw"]
        self.by = {s["sub"]: s for s in listing}

    def std_rw(self):
        return [s for s in self.std if s["kind"] == "run_rw"]

    def ext(self, *kinds):
        return [s for s in self.all + self.std if s.get("ext") in kinds]

    def tracked(self):
        return [s for s in self.rw if s["sub"].startswith("t:")]

    def nozst(self, l=None):
        return [s for s in (l or self.rw) if "zst" not in s["sub"] and "flat0" not in s["sub"]]


def strip(L):
    if L["k"] == "std":
        return {"k": "prim"}
    r = {k: v for k, v in L.items() if k not in ("w", "f", "al")}
    if "c" in r:
        r["c"] = strip(r["c"])
    return r


def has(L, k):
    return L["k"] == k or ("c" in L and has(L["c"], k))


class Gen:
    """Collects scripts; contents come from a seeded generator."""
    off = None      # bit offset of every bitmap made by history(); None: random

    def __init__(self, cid, tier, seed, subs):
        self.cid, self.tier, self.subs = cid, tier, subs
        self.r = random.Random(f"{cid}:{seed}")
        self.scripts = []
        self.model = []
        self.quick = tier == "quick"

    def add(self, sub, ops, tag=""):
        if sub["sub"].endswith(("@off64", "@flat")):
            # Consuming such rows allocates: refused memory would fail their source, which must not fail.
            ops = [{**o, "fail": -1} if "fail" in o else o for o in ops]
        self.scripts.append({"id": f"{self.cid}-{len(self.scripts)}{tag}", "sub": sub["sub"], "ops": ops})

    def pick(self, q, t):
        return q if self.quick else t

    # -- histories enumerated by TLC, made concrete -------------------------
    def tour(self, subs, starts, ops, depth, maxlen, per, tag, al=0, final=True):
        lays, idx = [], {}
        for s in subs:
            k = json.dumps(strip(s["L"]), sort_keys=True)
            if k not in idx:
                idx[k] = len(lays)
                lays.append(strip(s["L"]))
        sk, st = skeletons(lays, starts, ops, depth, maxlen, self.cid + tag)
        self.model.append({"model": "Gen/" + tag, **st, "histories": len(sk)})
        by = {}
        for l, h in sk:
            by.setdefault(l, []).append(h)
        for s in subs:
            hs = by.get(idx[json.dumps(strip(s["L"]), sort_keys=True)], [])
            hs = hs if len(hs) <= per else self.r.sample(hs, per)
            for h in hs:
                self.add(s, self.concrete(s, h, al, final))
        return len(sk)

    def concrete(self, s, h, al=0, final=True):
        r, L, ops = self.r, s["L"], []
        tr = s["sub"].startswith("t:")
        a = al if tr else 0
        for o in h:
            if "how" in o:
                if o["how"] == "phys":
                    xs = I.items(L, o["n"], r, 0.0 if o["ex"] == 0 else None)
                    ops.append(new("phys", ph=I.rep(L, xs, r, o["off"], o["ex"]), al=a))
                elif o["how"] == "collect":
                    xs = I.items(L, o["n"], r)
                    hows = ["from_iter_in", "try_from_iter_in"] + ([] if a else ["collect"])
                    ops.append(new(r.choice(hows), items=xs, al=a))
                elif o["how"] == "with_capacity":
                    hows = ["with_capacity_in", "try_with_capacity_in"] + ([] if a else ["with_capacity"])
                    ops.append(new(r.choice(hows), n=o["n"], al=a))
                else:
                    ops.append(new("with_capacity_in", n=0, al=a) if a else new("default"))
            elif o["op"] == "ext":
                ops.append(ext(I.items(L, o["n"], r), src("exact", o["x"])))
            elif o["op"] == "tryext":
                ops.append(ext(I.items(L, o["n"], r), op="tryext", fail=o["x"]))
            elif o["op"] == "trunc":
                ops.append(trunc(o["n"]))
            else:
                ops.append(res(o["n"], o["op"], o["x"]))
        if final:
            ops.append(it(self.steps(), r.choice(["rest", "fold", "count", "last"])))
            ops.append(it(self.steps(), r.choice(["rest", "fold", "count", "last"]), "into"))
        return ops

    def reads(self, lens, skips, depth):
        """Read programs by length, enumerated by TLC."""
        ps, st = programs(lens, skips, depth, self.cid)
        self.model.append({"model": "Reads", **st, "histories": sum(map(len, ps.values()))})
        return ps

    def steps(self):
        r = self.r
        if r.random() < 0.3:
            return [r.choice([0, 0, 1, 2, 3, 5, 7, 8, 9, 16, 21, r.choice(HUGE)]) for _ in range(r.randint(1, 4))]
        return r.choice([[], [], [0], [0, 0], [1], [0, 2, 0], [3, 1], [0, 0, 0, 0], [7, 0], [-1, 0], [2, -3]])

    def wide(self, subs, n, panics=0.0, faults=0.0, hints=False, al=0, off=None, most=99):
        self.long(subs, n, panics, faults, hints, al, off)
        self.long([s for s in subs if weight(s["L"]) <= 4], self.pick(6, 60), panics, faults, hints, al, off, I.HUGE_LEN)
        self.giant(subs, self.pick(4, 8), panics, faults, hints, al, off, most=most)

    def slim(self, subs):
        """Subjects fit for items by the ten thousands."""
        return [s for s in self.nowide(subs) if weight(s["L"]) <= 4]

    def giant(self, subs, n, panics=0.0, faults=0.0, hints=False, al=0, off=None, key=lambda s: (), most=99):
        """Around the largest number two bytes hold: n histories of each kind of layout."""
        r, kinds = self.r, {}
        for s in self.slim(subs):
            kinds.setdefault((s["L"]["k"], s["L"].get("c", {}).get("k")) + key(s), []).append(s)
        keys = sorted(kinds, key=str)
        for k in (keys if len(keys) <= most else r.sample(keys, most)):
            for i in range(n):
                self.giant_one(r.choice(kinds[k]), i, panics, faults, hints, al, off)

    def giant_one(self, s, i, panics, faults, hints, al, off):
        r, L, rw = self.r, s["L"], s["kind"] == "run_rw"
        a = al if s["sub"].startswith("t:") else 0
        n = r.choice(I.GIANT)
        # lists: many rows or long ones
        tall = L["k"] == "list" and r.random() < 0.3 or L["k"] == "null" and L["c"]["k"] == "list" and r.random() < 0.3
        xs = I.wide_items(L, r, sizes=I.GIANT) if tall else I.small_items(L, n, r, r.choice([0.0, 0.02, 0.3, 0.97, 1.0]))
        m = len(xs)
        if off is None and rw and i % 4 == 0:
            ops = [new(r.choice(["from_iter_in", "try_from_iter_in"]), items=xs, al=a, s=src(r.choice(HINTS)) if hints else None)]
        elif off is None and rw and i % 4 < 3:
            k = r.choice([0, 0, 1, 3, 40])
            ops = [new(r.choice(["default", "with_capacity_in"]) if a == 0 else "with_capacity_in", al=a, n=0) if k == 0 else new("from_iter_in", items=xs[:k], al=a),
                   ext(xs[k:], src(r.choice(HINTS)) if hints else None, "ext" if i % 4 == 1 else "tryext")]
        elif off is None and s["kind"] in ("run_box", "run_collect") and i % 2 == 0:
            ops = [new("collect", items=xs)]
        else:
            ops = [new("phys", ph=I.rep(L, xs, r, I.WOFF if off is None else off), al=a)]
        todo = r.choice([["ext", "trunc"], ["tryext", "trunc"], ["trunc", "tryext"], ["trunc", "ext"], ["tryext"], ["tryres", "trunc"], ["res", "ext"]]) if rw else []
        for o in todo:
            f = r.choice([0, 0, 1, 1, 2, 3]) if o in ("tryext", "tryres") and r.random() < faults else -1
            if o in ("ext", "tryext"):
                ys = I.small_items(L, r.choice([1, 3, 9, 70, 1100]), r)
                p = r.randint(0, len(ys)) if f < 0 and r.random() < panics else -1
                ops.append(ext(ys, src(r.choice(HINTS) if hints else "exact", p), o, f))
                m += len(ys)
            elif o == "trunc":
                t = r.choice([m - 1, m - 1, m - 5, m - 70, 65537, 65536, 65535, r.randint(0, m)])
                t = max(min(t, m + 1), 0)
                ops.append(trunc(t))
                m = min(m, t)
            else:
                ops.append(res(r.choice(I.WIDE + I.GIANT), o, f))
        ops.append(it(self.far(m), r.choice(["rest", "rest", "fold", "count", "last"])))
        ops.append(it(self.far(m), r.choice(["rest", "rest", "fold", "count", "last"]), "into"))
        self.add(s, ops, "g")

    def long(self, subs, n, panics, faults, hints, al, off, sizes=I.WIDE):
        """Short histories of arrays of which one level is long, with far bit offsets."""
        r = self.r
        subs = [s for s in self.nowide(subs)]
        for k in range(n):
            s = subs[k % len(subs)] if k >= len(subs) or n >= len(subs) else r.choice(subs)
            L, rw = s["L"], s["kind"] == "run_rw"
            a = al if s["sub"].startswith("t:") else 0
            xs = I.wide_items(L, r, sizes=sizes)
            if rw and r.random() < 0.5:
                ops = [new(r.choice(["from_iter_in", "try_from_iter_in"]), items=xs, al=a, s=src(r.choice(HINTS)) if hints else None)]
            elif s["kind"] in ("run_box", "run_collect") and r.random() < 0.5:
                ops = [new("collect", items=xs)]
            else:
                ops = [new("phys", ph=I.rep(L, xs, r, I.WOFF if off is None else off), al=a)]
            m = len(xs)
            for _ in range(r.choice([1, 2, 3]) if rw else 0):
                o = r.choice(["ext", "tryext", "trunc", "trunc", "res", "tryres"])
                f = r.randint(0, 4) if o in ("tryext", "tryres") and r.random() < faults else -1
                if o in ("ext", "tryext"):
                    ys = I.wide_items(L, r) if m < 600 else I.small_items(L, 3, r)
                    p = r.randint(0, len(ys)) if f < 0 and r.random() < panics else -1
                    ops.append(ext(ys, src(r.choice(HINTS) if hints else "exact", p), o, f))
                    m += len(ys)
                elif o == "trunc":
                    t = cuts(m, r)
                    ops.append(trunc(t))
                    m = min(m, t)
                else:
                    ops.append(res(r.choice(I.WIDE), o, f))
            ops.append(it(self.far(m), r.choice(["rest", "fold", "count", "last"])))
            ops.append(it(self.far(m), r.choice(["rest", "fold", "count", "last"]), "into"))
            self.add(s, ops, "w")

    def nowide(self, subs):
        return [s for s in self.subs.nozst(subs) if not (s["sub"][0] == "a" and s["sub"][1].isdigit()) and not std_arr(s)
                and not s["sub"].startswith("units:")]

    def far(self, m):
        """Iterator programs that skip far."""
        r = self.r
        if m > 65000:
            return r.choice([[], [r.randint(0, m)], [m - r.randint(0, 20), 0], [65535, 0], [65536, 0], [3, 65532, 0], [m - 1]])
        return r.choice([[], [0] * r.randint(1, 4), [r.randint(0, m)], [cuts(m, r), 0], [r.choice([7, 8, 63, 64, 65, 127, 255]), 0, r.choice([0, 7, 8, 64])], [r.choice([256, 257, 300, 500, max(m - 2, 0)]), 0]])

    def history(self, s, n, panics=0.0, faults=0.0, hints=False, al=0, big=False):
        """A random history of n operations."""
        r, L, ops = self.r, s["L"], []
        tr = s["sub"].startswith("t:")
        a = al if tr else 0
        cnt = 0
        h = r.choice(["default", "collect", "collect", "cap", "phys", "phys"])
        gi = (lambda m: I.small_items(L, m, r)) if big else (lambda m: I.items(L, m, r))
        if h == "default":
            ops.append(new("with_capacity_in", al=a) if a else new("default"))
        elif h == "cap":
            ops.append(new(r.choice(["with_capacity_in", "try_with_capacity_in"]), n=r.choice([0, 1, 5, 8, 17]), al=a))
        elif h == "collect":
            cnt = r.choice([0, 1, 3, 7, 8, 9, 15, 16, 17]) if not big else r.choice([1015, 1023, 1024, 1025, 2047])
            ops.append(new(r.choice(["from_iter_in", "try_from_iter_in"]), items=gi(cnt), al=a,
                           s=src(r.choice(HINTS)) if hints else None))
        else:
            cnt = r.choice([0, 1, 2, 5, 8, 11, 16])
            ops.append(new("phys", ph=I.rep(L, I.items(L, cnt, r), r, self.off), al=a))
        for _ in range(n):
            o = r.choice(["ext", "ext", "ext", "tryext", "tryext", "trunc", "trunc", "res", "tryres"])
            if o in ("ext", "tryext"):
                m = r.choice([0, 1, 1, 2, 3, 5, 7, 8, 9, 12]) if not big else r.choice([1, 8, 1023, 1024, 1025])
                if cnt > (60 if not big else 2100):
                    o = "trunc"
                else:
                    xs = gi(m)
                    f = r.randint(0, 4) if o == "tryext" and r.random() < faults else -1
                    # (a panic while memory is refused aborts in the panic machinery itself)
                    s2 = src(r.choice(HINTS) if hints else "exact", r.randint(0, m) if f < 0 and r.random() < panics else -1,
                             gi(r.choice([0, 0, 2])) if hints else [])
                    ops.append(ext(xs, s2, o, f))
                    cnt += m
            if o == "trunc":
                t = r.choice([0, 1, max(cnt - 1, 0), cnt, cnt + 1, r.randint(0, cnt), r.randint(0, cnt), r.choice(HUGE)])
                ops.append(trunc(t))
                cnt = cnt if t < 0 else min(cnt, t)
            if o == "res":
                ops.append(res(r.choice([0, 1, 3, 9, 70])))
            if o == "tryres":
                ops.append(res(r.choice([0, 1, 3, 9, 70]), "tryres", r.randint(0, 3) if r.random() < faults else -1))
        ops.append(it(self.steps(), "rest"))
        ops.append(it(self.steps(), "rest", "into"))
        return ops


def weight(L):
    """How many elements and bitmaps an item of this layout carries."""
    return 1 + ((L["n"] if L["k"] == "fsl" else 1) * weight(L["c"]) if "c" in L else 0)


def cuts(n, r):
    return r.choice([0, 1, n // 2, n // 2 // 8 * 8, n // 2 // 64 * 64, max(n - 1, 0), max(n - 8, 0), n, n + 1, r.randint(0, n)])


def boundary(n, r):
    """A position before n, often a round one."""
    k = r.choice([1, 8, 16, 32, 64, 64, 128, 256])
    return r.randrange(n) if n <= k else k * r.randint(1, (n - 1) // k)


def op(k, n, x=-1):
    return {"op": k, "n": n, "x": x}


def start(how, n=0, off=0, ex=1):
    return {"how": how, "n": n, "off": off, "ex": ex}


BITLENS = [0, 1, 2, 3, 6, 7, 8, 9, 10, 15, 16, 17]


# ------------------------------------------------------------------- C01
CONS = ["collect", "from_iter_in", "try_from_iter_in", "cap+ext", "cap+tryext", "default+ext", "default+tryext", "split"]


def build_ops(g, s, how, xs, al=0):
    r = g.r
    if how in ("collect", "from_iter_in", "try_from_iter_in"):
        return [new(how, items=xs, al=al)]
    a, b = how.split("+") if "+" in how else ("cap", "split")
    first = new(r.choice(["with_capacity_in", "try_with_capacity_in", "with_capacity"]), n=r.choice([0, 1, len(xs), len(xs) + 3])) \
        if a == "cap" else new("default")
    if b == "split":
        ops, i = [first], 0
        while i < len(xs):
            k = r.randint(1, max(1, len(xs) // 2))
            ops.append(ext(xs[i:i + k], op=r.choice(["ext", "tryext"])))
            i += k
        return ops
    return [first, ext(xs, op="ext" if b == "ext" else "tryext")]


def run_max(L):
    return L["max"] if L["k"] == "run" else run_max(L["c"])


def num(d):
    return sum(x << 16 * i for i, x in enumerate(d))


def digits(n):
    return [n >> 16 * i & 0xffff for i in range(5)]


def runs(L, x):
    """The rows of elements without memory in an item."""
    k = L["k"]
    if k == "run":
        return [num(x)]
    if k == "std":
        return runs(L["c"], x)
    return [n for y in x for n in runs(L["c"], y)]


def unit_item(g, L, left, top):
    """An item whose rows hold up to left elements, or more when top."""
    r, k = g.r, L["k"]
    if k == "run":
        if top:
            return digits(r.choice([left + 1, left + 1, left + 2, left + 1 + r.randint(0, 99), 1 << 31, (1 << 31) + 5, 1 << 32, (1 << 32) + 1, 1 << 40,
                                    (1 << 63) - 1, 1 << 63, (1 << 64) - 1]))
        return digits(r.choice([0, 0, 1, 2, 7, 300, left, left, max(left - 1, 0), left // 2, r.randint(0, left)]) if left > 400 else r.choice([0, 0, left, r.randint(0, left)]))
    if k == "std":
        return unit_item(g, L["c"], left, top)
    if k == "null":
        return [] if not top and r.random() < 0.3 else [unit_item(g, L["c"], left, top)]
    m, out = (L["n"] if k == "fsl" else r.choice([0, 1, 1, 2, 3])), []
    at = r.randrange(max(m, 1)) if top else -1
    for i in range(max(m, 1) if top else m):
        x = unit_item(g, L["c"], left, i == at)
        if i != at:
            left -= sum(runs(L["c"], x))
        out.append(x)
    return out


def unit_history(g, s, fallible):
    """Appends that fit, and appends that offsets cannot address."""
    r, L = g.r, s["L"]
    top, have = num(run_max(L)), []

    def batch(p):
        xs, tot = [], sum(n for x in have for n in runs(L, x))
        for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
            x = unit_item(g, L, max(top - tot, 0), r.random() < p)
            xs.append(x)
            tot += sum(runs(L, x))
        return xs, tot <= top
    ops, p = [], r.choice([0.05, 0.2, 0.4])
    xs, ok = batch(p / 2)
    how = r.choice(["default", "try_from_iter_in", "try_with_capacity_in"] if fallible else ["default", "collect", "from_iter_in"])
    ops.append(new(how, n=3, items=xs if how in ("collect", "from_iter_in", "try_from_iter_in") else [], s=src(r.choice(HINTS))))
    if how not in ("default", "try_with_capacity_in"):
        if not ok:
            return ops
        have = xs
    for _ in range(r.randint(2, 7)):
        o = r.choice(["tryext", "tryext", "tryext", "ext", "trunc", "tryres"] if fallible else ["ext", "ext", "ext", "tryext", "trunc", "res"])
        if o in ("ext", "tryext"):
            xs, ok = batch(p if (o == "tryext") == fallible or r.random() < 0.3 else 0)
            if not fallible and r.random() < 0.2:
                ops.append(ext(xs, src("exact", r.randint(0, len(xs))), o))
            else:
                ops.append(ext(xs, src(r.choice(HINTS)), o, r.randint(0, 2) if o == "tryext" and r.random() < 0.1 else -1))
            have = have + xs if ok else have    # (a guess: only contents depend on it)
        elif o == "trunc":
            n = r.choice([0, max(len(have) - 1, 0), r.randint(0, len(have))])
            ops.append(trunc(n))
            have = have[:n]
        else:
            ops.append(res(r.choice([0, 1, 9]), o))
    return ops + [it(g.steps(), "rest"), it(g.steps(), "rest", "into")]


def c01(g):
    r = g.r
    for s in g.subs.nozst() + g.subs.std_rw():
        L = s["L"]
        for how in CONS:
            lens = BITLENS if not g.quick else r.sample(BITLENS, 5)
            for n in lens:
                xs = I.items(L, n, r)
                g.add(s, build_ops(g, s, how, xs) + [it([], "rest"), it([], "rest", "into")])
            for _ in range(g.pick(2, 40)):
                xs = I.items(L, r.randint(0, 40), r)
                g.add(s, build_ops(g, s, how, xs) + [it([], "rest"), it([], "fold", "into")])
    # every bit pattern of short boolean and nullable columns
    for name in ("bool", "?bool", "?u8", "?(u8*2)", "?[u8]", "u8*2", "?(bool*3)"):
        s = g.subs.by[name]
        for n in range(g.pick(4, 6)):
            for pat in range(3 ** n if has(s["L"], "null") else 2 ** n):
                xs, p = [], pat
                for _ in range(n):
                    d, p = (p % 3, p // 3) if has(s["L"], "null") else (p % 2, p // 2)
                    if s["L"]["k"] == "null":
                        v = I.item(s["L"]["c"], r)
                        if s["L"]["c"]["k"] == "bool":
                            v = str(d % 2)
                        xs.append([] if d == 2 else [v])
                    elif s["L"]["k"] == "bool":
                        xs.append(str(d))
                    else:
                        xs.append(I.item(s["L"], r))
                g.add(s, build_ops(g, s, r.choice(CONS), xs) + [it([], "rest", "into")])
    # boxed and shared storages that can be collected into
    for s in g.subs.all + g.subs.std:
        if s["kind"] in ("run_box", "run_collect"):
            for n in BITLENS:
                xs = I.items(s["L"], n, r)
                hows = ["collect"] if s["kind"] == "run_collect" else ["collect", "from_iter_in", "try_from_iter_in"]
                for how in hows:
                    g.add(s, [new(how, items=xs), it([], "rest"), it([], "rest", "into")])
    # beyond the 1024-item validity batches
    for s in g.subs.nozst():
        for n in r.sample([1023, 1024, 1025, 2047, 2048, 2049, 3100], g.pick(1, 5)):
            if g.quick and s["sub"].startswith("t:"):
                continue
            xs = I.small_items(s["L"], n, r)
            g.add(s, build_ops(g, s, r.choice(CONS), xs))


# ------------------------------------------------------------------- C02
def c02(g):
    r = g.r
    SK = [0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 24, 31] + HUGE[:4]
    progs = g.reads([0, 1, 7, 8, 9, 15, 16, 17, 24, 33, 40, 65] if g.quick else list(range(0, 42)) + [48, 63, 64, 65, 72], SK if g.quick else sorted(set(SK + list(range(34)) + HUGE)), 3)
    stepsets = [[], [0], [0, 0], [1], [2, 0], [0, 1, 0], [3, 3], [7], [8], [0, 0, 0, 0, 0], [-1], [-1, 0], [1, -1, 0], [-3, 0], [0, -4, 0]]
    for s in g.subs.nozst(g.subs.all) + g.subs.std:
        L = s["L"]
        tails = ["count", "last", "fold", "rest"]
        if s.get("ext") in ("rows", "eq"):
            rows(g, s, stepsets, progs)
        m = g.pick(3, 24)
        for _ in range(m):
            if std_arr(s):
                ops = [new("phys", ph=I.rep(L, I.items(L, int(s["sub"][5]), r), r))]
            elif s["sub"][0] == "a" and s["sub"][1].isdigit():
                ops = [new("phys", ph=I.rep_exact(L, int(s["sub"][1]), r))]
            elif s["kind"] == "run_rw":
                ops = g.history(s, r.choice([0, 1, 3]), panics=0.3)[:-2]
            else:
                ops = [new("phys", ph=I.rep(L, I.items(L, r.choice(BITLENS), r), r))]
            for _ in range(g.pick(3, 6)):
                ops.append(it(r.choice(stepsets), r.choice(tails)))
            ops.append(it(r.choice(stepsets), r.choice(tails), "into"))
            g.add(s, ops)
        # programs over the cursor, on arrays of their lengths
        for n in ([1, 8, 9, 16] + r.sample([7, 15, 17, 24], 2) + r.sample([33, 40, 65], 2) if g.quick else sorted(progs)):
            if s["sub"][0] == "a" and s["sub"][1].isdigit() or std_arr(s):
                continue
            xs = I.items(L, n, r) if n <= 17 else I.small_items(L, n, r)
            some = lambda k: [(p, r.choice(tails)) for p in r.sample(progs[n], min(k, len(progs[n])))]
            for _ in range(g.pick(1, 3)):
                first = new("from_iter_in", items=xs) if s["kind"] == "run_rw" and r.random() < 0.5 else new("phys", ph=I.rep(L, xs, r))
                ops = [first] + [it(p, t) for p, t in some(g.pick(30, 60))]
                ops += [it(p, t, "into") for p, t in some(1)]
                g.add(s, ops)
        # systematic: every step program up to length 2, every tail, consuming and not
        if s["kind"] == "run_rw" and not (g.quick and s["sub"].startswith("t:")):
            for n in ([3] if g.quick else [0, 1, 2, 3, 9]):
                xs = I.items(L, n, r, 0.4)
                for a in [[], [0], [1], [2], [n], [n + 1], [-1]]:
                    for b in ([[]] if g.quick else [[], [0], [1]]):
                        for t in (tails if not g.quick else r.sample(tails, 1)):
                            g.add(s, [new("from_iter_in", items=xs), it(a + b, t), it(a + b, t, "into")])


def rows(g, s, stepsets, progs):
    """Cursors over single list rows, viewed and owned."""
    r, L = g.r, s["L"]
    for _ in range(g.pick(4, 40)):
        if s["sub"][0] == "a" and s["sub"][1].isdigit():
            ph = I.rep_exact(L, int(s["sub"][1]), r)
            n = len(ph["o"]) - 1 if "o" in ph else plen(L, ph)
            ops = [new("phys", ph=ph)]
        else:
            n = r.choice([1, 2, 3, 5])
            xs = I.items(L, n, r, 0.2)
            big = r.randrange(n)
            X = L["c"] if L["k"] == "null" else L
            if r.random() < 0.6:
                row = [I.item(X["c"], r) for _ in range(r.choice([7, 8, 9, 15, 16, 17, 24, 33]))]
                xs[big] = [row] if L["k"] == "null" else row
            if s["kind"] == "run_rw" and r.random() < 0.5:
                ops = [new("from_iter_in", items=xs[:n // 2]), ext(xs[n // 2:])]
            else:
                ops = [new("phys", ph=I.rep(L, xs, r))]
        for i in range(n):
            for by in ("view", "owned"):
                st = r.choice(stepsets) if r.random() < 0.5 else r.choice(progs[r.choice(sorted(progs))])
                ops.append({"op": "row", "i": i, "by": by, "steps": list(st), "tail": r.choice(["count", "last", "fold", "rest"])})
        g.add(s, ops)


# ------------------------------------------------------------------- C03
def c03(g):
    subs = g.subs.nozst() + g.subs.std_rw()
    starts = [start("default"), start("with_capacity", 5), start("collect", 7), start("phys", 6, 3, 1), start("phys", 5, 0, 0)]
    ops = [op("ext", n) for n in (0, 1, 3, 8, 9)] + [op("tryext", n) for n in (1, 9)] + \
          [op("trunc", n) for n in [0, 1, 4, 7, 8, 11] + HUGE] + [op("res", 0), op("res", 9), op("tryres", 3)]
    g.tour(subs, starts, ops, g.pick(2, 3), g.pick(24, 30), g.pick(45, 700), "c03")
    for s in subs:
        for _ in range(g.pick(6, 120)):
            g.add(s, g.history(s, g.r.randint(3, 10)))
        if not (g.quick and s["sub"].startswith("t:")):
            for _ in range(g.pick(1, 6)):
                g.add(s, g.history(s, 3, big=True))
    for s in subs:
        for cut in (0, 1, 1023, 1024, 1025):
            if g.quick and g.r.random() < 0.7:
                continue
            xs = I.small_items(s["L"], 1030, g.r)
            g.add(s, [new("from_iter_in", items=xs), trunc(cut), ext(I.small_items(s["L"], 9, g.r)), trunc(cut + 2),
                      ext(I.small_items(s["L"], 2, g.r))])


# ------------------------------------------------------------------- C04
def c04(g):
    r = g.r
    subs = g.subs.nozst() + g.subs.std_rw()
    starts = [start("default"), start("collect", 7), start("phys", 6, 3, 1), start("phys", 5, 0, 0)]
    ops = [op("ext", 9, x) for x in (0, 1, 2, 7, 8, 9)] + [op("ext", 1, 1), op("ext", 3), op("ext", 17, 16), op("ext", 17, 10)] + \
          [op("trunc", n) for n in (0, 5, 8)] + [op("tryext", 2), op("res", 3)]
    g.tour(subs, starts, ops, g.pick(2, 3), g.pick(24, 40), g.pick(45, 700), "c04")
    for s in subs:
        for _ in range(g.pick(8, 150)):
            g.add(s, g.history(s, r.randint(2, 8), panics=0.6, hints=r.random() < 0.3))
        # every panic position on a mixed batch, after each kind of history, then carry on
        for n in ([9] if g.quick else [1, 8, 9, 17]):
            for p in range(n + 1):
                if g.quick and r.random() < 0.4:
                    continue
                a = new("phys", ph=I.rep(s["L"], I.items(s["L"], r.choice([0, 3, 5, 8]), r), r)) if r.random() < 0.5 \
                    else new("from_iter_in", items=I.items(s["L"], r.choice([0, 4, 8]), r))
                k = r.choice(["ext", "tryext"])
                g.add(s, [a, ext(I.items(s["L"], n, r), src("exact", p), k), ext(I.items(s["L"], 3, r)),
                          ext(I.items(s["L"], n, r), src(r.choice(HINTS), r.randint(0, n)), k), it(), it([0], "rest", "into")])
        # panics of the append itself: nothing can hold so much
        if not (has(s["L"], "null") or has(s["L"], "bool") or s["L"]["k"] == "std"):
            g.add(s, [new("from_iter_in", items=I.items(s["L"], 5, r)), res(r.choice([-1, -2])), ext(I.items(s["L"], 3, r)), it([], "rest", "into")])
        # panics on either side of the 1024-item batches
        if not (g.quick and s["sub"].startswith("t:")):
            for p in ([r.choice([1022, 1023, 1024, 1025, 1031])] if g.quick else [0, 1022, 1023, 1024, 1025, 1031, 2048]):
                xs = I.small_items(s["L"], 2050, r)
                g.add(s, [new("from_iter_in", items=xs[:r.choice([0, 3, 1021])]), ext(xs, src("exact", p), r.choice(["ext", "tryext"])),
                          ext(xs[:9])])
    # appends that offsets cannot address panic as well
    for s in g.subs.units:
        for _ in range(g.pick(60, 2000)):
            g.add(s, unit_history(g, s, False))


# ------------------------------------------------------------------- C05
def c05(g):
    r = g.r
    subs = g.subs.nozst() + g.subs.std_rw()
    starts = [start("default"), start("collect", 7), start("phys", 6, 3, 1), start("phys", 5, 0, 0)]
    ops = [op("tryext", 9, f) for f in (0, 1, 2, 3)] + [op("tryext", 1, 0), op("tryres", 9, 0), op("tryres", 9, 1), op("ext", 3), op("trunc", 5), op("trunc", 0), op("tryext", 9)]
    g.tour(subs, starts, ops, g.pick(2, 3), g.pick(24, 40), g.pick(35, 600), "c05")
    for s in subs:
        L = s["L"]
        # constructors and appends: every allocation point in turn
        for n in ([9] if g.quick else [1, 8, 9, 17]):
            for f in range(g.pick(9, 24)):
                xs = I.items(L, n, r)
                if r.random() < 0.5 or not g.quick:
                    g.add(s, [new("try_from_iter_in", items=xs, fail=f, s=src(r.choice(HINTS)))])
                if r.random() < 0.5 or not g.quick:
                    g.add(s, [new("try_with_capacity_in", n=r.choice([1, 8, 9, 100]), fail=f), ext(xs)])
                pre = new("phys", ph=I.rep(L, I.items(L, r.choice([0, 5, 8]), r), r)) if r.random() < 0.5 \
                    else new("from_iter_in", items=I.items(L, r.choice([0, 4, 8]), r))
                g.add(s, [pre, ext(xs, src(r.choice(HINTS)), "tryext", f), ext(I.items(L, 3, r), op="tryext"), res(r.choice([1, 9]), "tryres", r.randint(0, 3)),
                          ext(I.items(L, 2, r)), it(), it([], "rest", "into")])
        # capacities up to usize::MAX
        for c in HUGE:
            g.add(s, [new("try_with_capacity_in", n=c)])
            pre = r.choice([new("default"), new("from_iter_in", items=I.items(L, 5, r))])
            g.add(s, [pre, res(c, "tryres"), ext(I.items(L, 3, r), op="tryext"), res(r.choice(HUGE), "tryres"), it([], "rest", "into")])
        for _ in range(g.pick(5, 120)):
            g.add(s, g.history(s, r.randint(2, 8), faults=0.7, hints=r.random() < 0.5))
        if not (g.quick and not s["sub"].startswith("t:")):
            for f in (r.sample(range(9), 3) if g.quick else [0, 1, 2, 3, 4, 5, 6, 7, 8, 13, 2000]):
                xs = I.small_items(L, r.choice([1025, 1090, 1090, 2050]), r)
                g.add(s, [new("from_iter_in", items=xs[:r.choice([0, 3, 1021])]), ext(xs, src(), "tryext", f), ext(xs[:9])])
    # more elements than offsets can address
    for s in g.subs.units:
        for _ in range(g.pick(60, 2000)):
            g.add(s, unit_history(g, s, True))
    for s in g.subs.all + g.subs.std:
        if s["kind"] == "run_box":
            for f in range(g.pick(4, 8)):
                g.add(s, [new("try_from_iter_in", items=I.items(s["L"], 9, r), fail=f, s=src(r.choice(HINTS)))])
            for f in range(12):
                g.add(s, [new("try_from_iter_in", items=I.wide_items(s["L"], r, r.choice(I.WIDE)), fail=f, s=src(r.choice(HINTS)))])
            for c in HUGE + [0, 1, 9]:
                g.add(s, [new("try_with_capacity_in", n=c, fail=r.choice([-1, 0, 1]))])


# ------------------------------------------------------------------- C06
def c06(g):
    r = g.r
    subs = g.subs.nozst()
    starts = [start("default"), start("with_capacity", 9), start("collect", 7), start("collect", 8), start("phys", 6, 3, 1), start("phys", 5, 0, 0)]
    ops = [op("ext", n) for n in (1, 2, 9)] + [op("ext", 9, 4), op("tryext", 9, 1), op("tryext", 3)] + \
          [op("trunc", n) for n in (0, 3, 8, 11)] + [op("res", 9), op("tryres", 3, 0)]
    g.tour(subs, starts, ops, g.pick(2, 3), g.pick(24, 36), g.pick(40, 600), "c06", final=False)
    for s in subs:
        for _ in range(g.pick(6, 120)):
            g.add(s, g.history(s, r.randint(2, 8), panics=0.2, faults=0.3)[:-2])
        if not (g.quick and s["sub"].startswith("t:")):
            for _ in range(g.pick(1, 5)):
                g.add(s, g.history(s, 2, big=True, panics=0.3)[:-2])
    for s in g.subs.nozst(g.subs.all):
        if s["kind"] == "run_ro" and not s["sub"][1].isdigit():
            for _ in range(g.pick(2, 20)):
                g.add(s, [new("phys", ph=I.rep(s["L"], I.items(s["L"], r.choice(BITLENS), r), r))])


# ------------------------------------------------------------------- C07
BIGO = [2000000000 + j for j in range(11)]


def mutate_parts(L, p, r, w="32"):
    """Damages one rule somewhere in valid parts."""
    p = json.loads(json.dumps(p))
    nodes = []

    def walk(X, q):
        nodes.append((X, q))
        if X["k"] == "null" and q["bm"]:
            nodes.append(({"k": "bool"}, q["bm"][0]))
            nodes.append(({"k": "bm"}, q))
        if "c" in X:
            walk(X["c"], q["c"])
    walk(L, p)
    X, q = r.choice(nodes)
    k = X["k"]
    if k == "bool":
        m = r.choice(["len", "off", "by", "huge", "hugeoff", "both", "edge"])
        if m == "len":
            q["len"] += r.choice([1, 2, 8, 9, 64])
        elif m == "off":
            q["off"] += r.choice([1, 2, 8, 9, 64])
        elif m == "by" and q["by"]:
            q["by"] = q["by"][:-1]
        elif m == "huge":
            q["len"] = r.choice(HUGE)
        elif m == "hugeoff":
            q["off"] = r.choice(HUGE)
        elif m == "both":
            q["off"], q["len"] = r.choice(HUGE), r.choice(HUGE + [1, 0])
        else:
            q["len"] = max(0, 8 * len(q["by"]) - q["off"] + r.choice([-1, 0, 1]))
    elif k == "bm":
        q["bm"][0]["len"] = max(0, q["bm"][0]["len"] + r.choice([-1, 1, -2, -8]))
    elif k == "list":
        o = q["o"]
        if not o:
            return p
        m = r.choice(["empty", "first", "neg", "dec", "last", "big", "lastok", "shift", "dip"] + ["dip"] * 4 * (len(o) > 30))
        i = boundary(len(o), r)
        if m == "empty":
            q["o"] = []
        elif m == "first":
            o[0] = r.choice([1, 2, o[-1], -1])
        elif m == "neg":
            o[i] = -r.choice([1, 2, 5])
        elif m == "dec" and len(o) > 1:
            o[i] = o[i] + r.choice([1, 2, 3, -1])
        elif m == "dip":
            if i > 0 and 0 < o[i - 1] < BIGO[0]:
                o[i] = r.randrange(o[i - 1])
        elif m == "last":
            o[-1] += r.choice([1, 2, 100])
        elif m == "big":
            o[i] = r.choice([BIGO[0], -BIGO[0]] if X.get("w") == "32" else BIGO + [-b for b in BIGO])
        elif m == "shift":
            q["o"] = [x + (abs(x) < BIGO[0]) for x in o]    # (codes stand for themselves)
    elif k in ("prim", "fsl", "null"):
        # change the length of the nearest leaf
        while "c" in X:
            X, q = X["c"], q["c"]
        if X["k"] == "prim":
            q["v"] = q["v"][:-1] if q["v"] and r.random() < 0.5 else q["v"] + ["1"]
        else:
            q["len"] = max(0, q["len"] + r.choice([-1, 1, -2]))
    return p


def c07(g):
    r = g.r
    subs = [s for s in g.subs.all if "zst" not in s["sub"] and not (s["sub"][0] == "a" and s["sub"][1].isdigit())]
    for s in subs:
        L = s["L"]
        z = L["k"] == "fsl" and L["n"] == 0
        for _ in range(g.pick(30, 500)):
            n = r.choice([0, 0, 1, 2, 3, 4, 7, 8, 9])
            p = {"c": {"v": ["1"] * n}} if z else I.rep(L, I.items(L, n, r), r)
            if r.random() < 0.7:
                for _ in range(r.choice([1, 1, 1, 2])):
                    p = mutate_parts(L, p, r)
            ops = [new("phys", ph=p)]
            if valid(L, p):
                ops += [{"op": "parts"}, it([], "rest", r.choice(["iter", "into"]))]
            g.add(s, ops)
    # exhaustive small windows and offset sequences
    for name in ("bitmap", "val(u32)", "flat3(bitmap)", "off64(u8)", "[u8]", "?bool"):
        s = g.subs.by[name]
        for p in small_parts(s["L"], g.pick(0, 1), r):
            ops = [new("phys", ph=p)]
            if valid(s["L"], p):
                ops += [{"op": "parts"}]
            g.add(s, ops)


def small_parts(L, deep, r):
    k = L["k"]
    if k == "bool":
        for nb in range(3):
            for off in list(range(0, 18)) + HUGE:
                for n in list(range(0, 18)) + HUGE:
                    if not deep and r.random() < 0.6 and not (0 <= off and 0 <= n and abs(off + n - 8 * nb) <= 1):
                        continue
                    yield {"by": [r.randrange(256) for _ in range(nb)], "len": n, "off": off}
    elif k == "list":
        vals = [0, 1, 2, 3, -1, BIGO[0]] + ([] if L["w"] == "32" else BIGO[1:] + [-BIGO[-1], -BIGO[1]])
        seqs = [[]] + [[a] for a in vals] + [[a, b] for a in vals for b in vals] + \
               [[a, b, c] for a in vals for b in vals for c in vals]
        if deep:
            seqs += [[0, a, b, c] for a in vals for b in vals for c in vals]
        elif len(seqs) > 500:
            seqs = r.sample(seqs, 500)
        for o in seqs:
            yield {"o": o, "c": {"v": [str(4 + i) for i in range(r.choice([0, 1, 2, 3]))]}}
    elif k == "null" and L["c"]["k"] == "prim":
        for n in range(10):
            for m in range(10):
                for off in (0, 3, 8):
                    nb = max(0, (off + m + 7) // 8 - r.choice([0, 0, 0, 1]))
                    yield {"bm": [{"by": [r.randrange(256) for _ in range(nb)], "len": m, "off": off}], "c": {"v": ["5"] * n}}
    elif k == "null":
        for n in range(5):
            for m in range(5):
                yield {"bm": [{"by": [r.randrange(256)], "len": m, "off": r.choice([0, 2, 4, 5])}],
                       "c": {"by": [r.randrange(256)], "len": n, "off": r.choice([0, 1, 4])}}
    elif k == "fsl":
        for n in range(16):
            yield {"c": {"by": [r.randrange(256), r.randrange(256)], "len": n, "off": r.choice([0, 1, 3])}}


def valid(L, p):
    """Only decides whether to append follow-up operations to a script."""
    k = L["k"]
    if k in ("prim", "std"):
        return True
    if k == "bool":
        return p["len"] >= 0 and p["off"] >= 0 and p["len"] + p["off"] <= 8 * len(p["by"])
    if not valid(L["c"], p["c"]):
        return False
    n = plen(L["c"], p["c"])
    if k == "fsl":
        return L["n"] > 0 and n % L["n"] == 0
    if k == "list":
        o = p["o"]
        return bool(o) and o[0] == 0 and all(a <= b for a, b in zip(o, o[1:])) and o[-1] <= n
    return not p["bm"] or (valid({"k": "bool"}, p["bm"][0]) and p["bm"][0]["len"] == n)


def plen(L, p):
    k = L["k"]
    if k in ("prim", "std"):
        return len(p["v"])
    if k == "bool":
        return p["len"]
    if k == "fsl":
        return plen(L["c"], p["c"]) // L["n"]
    if k == "list":
        return len(p["o"]) - 1
    return p["bm"][0]["len"] if p["bm"] else plen(L["c"], p["c"])


# ------------------------------------------------------------------- C08
def c08(g):
    r = g.r
    subs = [s for s in g.subs.nozst(g.subs.all) if has(s["L"], "null")]
    for s in subs:
        L = s["L"]
        arr = s["sub"][0] == "a" and s["sub"][1].isdigit()
        for _ in range(g.pick(12, 150)):
            ops = [new("phys", ph=I.rep_exact(L, int(s["sub"][1]), r) if arr else I.rep(L, I.items(L, r.choice(BITLENS + [23, 24, 25, 31, 32, 33, 40, 65]), r), r))]
            if s["kind"] == "run_rw":
                for _ in range(r.choice([0, 1, 3])):
                    ops.append(r.choice([trunc(r.randint(0, 12)), ext(I.items(L, r.choice([1, 3, 9]), r)), res(3),
                                         ext(I.items(L, 9, r), src("exact", r.randint(0, 9)))]))
            g.add(s, ops)
        if s["kind"] == "run_rw":
            for _ in range(g.pick(5, 60)):
                g.add(s, g.history(s, r.randint(1, 6), panics=0.2, faults=0.2)[:-2])
    # every window of short validity bitmaps, with every padding polarity
    for name in ("val(u32)", "?bool", "val(bitmap)", "?u8"):
        s = g.subs.by[name]
        for off in range(0, g.pick(10, 18)):
            for n in range(0, g.pick(11, 26)):
                for pad in ("0", "1"):
                    for kind in ("0", "1", "r"):
                        if g.quick and r.random() < 0.6:
                            continue
                        bs = [kind if kind != "r" else r.choice("01") for _ in range(n)]
                        nb = (off + n + 7) // 8 + r.choice([0, 1])
                        raw = [int(pad)] * (8 * nb)
                        for i, b in enumerate(bs):
                            raw[off + i] = int(b)
                        bm = {"by": [sum(raw[8 * j + i] << i for i in range(8)) for j in range(nb)], "len": n, "off": off}
                        c = I.rep(s["L"]["c"], [I.item(s["L"]["c"], r) for _ in range(n)], r)
                        g.add(s, [new("phys", ph={"bm": [bm], "c": c})])
    # the same items with implicit and explicit validity
    for s in [x for x in g.subs.nozst() if x["L"]["k"] == "null"]:
        for n in (BITLENS if not g.quick else r.sample(BITLENS, 3)):
            xs = I.items(s["L"], n, r, 0.0)
            for ex in (0, 1):
                g.add(s, [new("phys", ph=I.rep(s["L"], xs, r, None, ex)), trunc(max(0, n - 2))])


# ------------------------------------------------------------------- C09
def c09(g):
    r = g.r
    subs = [s for s in g.subs.rw if s["L"]["k"] == "bool"]
    ro = [s for s in g.subs.all if s["L"]["k"] == "bool" and s["kind"] != "run_rw"]
    starts = [start("phys", n, o, 1) for n in (0, 1, 5, 8, 11) for o in (0, 1, 3, 7, 8, 9, 15, 17)]
    ops = [op("ext", n) for n in (0, 1, 2, 5, 8, 9, 17)] + [op("ext", 9, x) for x in (0, 4, 9)] + \
          [op("tryext", n) for n in (1, 6, 9)] + [op("tryext", 17, 0), op("tryext", 9, 0)] + \
          [op("trunc", n) for n in (0, 1, 4, 6, 8, 9, 12)] + [op("res", 0), op("res", 20), op("tryres", 9)]
    g.tour(subs, starts, ops, g.pick(2, 3), g.pick(30, 40), g.pick(500, 6000), "c09")
    for s in subs:
        for _ in range(g.pick(120, 2000)):
            n, off = r.randint(0, 20), r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 23])
            ops2 = [new("phys", ph=I.bits([r.choice("01") for _ in range(n)], off, r, r.choice([0, 1, 3])))]
            for _ in range(r.randint(1, 6)):
                m = r.choice([0, 1, 2, 3, 5, 7, 8, 9, 16, 17, 25])
                xs = [r.choice("01") for _ in range(m)]
                ops2.append(r.choice([ext(xs), ext(xs), ext(xs, op="tryext"), ext(xs, op="tryext", fail=0), trunc(r.randint(0, 24)), res(m),
                                      ext(xs, src("exact", r.randint(0, m))), ext(xs, src(r.choice(HINTS)))]))
            ops2 += [it(g.steps(), "rest"), it(g.steps(), "fold", "into")]
            g.add(s, ops2)
    for s in subs + ro:
        k = int(s["sub"][1]) if s["sub"][0] == "a" and s["sub"][1].isdigit() else None
        for off in range(0, 18):
            for n in (list(range(0, 18)) if not g.quick else r.sample(range(0, 18), 3)):
                if k is not None and off + n > 8 * k:
                    continue
                b = I.bits([r.choice("01") for _ in range(n)], off, r, r.choice([0, 1]), n=k)
                g.add(s, [new("phys", ph=b), it(g.steps(), r.choice(["rest", "fold", "count", "last"])), it(g.steps(), "rest", "into")])
    # counting through windows: nullable columns whose validity is a window
    s = g.subs.by["val(u32)"]
    for off in range(0, 18):
        for n in (list(range(0, 26)) if not g.quick else r.sample(range(0, 26), 6)):
            xs = [r.choice("01") for _ in range(n)]
            g.add(s, [new("phys", ph={"bm": [I.bits(xs, off, r, r.choice([0, 1]))], "c": {"v": ["5"] * n}}),
                      ext([[], ["4"]]), trunc(max(0, n - 1))])


# ------------------------------------------------------------------- C10
def c10(g):
    r = g.r
    groups = {}
    for s in g.subs.nozst(g.subs.all):
        groups.setdefault(json.dumps(strip(s["L"]), sort_keys=True), []).append(s)
    for s in g.subs.std:
        groups.setdefault(json.dumps(s["L"], sort_keys=True), []).append(s)
    for k, ss in groups.items():
        if not any(":" in s["sub"] for s in ss):
            continue
        L = ss[0]["L"]
        for _ in range(g.pick(14, 150)):
            p = I.rep(L, I.items(L, r.choice(BITLENS), r), r)
            bad = r.random() < 0.15 and L["k"] != "std"
            if bad:
                p = mutate_parts(L, p, r)
            steps, tail = g.steps(), r.choice(["rest", "fold", "count", "last"])
            for s in ss:
                if std_arr(s):
                    q = I.rep(L, I.items(L, int(s["sub"][5]), r), r)
                elif s["sub"][0] == "a" and s["sub"][1].isdigit():
                    q = I.rep_exact(s["L"], int(s["sub"][1]), r)
                elif strip(s["L"]) == strip(L):
                    q = p
                if has_bigo(q) and s["L"].get("w") != "64":
                    continue
                ops = [new("phys", ph=q)]
                if valid(s["L"], q):
                    ops += [it(steps, tail), it(steps, tail), {"op": "parts"}, it(steps, tail, "into")]
                g.add(s, ops)
    for s in g.subs.all + g.subs.std:
        if s["kind"] in ("run_box", "run_collect"):
            for n in (BITLENS if not g.quick else r.sample(BITLENS, 4)):
                xs = I.items(s["L"], n, r)
                g.add(s, [new("collect", items=xs, s=src(r.choice(HINTS))), it(g.steps(), "rest"), it(g.steps(), "rest", "into")])
    # caller-supplied storage under mutation agrees with the growable one
    for s in g.subs.nozst(g.subs.tracked()):
        for _ in range(g.pick(6, 60)):
            g.add(s, g.history(s, r.randint(1, 6), faults=0.2))


def has_bigo(p):
    if isinstance(p, dict):
        return any(abs(x) >= 2000000000 for x in p.get("o", [])) or any(has_bigo(v) for v in p.values())
    return False


# ------------------------------------------------------------------- C11
def c11(g):
    r = g.r
    subs = g.subs.nozst(g.subs.tracked())
    starts = [start("default"), start("with_capacity", 0), start("with_capacity", 9), start("collect", 0), start("collect", 9), start("phys", 5, 0, 0), start("phys", 3, 5, 1)]
    ops = [op("ext", 1), op("ext", 9), op("ext", 9, 4), op("tryext", 9), op("tryext", 9, 1), op("res", 0), op("res", 9), op("tryres", 3), op("tryres", 9, 0), op("trunc", 0), op("trunc", 4)]
    g.tour(subs, starts, ops, g.pick(2, 3), g.pick(24, 40), g.pick(150, 1500), "c11", al=7, final=False)
    for s in subs:
        for _ in range(g.pick(30, 300)):
            g.add(s, g.history(s, r.randint(1, 8), panics=0.2, faults=0.3, hints=True, al=r.choice([5, 7, 9]))[:-2])
        for how in ("with_capacity_in", "try_with_capacity_in", "from_iter_in", "try_from_iter_in"):
            for n in (0, 1, 9):
                g.add(s, [new(how, n=n if "cap" in how else 0, items=[] if "cap" in how else I.items(s["L"], n, r), al=6),
                          ext(I.items(s["L"], 3, r)), res(4), trunc(1), ext(I.items(s["L"], 9, r), op="tryext")])
        for n in (1023, 1024, 1025):
            if g.quick and r.random() < 0.6:
                continue
            g.add(s, [new("from_iter_in", items=I.small_items(s["L"], n, r), al=6), ext(I.small_items(s["L"], 3, r))])


# ------------------------------------------------------------------- C12
def c12(g):
    r = g.r
    subs = g.subs.nozst() + g.subs.std_rw()
    for s in subs:
        L = s["L"]
        for h in HINTS:
            for n in (g.pick([9], [0, 1, 7, 8, 9, 17, 33])):
                xs, aft = I.items(L, n, r), I.items(L, r.choice([0, 3, 9]), r)
                for how in ("collect", "from_iter_in", "try_from_iter_in"):
                    g.add(s, [new(how, items=xs, s=src(h, -1, aft))])
                m = r.choice([0, 3, 7, 8])
                pre = r.choice([new("default"), new("from_iter_in", items=I.items(L, m, r)), new("with_capacity_in", n=m),
                                new("phys", ph=I.rep(L, I.items(L, m, r), r))])
                g.add(s, [pre, ext(xs, src(h, -1, aft)), ext(I.items(L, 2, r), src(r.choice(HINTS), -1, I.items(L, 2, r))), it([], "rest", "into")])
                g.add(s, [pre, ext(xs, src(h, -1, aft), "tryext"), ext(I.items(L, 2, r), src(r.choice(HINTS), -1, I.items(L, 2, r)), "tryext")])
        for _ in range(g.pick(6, 120)):
            g.add(s, g.history(s, r.randint(1, 5), hints=True))
        for n in ([r.choice([1023, 1024, 1025, 2048])] if g.quick else [1023, 1024, 1025, 2048]):
            if g.quick and s["sub"].startswith("t:"):
                continue
            xs, aft = I.small_items(L, n, r), I.small_items(L, 1030 if r.random() < 0.5 else 3, r)
            h = r.choice(HINTS)
            g.add(s, [new(r.choice(["collect", "from_iter_in", "try_from_iter_in"]), items=xs, s=src(h, -1, aft))])
            g.add(s, [new("default"), ext(xs, src(h, -1, aft), r.choice(["ext", "tryext"]))])
    for s in g.subs.all + g.subs.std:
        if s["kind"] in ("run_box", "run_collect"):
            for h in HINTS:
                for n in (0, 7, 8, 9):
                    hows = ["collect"] if s["kind"] == "run_collect" else ["collect", "from_iter_in", "try_from_iter_in"]
                    g.add(s, [new(r.choice(hows), items=I.items(s["L"], n, r), s=src(h, -1, I.items(s["L"], 3, r)))])


# ------------------------------------------------------------------- C18
def within(L, n, xs):
    if len(xs) > n:
        return False
    k = L["k"]
    if k in ("prim", "bool", "std"):
        return True
    if k == "fsl":
        return within(L["c"], n * L["n"], [y for x in xs for y in x])
    if k == "list":
        return within(L["c"], n, [y for x in xs for y in x])
    return within(L["c"], n, [x[0] if x else default(L["c"]) for x in xs])


def default(L):
    return {"prim": "0", "bool": "0", "list": [], "null": []}.get(L["k"]) if L["k"] != "fsl" else [default(L["c"])] * L["n"]


def fitting(L, n, r):
    """Items for which a reservation of n suffices, using as much of it as possible."""
    xs = []
    for _ in range(40):
        if len(xs) >= n:
            break
        x = I.item(L, r, r.choice([0.0, 0.3, 1.0]))
        if within(L, n, xs + [x]):
            xs.append(x)
    return xs


def splits(xs, r):
    out, i = [], 0
    while i < len(xs):
        k = r.choice([1, 1, 2, 3, 8, len(xs)])
        out.append(xs[i:i + k])
        i += k
    return out


def c18(g):
    r = g.r
    subs = g.subs.nozst(g.subs.tracked())
    ns = [0, 1, 2, 7, 8, 9, 16, 17, 33]
    for s in subs:
        L = s["L"]
        for n in ns:
            for _ in range(g.pick(1, 12)):
                xs = fitting(L, n, r)
                more = [ext(b, src(r.choice(["exact", "exact", "zero", "loose", "nohi"])), r.choice(["ext", "tryext"])) for b in splits(xs, r)]
                g.add(s, [new(r.choice(["with_capacity_in", "try_with_capacity_in", "with_capacity"]), n=n)] + more)
            for _ in range(g.pick(3, 40)):
                xs = fitting(L, n, r)
                more = [ext(b, src(r.choice(["exact", "exact", "zero", "loose", "nohi"])), r.choice(["ext", "tryext"])) for b in splits(xs, r)]
                pre = g.history(s, r.choice([0, 1, 2, 4]), panics=0.15, faults=0.15)[:-2]
                g.add(s, pre + [res(n, r.choice(["res", "tryres"]))] + more)
        for h in HUGE:
            g.add(s, [new("try_with_capacity_in", n=h)])
            g.add(s, [new("from_iter_in", items=I.items(L, 3, r)), res(h, "tryres"), res(0), res(0, "tryres")])
        for n in ([r.choice([1023, 1025])] if g.quick else [1023, 1024, 1025, 2049]):
            xs = fit_small(L, n, r)
            m = r.choice([0, 3, 1020])
            g.add(s, [new("from_iter_in", items=I.small_items(L, m, r)), res(n, r.choice(["res", "tryres"])),
                      ext(xs[:len(xs) // 2]), ext(xs[len(xs) // 2:], op="tryext")])
            g.add(s, [new("with_capacity_in", n=n), ext(xs)])
    for s in g.subs.nozst([x for x in g.subs.rw if not x["sub"].startswith("t:")]):
        for n in (0, 5):
            g.add(s, [new(r.choice(["with_capacity", "with_capacity_in", "try_with_capacity_in"]), n=n), res(0), res(0, "tryres"), ext(fitting(s["L"], n, r)),
                      res(9), res(0, "tryres"), res(3, "tryres")])
            g.add(s, g.history(s, 3)[:-2] + [res(0, "tryres"), res(n), res(0)])


def fit_small(L, n, r):
    xs, step = [], 64
    while len(xs) < n and step:
        ys = xs + I.small_items(L, min(step, n - len(xs)), r)
        if within(L, n, ys):
            xs = ys
        else:
            step //= 2
    return xs


# ------------------------------------------------------------------- C19
def near_rows(X, row, r):
    """Rows that are nearly this one."""
    out = [list(row), [], list(row[:-1]), list(row[1:]), list(row) + [I.item(X, r)], [I.item(X, r)] + list(row)]
    if row:
        for i in {0, len(row) - 1, r.randrange(len(row))}:
            out.append(row[:i] + [I.item(X, r)] + row[i + 1:])
        out += [row[::-1], row[:len(row) // 2], row + row]
    return out


def c19(g):
    r = g.r
    for s in g.subs.ext("eq"):
        L = s["L"]
        X = L["c"] if L["k"] == "null" else L
        for _ in range(g.pick(40, 400)):
            ops = g.history(s, r.choice([0, 0, 1, 2]))[:-2] if r.random() < 0.3 else None
            xs = I.items(L, r.choice([1, 2, 3, 4, 6]), r, 0.2)
            rowsx = [x[0] for x in xs if x] if L["k"] == "null" else xs
            cands = [[]]
            for q in rowsx[:3]:
                more = near_rows(X["c"], q, r)
                cands += more[:1] + r.sample(more, 4)
                # nearly equal rows in the array itself
                if r.random() < 0.7:
                    y = r.choice(more)
                    xs.append([y] if L["k"] == "null" else y)
            if ops is None:
                ops = [new("phys", ph=I.rep(L, xs, r)) if r.random() < 0.6 else new("from_iter_in", items=xs)]
            else:
                ops.append(trunc(r.choice([0, 2, 4])))
                ops.append(ext(xs))
            g.add(s, ops + [{"op": "eq", "cands": cands}])
    for s in g.subs.ext("clone"):
        L = s["L"]
        a = s["sub"][0] == "a" and s["sub"][1].isdigit()
        for _ in range(g.pick(60, 600)):
            if std_arr(s):
                ops = [new("phys", ph=I.rep(L, I.items(L, int(s["sub"][5]), r), r))]
            elif a:
                ops = [new("phys", ph=I.rep_exact(L, int(s["sub"][1]), r))]
            elif s["kind"] == "run_rw":
                ops = g.history(s, r.choice([0, 1, 2]))[:-2]
                if r.random() < 0.25:
                    ops = [new("phys", ph=I.rep(L, I.items(L, r.choice([0, 0, 1, 8]), r), r))] + r.choice([[], [trunc(0)], [res(9)]])
            else:
                ops = [new("phys", ph=I.rep(L, I.items(L, r.choice(BITLENS), r), r))]
            for _ in range(r.choice([1, 1, 2])):
                ops.append({"op": "clone", "n": r.choice([0, 1])})
                for _ in range(r.choice([1, 2, 3])):
                    if s["kind"] == "run_rw":
                        ops.append(r.choice([ext(I.items(L, r.choice([1, 2, 9]), r)), ext(I.items(L, 3, r), op="tryext"), trunc(r.choice([0, 1, 5, 9])), res(9)]))
                    if r.random() < 0.6:
                        ops.append({"op": "swap"})
                ops.append({"op": "swap"})
            ops += [it(g.steps(), "rest"), it(g.steps(), "rest", "into")]
            g.add(s, ops)


READ = ["len", "empty", "view", "owned", "iter", "iterate", "alive", "nopanic", "shape"]
def c18_wide(g):
    r = g.r
    subs = g.subs.nozst(g.subs.tracked())
    for k in range(g.pick(120, 1500) + 16):
        s = subs[k % len(subs)]
        n = r.choice(I.WIDE)
        if k >= g.pick(120, 1500):
            s, n = g.slim(subs)[k % len(g.slim(subs))], r.choice(I.GIANT)
        if r.random() < 0.4:
            ops = [new(r.choice(["with_capacity_in", "try_with_capacity_in"]), n=n)]
        else:
            ops = [r.choice([new("phys", ph=I.rep(s["L"], I.wide_items(s["L"], r), r, I.WOFF)), new("default"),
                             new("collect", items=I.items(s["L"], r.choice([1, 7, 8, 65]), r))]), res(n, r.choice(["res", "tryres"]))]
        while n > 0:
            m = min(n, r.choice([1, 8, 31, 64, 65, 200, n])) if n < 60000 else n - r.choice([0, 3])
            ops.append(ext(one_each(s["L"], m, r), op=r.choice(["ext", "tryext"])))
            n -= m
            if r.random() < 0.3:
                break
        g.add(s, ops, "w")


def one_each(L, n, r):
    """Items of at most one element per row."""
    def one(X):
        if X["k"] == "list":
            return [one(X["c"])] if r.random() < 0.8 else []
        if X["k"] == "fsl":
            return [one(X["c"]) for _ in range(X["n"])]
        if X["k"] == "null":
            return [one(X["c"])] if r.random() < 0.8 else []
        return I.item(X, r)
    return [one(L) for _ in range(n)]


def long(cid, g):
    """The part of a check that looks at long arrays, long rows and far bit offsets."""
    S, r = g.subs, g.r
    n = g.pick(1, 12)
    rw = S.rw + S.std_rw()
    if cid in ("C01", "C06"):
        g.wide(rw, 100 * n)
    elif cid == "C02":
        g.wide(S.all + S.std, 160 * n)
        # one far skip over each kind of array, without and with bitmaps
        kinds = {}
        for s in g.nowide(S.all + S.std):
            L = s["L"]
            if weight(L) <= 4 and "zst" not in s["sub"] and not (s["sub"][0] == "a" and s["sub"][1].isdigit()):
                kinds.setdefault((L["k"], L.get("w"), L.get("c", {}).get("k"), s["kind"] == "run_rw"), []).append(s)
        for _, ss in sorted(kinds.items(), key=str):
            for ex in (0, 1) * n:
                s = r.choice(ss)
                L = s["L"]
                m = r.choice([300, 521, 1050])
                p = 0 if ex == 0 else 0.3
                k = r.choice([256, 257, 299, m - 2, m - 1, m])
                g.add(s, [new("phys", ph=I.rep(L, [I.item(L, r, p) for _ in range(m)], r, I.WOFF, ex=ex)), it(r.choice([[k], [k, 0], [3, k - 4, 0]]), "rest")], "f")
    elif cid == "C03":
        g.wide(rw, 150 * n)
        materialize(g)
    elif cid == "C04":
        g.wide(rw, 120 * n, panics=0.7)
    elif cid == "C05":
        g.wide(rw, 130 * n, faults=0.7)
    elif cid == "C07":
        for k in range(100 * n + 4):
            big = k >= 100 * n
            s = r.choice(g.slim(S.all) if big else g.nowide(S.all))
            p = I.rep(s["L"], I.wide_items(s["L"], r, sizes=I.GIANT if big else I.WIDE), r, I.WOFF)
            if r.random() < 0.5:
                p = mutate_parts(s["L"], p, r)
            g.add(s, [new("phys", ph=p)] + ([{"op": "parts"}] if valid(s["L"], p) else []), "w")
        # one defect at each round position and beside it
        for i in [7, 8, 15, 16, 31, 32, 63, 64, 65, 127, 128, 192, 255, 256, 257, 511, 512, 1023, 1024, 65535, 65536, 65537]:
            for w in ("32", "64"):
                for how in ("dip", "neg", "none", "jump"):
                    if g.quick and how != "dip" and r.random() < (0.9 if i > 60000 else 0.6):
                        continue
                    s = r.choice([x for x in g.nowide(S.all) if x["L"]["k"] == "list" and x["L"].get("w") == w and x["L"]["c"]["k"] == "prim"])
                    n = i + r.choice([0, 0, 1, 2, 40])
                    o = [0]
                    while len(o) <= n:
                        o.append(o[-1] + r.choice([0, 1, 1, 2]) + (len(o) == i))
                    p = {"o": o, "c": {"v": [I.item(s["L"]["c"], r) for _ in range(o[-1] + r.choice([0, 0, 1]))]}}
                    if how == "dip":
                        o[i] = o[i - 1] - 1 if o[i - 1] else -1
                    elif how == "neg":
                        o[i] = -r.randint(1, 3)
                    elif how == "jump":
                        o[i] = o[-1] + 1
                    g.add(s, [new("phys", ph=p)] + ([{"op": "parts"}] if valid(s["L"], p) else []), "w")
    elif cid == "C08":
        g.wide([s for s in S.all if has(s["L"], "null")], 150 * n)
        materialize(g)
    elif cid == "C09":
        g.wide([s for s in S.all if s["L"]["k"] == "bool"] + [S.by["val(u32)"], S.by["t:val(u32)"]], 300 * n, panics=0.2, faults=0.2)
        g.giant([s for s in S.all if s["L"]["k"] in ("bool", "null")], 2 * n, off=[65528, 65535, 65536, 65541, 70000])
        for _ in range(4 * n):
            s = r.choice(g.slim([s for s in rw if s["L"]["k"] == "bool"]))
            g.add(s, [new("phys", ph=I.rep(s["L"], I.items(s["L"], r.choice([0, 1, 9, 70]), r), r, [65528, 65535, 65536, 65541, 70000])),
                      ext(I.items(s["L"], r.choice([1, 3, 9, 70]), r), op=r.choice(["ext", "tryext"])), trunc(r.choice([0, 3, 8])),
                      ext(I.items(s["L"], 3, r)), it(g.far(9), "rest")], "g")
        # windows emptied (or nearly) far into their bytes, then filled again
        for off in I.WOFF:
            for _ in range(2 * n):
                s = r.choice([s for s in rw if s["L"]["k"] in ("bool", "null") and weight(s["L"]) <= 2 and "zst" not in s["sub"]])
                m = r.choice([0, 1, 8, 9, 64, 65])
                t = r.choice([0, 0, 0, 1, 8, m // 2])
                g.add(s, [new("phys", ph=I.rep(s["L"], I.items(s["L"], m, r), r, off)), trunc(t),
                          ext(I.items(s["L"], r.choice([1, 3, 9, 70]), r), op=r.choice(["ext", "tryext"])), it(g.far(m), "rest")], "w")
    elif cid == "C10":
        g.wide([s for s in S.all if s["kind"] != "run_rw"], 120 * n, most=5 * n)
        g.wide([s for s in S.tracked()] + S.std, 60 * n, most=5 * n)
        g.giant([s for s in S.all if ":" in s["sub"]], n, key=lambda s: (s["sub"].split(":")[0],), most=12 * n)
    elif cid == "C11":
        g.wide(S.tracked(), 80 * n, al=7)
    elif cid == "C12":
        g.wide(rw, 100 * n, hints=True)
    elif cid == "C18":
        c18_wide(g)
    elif cid == "C19":
        for k in range(60 * n + 3):
            big = k >= 60 * n
            subs = [s for s in S.ext("eq") if not (s["sub"][0] == "a" and s["sub"][1].isdigit())]
            s = r.choice(g.slim(subs)) if big else subs[k % len(subs)]
            L = s["L"]
            X = L["c"] if L["k"] == "null" else L
            row = I.small_items(X["c"], r.choice(I.GIANT), r) if big else I.items(X["c"], r.choice(I.WIDE), r)
            m = len(row)
            cands = [row, row[:m // 2], row + row, row[:-1], row + row[:1], row[:max(0, m - 256)], row + I.items(X["c"], 256, r), row[:max(0, m - 64)],
                     row + I.items(X["c"], r.choice([64, 128, 512]), r)]
            for i in (boundary(m, r), m - 1, r.randrange(m)):
                cands.append(row[:i] + I.items(X["c"], 1, r) + row[i + 1:])
            xs = [row, [], r.choice(cands)]
            r.shuffle(xs)
            if L["k"] == "null":
                xs = [[x] for x in xs] + [[]]
            g.add(s, [new("phys", ph=I.rep(L, xs, r, I.WOFF)), {"op": "eq", "cands": [row, row[:-1] + I.items(X["c"], 1, r), r.choice(cands)] if big else r.sample(cands, 6)}], "w")
        for k in range(4 * n):
            s = r.choice([s for s in S.ext("eq") if s["L"]["k"] == "list" and weight(s["L"]) <= 3 and not (s["sub"][0] == "a" and s["sub"][1].isdigit())])
            X = s["L"]["c"]
            row = I.items(X, r.choice([1030, 2049, 4097, 4200]), r)
            near = row[:-1] + I.items(X, 1, r)
            g.add(s, [new("phys", ph=I.rep(s["L"], [row, row[:-1]], r, I.WOFF)), {"op": "eq", "cands": [row, row + row[:1], row[:-1], near]}], "h")
        for k in range(6 * n):
            s = r.choice([s for s in S.ext("clone") if weight(s["L"]) <= 2 and not (s["sub"][0] == "a" and s["sub"][1].isdigit()) and not std_arr(s)])
            xs = I.items(s["L"], r.choice([1030, 4097, 4200, 8200]) if k else r.choice(I.GIANT), r)
            g.add(s, [new("phys", ph=I.rep(s["L"], xs, r, I.WOFF)), {"op": "clone", "n": r.choice([0, 1])}, {"op": "swap"}, it(g.far(len(xs)), "rest")], "h")


def materialize(g):
    """A bitmap made late, for more items than any step of making it might handle at once."""
    r = g.r
    for n in [r.choice([4200, 8200])] if g.quick else [2049, 4097, 4200, 8193]:
        s = g.subs.by[r.choice(["?u8", "?u8", "?bool", "t:?u16"])]
        first = r.choice([new("phys", ph=I.rep(s["L"], I.items(s["L"], n, r, 0), r, ex=0)), new("collect", items=I.items(s["L"], n, r, 0))])
        g.add(s, [first, ext([[]] + I.items(s["L"], 2, r), op=r.choice(["ext", "tryext"]))], "m")


def longer(cid, gen):
    def both(g):
        gen(g)
        long(cid, g)
    return both


CHECKS = {
    "C01": dict(gen=c01, on=READ + ["just"]),
    "C02": dict(gen=c02, on=["len", "empty", "view", "owned", "iter", "oob", "nested", "iterate", "hints", "alive", "shape"], rebase=True),
    "C03": dict(gen=c03, on=READ + ["oob", "nested", "queries"]),
    "C04": dict(gen=c04, on=READ + ["prefix", "format", "encode", "agree", "queries", "hints", "nested", "just"]),
    "C05": dict(gen=c05, on=READ + ["just", "nested", "encode", "format", "queries"]),
    "C06": dict(gen=c06, on=["format", "encode", "agree", "alive", "shape"], rebase=True),
    "C07": dict(gen=c07, on=["accept", "truth", "same", "reparts", "len", "view", "owned", "iter", "iterate", "nopanic", "alive", "shape"]),
    "C08": dict(gen=c08, on=["queries", "alive", "shape"], rebase=True),
    "C09": dict(gen=c09, on=READ + ["window", "oob", "hints", "prefix", "queries", "just"]),
    "C10": dict(gen=c10, on=READ + ["same", "inplace", "oob", "nested", "hints", "queries", "accept", "truth", "reparts", "format", "encode", "just"]),
    "C11": dict(gen=c11, on=["alloc", "allocator", "alive", "shape"]),
    "C12": dict(gen=c12, on=["len", "view", "iter", "iterate", "nopanic", "just", "alive", "shape"]),
    "C19": dict(gen=c19, on=READ + ["compare", "copied", "oob", "nested", "queries"]),
    "C18": dict(gen=c18, on=["grow", "still", "refuse", "just", "nopanic", "alive", "shape"]),
}
for _cid, _c in CHECKS.items():
    _c["gen"] = longer(_cid, _c["gen"])
