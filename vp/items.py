"""Concrete contents for generated histories: items and physical parts of a layout."""


def item(L, r, nulls=0.3, ident=False):
    k = L["k"]
    if k == "prim":
        if ident:
            return "0"
        return str(r.randint(0, 7) if r.random() < 0.35 else r.randint(4, 80))
    if k == "bool":
        return r.choice("01")
    if k == "fsl":
        return [item(L["c"], r, nulls) for _ in range(L["n"])]
    if k == "list":
        n = r.choice([0, 0, 1, 1, 2, 2, 3, 4, 7, 8, 9]) if r.random() < 0.5 else r.choice([0, 1, 2, 3])
        return [item(L["c"], r, nulls) for _ in range(n)]
    if k == "null":
        return [] if r.random() < nulls else [item(L["c"], r, nulls)]
    if k == "std":
        return item(L["c"], r, nulls)
    raise ValueError(k)


def items(L, n, r, nulls=None):
    if nulls is None:
        nulls = r.choice([0.0, 0.1, 0.3, 0.5, 0.9, 1.0])
    return [item(L, r, nulls) for _ in range(n)]


WIDE = [31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 192, 255, 256, 257, 300, 511, 512, 513]
WOFF = [0, 1, 7, 8, 24, 31, 32, 33, 56, 63, 64, 65, 100, 120, 127, 128, 129, 255, 256, 260, 511, 513]


HUGE_LEN = [1025, 2049, 4095, 4097, 4200, 5000]
GIANT = [65535, 65536, 65537, 65545, 65600, 66000, 66000, 70003, 70003]


def wide_items(L, r, n=None, sizes=WIDE):
    """Items of which one level (the array itself or a row of some list in it) is long."""
    def lists(X):
        return (X["k"] == "list") + (lists(X["c"]) if "c" in X else 0)
    at, nulls = r.randint(0, lists(L)) if n is None else 0, r.choice([0.0, 0.0, 0.02, 0.3, 0.97, 1.0])
    left = [2 if sizes is WIDE else 1]

    def thick(X):
        return (X["n"] if X["k"] == "fsl" and X["n"] > 8 else 1) * (thick(X["c"]) if "c" in X else 1)
    thick = thick(L)

    def size(d):
        if d == at and left[0]:
            left[0] -= 1
            return max(1, r.choice(sizes) // thick)
        return r.choice([0, 1, 1, 2] if d else [1, 2, 3])

    def one(X, d):
        if X["k"] == "list":
            return [one(X["c"], d + 1) for _ in range(size(d + 1))]
        if X["k"] == "fsl":
            return [one(X["c"], d) for _ in range(X["n"])]
        if X["k"] == "null":
            return [] if r.random() < (nulls if at <= d else 0.1) else [one(X["c"], d)]
        if X["k"] == "std":
            return one(X["c"], d)
        return item(X, r)
    return [one(L, 0) for _ in range(size(0) if n is None else n)]


def small_items(L, n, r, nulls=0.2):
    """Items with short rows, for long arrays."""
    def one(X):
        if X["k"] == "list":
            return [one(X["c"]) for _ in range(r.choice([0, 0, 1, 2]))]
        if X["k"] == "fsl":
            return [one(X["c"]) for _ in range(X["n"])]
        if X["k"] == "null":
            return [] if r.random() < nulls else [one(X["c"])]
        if X["k"] == "std":
            return one(X["c"])
        return item(X, r)
    return [one(L) for _ in range(n)]


def bits(bs, off, r, slack=0, n=None, dirty=True):
    """Packs '0'/'1' strings at a bit offset, with arbitrary bits around them."""
    total = n if n is not None else (off + len(bs) + 7) // 8 + slack
    assert off + len(bs) <= total * 8
    raw = [r.randint(0, 1) if dirty else 0 for _ in range(total * 8)]
    for i, b in enumerate(bs):
        raw[off + i] = int(b)
    by = [sum(raw[8 * j + i] << i for i in range(8)) for j in range(total)]
    return {"by": by, "len": len(bs), "off": off}


def rep(L, xs, r, off=None, ex=None, slack=True, clean=False):
    """Physical parts encoding xs: bitmaps at bit offset off (None: random per
    bitmap), validity explicit if ex (None: random), arbitrary padding, values
    under nulls and unreferenced list elements."""
    k = L["k"]
    o = r.choice([0, 0, 0, 1, 3, 5, 7, 8, 9, 13, 17]) if off is None else r.choice(off) if isinstance(off, list) else off
    sl = r.choice([0, 0, 1, 2]) if slack else 0
    if k in ("prim", "std"):
        return {"v": list(xs)}
    if k == "bool":
        return bits(xs, o, r, sl)
    if k == "fsl":
        return {"c": rep(L["c"], [y for x in xs for y in x], r, off, ex, slack)}
    if k == "list":
        offs = [0]
        for x in xs:
            offs.append(offs[-1] + len(x))
        flat = [y for x in xs for y in x] + [item(L["c"], r, 0 if ex == 0 else 0.3) for _ in range(sl)]
        return {"o": offs, "c": rep(L["c"], flat, r, off, ex, slack)}
    if k == "null":
        e = ex if ex is not None else r.choice([0, 1, 1])
        if any(x == [] for x in xs):
            e = 1
        flat = [x[0] if x else item(L["c"], r, 0 if ex == 0 else 0.3) for x in xs]
        return {"bm": [bits(["1" if x else "0" for x in xs], o, r, sl)] if e else [], "c": rep(L["c"], flat, r, off, ex, slack)}
    raise ValueError(k)


def counts(L, n):
    """Item counts representable when every buffer has exactly n elements."""
    k = L["k"]
    if k == "prim":
        return {n}
    if k == "bool":
        return set(range(8 * n + 1))
    if k == "fsl":
        return {c // L["n"] for c in counts(L["c"], n) if c % L["n"] == 0}
    if k == "list":
        return {n - 1} if n >= 1 else set()
    if k == "null":
        return {c for c in counts(L["c"], n) if c <= 8 * n}


def rep_exact(L, n, r, want=None, off=None):
    """Random valid parts whose every buffer has exactly n elements."""
    def go(X, c):
        k = X["k"]
        if k == "prim":
            assert c == n
            return {"v": [item(X, r) for _ in range(n)]}
        if k == "bool":
            return bits([r.choice("01") for _ in range(c)], r.randint(0, 8 * n - c) if off is None else off, r, n=n)
        if k == "fsl":
            return {"c": go(X["c"], c * X["n"])}
        if k == "null":
            bm = [] if r.random() < 0.3 else [bits([r.choice("01") for _ in range(c)], r.randint(0, 8 * n - c) if off is None else off, r, n=n)]
            return {"bm": bm, "c": go(X["c"], c)}
        if k == "list":
            m = r.choice(sorted(counts(X["c"], n)))
            o = sorted(r.randint(0, m) for _ in range(c))
            return {"o": [0] + o, "c": go(X["c"], m)}
    c = want if want is not None else r.choice(sorted(counts(L, n)))
    return go(L, c)
