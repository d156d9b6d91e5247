"""Are the models worth anything?  Spoils one line of a specification at a time and expects TLC to object.

tools/mutmodel.py [NUMBER...]    every mutant must be rejected; a survivor is printed as ACCEPTED."""
import os, shutil, subprocess, sys, re
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vp import core
SCRATCH = "/tmp/mutmodel"
A1 = ("MCArrayImpl", "MC_Flat1.cfg", {"W": 2, "MaxLen": 3, "MaxBatch": 3, "MaxGrow": 4})
A2 = ("MCArrayImpl", "MC_Nest1.cfg", {"W": 2, "MaxLen": 2, "MaxBatch": 2, "MaxGrow": 5})
BI = ("MCBits", "MC_Bits.cfg", {})
RA = ("MCRaw", "MC_Raw.cfg", {})
CA = ("Capacity", "MC_Capacity.cfg", {"Ns": "{0, 2}"})
SO = ("Source", "MC_Source.cfg", {"MaxScript": 5})
FI = ("MCFfi", "MC_Ffi.cfg", {"MaxItems": 1})
LI = ("MCFfiLife", "MC_FfiLife.cfg", {"D": 3})
M = [
    # bits
    ("Phys.tla", "b == by[k] - old * Pow2[i % W] + new * Pow2[i % W]", "b == by[k] + new * Pow2[i % W]", A1),
    ("Phys.tla", "LET r == (b.off + b.len) % W IN IF r = 0", "LET r == b.len % W IN IF r = 0", A1),
    ("Phys.tla", ".len = IF pk THEN b1.len ELSE b1.len + Len(rest)]", ".len = b1.len + Len(rest)]", A1),
    ("Phys.tla", "at == (b1.off + b1.len) \\div W", "at == Len(by1)", A1),
    ("Phys.tla", "b1 == [b EXCEPT !.by = by1, !.len = b.len + h]", "b1 == [b EXCEPT !.by = by1]", A1),
    ("Phys.tla", "BitsTrunc(b, n) == IF n < b.len THEN [b EXCEPT !.len = n] ELSE b", "BitsTrunc(b, n) == [b EXCEPT !.len = n]", A1),
    # nested truncation and rollback
    ("Phys.tla", "THEN [c |-> Trunc(L.c, p.c, n * L.n)] ELSE p", "THEN [c |-> Trunc(L.c, p.c, n)] ELSE p", A2),
    ("Phys.tla", "c |-> Trunc(L.c, p.c, p.o[n + 1])]", "c |-> Trunc(L.c, p.c, p.o[n + 1] - 1)]", A2),
    ("Phys.tla", "IN [c |-> Trunc(L.c, c1, n - (n % L.n))]", "IN [c |-> c1]", A2),
    ("Phys.tla", "ExtRows(L, [p EXCEPT !.c = Trunc(L.c, p.c, p.o[Len(p.o)])], xs)", "ExtRows(L, p, xs)", A2),
    ("Phys.tla", "IN ExtChunks(L, [m EXCEPT !.c = Trunc(L.c, m.c, m.bm[1].len)], xs, pk)", "IN ExtChunks(L, p, xs, pk)", A1),
    ("Phys.tla", "IN IF dies THEN [p EXCEPT !.c = Trunc(L.c, c1, p.bm[1].len)]", "IN IF dies THEN [p EXCEPT !.c = c1]", A1),
    ("Phys.tla", "<<BitsExt(p.bm[1], Flags(now), FALSE)>>", "<<BitsExt(p.bm[1], Flags(xs), FALSE)>>", A1),
    ("Phys.tla", "IF xs[i] = <<>> THEN Default(L) ELSE xs[i][1]]\n\nRECURSIVE Ext", "Default(L)]\n\nRECURSIVE Ext", A1),
    ("Phys.tla", "p |-> [b EXCEPT !.by = WriteBytes(by1, at, SubSeq(bytes, 1, fit))]]", "p |-> [b EXCEPT !.by = WriteBytes(by1, at, SubSeq(bytes, 1, fit)), !.len = b.len + h]]", A1),
    ("Phys.tla", "p |-> [o |-> SubSeq(q.o, 1, rows0), c |-> Trunc(L.c, q.c, data0)]]", "p |-> q]", A2),
    ("Phys.tla", "IN IF ~r.ok THEN undo(q)", "IN IF ~r.ok THEN [ok |-> FALSE, p |-> q, f |-> 0]", A2),
    ("Phys.tla", "IN IF ~b.ok THEN [ok |-> FALSE, p |-> Trunc(L, q2, n0), f |-> 0]", "IN IF ~b.ok THEN [ok |-> FALSE, p |-> q2, f |-> 0]", A2),
    ("Phys.tla", "IN IF ~r.ok THEN [ok |-> FALSE, p |-> Trunc(L, q, n0), f |-> 0]", "IN IF ~r.ok THEN [ok |-> FALSE, p |-> q, f |-> 0]", A2),
    ("Phys.tla", "[p EXCEPT !.bm = <<AllSet(PLen(L.c, p.c))>>] ELSE p", "[p EXCEPT !.bm = <<EmptyBits>>] ELSE p", A1),
    ("Narrow.tla", "BitOf(p.bm[1].by, p.bm[1].off + i - 1) = 1 THEN <<c[i]>>", "BitOf(p.bm[1].by, i - 1) = 1 THEN <<c[i]>>", A1),
    # reads
    ("MCBits.tla", "at   == IF x.m # 0 \\/", "at   == IF", BI),
    ("MCBits.tla", "SNth(x, k) == LET r == UNth([x EXCEPT !.skip = 0], x.skip + k) IN r", "SNth(x, k) == LET r == UNth([x EXCEPT !.skip = 0], Max(x.skip, k)) IN r", BI),
    ("MCBits.tla", "IF x.left > k THEN SNth([x EXCEPT !.left = @ - k - 1], k)", "IF x.left > k THEN SNth([x EXCEPT !.left = @ - 1], k)", BI),
    ("MCBits.tla", "(IF x.m = 0 THEN 0 ELSE W - x.m)", "0", BI),
    ("MCBits.tla", "IF j = from + 1 THEN lead ELSE 0, IF j = to", "0, IF j = to", BI),
    ("MCBits.tla", "trail == IF end % W = 0 THEN W ELSE end % W", "trail == end % W", BI),
    ("MCBits.tla", "(b.by[((b.off + i) \\div W) + 1]", "(b.by[(i \\div W) + 1]", BI),
    # raw parts
    ("RawParts.tla", "IF Huge(b.len) \\/ Huge(b.off) \\/ b.off + b.len > W * Len(b.by)", "IF Huge(b.len) \\/ Huge(b.off) \\/ b.len > W * Len(b.by)", RA),
    ("RawParts.tla", "(IF o[1] > 0 THEN", "(IF o[1] > 1 THEN", RA),
    ("RawParts.tla", "{j \\in 2..Len(o) : o[j] < o[j - 1]}", "{j \\in 2..(Len(o) - 1) : o[j] < o[j - 1]}", RA),
    ("RawParts.tla", "IF o[Len(o)] > n THEN", "IF o[Len(o)] > n + 1 THEN", RA),
    ("RawParts.tla", "ELSE IF L.n = 0 THEN {<<\"FlattenZeroChunkSize\", <<>>>>}", "ELSE IF L.n = 0 THEN {}", RA),
    ("RawParts.tla", "p.bm[1].len # PLen(L.c, p.c)\n", "p.bm[1].len < PLen(L.c, p.c)\n", RA),
    # capacity and allocators
    ("MC_Capacity.cfg", "EAGER = FALSE", "EAGER = TRUE", CA),
    ("MC_Capacity.cfg", "STRAY = FALSE", "STRAY = TRUE", CA),
    ("Capacity.tla", "Buf(1, n + 1, Mine) @@ [c |-> With(X.c, n)]", "Buf(1, n, Mine) @@ [c |-> With(X.c, n)]", CA),
    ("Capacity.tla", "[c |-> With(X.c, n * X.n)]", "[c |-> With(X.c, n)]", CA),
    ("Capacity.tla", "BitsRes(b, n) == GrowTo(b, CeilDiv(b.off + b.len + n, W))", "BitsRes(b, n) == GrowTo(b, (b.off + b.len + n) \\div W)", CA),
    ("Capacity.tla", "Res(X, t, n) ==\n  CASE X.k = \"prim\" -> GrowTo(t, t.n + n)", "Res(X, t, n) ==\n  CASE X.k = \"prim\" -> GrowTo(t, n)", CA),
    # sources
    ("MC_Source.cfg", "FUSED = TRUE", "FUSED = FALSE", SO),
    ("MC_Source.cfg", "UPPER = FALSE", "UPPER = TRUE", SO),
    # C structures
    ("Ffi.tla", "Defect(a.nc >= 0 /\\ a.nc # actual,", "Defect(a.nc > actual,", FI),
    ("Ffi.tla", "Defect(~Times(len, X.n, kid[1].len),", "Defect(FALSE,", FI),
    ("Ffi.tla", "Defect(len < 0, \"InvalidLength\"", "Defect(FALSE, \"InvalidLength\"", ("MCFfi", "MC_Ffi2.cfg", {})),
    ("Ffi.tla", "Defect(NullableFlag(s.fl) # Nulls(L),", "Defect(s.fl # 2 * Bit(Nulls(L)) /\\ Nulls(L),", FI),
    ("Ffi.tla", "s.fmt # <<Format(L)>>, \"Unexp", "FALSE, \"Unexp", FI),
    ("Ffi.tla", "THEN Defect(b2 = <<>>, \"MissingValuesBuffer\"", "THEN Defect(FALSE, \"MissingValuesBuffer\"", FI),
    ("Ffi.tla", "Defect(a.nc # 0 /\\ len > 0, \"MissingValidityBuffer\"", "Defect(FALSE, \"MissingValidityBuffer\"", FI),
    ("MC_FfiLife.cfg", "SHARED = TRUE", "SHARED = FALSE", LI),
    ("FfiLife.tla", "(\\A j \\in (i + 1)..k : n[j] = \"in\") THEN \"none\"", "n[k] = \"in\" THEN \"none\"", LI),
    ("MCFfiLife.tla", "IF an[i] = \"held\" THEN FreeArray(i) ELSE UNCHANGED <<ap, store>>", "FreeArray(i)", LI),
    ("MCFfiLife.tla", "IF sn[i] = \"held\" THEN FreeSchema(i) ELSE UNCHANGED sp", "UNCHANGED sp", LI),
]


def one(k):
    f, old, new, (module, cfg, consts) = M[k]
    d = os.path.join(SCRATCH, str(k))
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(core.SPEC, d)
    p = os.path.join(d, f)
    s = open(p).read()
    if s.count(old) != 1:
        return k, f"STALE ({s.count(old)} matches): {old}"
    open(p, "w").write(s.replace(old, new))
    c = os.path.join(d, cfg)
    t = open(c).read()
    for n, v in consts.items():
        t = re.sub(rf"(?m)^  {n} = .*$", f"  {n} = {v}", t)
    open(c, "w").write(t)
    try:
        r = subprocess.run(["java", "-Xmx3g", "-Xss64m", "-cp", core.JARS, "tlc2.TLC", "-workers", "2", "-nowarning", "-noGenerateSpecTE",
                            "-metadir", d + "/states", "-config", c, os.path.join(d, module + ".tla")],
                           cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        o = r.stdout
    except subprocess.TimeoutExpired:
        return k, "TIMEOUT"
    shutil.rmtree(d, ignore_errors=True)
    if "No error has been found" in o:
        return k, "ACCEPTED " + f + ": " + new
    if "Parsing or semantic" in o or "Unknown operator" in o:
        return k, "NONSENSE " + o[-400:]
    m = re.search(r"Error: (Invariant \w+ is violated|Action property \w+|Temporal prop[^\n]*|[^\n]*)", o)
    return k, "rejected: " + (m.group(1) if m else "?")[:120]


if __name__ == "__main__":
    os.makedirs(SCRATCH, exist_ok=True)
    with ThreadPoolExecutor(3) as ex:
        for k, r in ex.map(one, [int(x) for x in sys.argv[1:]] or range(len(M))):
            print(k, r, flush=True)
    shutil.rmtree(SCRATCH, ignore_errors=True)
