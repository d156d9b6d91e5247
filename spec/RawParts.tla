------------------------------ MODULE RawParts ------------------------------
(***************************************************************************)
(* When raw parts form a valid collection, and which errors truthfully     *)
(* describe parts that do not.                                             *)
(*                                                                         *)
(* Numbers too large for TLC appear as codes: lengths and bit offsets as   *)
(* negative codes (all denote values >= 2^60), list offsets as codes of    *)
(* absolute value >= 2*10^9 that preserve the order of the real values.    *)
(***************************************************************************)
EXTENDS Narrow, Integers

Huge(n) == n < 0
BigOffset == 2000000000
Norm(n) == IF n < 0 \/ n >= BigOffset THEN -1 ELSE n

(* Errors that describe a rule the parts violate; {} exactly when valid.   *)
BitsErrs(b) ==
  IF Huge(b.len) \/ Huge(b.off) \/ b.off + b.len > W * Len(b.by)
  THEN {<<"BitmapOutOfBounds", <<Norm(b.off), Norm(b.len), Len(b.by)>>>>}
  ELSE {}

OffsetsErrs(o, n) ==
  IF o = <<>> THEN {<<"OffsetsEmpty", <<>>>>}
  ELSE (IF o[1] > 0 THEN {<<"OffsetsNonZeroFirst", <<Norm(o[1])>>>>} ELSE {})
       \cup {<<"OffsetsNegative", <<i - 1>>>> : i \in {j \in 1..Len(o) : o[j] < 0}}
       \cup {<<"OffsetsNonMonotonic", <<i - 1>>>> : i \in {j \in 2..Len(o) : o[j] < o[j - 1]}}
       \cup (IF o[Len(o)] > n THEN {<<"OffsetsOutOfBounds", <<Norm(o[Len(o)]), n>>>>} ELSE {})

RECURSIVE RawErrs(_, _)
RawErrs(L, p) ==
  CASE L.k \in {"prim", "std"} -> {}
    [] L.k = "bool" -> BitsErrs(p)
    [] L.k = "fsl"  -> LET e == RawErrs(L.c, p.c)
                       IN IF e # {} THEN e
                          ELSE IF L.n = 0 THEN {<<"FlattenZeroChunkSize", <<>>>>}
                          ELSE IF PLen(L.c, p.c) % L.n # 0
                          THEN {<<"FlattenNotMultiple", <<PLen(L.c, p.c), L.n>>>>}
                          ELSE {}
    [] L.k = "list" -> LET e == RawErrs(L.c, p.c)
                       IN IF e # {} THEN e ELSE OffsetsErrs(p.o, PLen(L.c, p.c))
    [] L.k = "null" -> LET e == RawErrs(L.c, p.c)
                           f == IF p.bm = <<>> THEN {} ELSE BitsErrs(p.bm[1])
                       IN IF e \cup f # {} THEN e \cup f
                          ELSE IF p.bm # <<>> /\ p.bm[1].len # PLen(L.c, p.c)
                          THEN {<<"ValidityLengthMismatch", <<PLen(L.c, p.c), p.bm[1].len>>>>}
                          ELSE {}

(* Same physical parts (ignoring annotations of dumps). *)
SameBits(a, b) == a.by = b.by /\ a.len = b.len /\ a.off = b.off
RECURSIVE SameParts(_, _, _)
SameParts(L, a, b) ==
  CASE L.k \in {"prim", "std"} -> a.v = b.v
    [] L.k = "bool" -> SameBits(a, b)
    [] L.k = "fsl"  -> SameParts(L.c, a.c, b.c)
    [] L.k = "list" -> a.o = b.o /\ SameParts(L.c, a.c, b.c)
    [] L.k = "null" -> /\ Len(a.bm) = Len(b.bm)
                       /\ (a.bm # <<>> => SameBits(a.bm[1], b.bm[1]))
                       /\ SameParts(L.c, a.c, b.c)

(* Same bit windows: every bitmap both have starts at the same bit.        *)
RECURSIVE SameWindows(_, _, _)
SameWindows(L, a, b) ==
  CASE L.k \in {"prim", "std"} -> TRUE
    [] L.k = "bool" -> a.off = b.off
    [] L.k \in {"fsl", "list"} -> SameWindows(L.c, a.c, b.c)
    [] L.k = "null" -> /\ (a.bm # <<>> /\ b.bm # <<>> => a.bm[1].off = b.bm[1].off)
                       /\ SameWindows(L.c, a.c, b.c)
=============================================================================
