------------------------------ MODULE Capacity ------------------------------
(***************************************************************************)
(* The buffers behind an array as an allocator sees them: how many slots   *)
(* each uses and has room for, which allocator handle it was given, and    *)
(* how many growth requests an operation makes.  Contents are abstracted   *)
(* to lengths.  Storage grows to exactly what is requested, the least      *)
(* generous allocator there is.                                            *)
(*                                                                         *)
(*   prim [n, cap, al]                bool [len, off, n, cap, al]          *)
(*   fsl  [c]                         list [n, cap, al, c]   n offsets     *)
(*   null [bm: <<>> or <<bool>>, c]                                        *)
(*                                                                         *)
(* Every operator returns <<state, growth requests>>.                      *)
(***************************************************************************)
EXTENDS Narrow, Integers, TLC

CONSTANTS Layouts, MaxLen, MaxBatch, Ns,
          EAGER,       \* appending rows also reserves a child item per row (the defect repaired in 8e422c1)
          STRAY        \* lazily created validity takes the default allocator instead of the array's

VARIABLES L, s, items, room, got, grew
vars == <<L, s, items, room, got, grew>>

Mine == 1                       \* the caller's allocator; 0 is the default one

Buf(n, cap, al) == [n |-> n, cap |-> Max(n, cap), al |-> al]
GrowTo(b, need) == IF need <= b.cap THEN <<b, 0>> ELSE <<[b EXCEPT !.cap = need], 1>>
Push(b, k) == LET r == GrowTo(b, b.n + k) IN <<[r[1] EXCEPT !.n = @ + k], r[2]>>

Bits(len, off, cap, al) == LET by == CeilDiv(off + len, W)
                           IN [len |-> len, off |-> off, n |-> by, cap |-> Max(by, cap), al |-> al]
BitsRes(b, n) == GrowTo(b, CeilDiv(b.off + b.len + n, W))
BitsPush(b, k) == LET need == CeilDiv(b.off + b.len + k, W)
                      r == GrowTo(b, need)
                  IN <<[r[1] EXCEPT !.len = @ + k, !.n = Max(@, need)], r[2]>>

RECURSIVE With(_, _)             \* with_capacity_in
With(X, n) ==
  CASE X.k = "prim" -> Buf(0, n, Mine)
    [] X.k = "bool" -> Bits(0, 0, CeilDiv(n, W), Mine)
    [] X.k = "fsl"  -> [c |-> With(X.c, n * X.n)]
    [] X.k = "list" -> Buf(1, n + 1, Mine) @@ [c |-> With(X.c, n)]
    [] X.k = "null" -> [bm |-> <<Bits(0, 0, CeilDiv(n, W), Mine)>>, c |-> With(X.c, n)]

(* Arrays put together by hand: no spare room, implicit validity. *)
RECURSIVE Tight(_, _)
Tight(X, xs) ==
  CASE X.k = "prim" -> Buf(Len(xs), 0, Mine)
    [] X.k = "bool" -> Bits(Len(xs), 1, 0, Mine)
    [] X.k = "fsl"  -> [c |-> Tight(X.c, Flat(xs))]
    [] X.k = "list" -> Buf(Len(xs) + 1, 0, Mine) @@ [c |-> Tight(X.c, Flat(xs))]
    [] X.k = "null" -> [bm |-> <<>>, c |-> Tight(X.c, [i \in 1..Len(xs) |-> IF xs[i] = <<>> THEN Default(X.c) ELSE xs[i][1]])]

RECURSIVE SLen(_, _)
SLen(X, t) == CASE X.k = "prim" -> t.n
                [] X.k = "bool" -> t.len
                [] X.k = "fsl"  -> SLen(X.c, t.c) \div X.n
                [] X.k = "list" -> t.n - 1
                [] X.k = "null" -> IF t.bm = <<>> THEN SLen(X.c, t.c) ELSE t.bm[1].len

Explicit(X, t) ==
  IF t.bm # <<>> THEN <<t, 0>>
  ELSE LET n == SLen(X.c, t.c)
       IN <<[t EXCEPT !.bm = <<Bits(n, 0, 0, IF STRAY THEN 0 ELSE Mine)>>], 1>>

RECURSIVE Res(_, _, _)
Res(X, t, n) ==
  CASE X.k = "prim" -> GrowTo(t, t.n + n)
    [] X.k = "bool" -> BitsRes(t, n)
    [] X.k = "fsl"  -> LET r == Res(X.c, t.c, n * X.n) IN <<[c |-> r[1]], r[2]>>
    [] X.k = "list" -> LET o == GrowTo(t, t.n + n)
                           r == Res(X.c, t.c, n)
                       IN <<[o[1] EXCEPT !.c = r[1]], o[2] + r[2]>>
    [] X.k = "null" -> LET m == Explicit(X, t)
                           b == BitsRes(m[1].bm[1], n)
                           r == Res(X.c, m[1].c, n)
                       IN <<[bm |-> <<b[1]>>, c |-> r[1]], m[2] + b[2] + r[2]>>

RECURSIVE App(_, _, _), AppRows(_, _, _, _)
App(X, t, xs) ==
  CASE X.k = "prim" -> Push(t, Len(xs))
    [] X.k = "bool" -> BitsPush(t, Len(xs))
    [] X.k = "fsl"  -> LET r == App(X.c, t.c, Flat(xs)) IN <<[c |-> r[1]], r[2]>>
    [] X.k = "list" -> LET h == IF EAGER THEN Res(X, t, Len(xs)) ELSE GrowTo(t, t.n + Len(xs))
                       IN AppRows(X, h[1], xs, h[2])
    [] X.k = "null" -> LET m == Explicit(X, t)
                           r == App(X.c, m[1].c, [i \in 1..Len(xs) |-> IF xs[i] = <<>> THEN Default(X.c) ELSE xs[i][1]])
                           b == BitsPush(m[1].bm[1], Len(xs))
                       IN <<[bm |-> <<b[1]>>, c |-> r[1]], m[2] + b[2] + r[2]>>
AppRows(X, t, rows, g) ==
  IF rows = <<>> THEN <<t, g>>
  ELSE LET r == App(X.c, t.c, Head(rows))
           o == Push(t, 1)
       IN AppRows(X, [o[1] EXCEPT !.c = r[1]], Tail(rows), g + r[2] + o[2])

RECURSIVE Cut(_, _, _, _)
Cut(X, t, xs, n) ==
  IF n >= Len(xs) THEN t
  ELSE CASE X.k = "prim" -> [t EXCEPT !.n = n]
         [] X.k = "bool" -> [t EXCEPT !.len = n]
         [] X.k = "fsl"  -> [c |-> Cut(X.c, t.c, Flat(xs), n * X.n)]
         [] X.k = "list" -> [t EXCEPT !.n = n + 1, !.c = Cut(X.c, t.c, Flat(xs), Len(Flat(SubSeq(xs, 1, n))))]
         [] X.k = "null" -> [bm |-> IF t.bm = <<>> THEN <<>> ELSE <<[t.bm[1] EXCEPT !.len = n]>>,
                             c |-> Cut(X.c, t.c, [i \in 1..Len(xs) |-> IF xs[i] = <<>> THEN Default(X.c) ELSE xs[i][1]], n)]

(*------------------------------ behaviours ------------------------------*)
RECURSIVE Alphabet(_)
Alphabet(X) ==
  CASE X.k \in {"prim", "bool"} -> {"0"}
    [] X.k = "fsl"  -> [1..X.n -> Alphabet(X.c)]
    [] X.k = "list" -> {<<>>} \cup {<<a>> : a \in Alphabet(X.c)} \cup {<<a, a>> : a \in Alphabet(X.c)}
    [] X.k = "null" -> {<<>>} \cup {<<a>> : a \in Alphabet(X.c)}
Batches == UNION {[1..n -> Alphabet(L)] : n \in 0..MaxBatch}
NoRoom == -1

Init == /\ L \in Layouts /\ grew = 0 /\ got = <<>>
        /\ \/ \E n \in Ns : s = With(L, n) /\ items = <<>> /\ room = n
           \/ \E b \in Batches : s = Tight(L, b) /\ items = b /\ room = NoRoom

Reserve(n) == LET r == Res(L, s, n)
              IN s' = r[1] /\ grew' = r[2] /\ room' = n /\ got' = <<>> /\ UNCHANGED <<L, items>>
Append2(b) == /\ Len(items) + Len(b) <= MaxLen
              /\ LET r == App(L, s, b)
                 IN s' = r[1] /\ grew' = r[2] /\ items' = items \o b /\ UNCHANGED L
              /\ IF room = NoRoom THEN UNCHANGED <<room, got>>
                 ELSE IF Within(L, room, got \o b) THEN got' = got \o b /\ UNCHANGED room
                 ELSE room' = NoRoom /\ got' = <<>>
Truncate(n) == /\ n < Len(items)
               /\ s' = Cut(L, s, items, n) /\ items' = SubSeq(items, 1, n)
               /\ room' = NoRoom /\ got' = <<>> /\ grew' = 0 /\ UNCHANGED L
Next == \/ \E n \in Ns : Reserve(n)
        \/ \E b \in Batches : Append2(b)
        \/ \E n \in 0..MaxLen : Truncate(n)
Spec == Init /\ [][Next]_vars

(* Appending within the reservation never asks for growth. *)
NoGrowth == [][(room # NoRoom /\ room' # NoRoom /\ items' # items) => grew' = 0]_vars

(* Every buffer at every level belongs to the caller's allocator. *)
RECURSIVE AllMine(_, _)
AllMine(X, t) == CASE X.k \in {"prim", "bool"} -> t.al = Mine
                   [] X.k = "fsl" -> AllMine(X.c, t.c)
                   [] X.k = "list" -> t.al = Mine /\ AllMine(X.c, t.c)
                   [] X.k = "null" -> AllMine(X.c, t.c) /\ (t.bm # <<>> => t.bm[1].al = Mine)
Owned == AllMine(L, s)
Lengths == SLen(L, s) = Len(items)
Enough == LET RECURSIVE Fit(_, _)
              Fit(X, t) == CASE X.k \in {"prim", "bool"} -> t.n <= t.cap
                             [] X.k = "fsl" -> Fit(X.c, t.c)
                             [] X.k = "list" -> t.n <= t.cap /\ Fit(X.c, t.c)
                             [] X.k = "null" -> Fit(X.c, t.c) /\ (t.bm # <<>> => t.bm[1].n <= t.bm[1].cap)
          IN Fit(L, s)

P == [k |-> "prim"]
B == [k |-> "bool"]
F(n, c) == [k |-> "fsl", n |-> n, c |-> c]
V(c) == [k |-> "list", c |-> c]
N(c) == [k |-> "null", c |-> c]
Few == {P, B, N(P), V(B), F(2, N(B)), N(V(P)), V(F(2, P)), V(V(P)), V(N(P))}
Many == Few \cup {N(B), V(P), V(N(V(P))), F(2, V(P)), N(F(2, B)), N(N(P)), F(2, F(2, P))}
=============================================================================
