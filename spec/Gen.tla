-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Enumerates operation histories of the physical model (module Phys) for  *)
(* replay on the real collections: a breadth-first tour of its reachable   *)
(* shapes (lengths, bit windows, hidden slack, explicit or implicit        *)
(* validity - contents abstracted away), one history per transition.       *)
(***************************************************************************)
EXTENDS Phys, Integers, Json, IOUtils, TLC

Cfg == JsonDeserialize(IOEnv.GEN)
Layouts == Cfg.layouts      \* sequence of layouts
Starts  == Cfg.starts       \* sequence of [how, n, off, ex]
Ops     == Cfg.ops          \* sequence of [op, n, x]: x = panic or fault position
Depth   == Cfg.depth
MaxLen  == Cfg.maxlen

VARIABLES li, p, hist
Lay == Layouts[li]

RECURSIVE Pat(_, _)
Pat(L, i) ==
  CASE L.k = "prim" -> "1"
    [] L.k = "bool" -> IF i % 3 = 0 THEN "1" ELSE "0"
    [] L.k = "fsl"  -> [j \in 1..L.n |-> Pat(L.c, i + j)]
    [] L.k = "list" -> [j \in 1..(i % 4) |-> Pat(L.c, i + j)]
    [] L.k = "null" -> IF i % 3 = 1 THEN <<>> ELSE <<Pat(L.c, i)>>
Items(L, n) == [i \in 1..n |-> Pat(L, i)]

(* A representation of given items whose bitmaps start at bit off. *)
Shift(xs, off) == [by |-> Pack([i \in 1..(off + Len(xs)) |-> IF i <= off THEN "0" ELSE xs[i - off]]),
                   len |-> Len(xs), off |-> off]
RECURSIVE Rep(_, _, _, _), Offs(_)
Offs(xs) == IF xs = <<>> THEN <<0>>
            ELSE LET o == Offs(SubSeq(xs, 1, Len(xs) - 1))
                 IN Append(o, o[Len(o)] + Len(xs[Len(xs)]))
Rep(L, xs, off, ex) ==
  CASE L.k = "prim" -> [v |-> xs]
    [] L.k = "bool" -> Shift(xs, off)
    [] L.k = "fsl"  -> [c |-> Rep(L.c, Flat(xs), off, ex)]
    [] L.k = "list" -> [o |-> Offs(xs), c |-> Rep(L.c, Flat(xs), off, ex)]
    [] L.k = "null" -> [bm |-> IF ex = 1 THEN <<Shift(Flags(xs), off)>> ELSE <<>>,
                        c |-> Rep(L.c, Values(L.c, xs), off, ex)]

Begin(L, s) ==
  CASE s.how \in {"default", "with_capacity"} -> Empty(L)
    [] s.how = "collect" -> Ext(L, Empty(L), Items(L, s.n), FALSE)
    [] s.how = "phys" -> Rep(L, Items(L, s.n), s.off, s.ex)

Init == /\ li \in 1..Len(Layouts)
        /\ \E i \in 1..Len(Starts) :
             /\ p = Begin(Layouts[li], Starts[i])
             /\ hist = <<Starts[i]>>

Room(n) == PLen(Lay, p) + n <= MaxLen
Apply(o) ==
  CASE o.op = "ext" -> /\ Room(o.n)
                       /\ p' = IF o.x < 0 \/ o.x > o.n THEN Ext(Lay, p, Items(Lay, o.n), FALSE)
                               ELSE Ext(Lay, p, Items(Lay, o.x), TRUE)
    [] o.op = "tryext" -> Room(o.n) /\ p' = Try(Lay, p, Items(Lay, o.n), IF o.x < 0 THEN 1000000 ELSE o.x).p
    [] o.op = "trunc" -> p' = Trunc(Lay, p, IF o.n < 0 THEN 1000000 ELSE o.n)
    [] o.op \in {"res", "tryres"} -> p' = Resv(Lay, p)

Next == /\ Len(hist) <= Depth
        /\ \E i \in 1..Len(Ops) :
             LET o == Ops[i]
             IN /\ Apply(o)
                /\ hist' = Append(hist, o)
                /\ UNCHANGED li
                /\ PrintT("@" \o ToJson([l |-> li, h |-> hist']))

Spec == Init /\ [][Next]_<<li, p, hist>>

RECURSIVE Shape(_, _)
Shape(L, q) ==
  CASE L.k = "prim" -> Len(q.v)
    [] L.k = "bool" -> <<q.off, q.len, Len(q.by)>>
    [] L.k = "fsl"  -> Shape(L.c, q.c)
    [] L.k = "list" -> <<Len(q.o), q.o[Len(q.o)], Shape(L.c, q.c)>>
    [] L.k = "null" -> <<IF q.bm = <<>> THEN <<>> ELSE <<q.bm[1].off, q.bm[1].len, Len(q.bm[1].by)>>,
                         Shape(L.c, q.c)>>
View == <<li, Shape(Lay, p)>>

(* The model's representations stay well formed along every history. *)
Format == WellFormed(Lay, p)
=============================================================================
