------------------------------ MODULE FfiTrace ------------------------------
(***************************************************************************)
(* Checks traces of arrays that cross the C Data Interface: building       *)
(* (module Trace), exporting and importing (module Ffi), and the life of   *)
(* the exported structures (module FfiLife).                               *)
(***************************************************************************)
EXTENDS Trace, Ffi

Life == INSTANCE FfiLife

VARIABLE x      \* exported structures: a0, s0 as exported; an, sn statuses
xvars == <<items, tid, l, g, x>>

Nothing == [a0 |-> <<>>, s0 |-> <<>>, an |-> <<>>, sn |-> <<>>]

FInit == Init /\ x = Nothing

(*------------------------------- actions --------------------------------*)
LifeOps == {"move", "out", "rel", "drop"}
NodeStep(n, e) ==
  CASE e.op = "out"  -> Life!Out(n, e.i)
    [] e.op = "rel"  -> Life!Release(n, e.i)
    [] e.op = "drop" -> Life!DropIt(n, e.i)
    [] OTHER -> n

Cross(e) ==
  x' = CASE e.op = "export" /\ e.res = "ok" /\ e.a # <<>> /\ e.s # <<>> ->
              [a0 |-> <<e.a[1].d>>, s0 |-> <<e.s[1].d>>,
               an |-> Life!Whole(Depth(Lay)), sn |-> Life!Whole(Depth(Lay))]
         [] e.op \in LifeOps /\ e.w = "a" -> [x EXCEPT !.an = NodeStep(x.an, e)]
         [] e.op \in LifeOps /\ e.w = "s" -> [x EXCEPT !.sn = NodeStep(x.sn, e)]
         [] OTHER -> x

(*------------------------------- clauses --------------------------------*)
(* What the held structures must look like.                                *)
Holding(n) == {i \in DOMAIN n : n[i] \in {"held", "dead"}}
SeenAs(n, d0, seen) ==
  /\ {seen[k].i : k \in 1..Len(seen)} = Holding(n)
  /\ \A k \in 1..Len(seen) : seen[k].d = Life!Seen(n, seen[k].i, Life!Sub(d0, seen[k].i))
Stable(e) == x'.a0 # <<>> => /\ SeenAs(x'.an, x'.a0[1], e.a)
                             /\ SeenAs(x'.sn, x'.s0[1], e.s)

GoneA == x'.a0 # <<>> /\ Life!Over(x'.an)
GoneS == x'.s0 # <<>> /\ Life!Over(x'.sn)

RECURSIVE SameShape(_, _)
SameShape(L, d) == /\ d.rel = 0
                   /\ Len(d.ch) = Bit(HasChild(L))
                   /\ HasChild(L) => SameShape(Child(L), d.ch[1])

ExportBad(e) ==
  LET offs == IF e.ph = <<>> THEN {} ELSE BitOffsets(Lay, e.ph[1])
  IN If("nopanic", e.res = "panic")
     \cup If("exportok", (e.res = "ok") # (offs = {}))
     \cup If("truth", e.res = "err" /\ ~(e.err.e = "NonZeroOffset" /\ \E n \in offs : e.err.f = <<n>>))
     \cup (IF e.res # "ok" THEN {}
           ELSE LET a == e.a[1].d
                    ok == SameShape(Lay, a) /\ Complete(Lay, a) /\ WellFormed(Lay, FromC(Lay, a))
                IN If("schema", e.s[1].d # ExpSchema(Lay))
                   \cup If("fields", ~(ok /\ FieldsOK(Lay, a) /\ a.len = Len(items)))
                   \cup If("decode", ~(ok /\ Decode(Lay, FromC(Lay, a)) = items))
                   \cup If("nocopy", e.home # 1))

Verdict(e, a, s) ==
  LET errs == ImportErrs(Lay, a, s)
  IN If("nopanic", e.res = "panic")
     \cup If("accept", (e.res = "ok") # (errs = {}))
     \cup If("truth", e.res = "err" /\ <<e.err.e, e.err.f>> \notin errs)

CrossBad(e) ==
  CASE e.op = "export"  -> ExportBad(e)
    [] e.op = "foreign" -> Verdict(e, e.a, e.s)
                           \cup If("untouched", e.untouched # 1)
                           \cup (IF e.res = "ok" /\ ImportErrs(Lay, e.a, e.s) = {}
                                 THEN ObsBad(e, Decode(Lay, FromC(Lay, e.a))) ELSE {})
    [] e.op = "import"  -> Verdict(e, Life!Seen(x.an, 0, x.a0[1]), Life!Seen(x.sn, 0, x.s0[1]))
                           \cup (IF e.res = "ok" THEN ObsBad(e, items) ELSE {})
    [] e.op = "reread"  -> ObsBad(e, items)
    [] e.op = "end"     -> If("freed", e.lib # 0) \cup If("once", e.twice # 0)
    [] OTHER -> {}

(* At every event of an exported array's life.                             *)
LifeBad(e) ==
  IF e.op \notin LifeOps \cup {"import", "reread"} THEN {}
  ELSE If("stable", ~Stable(e))
       \cup If("nocopy", e.home # 1)
       \cup If("released", e.op = "rel" /\ e.gone # 1)
       \cup If("freed", GoneA /\ GoneS /\ e.lib # 0)

FBad(e) ==
  IF e.op \in {"abort", "hang"} THEN {"alive"}
  ELSE IF e.op \in Mutators THEN {}       \* judged by the collection checks
  ELSE CrossBad(e) \cup LifeBad(e)

FNext ==
  /\ l < NEv
  /\ LET e == T(tid).ev[l + 1]
     IN /\ Act(e)
        /\ Ghost(e)
        /\ Cross(e)
        /\ l' = l + 1
        /\ UNCHANGED tid
        /\ LET bad == FBad(e) \cap On
           IN IF bad = {} THEN TRUE ELSE PrintT("REJECT " \o T(tid).id \o " " \o ToString(l + 1) \o " " \o ToString(bad)) /\ FALSE

FSpec == FInit /\ [][FNext]_xvars
=============================================================================
