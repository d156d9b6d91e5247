------------------------------- MODULE Agree -------------------------------
(***************************************************************************)
(* How faithfully module Phys describes the implementation: every recorded *)
(* mutation, predicted by Phys from the buffers dumped before it, against  *)
(* the buffers dumped after it.  A disagreement is no defect (another      *)
(* representation of the same items is as good), so no check judges it; it *)
(* measures whether the models explored exhaustively are models of this    *)
(* code.                                                                   *)
(***************************************************************************)
EXTENDS Trace, Phys

RECURSIVE Same(_, _, _)
Same(L, a, b) ==
  CASE L.k = "prim" -> a.v = b.v
    [] L.k = "bool" -> a.by = b.by /\ a.len = b.len /\ a.off = b.off
    [] L.k = "fsl"  -> Same(L.c, a.c, b.c)
    [] L.k = "list" -> a.o = b.o /\ Same(L.c, a.c, b.c)
    [] L.k = "null" -> /\ Len(a.bm) = Len(b.bm)
                       /\ a.bm # <<>> => a.bm[1].by = b.bm[1].by /\ a.bm[1].len = b.bm[1].len /\ a.bm[1].off = b.bm[1].off
                       /\ Same(L.c, a.c, b.c)

Predicted(e) ==      \* <<>> where Phys makes no prediction
  LET p == g.ph IN
  CASE e.op \in {"ext", "tryext"} /\ e.res = "ok" -> <<Ext(Lay, p, e.items, FALSE)>>
    [] e.op = "ext" /\ e.res = "panic" -> <<Ext(Lay, p, SubSeq(e.items, 1, Produced(e)), TRUE)>>
    [] e.op = "trunc" -> <<Trunc(Lay, p, IF Huge(e.n) THEN Len(items) ELSE e.n)>>
    [] e.op \in {"res", "tryres"} /\ e.res = "ok" -> <<Resv(Lay, p)>>
    [] OTHER -> <<>>

RECURSIVE Plain(_)
Plain(L) == IF L.k = "std" THEN FALSE ELSE IF "c" \in DOMAIN L THEN Plain(L.c) ELSE TRUE

Report(e) ==
  IF ~Observed(e) \/ e.obs.ph = <<>> \/ e.op = "new" \/ ~Plain(Lay) \/ g.ph = <<>> THEN TRUE
  ELSE LET q == Predicted(e)
       IN IF q = <<>> THEN TRUE
          ELSE PrintT((IF Same(Lay, q[1], e.obs.ph[1]) THEN "AGREE " ELSE "DIFFER ") \o T(tid).id \o " " \o ToString(l + 1))

ANext == /\ l < NEv
         /\ LET e == T(tid).ev[l + 1]
            IN Act(e) /\ Ghost(e) /\ l' = l + 1 /\ UNCHANGED tid /\ Report(e)
ASpec == Init /\ [][ANext]_vars
=============================================================================
