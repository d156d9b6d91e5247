------------------------------- MODULE Reads -------------------------------
(***************************************************************************)
(* Enumerates read programs for replay on the real iterators: a            *)
(* breadth-first tour of the cursor of ArraySpec over arrays of given      *)
(* lengths, one program (sequence of next/nth steps) per transition.       *)
(*                                                                         *)
(* A cursor that consumed c of n items behaves, in an implementation that  *)
(* reads packed bits or counts remaining items, according to c, n and the  *)
(* way it got there; the view keeps the last skip besides c, so a position *)
(* reached by one long skip and by several short ones are told apart.      *)
(***************************************************************************)
EXTENDS ArraySpec, Json, IOUtils, TLC, Integers

Cfg == JsonDeserialize(IOEnv.GEN)
Lens  == Cfg.lens
Skips == Cfg.skips       \* arguments of nth; 0 is next; negative: huge
Depth == Cfg.depth

VARIABLES n, c, ended, prog

InitR == /\ n \in {Lens[i] : i \in 1..Len(Lens)}
         /\ items = [i \in 1..n |-> i]
         /\ c = 0 /\ ended = 0 /\ prog = <<>>

NextR == /\ Len(prog) < Depth
         /\ ended < 2
         /\ \E i \in 1..Len(Skips) :
              LET k == IF Skips[i] < 0 THEN n ELSE Skips[i]
                  r == CursorStep(items, c, k)
              IN /\ c' = r.next
                 /\ ended' = IF r.item = <<>> THEN ended + 1 ELSE 0
                 /\ prog' = Append(prog, Skips[i])
                 /\ UNCHANGED <<n, items>>
                 /\ PrintT("@" \o ToJson([n |-> n, p |-> prog']))

ReadSpec == InitR /\ [][NextR]_<<n, c, ended, prog, items>>

View == <<n, c, ended, IF prog = <<>> THEN 0 ELSE prog[Len(prog)]>>

(* The cursor never runs past the end, never goes back, and after the end  *)
(* keeps reporting the end.                                                *)
Sane == /\ c <= n
        /\ ended > 0 => c = n
Forward == [][c' >= c /\ (ended > 0 => ended' > 0)]_<<n, c, ended, prog, items>>
=============================================================================
