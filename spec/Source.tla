------------------------------- MODULE Source -------------------------------
(***************************************************************************)
(* Item sources as Rust iterators really are, and the ways this library    *)
(* consumes them.  A source is a script of answers to polls, items and     *)
(* ends; after its first end it may yield again.  Its size hint is legal   *)
(* for the items before its first end, and says nothing about later ones.  *)
(*                                                                         *)
(* Consumers:                                                              *)
(*   plain    poll until the first end                                     *)
(*   chunks   take CHUNK items at a time; stop after a short batch         *)
(*   packed   fill the free bits of the last byte, then pack W at a time,  *)
(*            stopping after a byte that is not full                       *)
(* A consumer may first make room for the lower bound of the hint.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

CONSTANTS W, CHUNK, MaxScript,
          FUSED,    \* packed consumers never poll past an end (FALSE: before bf3d69e)
          UPPER     \* room is made for the upper bound (TRUE: before dd0eb38)

VARIABLES script, hint, how, head, at, taken, batch, ended, phase, room
vars == <<script, hint, how, head, at, taken, batch, ended, phase, room>>

Item == "x"
End == "e"
RECURSIVE Before(_)
Before(sc) == IF sc = <<>> \/ Head(sc) = End THEN 0 ELSE 1 + Before(Tail(sc))
Inf == 1000
Big == 100                         \* what no allocator can provide

Init == /\ script \in UNION {[1..n -> {Item, End}] : n \in 0..MaxScript}
        /\ LET n == Before(script)
           IN hint \in {<<lo, hi>> : lo \in 0..n, hi \in {n, n + 1, Big, Inf}}
        /\ how \in {"plain", "chunks", "packed"}
        /\ head \in 0..(IF how = "packed" THEN W - 1 ELSE 0)      \* free bits in the last byte
        /\ at = 0 /\ taken = <<>> /\ batch = 0 /\ ended = FALSE
        /\ phase = "reserve" /\ room = 0

Answer == IF at < Len(script) THEN script[at + 1] ELSE End
Poll == at' = at + 1 /\ UNCHANGED <<script, hint, how, head, room>>
Stop == phase' = "done" /\ UNCHANGED <<taken, batch>>

Reserve == /\ phase = "reserve"
           /\ LET want == IF UPPER /\ hint[2] # Inf THEN hint[2] ELSE hint[1]
              IN IF want >= Big THEN phase' = "failed" /\ UNCHANGED room
                 ELSE room' = want /\ phase' = IF head > 0 THEN "head" ELSE "body"
           /\ UNCHANGED <<script, hint, how, head, at, taken, batch, ended>>

(* the free bits, one poll each *)
HeadBits ==
  /\ phase = "head"
  /\ IF FUSED /\ ended THEN UNCHANGED <<script, hint, how, head, at, room, taken, ended>>
                            /\ batch' = batch + 1
     ELSE /\ Poll
          /\ batch' = batch + 1
          /\ ended' = (ended \/ Answer = End)
          /\ taken' = IF Answer = Item THEN Append(taken, at + 1) ELSE taken
  /\ phase' = IF batch + 1 >= head THEN "body" ELSE "head"

Full == CASE how = "chunks" -> CHUNK [] how = "packed" -> W [] OTHER -> Inf
Body ==
  /\ phase = "body"
  /\ LET b == IF how = "packed" /\ batch = head /\ head > 0 THEN 0 ELSE batch
     IN IF FUSED /\ ended THEN Stop /\ UNCHANGED <<script, hint, how, head, at, room, ended>>
        ELSE /\ Poll
             /\ IF Answer = End
                THEN /\ ended' = TRUE /\ UNCHANGED taken
                     /\ IF how = "packed" /\ ~FUSED /\ batch > 0 /\ batch < Inf
                        THEN phase' = "tail" /\ batch' = batch      \* the packer asks once more for the next byte
                        ELSE phase' = "done" /\ UNCHANGED batch
                ELSE /\ taken' = Append(taken, at + 1)
                     /\ batch' = (batch + 1) % Full
                     /\ UNCHANGED <<ended, phase>>
Again ==
  /\ phase = "tail"
  /\ Poll
  /\ IF Answer = Item THEN taken' = Append(taken, at + 1) /\ phase' = "tail"
     ELSE UNCHANGED taken /\ phase' = "done"
  /\ UNCHANGED <<batch, ended>>

Next == Reserve \/ HeadBits \/ Body \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(*------------------------------ properties ------------------------------*)
First == [i \in 1..Before(script) |-> i]
OnlyBeforeEnd == \A i \in 1..Len(taken) : taken[i] <= Before(script)
AllBeforeEnd == phase = "done" => taken = First
NeverFails == phase # "failed"
LegalRoom == room <= Before(script)
Ends == <>(phase = "done")
=============================================================================
