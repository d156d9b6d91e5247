------------------------------ MODULE ArraySpec ------------------------------
(***************************************************************************)
(* What a user may rely on: an array is a growable sequence of items.      *)
(* Each public operation is one action; the parameters an implementation   *)
(* may choose (how long a prefix survives an interrupted append, whether a *)
(* fallible operation fails) are action parameters.                        *)
(***************************************************************************)
EXTENDS Narrow

VARIABLE items

Init(s) == items = s

(* extend: all items of the source, up to its first end *)
AppendAll(batch) == items' = items \o batch

(* extend whose source panicked after producing batch: some prefix stays *)
AppendPrefix(batch, k) == /\ k \in 0..Len(batch)
                          /\ items' = items \o SubSeq(batch, 1, k)

(* fallible operations that report an error change nothing *)
Refuse == UNCHANGED items

Truncate(n) == items' = IF n < Len(items) THEN SubSeq(items, 1, n) ELSE items

Reserve == UNCHANGED items

(* Reads: what a read of the array must return. *)
ViewAt(i) == IF i < Len(items) THEN <<items[i + 1]>> ELSE <<>>

(* A cursor that has consumed c items; step is "n" (next) or k (nth k) *)
CursorStep(s, c, k) ==
  LET pos == c + k IN
  [item |-> IF pos < Len(s) THEN <<s[pos + 1]>> ELSE <<>>,
   next |-> Min(pos + 1, Len(s))]
=============================================================================
