------------------------------ MODULE FfiLife ------------------------------
(***************************************************************************)
(* Life of exported structures.  An exported array (and likewise its       *)
(* schema) is a chain of D structures; node i+1 is the child of node i and *)
(* lives in memory that belongs to node i until a consumer moves it out.   *)
(*                                                                         *)
(* Status of a node, as its consumer knows it:                             *)
(*   "in"    inside its parent's memory, unreleased                        *)
(*   "held"  a structure of its own, unreleased                            *)
(*   "dead"  a structure of its own, released                              *)
(*   "none"  gone                                                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Whole(D) == [i \in 0..(D - 1) |-> IF i = 0 THEN "held" ELSE "in"]
Last(n) == CHOOSE i \in DOMAIN n : i + 1 \notin DOMAIN n

CanOut(n, i) == i \in DOMAIN n /\ i > 0 /\ n[i] = "in"
Out(n, i) == [n EXCEPT ![i] = "held"]

(* Descendants still inside go with the node.                              *)
With(n, i, to) ==
  [k \in DOMAIN n |-> IF k = i THEN to
                      ELSE IF k > i /\ (\A j \in (i + 1)..k : n[j] = "in") THEN "none"
                      ELSE n[k]]
Release(n, i) == With(n, i, "dead")
DropIt(n, i) == IF n[i] = "held" THEN With(n, i, "none") ELSE [n EXCEPT ![i] = "none"]

Over(n) == \A i \in DOMAIN n : n[i] \in {"dead", "none"}

(* What a consumer sees of node i, whose subtree at export was d.          *)
Released == [rel |-> 1]
RECURSIVE Seen(_, _, _)
Seen(n, i, d) ==
  IF n[i] = "dead" THEN Released
  ELSE [d EXCEPT !.ch = IF d.ch = <<>> THEN <<>>
                        ELSE IF n[i + 1] = "in" THEN <<Seen(n, i + 1, d.ch[1])>>
                        ELSE <<Released>>]
RECURSIVE Sub(_, _)
Sub(d, i) == IF i = 0 THEN d ELSE Sub(d.ch[1], i - 1)
=============================================================================
