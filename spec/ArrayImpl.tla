------------------------------ MODULE ArrayImpl ------------------------------
(***************************************************************************)
(* The collections as a state machine over physical representations,       *)
(* refining ArraySpec.  phys follows the implementation's algorithms       *)
(* (module Phys); items follows ArraySpec with the same arguments.  The    *)
(* invariants say that the physical state is always a well-formed Arrow    *)
(* encoding of the abstract items.                                         *)
(***************************************************************************)
EXTENDS Phys, TLC

CONSTANTS Layouts,   \* layouts explored
          MaxLen,    \* bound on the number of items
          MaxBatch,  \* bound on items per append
          MaxGrow,   \* bound on the growths granted before one is refused
          Ops,       \* kinds of operations explored
          Slack      \* allow initial representations with offsets and slack

VARIABLES L, phys, items
vars == <<L, phys, items>>

Abs == INSTANCE ArraySpec

(* Item alphabet of a layout. *)
RECURSIVE Alphabet(_)
Alphabet(X) ==
  CASE X.k = "prim" -> {"1"}
    [] X.k = "bool" -> {"0", "1"}
    [] X.k = "fsl"  -> [1..X.n -> Alphabet(X.c)]
    [] X.k = "list" -> {<<>>} \cup {<<a>> : a \in Alphabet(X.c)} \cup
                       {<<a, b>> : a, b \in Alphabet(X.c)}
    [] X.k = "null" -> {<<>>} \cup {<<a>> : a \in Alphabet(X.c)}

Batches == UNION {[1..n -> Alphabet(L)] : n \in 0..MaxBatch}

(* Bit windows over arbitrary bytes *)
RawBits == {b \in [by : UNION {[1..n -> {0, 1, Pow2[W] - 1}] : n \in 0..2},
                   len : 0..(2 * W), off : 0..W] : BitsWF(b)}
Initial(X) ==
  {Empty(X)} \cup
  IF ~Slack THEN {}
  ELSE CASE X.k = "bool" -> RawBits
         [] X.k = "null" /\ X.c.k = "prim" ->
              {[bm |-> <<b>>, c |-> [v |-> [i \in 1..b.len |-> "1"]]] : b \in RawBits}
              \cup {[bm |-> <<>>, c |-> [v |-> [i \in 1..n |-> "1"]]] : n \in 0..MaxLen}
         [] X.k = "null" /\ X.c.k = "bool" ->
              {[bm |-> <<>>, c |-> b] : b \in RawBits}
         [] X.k = "list" /\ X.c.k = "prim" ->
              {[o |-> <<0, a>>, c |-> [v |-> [i \in 1..n |-> "9"]]] : <<a, n>> \in {t \in (0..2) \X (0..3) : t[1] <= t[2]}}
              \cup
              {[o |-> <<0, a, b>>, c |-> [v |-> [i \in 1..n |-> "9"]]] :
                 <<a, b, n>> \in {t \in (0..2) \X (0..2) \X (0..3) : t[1] <= t[2] /\ t[2] <= t[3]}}
         [] OTHER -> {}

Init == /\ L \in Layouts
        /\ phys \in Initial(L)
        /\ items = Decode(L, phys)
        /\ Len(items) <= MaxLen

Fits(batch) == Len(items) + Len(batch) <= MaxLen

ExtendOk(batch) ==
  /\ Fits(batch)
  /\ phys' = Ext(L, phys, batch, FALSE)
  /\ Abs!AppendAll(batch)
  /\ UNCHANGED L

ExtendPanics(batch) ==
  /\ Fits(batch)
  /\ phys' = Ext(L, phys, batch, TRUE)
  /\ Abs!AppendPrefix(batch, PLen(L, phys') - Len(items))
  /\ UNCHANGED L

TryExtend(batch, f) ==
  /\ Fits(batch)
  /\ LET r == Try(L, phys, batch, f)
     IN /\ phys' = r.p
        /\ IF r.ok THEN Abs!AppendAll(batch) ELSE Abs!Refuse
  /\ UNCHANGED L

TruncateTo(n) == /\ phys' = Trunc(L, phys, n)
                 /\ Abs!Truncate(n)
                 /\ UNCHANGED L

Reserve == /\ phys' = Resv(L, phys)
           /\ Abs!Reserve
           /\ UNCHANGED L

Next == \/ "append"   \in Ops /\ \E b \in Batches : ExtendOk(b)
        \/ "panic"    \in Ops /\ \E b \in Batches : ExtendPanics(b)
        \/ "try"      \in Ops /\ \E b \in Batches : \E f \in 0..MaxGrow : TryExtend(b, f)
        \/ "truncate" \in Ops /\ \E n \in 0..MaxLen : TruncateTo(n)
        \/ "reserve"  \in Ops /\ Reserve

Spec == Init /\ [][Next]_vars

(*------------------------------ properties ------------------------------*)
Encodes == Decode(L, phys) = items
Format == WellFormed(L, phys)
Agrees == PLen(L, phys) = Len(items)

(* A panicking append always leaves a prefix: ExtendPanics must be enabled *)
(* for every batch that fits (AppendPrefix could disable it).              *)
PanicLeavesPrefix ==
  \A b \in Batches : Fits(b) =>
     LET q == Ext(L, phys, b, TRUE)
         k == PLen(L, q) - Len(items)
     IN k \in 0..Len(b) /\ Decode(L, q) = items \o SubSeq(b, 1, k)

(* Whatever precedes a bitmap's window is not the bitmap's to change, and   *)
(* the window never moves.                                                 *)
RECURSIVE Before(_, _)
Before(X, p) ==
  LET bits(b) == <<b.off, [i \in 1..b.off |-> BitOf(b.by, i - 1)]>>
  IN CASE X.k = "prim" -> <<>>
       [] X.k = "bool" -> bits(p)
       [] X.k = "null" -> <<IF p.bm = <<>> THEN <<0, <<>> >> ELSE bits(p.bm[1]), Before(X.c, p.c)>>
       [] OTHER -> Before(X.c, p.c)
WindowsKept == [][Before(L', phys') = Before(L, phys)]_vars

(* Truncating hides items; appending afterwards never brings them back:    *)
(* whatever slack a representation carries, what is appended next is what  *)
(* is read (Encodes quantifies over every slack the behaviours leave).     *)
=============================================================================
