------------------------------- MODULE Narrow -------------------------------
(***************************************************************************)
(* Vocabulary shared by every specification of the system: layouts, items, *)
(* physical (Arrow) representations, and the two functions that give them  *)
(* meaning, WellFormed and Decode.                                         *)
(*                                                                         *)
(* A layout is a record                                                    *)
(*   [k |-> "prim"]                     values of a fixed-size type        *)
(*   [k |-> "bool"]                     packed booleans                    *)
(*   [k |-> "fsl",  n |-> N, c |-> L]   fixed-size list of N children      *)
(*   [k |-> "list", c |-> L]            variable-size list                 *)
(*   [k |-> "null", c |-> L]            nullable L                         *)
(*   [k |-> "std",  c |-> L]            a standard collection of items of L *)
(*   [k |-> "run",  max |-> D]          (in std) a list of elements without  *)
(*                                      memory, at most D of them together  *)
(*                                                                         *)
(* An item of a layout is: prim - a string naming a value; bool - "0" or   *)
(* "1"; lists - a sequence of items; nullable - <<>> (null) or <<item>>.   *)
(*                                                                         *)
(* A physical representation mirrors the public buffers of the collection: *)
(*   prim [v: seq of values]                                               *)
(*   bool [by: seq of bytes, len: bits, off: first bit]                    *)
(*   fsl  [c: child]     list [o: offsets, c: child]                       *)
(*   null [bm: <<>> or <<bool representation>>, c: child]                  *)
(*   std  [v: seq of items]                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANT W          \* bits per byte: 8 for the implementation, less for small models

Pow2[i \in 0..16] == IF i = 0 THEN 1 ELSE 2 * Pow2[i - 1]

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b
Take(s, n) == SubSeq(s, 1, Min(n, Len(s)))
Drop(s, n) == SubSeq(s, n + 1, Len(s))

(* Bit i (0-based) of a byte sequence, least significant bit first. *)
BitOf(by, i) == (by[(i \div W) + 1] \div Pow2[i % W]) % 2
BitStr(by, i) == IF BitOf(by, i) = 1 THEN "1" ELSE "0"

(* Number of items a representation holds. *)
RECURSIVE PLen(_, _)
PLen(L, p) ==
  CASE L.k \in {"prim", "std"} -> Len(p.v)
    [] L.k = "bool" -> p.len
    [] L.k = "fsl"  -> PLen(L.c, p.c) \div L.n
    [] L.k = "list" -> Len(p.o) - 1
    [] L.k = "null" -> IF p.bm = <<>> THEN PLen(L.c, p.c) ELSE p.bm[1].len

(* The rules of the Arrow columnar format for each layout. *)
BitsWF(b) == /\ b.len >= 0 /\ b.off >= 0
             /\ b.off + b.len <= W * Len(b.by)
OffsetsWF(o, n) == /\ Len(o) >= 1
                   /\ o[1] = 0
                   /\ \A i \in 1..(Len(o) - 1) : o[i] <= o[i + 1]
                   /\ o[Len(o)] <= n
RECURSIVE WellFormed(_, _)
WellFormed(L, p) ==
  CASE L.k \in {"prim", "std"} -> TRUE
    [] L.k = "bool" -> BitsWF(p)
    [] L.k = "fsl"  -> WellFormed(L.c, p.c) /\ PLen(L.c, p.c) % L.n = 0
    [] L.k = "list" -> WellFormed(L.c, p.c) /\ OffsetsWF(p.o, PLen(L.c, p.c))
    [] L.k = "null" -> /\ WellFormed(L.c, p.c)
                       /\ p.bm # <<>> => /\ BitsWF(p.bm[1])
                                         /\ p.bm[1].len = PLen(L.c, p.c)

(* The items a well-formed representation encodes. *)
RECURSIVE Decode(_, _)
Decode(L, p) ==
  CASE L.k \in {"prim", "std"} -> p.v
    [] L.k = "bool" -> [i \in 1..p.len |-> BitStr(p.by, p.off + i - 1)]
    [] L.k = "fsl"  -> LET c == Decode(L.c, p.c)
                       IN [i \in 1..(Len(c) \div L.n) |-> SubSeq(c, (i - 1) * L.n + 1, i * L.n)]
    [] L.k = "list" -> LET c == Decode(L.c, p.c)
                       IN [i \in 1..(Len(p.o) - 1) |-> SubSeq(c, p.o[i] + 1, p.o[i + 1])]
    [] L.k = "null" -> LET c == Decode(L.c, p.c)
                           n == IF p.bm = <<>> THEN Len(c) ELSE Min(Len(c), p.bm[1].len)
                       IN [i \in 1..n |->
                            IF p.bm = <<>> THEN <<c[i]>>
                            ELSE IF BitOf(p.bm[1].by, p.bm[1].off + i - 1) = 1 THEN <<c[i]>>
                            ELSE <<>>]

(* The item stored in the physical slot of a null. *)
RECURSIVE Default(_)
Default(L) ==
  CASE L.k = "prim" -> "0"
    [] L.k = "bool" -> "0"
    [] L.k = "fsl"  -> [i \in 1..L.n |-> Default(L.c)]
    [] L.k = "list" -> <<>>
    [] L.k = "null" -> <<>>

(* Validity answers determined by the items of a nullable collection. *)
NullCount(items) == Len(SelectSeq(items, LAMBDA x : x = <<>>))

(* Concatenation of a sequence of sequences. *)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>>
            ELSE IF Len(ss) = 1 THEN ss[1]
            ELSE LET h == Len(ss) \div 2
                 IN Flat(SubSeq(ss, 1, h)) \o Flat(SubSeq(ss, h + 1, Len(ss)))

(* Numbers too large for TLC: five little-endian digits of base 2^16. *)
Digit == 65536
Zero == <<0, 0, 0, 0, 0>>
RECURSIVE Carry(_, _)
Carry(s, i) == IF i = 5 THEN s
               ELSE Carry([s EXCEPT ![i] = @ % Digit, ![i + 1] = @ + (s[i] \div Digit)], i + 1)
Plus(a, b) == Carry([i \in 1..5 |-> a[i] + b[i]], 1)
RECURSIVE AtMost(_, _, _)
AtMost(a, b, i) == IF i = 0 THEN TRUE
                   ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE AtMost(a, b, i - 1)
RECURSIVE Sum(_, _)
Sum(xs, i) == IF i = 0 THEN Zero ELSE Plus(Sum(xs, i - 1), xs[i])

(* Can offsets address all the elements of these items? *)
RECURSIVE Addressable(_, _)
Addressable(X, xs) ==
  CASE X.k = "run" -> AtMost(Sum(xs, Len(xs)), X.max, 5)
    [] X.k \in {"fsl", "list"} -> Addressable(X.c, Flat(xs))
    [] X.k = "null" -> Addressable(X.c, Flat(xs))
    [] X.k = "std" -> Addressable(X.c, xs)
    [] OTHER -> TRUE

(* Does a reservation of n items provide for these items?                  *)
RECURSIVE Within(_, _, _)
Within(X, n, xs) ==
  /\ Len(xs) <= n
  /\ CASE X.k \in {"prim", "bool", "std"} -> TRUE
       [] X.k = "fsl"  -> Within(X.c, n * X.n, Flat(xs))
       [] X.k = "list" -> Within(X.c, n, Flat(xs))
       [] X.k = "null" -> Within(X.c, n, [i \in 1..Len(xs) |->
                                            IF xs[i] = <<>> THEN Default(X.c) ELSE xs[i][1]])
=============================================================================
