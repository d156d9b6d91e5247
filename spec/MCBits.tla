------------------------------- MODULE MCBits -------------------------------
(***************************************************************************)
(* Reading a bitmap window: the algorithms the implementation uses to read *)
(* bits (indexing, the bit unpacking iterator behind skip and take, and    *)
(* the masked population count), against the window's booleans.            *)
(* Every window over a few small bytes, every sequence of next and nth.    *)
(***************************************************************************)
EXTENDS ArraySpec, Narrow, TLC, FiniteSets

CONSTANTS Bytes,      \* byte values
          MaxBytes,
          Skips       \* arguments of nth

VARIABLES b, it, c, ended
vars == <<b, it, c, ended, items>>

(*------------------------------ algorithms ------------------------------*)
(* Take(left) over Skip(skip) over the unpacking iterator: at is the next  *)
(* byte to fetch, byte the buffered one, m the position of its next bit.   *)
UNext(x) ==
  LET byte == IF x.m # 0 THEN x.byte ELSE IF x.at < Len(b.by) THEN <<b.by[x.at + 1]>> ELSE <<>>
      at   == IF x.m # 0 \/ x.at >= Len(b.by) THEN x.at ELSE x.at + 1
  IN IF byte = <<>> THEN <<[x EXCEPT !.byte = <<>>], <<>> >>
     ELSE <<[x EXCEPT !.byte = byte, !.at = at, !.m = (x.m + 1) % W],
            <<IF (byte[1] \div Pow2[x.m]) % 2 = 1 THEN "1" ELSE "0">> >>

RECURSIVE UNth(_, _)
UNth(x, k) == LET r == UNext(x)
              IN IF k = 0 \/ r[2] = <<>> THEN r ELSE UNth(r[1], k - 1)
SNth(x, k) == LET r == UNth([x EXCEPT !.skip = 0], x.skip + k) IN r
TNth(x, k) ==
  IF x.left > k THEN SNth([x EXCEPT !.left = @ - k - 1], k)
  ELSE IF x.left = 0 THEN <<x, <<>> >>
  ELSE <<SNth([x EXCEPT !.left = 0], x.left - 1)[1], <<>> >>

Hint(x) ==
  LET bits == (Len(b.by) - x.at) * W + (IF x.m = 0 THEN 0 ELSE W - x.m)
      rest == IF bits > x.skip THEN bits - x.skip ELSE 0
  IN Min(rest, x.left)

At(i) ==
  IF i >= b.len THEN <<>>
  ELSE <<IF (b.by[((b.off + i) \div W) + 1] \div Pow2[(b.off + i) % W]) % 2 = 1 THEN "1" ELSE "0">>

Ones(x) == Cardinality({i \in 0..(W - 1) : (x \div Pow2[i]) % 2 = 1})
Masked(x, lo, hi) == Cardinality({i \in lo..(hi - 1) : (x \div Pow2[i]) % 2 = 1})
CountOnes ==
  IF b.len = 0 THEN 0
  ELSE LET end == b.off + b.len
           from == b.off \div W
           to == CeilDiv(end, W)
           lead == b.off % W
           trail == IF end % W = 0 THEN W ELSE end % W
           f[j \in from..to] ==
             IF j = from THEN 0
             ELSE f[j - 1] + Masked(b.by[j], IF j = from + 1 THEN lead ELSE 0, IF j = to THEN trail ELSE W)
       IN f[to]

(*------------------------------ behaviours ------------------------------*)
Windows == {w \in [by : UNION {[1..n -> Bytes] : n \in 0..MaxBytes},
                   len : 0..(MaxBytes * W), off : 0..(MaxBytes * W)] : BitsWF(w)}

InitB == /\ b \in Windows
        /\ items = Decode([k |-> "bool"], b)
        /\ it = [at |-> 0, byte |-> <<>>, m |-> 0, skip |-> b.off, left |-> b.len]
        /\ c = 0 /\ ended = 0

Step(k) == LET r == TNth(it, k)
               s == CursorStep(items, c, k)
           IN /\ ended < 2
              /\ it' = r[1]
              /\ Assert(r[2] = s.item, <<"read", b, it, k>>)
              /\ c' = s.next
              /\ ended' = IF s.item = <<>> THEN ended + 1 ELSE 0
              /\ UNCHANGED <<b, items>>
NextB == \E k \in Skips : Step(k)
Spec == InitB /\ [][NextB]_vars

Exact == Hint(it) = Len(items) - c
Index == \A i \in 0..(b.len + W) : At(i) = IF i < Len(items) THEN <<items[i + 1]>> ELSE <<>>
Count == CountOnes = Len(SelectSeq(items, LAMBDA x : x = "1"))
Untouched == [][b' = b]_vars
=============================================================================
