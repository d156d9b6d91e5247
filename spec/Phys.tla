-------------------------------- MODULE Phys --------------------------------
(***************************************************************************)
(* The implementation's algorithms on physical representations, operation  *)
(* by operation, as the code performs them: in-place overwrite of          *)
(* uncommitted slots, byte-wise commits, chunked validity, rollback.       *)
(***************************************************************************)
EXTENDS Narrow

CONSTANT CHUNK      \* items buffered before their validity is committed

(*------------------------------- bits -----------------------------------*)
SetBit(by, i, x) ==
  LET k == (i \div W) + 1
      old == BitOf(by, i)
      new == IF x = "1" THEN 1 ELSE 0
      b == by[k] - old * Pow2[i % W] + new * Pow2[i % W]
  IN [by EXCEPT ![k] = b]

RECURSIVE SetBits(_, _, _)
SetBits(by, i, xs) == IF xs = <<>> THEN by ELSE SetBits(SetBit(by, i, Head(xs)), i + 1, Tail(xs))

PackByte(xs) ==      \* at most W bits
  LET f[i \in 0..Len(xs)] == IF i = 0 THEN 0 ELSE f[i - 1] + (IF xs[i] = "1" THEN Pow2[i - 1] ELSE 0)
  IN f[Len(xs)]
Pack(xs) == [j \in 1..CeilDiv(Len(xs), W) |-> PackByte(SubSeq(xs, (j - 1) * W + 1, Min(j * W, Len(xs))))]

EmptyBits == [by |-> <<>>, len |-> 0, off |-> 0]
AllSet(n) == [by |-> Pack([i \in 1..n |-> "1"]), len |-> n, off |-> 0]

(* Bits that fit the partially filled last byte, if that byte exists. *)
HeadRoom(b) == LET r == (b.off + b.len) % W IN IF r = 0 THEN 0 ELSE W - r

WriteBytes(by, at, bytes) ==   \* overwrite from byte index at (0-based), then append
  [j \in 1..Max(Len(by), at + Len(bytes)) |->
     IF j > at /\ j <= at + Len(bytes) THEN bytes[j - at] ELSE by[j]]

(* Bitmap extension; pk: the source panics when polled after xs.  Head     *)
(* bits are committed one at a time; packed bytes reach the buffer but are *)
(* counted only when the extension completes.  A byte being packed when    *)
(* the panic strikes is lost.                                              *)
BitsExt(b, xs, pk) ==
  LET h == Min(HeadRoom(b), Len(xs))
      by1 == SetBits(b.by, b.off + b.len, SubSeq(xs, 1, h))
      b1 == [b EXCEPT !.by = by1, !.len = b.len + h]
      rest == Drop(xs, h)
      done == IF pk THEN SubSeq(rest, 1, (Len(rest) \div W) * W) ELSE rest
      at == (b1.off + b1.len) \div W
  IN IF rest = <<>> THEN b1
     ELSE [b1 EXCEPT !.by = WriteBytes(by1, at, Pack(done)),
                     !.len = IF pk THEN b1.len ELSE b1.len + Len(rest)]

BitsTrunc(b, n) == IF n < b.len THEN [b EXCEPT !.len = n] ELSE b

(*----------------------------- construction -----------------------------*)
RECURSIVE Empty(_)
Empty(L) ==
  CASE L.k = "prim" -> [v |-> <<>>]
    [] L.k = "bool" -> EmptyBits
    [] L.k = "fsl"  -> [c |-> Empty(L.c)]
    [] L.k = "list" -> [o |-> <<0>>, c |-> Empty(L.c)]
    [] L.k = "null" -> [bm |-> <<>>, c |-> Empty(L.c)]

(*------------------------------- truncate -------------------------------*)
RECURSIVE Trunc(_, _, _)
Trunc(L, p, n) ==
  CASE L.k = "prim" -> [p EXCEPT !.v = Take(p.v, n)]
    [] L.k = "bool" -> BitsTrunc(p, n)
    [] L.k = "fsl"  -> IF n < PLen(L, p) THEN [c |-> Trunc(L.c, p.c, n * L.n)] ELSE p
    [] L.k = "list" -> IF n < PLen(L, p)
                       THEN [o |-> SubSeq(p.o, 1, n + 1), c |-> Trunc(L.c, p.c, p.o[n + 1])]
                       ELSE p
    [] L.k = "null" -> [bm |-> IF p.bm = <<>> THEN <<>> ELSE <<BitsTrunc(p.bm[1], n)>>,
                        c |-> Trunc(L.c, p.c, n)]

Materialize(L, p) == IF p.bm = <<>> THEN [p EXCEPT !.bm = <<AllSet(PLen(L.c, p.c))>>] ELSE p

(*-------------------------------- extend --------------------------------*)
Flags(xs) == [i \in 1..Len(xs) |-> IF xs[i] = <<>> THEN "0" ELSE "1"]
Values(L, xs) == [i \in 1..Len(xs) |-> IF xs[i] = <<>> THEN Default(L) ELSE xs[i][1]]

RECURSIVE Ext(_, _, _, _), ExtRows(_, _, _), ExtChunks(_, _, _, _)
Ext(L, p, xs, pk) ==
  CASE L.k = "prim" -> [v |-> p.v \o xs]
    [] L.k = "bool" -> BitsExt(p, xs, pk)
    [] L.k = "fsl"  -> LET c1 == Ext(L.c, p.c, Flat(xs), pk)
                           n == PLen(L.c, c1)
                       IN [c |-> Trunc(L.c, c1, n - (n % L.n))]
    [] L.k = "list" -> ExtRows(L, [p EXCEPT !.c = Trunc(L.c, p.c, p.o[Len(p.o)])], xs)
    [] L.k = "null" -> LET m == Materialize(L, p)
                       IN ExtChunks(L, [m EXCEPT !.c = Trunc(L.c, m.c, m.bm[1].len)], xs, pk)

ExtRows(L, p, rows) ==      \* rows produced before a panic are complete
  IF rows = <<>> THEN p
  ELSE ExtRows(L, [o |-> Append(p.o, p.o[Len(p.o)] + Len(Head(rows))),
                   c |-> Ext(L.c, p.c, Head(rows), FALSE)], Tail(rows))

ExtChunks(L, p, xs, pk) ==
  LET n == Min(CHUNK, Len(xs))
      now == SubSeq(xs, 1, n)
      dies == pk /\ n < CHUNK
      c1 == Ext(L.c, p.c, Values(L.c, now), dies)
  IN IF dies THEN [p EXCEPT !.c = Trunc(L.c, c1, p.bm[1].len)]
     ELSE LET p1 == [bm |-> <<BitsExt(p.bm[1], Flags(now), FALSE)>>, c |-> c1]
          IN IF n < CHUNK THEN p1 ELSE ExtChunks(L, p1, Drop(xs, n), pk)

(*-------------------- fallible extend with refused memory ---------------*)
(* f: how many further single-slot growths succeed before one is refused.  *)
(* Results: [ok, p, f].                                                    *)
BitsTry(b, xs, f) ==
  LET h == Min(HeadRoom(b), Len(xs))
      by1 == SetBits(b.by, b.off + b.len, SubSeq(xs, 1, h))
      rest == Drop(xs, h)
      at == (b.off + b.len + h) \div W
      bytes == Pack(rest)
      fresh == Max(0, at + Len(bytes) - Len(by1))   \* bytes that need growth
      fit == Len(bytes) - fresh                     \* overwritten in place
  IN IF rest = <<>> THEN [ok |-> TRUE, p |-> [b EXCEPT !.by = by1, !.len = b.len + h], f |-> f]
     ELSE IF fresh <= f
     THEN [ok |-> TRUE, f |-> f - fresh,
           p |-> [b EXCEPT !.by = WriteBytes(by1, at, bytes), !.len = b.len + Len(xs)]]
     ELSE [ok |-> FALSE, f |-> 0,
           p |-> [b EXCEPT !.by = WriteBytes(by1, at, SubSeq(bytes, 1, fit))]]

RECURSIVE Try(_, _, _, _), TryRows(_, _, _, _, _, _), TryChunks(_, _, _, _, _)
Try(L, p, xs, f) ==
  CASE L.k = "prim" -> IF Len(xs) <= f THEN [ok |-> TRUE, p |-> [v |-> p.v \o xs], f |-> f - Len(xs)]
                       ELSE [ok |-> FALSE, p |-> p, f |-> 0]
    [] L.k = "bool" -> BitsTry(p, xs, f)
    [] L.k = "fsl"  -> LET r == Try(L.c, p.c, Flat(xs), f) IN [r EXCEPT !.p = [c |-> r.p]]
    [] L.k = "list" -> LET d == p.o[Len(p.o)]
                       IN TryRows(L, [p EXCEPT !.c = Trunc(L.c, p.c, d)], xs, f, Len(p.o), d)
    [] L.k = "null" ->
         LET n == PLen(L, p)
             grow == IF p.bm = <<>> THEN CeilDiv(n, W) ELSE 0
         IN IF grow > f THEN [ok |-> FALSE, p |-> p, f |-> 0]
            ELSE LET m == Materialize(L, p)
                 IN TryChunks(L, [m EXCEPT !.c = Trunc(L.c, m.c, n)], xs, f - grow, n)

TryRows(L, p, rows, f, rows0, data0) ==
  LET undo(q) == [ok |-> FALSE, f |-> 0,
                  p |-> [o |-> SubSeq(q.o, 1, rows0), c |-> Trunc(L.c, q.c, data0)]]
  IN IF rows = <<>> THEN [ok |-> TRUE, p |-> p, f |-> f]
     ELSE LET r == Try(L.c, p.c, Head(rows), f)
              q == [p EXCEPT !.c = r.p]
          IN IF ~r.ok THEN undo(q)
             ELSE IF r.f = 0 THEN undo(q)
             ELSE TryRows(L, [q EXCEPT !.o = Append(q.o, q.o[Len(q.o)] + Len(Head(rows)))],
                          Tail(rows), r.f - 1, rows0, data0)

TryChunks(L, p, xs, f, n0) ==
  LET n == Min(CHUNK, Len(xs))
      now == SubSeq(xs, 1, n)
      r == Try(L.c, p.c, Values(L.c, now), f)
      q == [p EXCEPT !.c = r.p]
  IN IF ~r.ok THEN [ok |-> FALSE, p |-> Trunc(L, q, n0), f |-> 0]
     ELSE LET b == BitsTry(q.bm[1], Flags(now), r.f)
              q2 == [q EXCEPT !.bm = <<b.p>>]
          IN IF ~b.ok THEN [ok |-> FALSE, p |-> Trunc(L, q2, n0), f |-> 0]
             ELSE IF n < CHUNK THEN [ok |-> TRUE, p |-> q2, f |-> b.f]
             ELSE TryChunks(L, q2, Drop(xs, n), b.f, n0)

(* reserve: contents unchanged, but implicit validity becomes explicit *)
RECURSIVE Resv(_, _)
Resv(L, p) ==
  CASE L.k = "prim" -> p
    [] L.k = "bool" -> p
    [] L.k = "fsl"  -> [c |-> Resv(L.c, p.c)]
    [] L.k = "list" -> [p EXCEPT !.c = Resv(L.c, p.c)]
    [] L.k = "null" -> LET m == Materialize(L, p) IN [m EXCEPT !.c = Resv(L.c, m.c)]
=============================================================================
