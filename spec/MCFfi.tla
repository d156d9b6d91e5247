------------------------------- MODULE MCFfi -------------------------------
(***************************************************************************)
(* Crossing the C Data Interface, exhaustively for small arrays: the       *)
(* structures an exporter makes of any offset-free array satisfy every     *)
(* field rule, are accepted on import and mean the same items; and after   *)
(* any few alterations of their fields, whatever is still accepted is a    *)
(* complete, well-formed array of the requested type.                      *)
(***************************************************************************)
EXTENDS Ffi, FiniteSets

CONSTANTS Layouts, MaxItems, MaxSpoils

VARIABLES L, a, s, n
vars == <<L, a, s, n>>

P == [k |-> "prim", f |-> "i", al |-> 4]
B == [k |-> "bool"]
F(m, c) == [k |-> "fsl", n |-> m, c |-> c]
V(c) == [k |-> "list", w |-> "32", c |-> c]
N(c) == [k |-> "null", c |-> c]
Some == {P, B, N(P), N(B), V(P), N(V(P)), F(2, P), N(F(2, B)), V(N(B)), F(2, N(P)), V(V(P))}

RECURSIVE Alphabet(_)
Alphabet(X) ==
  CASE X.k = "prim" -> {"5"}
    [] X.k = "bool" -> {"0", "1"}
    [] X.k = "fsl"  -> [1..X.n -> Alphabet(X.c)]
    [] X.k = "list" -> {<<>>} \cup {<<b>> : b \in Alphabet(X.c)} \cup {<<b, c>> : b, c \in Alphabet(X.c)}
    [] X.k = "null" -> {<<>>} \cup {<<b>> : b \in Alphabet(X.c)}
ItemSeqs(X) == UNION {[1..m -> Alphabet(X)] : m \in 0..MaxItems}

(* Offset-free representation of items. *)
Byte(xs) == LET f[i \in 0..Len(xs)] == IF i = 0 THEN 0 ELSE f[i - 1] + (IF xs[i] = "1" THEN Pow2[i - 1] ELSE 0) IN f[Len(xs)]
Bits(xs) == [by |-> [j \in 1..CeilDiv(Len(xs), W) |-> Byte(SubSeq(xs, (j - 1) * W + 1, Min(j * W, Len(xs))))],
             len |-> Len(xs), off |-> 0]
RECURSIVE Offs(_), Rep(_, _, _)
Offs(xs) == IF xs = <<>> THEN <<0>>
            ELSE LET o == Offs(SubSeq(xs, 1, Len(xs) - 1)) IN Append(o, o[Len(o)] + Len(xs[Len(xs)]))
Rep(X, xs, ex) ==
  CASE X.k = "prim" -> [v |-> xs]
    [] X.k = "bool" -> Bits(xs)
    [] X.k = "fsl"  -> [c |-> Rep(X.c, Flat(xs), ex)]
    [] X.k = "list" -> [o |-> Offs(xs), c |-> Rep(X.c, Flat(xs), ex)]
    [] X.k = "null" -> [bm |-> IF ex \/ NullCount(xs) > 0 THEN <<Bits([i \in 1..Len(xs) |-> IF xs[i] = <<>> THEN "0" ELSE "1"])>> ELSE <<>>,
                        c |-> Rep(X.c, [i \in 1..Len(xs) |-> IF xs[i] = <<>> THEN Default(X.c) ELSE xs[i][1]], ex)]

(* What the exporter makes of a representation. *)
At(v, m) == <<[v |-> v, mis |-> m]>>
RECURSIVE ToC(_, _)
ToC(X, p) ==
  LET Y == Core(X)
      q == IF Nulls(X) THEN p.c ELSE p
      len == PLen(X, p)
      v1 == IF Nulls(X) /\ p.bm # <<>> THEN At(p.bm[1].by, 0) ELSE <<>>
  IN [rel |-> 0, len |-> len, nc |-> IF Nulls(X) THEN NullCount(Decode(X, p)) ELSE 0, off |-> 0,
      nb |-> Buffers(X), nch |-> Bit(HasChild(X)), dict |-> 0, bt |-> 1, ct |-> Bit(HasChild(X)),
      bufs |-> CASE Y.k = "prim" -> <<v1, At(q.v, 0)>>
                 [] Y.k = "bool" -> <<v1, At(q.by, 0)>>
                 [] Y.k = "list" -> <<v1, At(q.o, 0)>>
                 [] Y.k = "fsl"  -> <<v1>>,
      ch |-> IF HasChild(X) THEN <<ToC(Y.c, q.c)>> ELSE <<>>]

Init == /\ L \in Layouts /\ n = 0
        /\ \E xs \in ItemSeqs(L) : \E ex \in BOOLEAN : a = ToC(L, Rep(L, xs, ex))
        /\ s = ExpSchema(L)

(*------------------------------ alterations -----------------------------*)
Dead == [rel |-> 1]
Gone == [rel |-> 2]
NewA(X, t) ==      \* one field of one structure
  IF t.rel # 0 THEN {}
  ELSE {Dead}
       \cup {[t EXCEPT !.len = m] : m \in {-1, t.len + 1, t.len - 1, 0}}
       \cup {[t EXCEPT !.nc = m] : m \in {-2, -1, 0, 1, t.len, t.len + 1}}
       \cup {[t EXCEPT !.off = m] : m \in {1, -1}}
       \cup {[t EXCEPT !.nb = m] : m \in {0, 1, 2, 3}}
       \cup {[t EXCEPT !.nch = m] : m \in {0, 1, 2}}
       \cup {[t EXCEPT !.dict = 1], [t EXCEPT !.bt = 0], [t EXCEPT !.ct = 0]}
       \cup (IF t.ch = <<>> THEN {} ELSE {[t EXCEPT !.ch = <<Gone>>]})
       \cup {[t EXCEPT !.bufs[1] = b] : b \in {<<>>, At(<<0, 0>>, 0), At(<<Pow2[W] - 1, Pow2[W] - 1>>, 1)}}
       \cup (IF Len(t.bufs) < 2 THEN {}
             ELSE {[t EXCEPT !.bufs[2] = <<>>]}
                  \cup (IF t.bufs[2] = <<>> THEN {} ELSE
                        {[t EXCEPT !.bufs[2][1].mis = 2], [t EXCEPT !.bufs[2][1].mis = 8]}
                        \cup (IF Core(X).k = "list"
                              THEN {[t EXCEPT !.bufs[2][1].v[i] = m] : i \in 1..Len(t.bufs[2][1].v), m \in {-1, 0, 1, 2, 3}}
                              ELSE {})))
NewS(X, t) ==
  IF t.rel # 0 THEN {}
  ELSE {Dead}
       \cup {[t EXCEPT !.fmt = f] : f \in {<<>>, <<"i">>, <<"b">>, <<"+l">>, <<"+L">>, <<"+w:2">>, <<"+w:1">>}}
       \cup {[t EXCEPT !.fl = m] : m \in {0, 1, 2, 4, 6}}
       \cup {[t EXCEPT !.nch = m] : m \in {0, 1, 2}}
       \cup {[t EXCEPT !.dict = 1], [t EXCEPT !.ct = 0]}
       \cup (IF t.ch = <<>> THEN {} ELSE {[t EXCEPT !.ch = <<Gone>>]})

RECURSIVE AltA(_, _), AltS(_, _)
AltA(X, t) == NewA(X, t) \cup (IF t.rel = 0 /\ HasChild(X) /\ t.ch # <<>> /\ t.ch[1].rel = 0
                               THEN {[t EXCEPT !.ch[1] = c] : c \in AltA(Child(X), t.ch[1])} ELSE {})
AltS(X, t) == NewS(X, t) \cup (IF t.rel = 0 /\ HasChild(X) /\ t.ch # <<>> /\ t.ch[1].rel = 0
                               THEN {[t EXCEPT !.ch[1] = c] : c \in AltS(Child(X), t.ch[1])} ELSE {})

Next == /\ n < MaxSpoils /\ n' = n + 1 /\ UNCHANGED L
        /\ \/ a' \in AltA(L, a) /\ UNCHANGED s
           \/ s' \in AltS(L, s) /\ UNCHANGED a
Spec == Init /\ [][Next]_vars

(*------------------------------ properties ------------------------------*)
RECURSIVE Room(_, _)     \* buffers hold what the lengths call for: the caller's contract
Room(X, t) ==
  t.rel # 0 \/
  (/\ \A i \in 1..Len(t.bufs) :
        t.bufs[i] = <<>> \/
        Len(t.bufs[i][1].v) >=
          (IF i = 1 \/ Core(X).k = "bool" THEN CeilDiv(Max(t.len, 0), W)
           ELSE IF Core(X).k = "list" THEN Max(t.len, 0) + 1 ELSE t.len)
   /\ (HasChild(X) /\ t.ch # <<>> /\ t.ch[1].rel = 0 => Room(Child(X), t.ch[1])))

Errs == ImportErrs(L, a, s)
Exported == n = 0 => /\ FieldsOK(L, a)
                     /\ Errs = {}
                     /\ WellFormed(L, FromC(L, a))
RECURSIVE Counts(_, _)
Counts(X, t) == /\ t.nc \in {-1, IF Nulls(X) THEN NullCount(Decode(X, FromC(X, t))) ELSE 0}
                /\ HasChild(X) => Counts(Child(X), t.ch[1])
Sound == (Room(L, a) /\ Errs = {}) => /\ Complete(L, a)
                                      /\ WellFormed(L, FromC(L, a))
                                      /\ PLen(L, FromC(L, a)) = a.len
                                      /\ Counts(L, a)
Typed == (Room(L, a) /\ Errs = {}) => LET RECURSIVE Ok(_, _)
                          Ok(X, t) == /\ t.rel = 0 /\ t.fmt = <<Format(X)>> /\ NullableFlag(t.fl) = Nulls(X) /\ t.dict = 0
                                      /\ t.nch = Bit(HasChild(X)) /\ (HasChild(X) => Ok(Child(X), t.ch[1]))
                      IN Ok(L, s)
=============================================================================
