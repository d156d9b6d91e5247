------------------------------- MODULE MCRaw -------------------------------
(***************************************************************************)
(* Checks RawParts against the format rules of Narrow over every small     *)
(* combination of raw parts: parts have no describable defect exactly when *)
(* they are well formed, and what is accepted has a meaning.               *)
(* One state per combination.                                              *)
(***************************************************************************)
EXTENDS RawParts, TLC, FiniteSets

CONSTANTS Layouts, MaxO

VARIABLES L, p

P == [k |-> "prim"]
B == [k |-> "bool"]
F(n, c) == [k |-> "fsl", n |-> n, c |-> c]
V(c) == [k |-> "list", c |-> c]
N(c) == [k |-> "null", c |-> c]
Small == {P, B, N(P), N(B), V(P), V(B), F(0, P), F(1, B), F(2, P), F(2, B), F(3, P)}
Deep  == {N(V(P)), V(N(P)), N(F(2, P)), F(2, V(P)), V(F(2, P)), F(2, N(P)), N(N(P)), F(2, F(2, P)), V(V(P))}

AnyBits == [by : UNION {[1..n -> {0, Pow2[W] - 1}] : n \in 0..2}, len : -1..(2 * W + 1), off : -1..(2 * W + 1)]
FewBits == [by : UNION {[1..n -> {1}] : n \in 0..1}, len : -1..(W + 1), off : {-1, 0, 1, W}]
Numbers == {-BigOffset, -1, 0, 1, 2, 3, BigOffset}

RECURSIVE Parts(_, _)
Parts(X, deep) ==
  CASE X.k = "prim" -> {[v |-> [i \in 1..n |-> "1"]] : n \in 0..4}
    [] X.k = "bool" -> IF deep THEN FewBits ELSE AnyBits
    [] X.k = "fsl"  -> {[c |-> q] : q \in Parts(X.c, deep)}
    [] X.k = "list" -> [o : UNION {[1..n -> Numbers] : n \in 0..(IF deep THEN 2 ELSE MaxO)}, c : Parts(X.c, TRUE)]
    [] X.k = "null" -> [bm : {<<>>} \cup {<<b>> : b \in IF deep THEN FewBits ELSE AnyBits}, c : Parts(X.c, TRUE)]

Init == L \in Layouts /\ p \in Parts(L, FALSE)
Spec == Init /\ [][FALSE]_<<L, p>>

RECURSIVE WF(_, _)       \* the format's rules, for layouts with a meaning
WF(X, q) == /\ (X.k = "fsl" => X.n > 0)
            /\ CASE X.k = "fsl"  -> WF(X.c, q.c) /\ PLen(X.c, q.c) % X.n = 0
                 [] X.k = "list" -> WF(X.c, q.c) /\ OffsetsWF(q.o, PLen(X.c, q.c))
                 [] X.k = "null" -> /\ WF(X.c, q.c)
                                    /\ q.bm # <<>> => BitsWF(q.bm[1]) /\ q.bm[1].len = PLen(X.c, q.c)
                 [] X.k = "bool" -> BitsWF(q)
                 [] OTHER -> TRUE

Exact == (RawErrs(L, p) = {}) <=> WF(L, p)
Meaning == WF(L, p) => Len(Decode(L, p)) = PLen(L, p)
Itself == WF(L, p) => SameParts(L, p, p)
=============================================================================
