---------------------------- MODULE MCArrayImpl ----------------------------
EXTENDS ArrayImpl
P == [k |-> "prim"]
B == [k |-> "bool"]
F(n, c) == [k |-> "fsl", n |-> n, c |-> c]
V(c) == [k |-> "list", c |-> c]
N(c) == [k |-> "null", c |-> c]
Flat1 == {P, B, N(P), N(B)}
Bools == {B}
Nest1 == {F(2, P), F(3, B), V(P), V(B), F(2, N(P)), V(N(P)), N(F(2, P)), N(V(P)), N(N(P)), N(F(3, B))}
Nest2 == {V(V(P)), V(F(2, B)), F(2, V(P)), N(V(N(P))), V(N(V(P))), N(F(2, N(B))), F(2, F(2, B)), F(2, N(V(P)))}
=============================================================================
