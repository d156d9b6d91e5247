-------------------------------- MODULE Ffi --------------------------------
(***************************************************************************)
(* The Arrow C Data Interface as this system uses it: what an array of a   *)
(* layout looks like as C structures, how a consumer reads such structures *)
(* back, and when foreign structures describe an array of a layout.        *)
(*                                                                         *)
(* C structures are trees of records:                                      *)
(*   array  [rel, len, nc, off, nb, nch, dict, bt, bufs, ct, ch]           *)
(*   schema [rel, fmt, name, meta, fl, nch, dict, ct, ch]                  *)
(* rel is 1 for a released structure (which has no other fields) and 2 for *)
(* a null child pointer; bt and ct say whether the pointer tables exist;   *)
(* a buffer is <<>> when its pointer is null, otherwise <<[v, mis]>> with  *)
(* the values there and its address modulo 16.                             *)
(*                                                                         *)
(* Each layout node other than "null" is one structure; validity belongs   *)
(* to the structure of the layout it makes nullable.                       *)
(***************************************************************************)
EXTENDS RawParts, TLC

Core(L) == IF L.k = "null" THEN L.c ELSE L          \* the node's own layout
Nulls(L) == L.k = "null"
HasChild(L) == Core(L).k \in {"fsl", "list"}
Child(L) == Core(L).c
Buffers(L) == IF Core(L).k = "fsl" THEN 1 ELSE 2
Format(L) ==
  CASE Core(L).k = "prim" -> Core(L).f
    [] Core(L).k = "bool" -> "b"
    [] Core(L).k = "fsl"  -> "+w:" \o ToString(Core(L).n)
    [] Core(L).k = "list" -> IF Core(L).w = "32" THEN "+l" ELSE "+L"
Align(L) ==
  CASE Core(L).k = "prim" -> Core(L).al
    [] Core(L).k = "list" -> IF Core(L).w = "32" THEN 4 ELSE 8
    [] OTHER -> 1
Bit(b) == IF b THEN 1 ELSE 0

RECURSIVE Depth(_)
Depth(L) == IF HasChild(L) THEN 1 + Depth(Child(L)) ELSE 1

(*------------------------------ exporting -------------------------------*)
RECURSIVE ExpSchema(_)
ExpSchema(L) ==
  [rel |-> 0, fmt |-> <<Format(L)>>, name |-> <<"">>, meta |-> 0, fl |-> 2 * Bit(Nulls(L)),
   nch |-> Bit(HasChild(L)), dict |-> 0, ct |-> Bit(HasChild(L)),
   ch |-> IF HasChild(L) THEN <<ExpSchema(Child(L))>> ELSE <<>>]

(* The physical representation a consumer finds behind an array.           *)
Buf(a, i) == IF Len(a.bufs) >= i THEN a.bufs[i] ELSE <<>>
Vals(a, i) == IF Buf(a, i) = <<>> THEN <<>> ELSE Buf(a, i)[1].v
RECURSIVE FromC(_, _)
FromC(L, a) ==
  LET X == Core(L)
      p == CASE X.k = "prim" -> [v |-> Take(Vals(a, 2), a.len)]
             [] X.k = "bool" -> [by |-> Vals(a, 2), len |-> a.len, off |-> 0]
             [] X.k = "fsl"  -> [c |-> FromC(X.c, a.ch[1])]
             [] X.k = "list" -> [o |-> IF a.len = 0 /\ Buf(a, 2) = <<>> THEN <<0>> ELSE Take(Vals(a, 2), a.len + 1),
                                 c |-> FromC(X.c, a.ch[1])]
  IN IF Nulls(L)
     THEN [bm |-> IF Buf(a, 1) = <<>> THEN <<>> ELSE <<[by |-> Vals(a, 1), len |-> a.len, off |-> 0]>>, c |-> p]
     ELSE p

(* Is the array tree complete, so that FromC means something?              *)
RECURSIVE Complete(_, _)
Complete(L, a) ==
  /\ a.rel = 0 /\ a.len >= 0
  /\ Core(L).k \in {"prim", "bool"} => (a.len > 0 => Buf(a, 2) # <<>>)
  /\ HasChild(L) => (Len(a.ch) = 1 /\ Complete(Child(L), a.ch[1]))

(* Every field of every structure, given what the buffers hold.            *)
RECURSIVE FieldsOK(_, _)
FieldsOK(L, a) ==
  LET p == FromC(L, a)
      d == Decode(L, p)
  IN /\ Complete(L, a) /\ WellFormed(L, p)
     /\ a.len = PLen(L, p)
     /\ a.nc = (IF Nulls(L) THEN NullCount(d) ELSE 0)
     /\ a.off = 0 /\ a.nb = Buffers(L) /\ a.dict = 0 /\ a.bt = 1
     /\ a.nch = Bit(HasChild(L)) /\ a.ct = Bit(HasChild(L))
     /\ (~Nulls(L) => Buf(a, 1) = <<>>)
     /\ (Core(L).k = "list" => Buf(a, 2) # <<>>)
     /\ \A i \in 1..Len(a.bufs) : Buf(a, i) # <<>> => (i = 2 => Buf(a, 2)[1].mis % Align(L) = 0)
     /\ HasChild(L) => FieldsOK(Child(L), a.ch[1])

(* Bit offsets an exporter cannot express.                                 *)
RECURSIVE BitOffsets(_, _)
BitOffsets(L, p) ==
  CASE L.k = "prim" -> {}
    [] L.k = "bool" -> {p.off} \ {0}
    [] L.k \in {"fsl", "list"} -> BitOffsets(L.c, p.c)
    [] L.k = "null" -> (IF p.bm = <<>> THEN {} ELSE {p.bm[1].off} \ {0}) \cup BitOffsets(L.c, p.c)

(*------------------------------ importing -------------------------------*)
(* Defects of foreign structures, as the errors that describe them; the    *)
(* structures are a supported description exactly when there is none.      *)
NullableFlag(fl) == (fl \div 2) % 2 = 1
Defect(bad, name, fields) == IF bad THEN {<<name, fields>>} ELSE {}

Known(n) == n > -BigOffset /\ n < BigOffset
(* len * n = m for values that may be codes of huge numbers: the only huge *)
(* values that are multiples of one another here are 2^31 and 2^32.        *)
Times(len, n, m) ==
  IF Known(len) /\ Known(m) THEN len * n = m
  ELSE IF Known(len) \/ Known(m) THEN FALSE
  ELSE (n = 1 /\ len = m) \/ (n = 2 /\ len = BigOffset + 1 /\ m = BigOffset + 2)

RECURSIVE SchemaErrs(_, _)
SchemaErrs(L, s) ==
  IF s.rel = 1 THEN {<<"ReleasedSchema", <<>>>>}
  ELSE Defect(s.fmt = <<>>, "MissingFormat", <<>>)
       \cup Defect(s.fmt # <<>> /\ s.fmt # <<Format(L)>>, "UnexpectedFormat", <<>>)
       \cup Defect(NullableFlag(s.fl) # Nulls(L), "UnexpectedFlags", <<s.fl>>)
       \cup Defect(s.dict = 1, "UnexpectedDictionary", <<>>)
       \cup (IF ~HasChild(L) THEN {}
             ELSE IF s.ct = 0 \/ (s.ch # <<>> /\ s.ch[1].rel = 2) THEN {<<"MissingSchemaChildren", <<>>>>}
             ELSE IF s.ch = <<>> THEN {}
             ELSE SchemaErrs(Child(L), s.ch[1]))

Unset(by, n) == IF n = 0 THEN 0 ELSE Len(SelectSeq([i \in 1..n |-> BitOf(by, i - 1)], LAMBDA b : b = 0))

RECURSIVE ArrayErrs(_, _)
ArrayErrs(L, a) ==
  IF a.rel = 1 THEN {<<"ReleasedArray", <<>>>>}
  ELSE LET X == Core(L)
           len == a.len
           sane == len >= 0 /\ Known(len)
           tab == a.bt = 1
           b2 == Buf(a, 2)
           node == IF HasChild(L) /\ a.ct = 1 /\ a.ch # <<>> /\ a.ch[1].rel # 2 THEN a.ch ELSE <<>>
           kid == IF node # <<>> /\ node[1].rel = 0 THEN node ELSE <<>>
       IN Defect(len < 0, "InvalidLength", <<len>>)
          \cup Defect(a.off # 0, "NonZeroOffset", <<a.off>>)
          \cup Defect(a.nc < -1 \/ a.nc > len \/ (~Nulls(L) /\ a.nc > 0), "UnexpectedNullCount", <<a.nc>>)
          \cup Defect(a.nb # Buffers(L), "UnexpectedBufferCount", <<a.nb>>)
          \cup Defect(a.dict = 1, "UnexpectedDictionary", <<>>)
          \cup Defect(a.bt = 0, "MissingBufferPointers", <<>>)
          \cup Defect(HasChild(L) /\ (a.ct = 0 \/ (a.ch # <<>> /\ a.ch[1].rel = 2)), "MissingArrayChildren", <<>>)
          \cup (IF X.k \in {"prim", "bool"} /\ sane /\ len > 0 /\ tab
                THEN Defect(b2 = <<>>, "MissingValuesBuffer", <<>>)
                     \cup Defect(b2 # <<>> /\ b2[1].mis % Align(L) # 0, "MisalignedValuesBuffer", <<Align(L)>>)
                ELSE {})
          \cup (IF X.k = "list" /\ sane /\ tab
                THEN Defect(b2 = <<>>, "MissingOffsetsBuffer", <<>>)
                     \cup Defect(b2 # <<>> /\ b2[1].mis % Align(L) # 0, "MisalignedOffsetsBuffer", <<Align(L)>>)
                     \cup (IF b2 # <<>> /\ kid # <<>> /\ kid[1].len >= 0
                           THEN {<<"InvalidOffsets." \o x[1], x[2]>> : x \in OffsetsErrs(Take(b2[1].v, len + 1), kid[1].len)}
                           ELSE {})
                ELSE {})
          \cup (IF X.k = "fsl"
                THEN IF X.n = 0 THEN {<<"UnsupportedFixedSizeListSize", <<0>>>>}
                     ELSE IF len >= 0 /\ kid # <<>> /\ kid[1].len >= 0
                     THEN Defect(~Times(len, X.n, kid[1].len), "FixedSizeListLengthMismatch", <<len, kid[1].len, X.n>>)
                     ELSE {}
                ELSE {})
          \cup (IF Nulls(L) /\ sane /\ tab
                THEN IF Buf(a, 1) = <<>>
                     THEN Defect(a.nc # 0 /\ len > 0, "MissingValidityBuffer", <<>>)
                     ELSE LET actual == Unset(Buf(a, 1)[1].v, len)
                          IN Defect(a.nc >= 0 /\ a.nc # actual, "NullCountMismatch", <<a.nc, actual>>)
                ELSE {})
          \cup (IF node # <<>> THEN ArrayErrs(Child(L), node[1]) ELSE {})

(* Child counts need both structures.                                      *)
RECURSIVE CountErrs(_, _, _)
CountErrs(L, a, s) ==
  IF a.rel # 0 \/ s.rel # 0 THEN {}
  ELSE LET n == Bit(HasChild(L))
       IN Defect(a.nch # n \/ s.nch # n, "UnexpectedChildCount", <<a.nch, s.nch>>)
          \cup (IF HasChild(L) /\ a.ct = 1 /\ s.ct = 1 /\ a.ch # <<>> /\ s.ch # <<>>
                THEN CountErrs(Child(L), a.ch[1], s.ch[1]) ELSE {})

ImportErrs(L, a, s) == ArrayErrs(L, a) \cup SchemaErrs(L, s) \cup CountErrs(L, a, s)
=============================================================================
