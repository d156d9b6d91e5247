------------------------------- MODULE Copies -------------------------------
(***************************************************************************)
(* Copies and comparisons.                                                 *)
(*                                                                         *)
(* Two handles on list arrays over a heap of buffers.  A handle is a pair  *)
(* of buffer names (offsets, values); Copy gives the second handle buffers *)
(* of its own, after which appending through or truncating either leaves   *)
(* the other's items alone.  Compare walks a row, which is a window of the *)
(* shared values buffer, beside a candidate row: the lengths first, then   *)
(* element by element, stopping at the first difference, as the            *)
(* implementation does; its verdict is equality of the rows' items.        *)
(***************************************************************************)
EXTENDS Narrow, FiniteSets

CONSTANTS Vals, MaxRows, MaxRow, MaxSlack

VARIABLES heap,    \* buffer name -> contents
          h,       \* handle -> [o, v] buffer names, or <<>> before Copy
          abs,     \* handle -> items (ghost)
          cmp      \* comparison under way
vars == <<heap, h, abs, cmp>>

Names == {"o1", "v1", "o2", "v2"}
Idle == [on |-> FALSE, verdict |-> "none"]
L == [k |-> "list", c |-> [k |-> "prim"]]
Parts(k) == [o |-> heap[h[k].o], c |-> [v |-> heap[h[k].v]]]
Live(k) == h[k] # <<>>
Rows == UNION {[1..n -> Vals] : n \in 0..MaxRow}

Init == /\ \E s \in UNION {[1..n -> Vals] : n \in 0..MaxSlack} :
             heap = [x \in Names |-> IF x = "o1" THEN <<0>> ELSE IF x = "v1" THEN s ELSE <<>>]
        /\ h = [k \in {1, 2} |-> IF k = 1 THEN [o |-> "o1", v |-> "v1"] ELSE <<>>]
        /\ abs = [k \in {1, 2} |-> <<>>]
        /\ cmp = Idle

(* Unreferenced values beyond the last row are dropped by the next append. *)
Push(k, row) ==
  /\ Live(k) /\ ~cmp.on /\ Len(abs[k]) < MaxRows
  /\ LET o == heap[h[k].o]
         end == o[Len(o)]
         v == Take(heap[h[k].v], end) \o row
     IN heap' = [heap EXCEPT ![h[k].v] = v, ![h[k].o] = Append(@, Len(v))]
  /\ abs' = [abs EXCEPT ![k] = Append(@, row)]
  /\ UNCHANGED <<h, cmp>>

Truncate(k, n) ==
  /\ Live(k) /\ ~cmp.on /\ n < Len(abs[k])
  /\ LET o == Take(heap[h[k].o], n + 1)
     IN heap' = [heap EXCEPT ![h[k].o] = o, ![h[k].v] = Take(@, o[n + 1])]
  /\ abs' = [abs EXCEPT ![k] = Take(@, n)]
  /\ UNCHANGED <<h, cmp>>

Copy ==
  /\ ~Live(2) /\ ~cmp.on
  /\ heap' = [heap EXCEPT !["o2"] = heap["o1"], !["v2"] = heap["v1"]]
  /\ h' = [h EXCEPT ![2] = [o |-> "o2", v |-> "v2"]]
  /\ abs' = [abs EXCEPT ![2] = abs[1]]
  /\ UNCHANGED cmp

Begin(k, i, c) ==
  /\ Live(k) /\ ~cmp.on /\ i \in 1..Len(abs[k])
  /\ LET o == heap[h[k].o]
         w == [lo |-> o[i], hi |-> o[i + 1]]
     IN cmp' = [on |-> TRUE, k |-> k, i |-> i, c |-> c, w |-> w, at |-> 0,
                verdict |-> IF w.hi - w.lo # Len(c) THEN "no" ELSE "open"]
  /\ UNCHANGED <<heap, h, abs>>

Step ==
  /\ cmp.on /\ cmp.verdict = "open"
  /\ cmp' = IF cmp.at = Len(cmp.c) THEN [cmp EXCEPT !.verdict = "yes"]
            ELSE IF heap[h[cmp.k].v][cmp.w.lo + cmp.at + 1] = cmp.c[cmp.at + 1]
            THEN [cmp EXCEPT !.at = @ + 1] ELSE [cmp EXCEPT !.verdict = "no"]
  /\ UNCHANGED <<heap, h, abs>>

Done == cmp.on /\ cmp.verdict \in {"yes", "no"} /\ cmp' = Idle /\ UNCHANGED <<heap, h, abs>>

Next == \/ \E k \in {1, 2}, r \in Rows : Push(k, r)
        \/ \E k \in {1, 2}, n \in 0..(MaxRows - 1) : Truncate(k, n)
        \/ Copy
        \/ \E k \in {1, 2}, i \in 1..MaxRows, c \in Rows : Begin(k, i, c)
        \/ Step \/ Done

Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

(* Each handle encodes its own history, whatever happened through the other. *)
Independent == \A k \in {1, 2} : Live(k) => WellFormed(L, Parts(k)) /\ Decode(L, Parts(k)) = abs[k]
Separate == Live(2) => {h[1].o, h[1].v} \cap {h[2].o, h[2].v} = {}
Verdict == cmp.on /\ cmp.verdict \in {"yes", "no"} =>
             (cmp.verdict = "yes") = (abs[cmp.k][cmp.i] = cmp.c)
(* Nothing the comparison reads is outside the row it compares. *)
InRow == cmp.on => cmp.w.lo + cmp.at <= cmp.w.hi \/ cmp.verdict = "no"
Decides == cmp.verdict = "open" ~> cmp.verdict # "open"
=============================================================================
