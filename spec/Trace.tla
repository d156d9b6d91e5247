------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Checks traces recorded from the real collections against ArraySpec.     *)
(*                                                                         *)
(* Each trace is a behaviour: one initial state per trace, one step per    *)
(* recorded event.  An event binds its logged arguments to the ArraySpec   *)
(* action of the operation; what the implementation let a user observe     *)
(* after it is then judged clause by clause against the abstract items.    *)
(* Judged clauses are selected by On.                                      *)
(***************************************************************************)
EXTENDS RawParts, Json, IOUtils, TLC

CONSTANTS On,      \* clauses judged
          Rebase   \* TRUE: judge reads against each other (what iteration
                   \* reports) instead of against the operation's meaning

VARIABLES items, tid, l, g
vars == <<items, tid, l, g>>

Abs == INSTANCE ArraySpec

Log == ndJsonDeserialize(IOEnv.TRACE)
T(i) == Log[i]
Lay == T(tid).L
NEv == Len(T(tid).ev)

NoRoom == [n |-> -1, got |-> <<>>]

Init == /\ tid \in 1..Len(Log)
        /\ l = 0
        /\ items = <<>>
        /\ g = [al |-> 0, room |-> NoRoom, ph |-> <<>>, w0 |-> <<>>, kept |-> <<>>, kph |-> <<>>]

(*------------------------------- actions --------------------------------*)
Empties == {"default", "with_capacity", "with_capacity_in", "try_with_capacity_in"}
Mutators == {"new", "ext", "tryext", "trunc", "res", "tryres", "parts", "clone", "swap"}
Observed(e) == e.op \in Mutators /\ "obs" \in DOMAIN e

Clip(x, hi) == IF x < 0 THEN 0 ELSE Min(x, hi)
Produced(e) == IF e.src.panic < 0 THEN Len(e.items) ELSE Min(e.src.panic, Len(e.items))
Survived(e) == IF e.obs.len = <<>> THEN 0 ELSE e.obs.len[1] - Len(items)

Meaning(e) ==
  CASE e.op = "new" ->
         IF e.res # "ok" THEN items' = <<>>
         ELSE IF e.how \in Empties THEN items' = <<>>
         ELSE IF e.how = "phys"
              THEN items' = IF RawErrs(Lay, e.ph) = {} THEN Decode(Lay, e.ph) ELSE <<>>
         ELSE items' = e.items
    [] e.op \in {"ext", "tryext"} ->
         (CASE e.res = "ok"    -> Abs!AppendAll(e.items)
            [] e.res = "err"   -> Abs!Refuse
            [] e.res = "panic" -> Abs!AppendPrefix(e.items, Clip(Survived(e), Produced(e))))
    [] e.op = "trunc" -> Abs!Truncate(IF Huge(e.n) THEN Len(items) ELSE e.n)
    [] e.op \in {"res", "tryres"} -> Abs!Reserve
    [] e.op = "swap" -> items' = g.kept
    [] OTHER -> UNCHANGED items

Act(e) == IF Rebase /\ Observed(e) /\ e.obs.it # <<>>
          THEN items' = e.obs.it[1]
          ELSE Meaning(e)

Room(e) ==
  CASE e.op = "new" -> IF e.res = "ok" /\ e.how \in Empties \ {"default"} /\ ~Huge(e.n)
                       THEN [n |-> e.n, got |-> <<>>] ELSE NoRoom
    [] e.op \in {"res", "tryres"} -> IF e.res = "ok" /\ ~Huge(e.n)
                                     THEN [n |-> e.n, got |-> <<>>] ELSE NoRoom
    [] e.op \in {"ext", "tryext"} -> IF e.res = "ok" /\ g.room.n >= 0
                                     THEN [g.room EXCEPT !.got = @ \o e.items] ELSE NoRoom
    [] OTHER -> NoRoom

Ghost(e) == g' = [al   |-> IF e.op = "new" /\ "al" \in DOMAIN e THEN e.al ELSE g.al,
                  room |-> IF e.op \in Mutators THEN Room(e) ELSE g.room,
                  ph   |-> IF Observed(e) /\ e.obs.ph # <<>> THEN e.obs.ph[1] ELSE g.ph,
                  w0   |-> IF Lay.k = "bool" /\ Observed(e) /\ e.op = "new" THEN e.obs.ph
                           ELSE IF e.op = "clone" THEN <<>> ELSE g.w0,
                  kept |-> IF e.op \in {"clone", "swap"} THEN items ELSE g.kept,
                  kph  |-> IF e.op \in {"clone", "swap"} THEN g.ph ELSE g.kph]

(*------------------------------- clauses --------------------------------*)
(* Each operator below is a set of names of violated clauses.              *)
If(name, violated) == IF violated THEN {name} ELSE {}

(* Outcome of an operation. *)
Interrupted(e) == "src" \in DOMAIN e /\ e.src.panic >= 0
(* The result could not be represented: offsets cannot address its elements. *)
RECURSIVE Runs(_)
Runs(L) == IF "c" \in DOMAIN L THEN Runs(L.c) ELSE L.k = "run"
Overflows(e) == /\ e.op \in {"new", "ext", "tryext"}
                /\ Lay.k = "std"
                /\ Runs(Lay)
                /\ ~Addressable(Lay, IF e.op = "new" THEN e.items ELSE items \o e.items)
Helpless(e) == e.op = "ext" \/ (e.op = "new" /\ e.how \in {"collect", "from_iter_in"})
(* Infallible operations have no way to refuse but a panic. *)
MayPanic(e) == \/ Interrupted(e)
               \/ (Overflows(e) /\ Helpless(e))
               \/ Huge(e.n) /\ (e.op = "res" \/ (e.op = "new" /\ e.how \in {"with_capacity", "with_capacity_in"}))
OutcomeBad(e) ==
  IF e.op \notin Mutators THEN {}
  ELSE If("nopanic", e.res = "panic" /\ ~MayPanic(e))
       \cup If("prefix", e.res = "panic" /\ MayPanic(e) /\ e.op \in {"ext", "tryext"} /\
                         (e.obs.len = <<>> \/ Survived(e) # Clip(Survived(e), Produced(e))))
       \cup If("just", e.res = "err" /\ ~(e.op = "new" /\ e.how = "phys") /\ e.op # "parts" /\
                       e.fired = 0 /\ ~Huge(e.n) /\ ~Overflows(e))
       \cup If("refuse", e.res = "ok" /\ "n" \in DOMAIN e /\ Huge(e.n) /\ e.op # "trunc")
       \cup If("refuse", e.res = "ok" /\ Overflows(e))
       \cup If("reparts", e.op = "parts" /\ e.res # "ok")
       \cup (IF e.op = "new" /\ e.how = "phys" /\ e.res # "unsupported"
             THEN LET bad == RawErrs(Lay, e.ph)
                  IN If("accept", (e.res = "ok") # (bad = {}))
                     \cup If("truth", e.res = "err" /\ <<e.err.e, e.err.f>> \notin bad)
             ELSE {})
       \cup If("grow", /\ e.op \in {"ext", "tryext"} /\ e.res = "ok" /\ g.room.n >= 0
                       /\ Within(Lay, g.room.n, g.room.got \o e.items) /\ e.grew # 0)

(* Validity answers at every nullable node. *)
RECURSIVE VQ(_, _, _)
VQ(X, p, xs) ==
  CASE X.k \in {"prim", "bool", "std"} -> TRUE
    [] X.k = "fsl"  -> VQ(X.c, p.c, Flat(xs))
    [] X.k = "list" -> VQ(X.c, p.c, Decode(X.c, p.c))
    [] X.k = "null" ->
         LET n == Len(xs)
             nulls == NullCount(xs)
             q == p.q
         IN /\ q.nc = nulls /\ q.vc = n - nulls
            /\ q.anyn = (nulls > 0) /\ q.alln = (nulls = n)
            /\ q.anyv = (nulls < n) /\ q.allv = (nulls = 0)
            /\ q.iv = [i \in 1..n |-> IF xs[i] = <<>> THEN 0 ELSE 1]
            /\ q.in = [i \in 1..n |-> IF xs[i] = <<>> THEN 1 ELSE 0]
            /\ q.oob
            /\ VQ(X.c, p.c, Decode(X.c, p.c))

(* Bits before a window are untouched for the window's whole life, even if *)
(* the window itself moves. *)
Before(a, b) == \A i \in 0..(a.off - 1) : BitOf(a.by, i) = BitOf(b.by, i)
Guarded(a, b) == W * Len(b.by) >= a.off /\ Before(a, b)

Wrap(xs) == [i \in 1..Len(xs) |-> <<xs[i]>>]

(* What a user can observe, judged against the expected items x. *)
ObsBad(e, x) ==
  LET o == e.obs
      wf == o.ph # <<>> /\ WellFormed(Lay, o.ph[1])
  IN If("len", o.len # <<Len(x)>>)
     \cup If("empty", o.empty # <<IF x = <<>> THEN 1 ELSE 0>>)
     \cup If("view", o.vw # <<Wrap(x)>>)
     \cup If("owned", o.ow # <<Wrap(x)>>)
     \cup If("iter", o.it # <<x>>)
     \cup If("oob", o.oob # <<1>>)
     \cup If("nested", o.anom # 0)
     \cup If("format", ~wf)
     \cup If("encode", wf /\ Decode(Lay, o.ph[1]) # x)
     \cup If("agree", wf /\ PLen(Lay, o.ph[1]) # Len(x))
     \cup If("queries", wf /\ ~VQ(Lay, o.ph[1], x))
     \cup If("alloc", o.al # <<>> /\ \E i \in 1..Len(o.al[1]) : o.al[1][i] # g'.al)
     \cup If("allocator", "aid" \in DOMAIN e /\ e.aid # <<g'.al>>)
     \cup If("window", /\ Lay.k = "bool" /\ e.op # "new" /\ g.w0 # <<>> /\ o.ph # <<>>
                       /\ ~Guarded(g.w0[1], o.ph[1]))
     \cup If("same", e.op = "new" /\ e.how = "phys" /\ (o.ph = <<>> \/ ~SameParts(Lay, e.ph, o.ph[1])))
     \cup If("same", e.op = "parts" /\ (o.ph = <<>> \/ ~SameParts(Lay, g.ph, o.ph[1])))
     \cup If("copied", /\ e.op = "clone" /\ e.res = "ok" /\ o.ph # <<>> /\ g.ph # <<>>
                       /\ ~SameWindows(Lay, g.ph, o.ph[1]))
     \cup If("copied", /\ e.op = "swap" /\ o.ph # <<>> /\ g.kph # <<>>
                       /\ ~SameWindows(Lay, g.kph, o.ph[1]))
     \cup If("still", e.op \in {"res", "tryres"} /\ (o.len # <<Len(items)>> \/ o.it # <<items>>))
     \cup If("inplace", "inp" \in DOMAIN o /\ o.inp # 1)

(* Iterators: every step of the cursor over a sequence, its exact hints,   *)
(* and its tail. *)
RECURSIVE Cursors(_, _, _)
Cursors(s, c, steps) ==
  IF steps = <<>> THEN <<>>
  ELSE LET r == Abs!CursorStep(s, c, IF Huge(Head(steps)) THEN Len(s) ELSE Head(steps))
       IN <<r>> \o Cursors(s, r.next, Tail(steps))
IterBad(e, s) ==
  IF e.out = <<>> THEN {"iterate"}
  ELSE LET o == e.out[1]
           n == Len(s)
           cs == Cursors(s, 0, e.steps)
           at == IF cs = <<>> THEN 0 ELSE cs[Len(cs)].next
           rest == SubSeq(s, at + 1, n)
           exact(h, rem) == h.h = <<rem, rem>> /\ (h.n = rem \/ (e.op # "into" /\ h.n = -3))
       IN If("iterate", \/ Len(o.r) # Len(cs)
                        \/ \E i \in 1..Len(cs) : o.r[i].x # cs[i].item
                        \/ e.tail = "count" /\ o.tail # n - at
                        \/ e.tail = "last" /\ o.tail # (IF rest = <<>> THEN <<>> ELSE <<rest[Len(rest)]>>)
                        \/ e.tail \in {"fold", "rest"} /\ o.tail # rest)
          \cup If("hints", \/ ~exact(o.h0, n)
                           \/ Len(o.r) = Len(cs) /\ \E i \in 1..Len(cs) : ~exact(o.r[i], n - cs[i].next))
          \cup If("nested", e.anom # 0)

(* Rows: the items of one list row, <<>> wrapped when the row is null. *)
RowAt(i) == IF Lay.k = "null" THEN items[i] ELSE <<items[i]>>
RowBad(e) ==
  LET r == RowAt(e.i + 1)
  IN IF r = <<>> THEN If("iterate", e.out # <<>>) ELSE IterBad(e, r[1])

(* Comparisons: equal exactly when both are there and hold equal elements. *)
Truth(b) == IF b THEN 1 ELSE 0
EqBad(e) ==
  IF e.out = <<>> THEN {"compare"}
  ELSE LET n == Len(items)
           o == e.out[1]
       IN If("compare",
             \/ o.rows # [i \in 1..n |-> [j \in 1..n |-> Truth(RowAt(i) # <<>> /\ RowAt(i) = RowAt(j))]]
             \/ o.cands # [i \in 1..n |-> [j \in 1..Len(e.cands) |-> Truth(RowAt(i) = <<e.cands[j]>>)]])

Bad(e) ==
  IF e.op \in {"abort", "hang"} THEN {"alive"}
  ELSE IF e.op \in {"iter", "into"} THEN IterBad(e, items)
  ELSE IF e.op = "row" THEN RowBad(e)
  ELSE IF e.op = "eq" THEN EqBad(e)
  ELSE OutcomeBad(e) \cup (IF Observed(e) THEN ObsBad(e, items') ELSE {})

Next ==
  /\ l < NEv
  /\ LET e == T(tid).ev[l + 1]
     IN /\ Act(e)
        /\ Ghost(e)
        /\ l' = l + 1
        /\ UNCHANGED tid
        /\ LET bad == Bad(e) \cap On
           IN IF bad = {} THEN TRUE ELSE PrintT("REJECT " \o T(tid).id \o " " \o ToString(l + 1) \o " " \o ToString(bad)) /\ FALSE

Spec == Init /\ [][Next]_vars

(* The implementation is never observed in an impossible position. *)
TypeOK == l \in 0..NEv
=============================================================================
