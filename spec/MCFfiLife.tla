----------------------------- MODULE MCFfiLife -----------------------------
(***************************************************************************)
(* The memory behind exported structures, and what every history does to   *)
(* it.  Each unreleased array node has private data that owns the child's  *)
(* structure and, when SHARED, a reference to the array's storage;         *)
(* otherwise only the root's private data owns the storage.  Schema nodes  *)
(* have private data only when they have a child.                          *)
(***************************************************************************)
EXTENDS FfiLife, TLC, Json, IOUtils

CONSTANTS D, SHARED, EMIT, MAXOPS

VARIABLES an, sn,       \* status of array and schema nodes
          ap, sp,       \* private data: times freed
          store,        \* storage: times freed
          imp,          \* something borrows the array
          h             \* the history, when it is emitted
vars == <<an, sn, ap, sp, store, imp, h>>

N == 0..(D - 1)
Init == /\ an = Whole(D) /\ sn = Whole(D)
        /\ ap = [i \in N |-> 0] /\ sp = [i \in N |-> 0]
        /\ store = 0 /\ imp = FALSE /\ h = <<>>

Log(w, op, i) == h' = IF EMIT THEN Append(h, [w |-> w, op |-> op, i |-> i]) ELSE h

(* Releasing node i runs its callback, which frees its private data, which *)
(* drops the child structure if it is still unreleased there.              *)
Freed(n, i) == {k \in N : k = i \/ (k > i /\ \A j \in (i + 1)..k : n[j] = "in")}
FreeArray(i) ==
  LET f == Freed(an, i)
      ap2 == [k \in N |-> IF k \in f THEN ap[k] + 1 ELSE ap[k]]
      owners(p) == IF SHARED THEN {k \in N : p[k] = 0} ELSE {0} \cap {k \in N : p[k] = 0}
  IN /\ ap' = ap2
     /\ store' = IF owners(ap) # {} /\ owners(ap2) = {} THEN store + 1 ELSE store

AOut(i) == /\ CanOut(an, i) /\ an' = Out(an, i) /\ Log("a", "out", i)
           /\ imp' = FALSE /\ UNCHANGED <<sn, ap, sp, store>>
AMove(i) == /\ EMIT /\ an[i] = "held" /\ Log("a", "move", i) /\ imp' = FALSE
            /\ UNCHANGED <<an, sn, ap, sp, store>>
ARel(i) == /\ an[i] = "held" /\ an' = Release(an, i) /\ FreeArray(i) /\ Log("a", "rel", i)
           /\ imp' = FALSE /\ UNCHANGED <<sn, sp>>
ADrop(i) == /\ an[i] \in {"held", "dead"} /\ an' = DropIt(an, i) /\ Log("a", "drop", i)
            /\ IF an[i] = "held" THEN FreeArray(i) ELSE UNCHANGED <<ap, store>>
            /\ imp' = FALSE /\ UNCHANGED <<sn, sp>>
FreeSchema(i) == sp' = [k \in N |-> IF k \in Freed(sn, i) THEN sp[k] + 1 ELSE sp[k]]
SOut(i) == /\ CanOut(sn, i) /\ sn' = Out(sn, i) /\ Log("s", "out", i)
           /\ UNCHANGED <<an, ap, sp, store, imp>>
SMove(i) == /\ EMIT /\ sn[i] = "held" /\ Log("s", "move", i) /\ UNCHANGED <<an, sn, ap, sp, store, imp>>
SRel(i) == /\ sn[i] = "held" /\ sn' = Release(sn, i) /\ FreeSchema(i) /\ Log("s", "rel", i)
           /\ UNCHANGED <<an, ap, store, imp>>
SDrop(i) == /\ sn[i] \in {"held", "dead"} /\ sn' = DropIt(sn, i) /\ Log("s", "drop", i)
            /\ IF sn[i] = "held" THEN FreeSchema(i) ELSE UNCHANGED sp
            /\ UNCHANGED <<an, ap, store, imp>>
Import == /\ an[0] = "held" /\ sn[0] = "held" /\ \A i \in N : i > 0 => an[i] = "in" /\ sn[i] = "in"
          /\ ~imp /\ imp' = TRUE /\ Log("", "import", 0) /\ UNCHANGED <<an, sn, ap, sp, store>>
Refused == /\ EMIT /\ an[0] \in {"held", "dead"} /\ sn[0] \in {"held", "dead"}
           /\ ~(an[0] = "held" /\ sn[0] = "held" /\ \A i \in N : i > 0 => an[i] = "in" /\ sn[i] = "in")
           /\ h # <<>> /\ h[Len(h)].op # "import" /\ Log("", "import", 0) /\ UNCHANGED <<an, sn, ap, sp, store, imp>>
Reread == /\ EMIT /\ imp /\ h[Len(h)].op # "reread" /\ Log("", "reread", 0) /\ UNCHANGED <<an, sn, ap, sp, store, imp>>

Next == /\ EMIT => Len(h) < MAXOPS
        /\ \/ \E i \in N : AOut(i) \/ AMove(i) \/ ARel(i) \/ ADrop(i) \/ SOut(i) \/ SMove(i) \/ SRel(i) \/ SDrop(i)
           \/ Import \/ Refused \/ Reread
Spec == Init /\ [][Next]_vars

(*------------------------------ guarantees ------------------------------*)
(* Nodes a consumer can read: held ones and what is inside them.           *)
Reach(n) == {k \in N : n[k] = "held" \/ (n[k] = "in" /\ \E i \in N : i < k /\ n[i] = "held" /\ \A j \in (i + 1)..k : n[j] = "in")}
ReadSafe == /\ \A k \in Reach(an) : ap[k] = 0 /\ store = 0
            /\ \A k \in Reach(sn) : sp[k] = 0
            /\ imp => (store = 0 /\ \A k \in N : ap[k] = 0)
FreedOnce == store <= 1 /\ \A k \in N : ap[k] <= 1 /\ sp[k] <= 1
NoLeak == /\ Over(an) => (store = 1 /\ \A k \in N : ap[k] = 1)
          /\ Over(sn) => \A k \in N : sp[k] = 1
(* Nothing unreachable stays unreleased. *)
Owned == \A k \in N : (an[k] = "in" => k \in Reach(an)) /\ (sn[k] = "in" => k \in Reach(sn))

(* Emission of the histories enumerated.                                   *)
Done == EMIT => (Len(h) < MAXOPS /\ ~(\A i \in N : an[i] = "none" /\ sn[i] = "none")) \/ PrintT("@" \o ToJson(h))
=============================================================================
