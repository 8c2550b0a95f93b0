---------------------------- MODULE ClusterMem ----------------------------
(***************************************************************************)
(* The protocol of ClusterPar with the orderings of its atomic operations.  *)
(* What a thread knows is the set of clusters whose initialisation happens  *)
(* before its next step.  A releasing operation leaves the knowledge of the *)
(* thread at the location, an acquiring one takes it from there; relaxed    *)
(* read-modify-writes continue the release sequence of the location.  A     *)
(* thread that looks into a cluster it does not know races with the thread  *)
(* that initialised it.  (Values are read as in ClusterPar; stale values    *)
(* are left to the executions in Miri.)                                     *)
(***************************************************************************)
EXTENDS MCClusterPar
CONSTANTS OwnLoad, ClaimOk, ClaimFail, StateLoad, StateOk, StateFail, FreeOk, FreeFail   \* subsets of {"acq", "rel"}
VARIABLES knows, atOwn, atState, race
mem == <<knows, atOwn, atState, race>>
Acq(t, order, left) == knows' = [knows EXCEPT ![t] = IF "acq" \in order THEN @ \cup left ELSE @]
Left(t, order, left) == IF "rel" \in order THEN left \cup knows[t] ELSE left
LoadOwn(t, p, order) == Acq(t, order, atOwn[p]) /\ UNCHANGED <<atOwn, atState>>
SetOwn(t, p, order) == /\ Acq(t, order, atOwn[p]) /\ UNCHANGED atState
                       /\ atOwn' = [atOwn EXCEPT ![p] = Left(t, order, @)]
LoadState(t, c, order) == Acq(t, order, atState[c]) /\ UNCHANGED <<atOwn, atState>>
SetState(t, c, order) == /\ Acq(t, order, atState[c]) /\ UNCHANGED atOwn
                         /\ atState' = [atState EXCEPT ![c] = Left(t, order, @)]
Swap(t, c, ok, fail) == IF st[c] = "new" THEN SetState(t, c, ok) ELSE LoadState(t, c, fail)
Into(t, c) == race' = (race \/ c \notin knows[t])
Calm == race' = race
MInit == /\ Init /\ knows = [t \in Threads |-> {}] /\ atOwn = [p \in Points |-> {}] /\ atState = <<>> /\ race = FALSE
MStep(t) ==
    \/ Visit(t) /\ LoadOwn(t, Head(todo[t]), OwnLoad) /\ Calm
    \/ Filter(t) /\ Calm /\ IF rest[t] = {} THEN UNCHANGED <<knows, atOwn, atState>> ELSE LoadOwn(t, MinOf(rest[t]), OwnLoad)
    \/ Alloc(t) /\ Calm /\ knows' = [knows EXCEPT ![t] = @ \cup {Len(st) + 1}] /\ atState' = Append(atState, {}) /\ UNCHANGED atOwn
    \/ Check(t) /\ LoadState(t, cl[t], StateLoad) /\ Calm
    \/ Cas(t) /\ Calm /\ IF own' # own THEN SetOwn(t, CHOOSE q \in Points : own'[q] # own[q], ClaimOk) ELSE LoadOwn(t, cur'[t], ClaimFail)
    \/ (Look(t) \/ Look2(t)) /\ LoadState(t, conf[t], StateLoad) /\ Into(t, conf[t])
    \/ Kick(t) /\ Swap(t, conf[t], StateOk, StateFail) /\ Into(t, conf[t])
    \/ (Lose(t) \/ Commit(t)) /\ Swap(t, cl[t], StateOk, StateFail) /\ Calm
    \/ Release(t) /\ Calm /\ IF rest[t] = {} THEN UNCHANGED <<knows, atOwn, atState>>
                             ELSE LET q == MinOf(rest[t]) IN IF own[q] = cl[t] THEN SetOwn(t, q, FreeOk) ELSE LoadOwn(t, q, FreeFail)
MNext == \E t \in Threads : MStep(t)
MSpec == MInit /\ [][MNext]_<<vars, mem>>
NoRace == ~race
RelAcq == {"acq", "rel"}
AcqOnly == {"acq"}
RelOnly == {"rel"}
Relaxed == {}
=============================================================================
