--------------------------- MODULE ClusterParGen ---------------------------
(* Interleavings of the protocol, as the sequence of threads that performed *)
(* the atomic operations.                                                   *)
EXTENDS MCClusterPar, Json
VARIABLES log, kicks
gvars == <<vars, log, kicks>>
Atomic(t) == pc[t] \notin {"filter", "release"} \/ rest[t] # {}
GInit == Init /\ log = <<>> /\ kicks = 0
GNext == \E t \in Threads : /\ Step(t) /\ log' = (IF Atomic(t) THEN Append(log, t) ELSE log)
                            /\ kicks' = kicks + (IF pc[t] \in {"kick", "lose"} THEN 1 ELSE 0)
GSpec == GInit /\ [][GNext]_gvars
(* only those in which clusters competed *)
Emit == (Done /\ kicks > 0) => PrintT(<<"BEHAVIOUR", ToJson([n |-> N, min |-> min, adj |-> adj, chunks |-> Chunks, sched |-> log, kicks |-> kicks])>>)
=============================================================================
