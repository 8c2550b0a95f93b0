---------------------------- MODULE ClusterGen ----------------------------
(* Every symmetric reflexive similarity relation, minimum size and order.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Mins
Points == 1..N
Edges == {<<p, q>> \in Points \X Points : p < q}
VARIABLES edges, min, order
vars == <<edges, min, order>>
Init == /\ edges \in SUBSET Edges /\ min \in Mins
        /\ order \in {s \in [1..N -> Points] : \A i, j \in 1..N : i # j => s[i] # s[j]}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Nb(p) == {q \in Points : q = p \/ <<p, q>> \in edges \/ <<q, p>> \in edges}
Emit == PrintT(<<"BEHAVIOUR", ToJson([n |-> N, min |-> min, order |-> order, adj |-> [p \in Points |-> Nb(p)]])>>)
=============================================================================
