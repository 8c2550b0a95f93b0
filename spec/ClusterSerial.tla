--------------------------- MODULE ClusterSerial ---------------------------
(***************************************************************************)
(* Serial clustering, one action per visited point, over every similarity   *)
(* relation and any number of runs of one clusterer with an order of its    *)
(* own.  The guarantees are checked between and after runs.                 *)
(***************************************************************************)
EXTENDS ClusterOps
CONSTANTS N, MinSizes, Runs, Symmetric, Strict, ResetIds
Points == 1..N
Perms == {s \in [1..N -> Points] : \A i, j \in 1..N : i # j => s[i] # s[j]}
VARIABLES adj, min, own, todo, cls, seq, run, own0, used
vars == <<adj, min, own, todo, cls, seq, run, own0, used>>
Relations == {r \in [Points -> SUBSET Points] : /\ \A p \in Points : p \in r[p]
                                                /\ Symmetric => \A p, q \in Points : p \in r[q] <=> q \in r[p]}
Init == /\ adj \in Relations /\ min \in MinSizes
        /\ own = [p \in Points |-> 0] /\ own0 = own
        /\ todo = <<>> /\ cls = <<>> /\ seq = 0 /\ run = 0 /\ used = {}
Start == /\ todo = <<>> /\ run < Runs
         /\ run' = run + 1
         /\ \E o \in Perms : todo' = (IF run = 0 THEN SubSeq(o, 1, N - 1) ELSE o)     \* the first run does not see all points
         /\ used' = used \cup {cls[i][1] : i \in DOMAIN cls}
         /\ cls' = <<>> /\ own0' = own /\ seq' = (IF ResetIds THEN 0 ELSE seq)
         /\ UNCHANGED <<adj, min, own>>
(* Set to sequence, any order *)
SeqOf(S) == CHOOSE s \in [1..Cardinality(S) -> S] : Rng(s) = S
Visit == /\ todo # <<>>
         /\ LET p == Head(todo)
                S == Free(own, adj[p])
                enough == IF Strict THEN Cardinality(S) > min ELSE Cardinality(S) >= min
            IN  IF own[p] = 0 /\ enough
                THEN /\ seq' = seq + 1
                     /\ own' = [q \in Points |-> IF q \in S THEN seq + 1 ELSE own[q]]
                     /\ cls' = Append(cls, <<seq + 1, SeqOf(S)>>)
                ELSE UNCHANGED <<seq, own, cls>>
         /\ todo' = Tail(todo)
         /\ UNCHANGED <<adj, min, run, own0, used>>
Next == Start \/ Visit
Spec == Init /\ [][Next]_vars
Guarantees == /\ Disjoint(cls) /\ DistinctIds(cls, used) /\ Recorded(cls, own0, own)
              /\ BigEnough(cls, min) /\ Centred(cls, adj)
Classes == todo = <<>> /\ run = 2 /\ Equivalence(adj) => ClassesFound(adj, min, own)
Left == todo = <<>> /\ run = 2 => Complete(Points, adj, min, own)
=============================================================================
