--------------------------- MODULE SimHashIndex ---------------------------
(***************************************************************************)
(* The SimHash index: the W bits are cut into NB blocks; for every choice   *)
(* of NB - K blocks there is a table from the bits of those blocks to ids.  *)
(* Old entries of an id inserted again stay in the tables; the distance     *)
(* filter uses the current signature.  Invariant: by the pigeonhole         *)
(* principle every signature within distance K agrees with the query on     *)
(* some choice of blocks, so queries are exact.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Ids, W, NB, K,
          Slack,      \* tables over NB - K + Slack blocks: 0 is right, 1 loses recall
          Strict,     \* TRUE: filter distance < K instead of <= K
          MaxCalls
VARIABLES sigs, tbl, calls
vars == <<sigs, tbl, calls>>

Sig == [0..(W - 1) -> {0, 1}]
Ham(s, q) == Cardinality({i \in DOMAIN s : s[i] # q[i]})
INSTANCE SimHashOps WITH D <- Ham

(* block i covers the bits (i*W) \div NB .. ((i+1)*W) \div NB - 1 *)
Block(i) == ((i * W) \div NB)..((((i + 1) * W) \div NB) - 1)
Choices == {S \in SUBSET (0..(NB - 1)) : Cardinality(S) = NB - K + Slack}
BitsOf(S) == UNION {Block(i) : i \in S}
Key(s, S) == {i \in BitsOf(S) : s[i] = 1}          \* the masked signature

BlocksPartition == /\ UNION {Block(i) : i \in 0..(NB - 1)} = 0..(W - 1)
                   /\ \A i, j \in 0..(NB - 1) : i # j => Block(i) \cap Block(j) = {}
ASSUME BlocksPartition

Init == sigs = Empty /\ tbl = {} /\ calls = 0
Entries(id, s) == {<<S, Key(s, S), id>> : S \in Choices}
Insert == \E id \in Ids, s \in Sig :
             /\ calls < MaxCalls
             /\ sigs' = Put(sigs, id, s)
             /\ tbl' = tbl \cup Entries(id, s)
             /\ calls' = calls + 1
(* bulk insertion fills the tables with the whole batch, then the map *)
Bulk == \E i1, i2 \in Ids, s1, s2 \in Sig :
             /\ calls + 1 < MaxCalls
             /\ sigs' = PutAll(sigs, <<<<i1, s1>>, <<i2, s2>>>>)
             /\ tbl' = tbl \cup Entries(i1, s1) \cup Entries(i2, s2)
             /\ calls' = calls + 2
Next == Insert \/ Bulk
Spec == Init /\ [][Next]_vars

IQuery(q) == {e[3] : e \in {e \in tbl : /\ e[2] = Key(q, e[1])
                                        /\ IF Strict THEN Ham(sigs[e[3]], q) < K
                                                     ELSE Ham(sigs[e[3]], q) <= K}}
QueryExact == \A q \in Sig : IQuery(q) = Matches(sigs, K, q)
=============================================================================
