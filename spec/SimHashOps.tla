---------------------------- MODULE SimHashOps ----------------------------
(***************************************************************************)
(* What a SimHash index answers for a given content.  k is the allowed      *)
(* Hamming distance, D(s, q) the distance of two signatures.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANT D(_, _)

Rng(f) == {f[x] : x \in DOMAIN f}
Empty == [id \in {} |-> 0]

Matches(sigs, k, q) == {id \in DOMAIN sigs : D(sigs[id], q) <= k}

SetIs(list, want) == Rng(list) = want /\ Len(list) = Cardinality(want)

(* list of <<id, distance>>, nearest first *)
DistListOK(sigs, k, q, list) ==
    LET S == Matches(sigs, k, q)
    IN  /\ Len(list) = Cardinality(S)
        /\ {list[i][1] : i \in DOMAIN list} = S
        /\ \A i \in DOMAIN list : list[i][2] = D(sigs[list[i][1]], q)
        /\ \A i \in 1..(Len(list) - 1) : list[i][2] <= list[i + 1][2]

(* <<>> or <<id, distance>> *)
NearestOK(sigs, k, q, one) ==
    LET S == Matches(sigs, k, q)
    IN  IF S = {} THEN one = <<>>
        ELSE /\ Len(one) = 2
             /\ one[1] \in S
             /\ one[2] = D(sigs[one[1]], q)
             /\ \A id \in S : one[2] <= D(sigs[id], q)

Put(sigs, id, s) == [i \in (DOMAIN sigs) \cup {id} |-> IF i = id THEN s ELSE sigs[i]]
PutAll(sigs, batch) ==
    LET ids == {batch[i][1] : i \in DOMAIN batch}
        Last(id) == CHOOSE i \in DOMAIN batch :
                      batch[i][1] = id /\ \A j \in DOMAIN batch : batch[j][1] = id => j <= i
    IN  [id \in (DOMAIN sigs) \cup ids |-> IF id \in ids THEN batch[Last(id)][2] ELSE sigs[id]]
PutRange(sigs, first, ss) ==
    LET last == first + Len(ss) - 1
    IN  [id \in (DOMAIN sigs) \cup (first..last) |->
            IF id >= first /\ id <= last THEN ss[id - first + 1] ELSE sigs[id]]
=============================================================================
