---------------------------- MODULE MinHashOps ----------------------------
(***************************************************************************)
(* Pure operators: what "similar" and "candidate" mean for banded MinHash   *)
(* signatures, and what every query form has to answer for a given content. *)
(*                                                                          *)
(* cx is the configuration of an index:                                     *)
(*   b, r    number of bands and rows per band; a signature has b*r entries *)
(*   need    smallest number of agreeing positions that reaches the         *)
(*           threshold (the abstraction of the floating point comparison)   *)
(*   tab     TRUE: signatures are numbers and match/share/band are tables   *)
(*           supplied with the trace; FALSE: signatures are sequences and   *)
(*           the relations are computed here                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Rng(f) == {f[x] : x \in DOMAIN f}
MinN(a, b) == IF a < b THEN a ELSE b
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

-----------------------------------------------------------------------------
(* Signatures *)
Agree(s, q) == Cardinality({i \in DOMAIN s : s[i] = q[i]})
BandOf(s, k, r) == SubSeq(s, (k - 1) * r + 1, k * r)
ShareBand(s, q, b, r) == \E k \in 1..b : BandOf(s, k, r) = BandOf(q, k, r)

Match(cx, s, q) == IF cx.tab THEN cx.match[s][q] ELSE Agree(s, q)
Share(cx, s, q) == IF cx.tab THEN cx.share[s][q] = 1 ELSE ShareBand(s, q, cx.b, cx.r)
Band(cx, s, k)  == IF cx.tab THEN cx.band[s][k] ELSE BandOf(s, k, cx.r)

-----------------------------------------------------------------------------
(* Answers.  sigs is a function from the indexed ids to their signatures.   *)
Candidates(cx, sigs, q) == {id \in DOMAIN sigs : Share(cx, sigs[id], q)}
QSet(cx, sigs, q) ==
    {id \in DOMAIN sigs : Share(cx, sigs[id], q) /\ Match(cx, sigs[id], q) >= cx.need}

NoDup(list) == Cardinality(Rng(list)) = Len(list)

(* list is a sequence of <<id, agreeing positions>>, best first *)
SortedDesc(list) == \A i \in 1..(Len(list) - 1) : list[i][2] >= list[i + 1][2]

SimListOK(cx, sigs, q, list) ==
    LET S == QSet(cx, sigs, q)
    IN  /\ Len(list) = Cardinality(S)
        /\ {list[i][1] : i \in DOMAIN list} = S
        /\ \A i \in DOMAIN list : list[i][2] = Match(cx, sigs[list[i][1]], q)
        /\ SortedDesc(list)

(* one is <<>> or <<id, agreeing positions>> *)
OneOK(cx, sigs, q, one) ==
    LET S == QSet(cx, sigs, q)
    IN  IF S = {} THEN one = <<>>
        ELSE /\ Len(one) = 2
             /\ one[1] \in S
             /\ one[2] = Match(cx, sigs[one[1]], q)
             /\ \A id \in S : Match(cx, sigs[id], q) <= one[2]

TopKOK(cx, sigs, q, k, list) ==
    LET C == Candidates(cx, sigs, q)
        L == {list[i][1] : i \in DOMAIN list}
    IN  /\ Len(list) = MinN(k, Cardinality(C))
        /\ L \subseteq C
        /\ Cardinality(L) = Len(list)
        /\ \A i \in DOMAIN list : list[i][2] = Match(cx, sigs[list[i][1]], q)
        /\ SortedDesc(list)
        /\ Len(list) > 0 =>
             \A id \in C \ L : Match(cx, sigs[id], q) <= list[Len(list)][2]

(* number of distinct buckets of band k *)
BucketsOf(cx, S, k) == Cardinality({Band(cx, s, k) : s \in S})
Buckets(cx, sigs, k) == BucketsOf(cx, Rng(sigs), k)

(* cent is a signature: in every band a most frequent band value of the     *)
(* group (a sequence of ids, unknown ones ignored, repeats counted)         *)
Freq(cx, sigs, group, k, v) ==
    Cardinality({i \in DOMAIN group : group[i] \in DOMAIN sigs /\ Band(cx, sigs[group[i]], k) = v})
CentroidOK(cx, sigs, group, cent) ==
    /\ Len(cent) = cx.b * cx.r
    /\ \A k \in 1..cx.b :
         LET v  == BandOf(cent, k, cx.r)
             vs == {Band(cx, sigs[id], k) : id \in (Rng(group) \cap DOMAIN sigs)}
         IN  /\ v \in vs
             /\ \A w \in vs : Freq(cx, sigs, group, k, w) <= Freq(cx, sigs, group, k, v)

-----------------------------------------------------------------------------
(* Effects of the mutating operations on the content                        *)
Without(sigs, S) == [id \in (DOMAIN sigs) \ S |-> sigs[id]]
Put(sigs, id, s) == [i \in (DOMAIN sigs) \cup {id} |-> IF i = id THEN s ELSE sigs[i]]

(* batch: sequence of <<id, signature>>; one after the other, so the last   *)
(* occurrence of an id wins                                                 *)
LastPos(batch, id) == MaxOf({i \in DOMAIN batch : batch[i][1] = id})
PutAll(sigs, batch) ==
    LET ids == {batch[i][1] : i \in DOMAIN batch}
    IN  [id \in (DOMAIN sigs) \cup ids |->
            IF id \in ids THEN batch[LastPos(batch, id)][2] ELSE sigs[id]]
(* the same for large batches of consecutive ids first, first+1, ... *)
PutRange(sigs, first, ss) ==
    LET last == first + Len(ss) - 1
    IN  [id \in (DOMAIN sigs) \cup (first..last) |->
            IF id >= first /\ id <= last THEN ss[id - first + 1] ELSE sigs[id]]

(* signatures handed back by a bulk removal, in order *)
RemovedSigs(sigs, ids) ==
    LET First(i) == ids[i] \in DOMAIN sigs /\ \A j \in 1..(i - 1) : ids[j] # ids[i]
        idx == SelectSeq([i \in DOMAIN ids |-> i], First)
    IN  [k \in DOMAIN idx |-> sigs[ids[idx[k]]]]
(* the same for the ids first .. first + count - 1 *)
RemovedRange(sigs, first, count) ==
    LET Known(i) == i \in DOMAIN sigs
        ids == SelectSeq([k \in 1..count |-> first + k - 1], Known)
    IN  [k \in DOMAIN ids |-> sigs[ids[k]]]
=============================================================================
