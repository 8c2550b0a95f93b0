--------------------------- MODULE MinHashIndex ---------------------------
(***************************************************************************)
(* The implementation of the index: besides the id -> signature map it has  *)
(* one bucket table per band.  A bucket is an id container, which is a set   *)
(* (HashSetContainer) or a bag (VecContainer, SmallVecContainer).           *)
(* Invariants: the tables are exactly those of the current content, so the  *)
(* candidate based queries answer as the abstract index.                    *)
(***************************************************************************)
EXTENDS MinHashAbs
CONSTANTS Ids, B, R, Vals, Need,
          Kind,      \* "set" or "bag"
          Evict,     \* TRUE: inserting an indexed id first removes its old entries
          MaxBatch
VARIABLE tbl         \* <<band, band content, id>> -> multiplicity (>= 1)

vars == <<cx, sigs, tbl>>
Sig == [1..(B * R) -> Vals]
Batches == UNION {[1..n -> Ids \X Sig] : n \in 0..MaxBatch}
IdSeqs  == UNION {[1..n -> Ids] : n \in 0..(MaxBatch + 1)}

-----------------------------------------------------------------------------
(* id containers and band tables *)
Push(t, e) == IF e \in DOMAIN t
              THEN IF Kind = "set" THEN t ELSE [t EXCEPT ![e] = @ + 1]
              ELSE [x \in (DOMAIN t) \cup {e} |-> IF x = e THEN 1 ELSE t[x]]
Drop(t, e) == IF e \notin DOMAIN t THEN t
              ELSE IF t[e] > 1 THEN [t EXCEPT ![e] = @ - 1]
              ELSE [x \in (DOMAIN t) \ {e} |-> t[x]]

RECURSIVE PushBands(_, _, _, _), DropBands(_, _, _, _)
PushBands(t, id, s, k) == IF k = 0 THEN t
                          ELSE PushBands(Push(t, <<k, BandOf(s, k, R), id>>), id, s, k - 1)
DropBands(t, id, s, k) == IF k = 0 THEN t
                          ELSE DropBands(Drop(t, <<k, BandOf(s, k, R), id>>), id, s, k - 1)

st == [sigs |-> sigs, tbl |-> tbl]
DoRemove(x, id) ==
    IF id \in DOMAIN x.sigs
    THEN [sigs |-> Without(x.sigs, {id}), tbl |-> DropBands(x.tbl, id, x.sigs[id], B)]
    ELSE x
DoInsert(x, id, s) ==
    LET y == IF Evict THEN DoRemove(x, id) ELSE x
    IN  [sigs |-> Put(y.sigs, id, s), tbl |-> PushBands(y.tbl, id, s, B)]

(* bulk insertion: keep the last signature of every id of the batch, evict  *)
(* the ids already indexed, then fill band after band                       *)
RECURSIVE EvictAll(_, _), PushAll(_, _, _)
EvictAll(x, S) == IF S = {} THEN x
                  ELSE LET id == CHOOSE i \in S : TRUE IN EvictAll(DoRemove(x, id), S \ {id})
PushAll(t, f, S) == IF S = {} THEN t
                    ELSE LET id == CHOOSE i \in S : TRUE
                         IN  PushAll(PushBands(t, id, f[id], B), f, S \ {id})
DoBulkInsert(x, batch) ==
    LET ids == {batch[i][1] : i \in DOMAIN batch}
        f   == [id \in ids |-> batch[LastPos(batch, id)][2]]
        y   == EvictAll(x, ids)
    IN  [sigs |-> PutAll(y.sigs, batch), tbl |-> PushAll(y.tbl, f, ids)]

RECURSIVE SeqInsert(_, _), SeqRemove(_, _)
SeqInsert(x, batch) == IF batch = <<>> THEN x
                       ELSE SeqInsert(DoInsert(x, Head(batch)[1], Head(batch)[2]), Tail(batch))
SeqRemove(x, ids) == IF ids = <<>> THEN x ELSE SeqRemove(DoRemove(x, Head(ids)), Tail(ids))

(* bulk removal: first take the signatures out, then clean band after band  *)
DoBulkRemove(x, ids) ==
    LET gone == Rng(ids) \cap DOMAIN x.sigs
        RECURSIVE Clean(_, _)
        Clean(t, S) == IF S = {} THEN t
                       ELSE LET id == CHOOSE i \in S : TRUE
                            IN  Clean(DropBands(t, id, x.sigs[id], B), S \ {id})
    IN  [sigs |-> Without(x.sigs, gone), tbl |-> Clean(x.tbl, gone)]

Become(x) == sigs' = x.sigs /\ tbl' = x.tbl /\ UNCHANGED cx

-----------------------------------------------------------------------------
Init == /\ cx = [tab |-> FALSE, b |-> B, r |-> R, need |-> Need]
        /\ sigs = Empty
        /\ tbl = [e \in {} |-> 0]

IInsert     == \E id \in Ids, s \in Sig : Become(DoInsert(st, id, s))
IRemove     == \E id \in Ids : Become(DoRemove(st, id))
IBulkInsert == \E batch \in Batches : Become(DoBulkInsert(st, batch))
IBulkRemove == \E ids \in IdSeqs : Become(DoBulkRemove(st, ids))
IClear      == Become([sigs |-> Empty, tbl |-> [e \in {} |-> 0]])
Next == IInsert \/ IRemove \/ IBulkInsert \/ IBulkRemove \/ IClear
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The implementation's query: candidates from the tables, then the filter  *)
ICandidates(q) == {e[3] : e \in {e \in DOMAIN tbl : e[2] = BandOf(q, e[1], R)}}
IQuery(q) == {id \in ICandidates(q) : id \in DOMAIN sigs /\ Agree(sigs[id], q) >= Need}

TypeOK == /\ DOMAIN sigs \subseteq Ids
          /\ \A id \in DOMAIN sigs : sigs[id] \in Sig
(* C02: the tables are exactly those of the current content *)
TableExact ==
    /\ DOMAIN tbl = {<<k, BandOf(sigs[id], k, R), id>> : <<k, id>> \in (1..B) \X (DOMAIN sigs)}
    /\ \A e \in DOMAIN tbl : tbl[e] = 1
(* C01 *)
QueryExact == \A q \in Sig : IQuery(q) = QSet(cx, sigs, q)
NoDangling == \A q \in Sig : ICandidates(q) \subseteq DOMAIN sigs
SelfFound  == \A id \in DOMAIN sigs : id \in IQuery(sigs[id])
(* C03: top-k works on the candidates, so these must be exact as well *)
CandExact == \A q \in Sig : ICandidates(q) = Candidates(cx, sigs, q)
(* C04 *)
BulkIsSequential == /\ \A batch \in Batches : DoBulkInsert(st, batch) = SeqInsert(st, batch)
                    /\ \A ids \in IdSeqs : DoBulkRemove(st, ids) = SeqRemove(st, ids)
(* refinement: every step of the implementation is a step of the abstract index *)
AbsNext == \/ \E id \in Ids, s \in Sig : Insert(id, s)
           \/ \E id \in Ids : Remove(id)
           \/ \E batch \in Batches : BulkInsert(batch)
           \/ \E ids \in IdSeqs : BulkRemove(ids)
           \/ Clear
Refines == [][AbsNext]_absvars
=============================================================================
