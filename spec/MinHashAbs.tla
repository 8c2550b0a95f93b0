---------------------------- MODULE MinHashAbs ----------------------------
(***************************************************************************)
(* The abstract MinHash index: a map from ids to signatures.  Every public  *)
(* call of the index is one action; queries do not change the state.  This  *)
(* is what the user relies on, and what recorded executions are judged by;  *)
(* MinHashIndex.tla (the banded implementation) is checked to refine it.    *)
(***************************************************************************)
EXTENDS MinHashOps
VARIABLES cx,    \* configuration of the index
          sigs   \* id -> current signature

absvars == <<cx, sigs>>

Empty == [id \in {} |-> 0]

New(c)            == cx' = c /\ sigs' = Empty
Insert(id, s)     == sigs' = Put(sigs, id, s) /\ UNCHANGED cx
BulkInsert(batch) == sigs' = PutAll(sigs, batch) /\ UNCHANGED cx
BulkInsertRange(first, ss) == sigs' = PutRange(sigs, first, ss) /\ UNCHANGED cx
Remove(id)        == sigs' = Without(sigs, {id}) /\ UNCHANGED cx
BulkRemove(ids)   == sigs' = Without(sigs, Rng(ids)) /\ UNCHANGED cx
Clear             == sigs' = Empty /\ UNCHANGED cx
Observe           == UNCHANGED absvars      \* queries, shrinking, refused calls
=============================================================================
