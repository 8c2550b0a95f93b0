------------------------------- MODULE Share -------------------------------
(***************************************************************************)
(* Several indexes in one process, asked by several threads.  A query runs  *)
(* in steps (collect the candidates, give the answer); writers exclude the  *)
(* readers of their own index (Rust's borrow rules, a read-write lock), but *)
(* nobody else.  The property: every answer is the one the index would give *)
(* alone.  Kind says where an implementation keeps intermediate results:    *)
(*   private    every query its own                           holds         *)
(*   memo       the last answer, per index, key and value together, thrown  *)
(*              away by every change                          holds         *)
(*   scratch    one buffer per index                          refuted       *)
(*   process    the last answer, one for the process          refuted       *)
(*   stale      the last answer, kept when an id is removed   refuted       *)
(*   split      the last answer, key stored before the value  refuted       *)
(*   torn       the last answer, key read before the value    refuted       *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Threads, Ids, Sg, Kind
Idx == {1, 2}
VARIABLES data, pc, ix, q, scratch, memoK, memoV, right
vars == <<data, pc, ix, q, scratch, memoK, memoV, right>>

(* the indexes have different thresholds: one wants equal signatures, one takes all *)
Want(i, x) == {id \in Ids : data[i][id] # 0 /\ (i = 1 => data[i][id] = x)}
Memo == Kind \in {"memo", "process", "stale", "split", "torn"}
Slot(t) == IF Kind = "scratch" THEN <<"index", ix[t]>> ELSE <<"thread", t>>
Cell(i) == IF Kind = "process" THEN 1 ELSE i
Readers(i) == {t \in Threads : pc[t] # "idle" /\ ix[t] = i}

Init == /\ data = [i \in Idx |-> [id \in Ids |-> 0]]
        /\ pc = [t \in Threads |-> "idle"] /\ ix = [t \in Threads |-> 1] /\ q = [t \in Threads |-> 1]
        /\ scratch = [s \in ({"index"} \X Idx) \cup ({"thread"} \X Threads) |-> {}]
        /\ memoK = [i \in Idx |-> 0] /\ memoV = [i \in Idx |-> {}] /\ right = TRUE

(* s = 0 removes the id *)
Write(i, id, s) == /\ Readers(i) = {}
                   /\ data' = [data EXCEPT ![i][id] = s]
                   /\ memoK' = IF Kind = "stale" /\ s = 0 THEN memoK ELSE [memoK EXCEPT ![Cell(i)] = 0]
                   /\ UNCHANGED <<pc, ix, q, scratch, memoV, right>>
Start(t, i, x) == /\ pc[t] = "idle"
                  /\ ix' = [ix EXCEPT ![t] = i] /\ q' = [q EXCEPT ![t] = x]
                  /\ pc' = [pc EXCEPT ![t] = IF Memo /\ memoK[Cell(i)] = x THEN "memo" ELSE "collect"]
                  /\ scratch' = IF Memo /\ memoK[Cell(i)] = x /\ Kind # "torn" THEN [scratch EXCEPT ![<<"thread", t>>] = memoV[Cell(i)]] ELSE scratch
                  /\ UNCHANGED <<data, memoK, memoV, right>>
Collect(t) == /\ pc[t] = "collect"
              /\ scratch' = [scratch EXCEPT ![Slot(t)] = Want(ix[t], q[t])]
              /\ pc' = [pc EXCEPT ![t] = "answer"]
              /\ UNCHANGED <<data, ix, q, memoK, memoV, right>>
Answer(t) == /\ pc[t] = "answer"
             /\ right' = (right /\ scratch[Slot(t)] = Want(ix[t], q[t]))
             /\ memoK' = IF Memo THEN [memoK EXCEPT ![Cell(ix[t])] = q[t]] ELSE memoK
             /\ memoV' = IF Memo /\ Kind # "split" THEN [memoV EXCEPT ![Cell(ix[t])] = scratch[Slot(t)]] ELSE memoV
             /\ pc' = [pc EXCEPT ![t] = IF Kind = "split" THEN "store" ELSE "idle"]
             /\ UNCHANGED <<data, ix, q, scratch>>
Store(t) == /\ pc[t] = "store"
            /\ memoV' = [memoV EXCEPT ![Cell(ix[t])] = scratch[Slot(t)]]
            /\ pc' = [pc EXCEPT ![t] = "idle"]
            /\ UNCHANGED <<data, ix, q, scratch, memoK, right>>
Recall(t) == /\ pc[t] = "memo"
             /\ right' = (right /\ (IF Kind = "torn" THEN memoV[Cell(ix[t])] ELSE scratch[Slot(t)]) = Want(ix[t], q[t]))
             /\ pc' = [pc EXCEPT ![t] = "idle"]
             /\ UNCHANGED <<data, ix, q, scratch, memoK, memoV>>
Next == \/ \E i \in Idx, id \in Ids, s \in Sg \cup {0} : Write(i, id, s)
        \/ \E t \in Threads : \/ \E i \in Idx, x \in Sg : Start(t, i, x)
                              \/ Collect(t) \/ Answer(t) \/ Store(t) \/ Recall(t)
Spec == Init /\ [][Next]_vars
Alone == right
=============================================================================
