---------------------------- MODULE MinHashGen ----------------------------
(***************************************************************************)
(* Generates behaviours of MinHashAbs as input for the real index.  With    *)
(* breadth-first search every history of Depth calls over a small alphabet  *)
(* is produced exactly once; with -simulate, random long ones.  A finished  *)
(* behaviour is printed as one JSON line.                                   *)
(***************************************************************************)
EXTENDS MinHashAbs, Json
CONSTANTS Depth, Rich
VARIABLES hist
gvars == <<cx, sigs, hist>>

Configs == { [tab |-> FALSE, b |-> 2, r |-> 1, need |-> 1, pool |-> <<<<0,0>>, <<0,1>>, <<1,1>>>>],
             [tab |-> FALSE, b |-> 2, r |-> 2, need |-> 3, pool |-> <<<<0,0,1,1>>, <<0,0,1,0>>, <<1,1,1,0>>>>] }
            \cup (IF Rich THEN
             { [tab |-> FALSE, b |-> 1, r |-> 2, need |-> 2, pool |-> <<<<0,0>>, <<0,1>>, <<1,0>>>>],
               [tab |-> FALSE, b |-> 3, r |-> 1, need |-> 2, pool |-> <<<<0,0,0>>, <<0,1,0>>, <<1,1,1>>, <<1,1,0>>>>],
               [tab |-> FALSE, b |-> 3, r |-> 2, need |-> 0, pool |-> <<<<0,0,0,0,0,0>>, <<0,0,1,1,0,1>>, <<1,1,1,1,1,1>>, <<1,0,0,1,0,0>>>>] }
             ELSE {})
Ids == IF Rich THEN 1..4 ELSE 1..2
Sg == DOMAIN cx.pool
Step(rec) == Len(hist) < Depth /\ hist' = Append(hist, rec)

GInit == cx \in Configs /\ sigs = Empty /\ hist = <<>>
GInsert == \E id \in Ids, s \in Sg : Insert(id, s) /\ Step([op |-> "insert", id |-> id, s |-> s])
GRemove == \E id \in {i \in Ids : Rich => (i \in DOMAIN sigs \/ i = 4)} : Remove(id) /\ Step([op |-> "remove", id |-> id])
GBulk == \E batch \in (IF Rich THEN [1..2 -> Ids \X Sg]
                       ELSE {<<<<1, 1>>, <<1, 3>>>>, <<<<2, 3>>, <<1, 2>>>>}) :
            BulkInsert(batch) /\ Step([op |-> "bulk", batch |-> batch])
GBulkRemove == \E ids \in (IF Rich THEN [1..(2 + (Len(hist) % 2)) -> 1..5] ELSE {<<3, 1>>, <<2, 2, 1>>}) :
            BulkRemove(ids) /\ Step([op |-> "bulkremove", ids |-> ids])
GClear == (Rich => Len(hist) = 6) /\ Clear /\ Step([op |-> "clear"])
GDone == Len(hist) = Depth /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED absvars
GAgain == Rich /\ GInsert
GNext == GInsert \/ GAgain \/ GRemove \/ GBulk \/ GBulkRemove \/ GClear \/ GDone
GSpec == GInit /\ [][GNext]_gvars
Emit == Len(hist) = Depth + 1 =>
          PrintT(<<"BEHAVIOUR", ToJson([b |-> cx.b, r |-> cx.r, need |-> cx.need, pool |-> cx.pool, ops |-> SubSeq(hist, 1, Depth)])>>)
=============================================================================
