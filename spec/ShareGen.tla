----------------------------- MODULE ShareGen -----------------------------
(***************************************************************************)
(* Every history of Depth changes to two MinHash indexes that live side by  *)
(* side, with the same ids and signatures but other bands and thresholds.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Depth
VARIABLE hist
Pool == <<<<0, 0>>, <<0, 1>>, <<1, 1>>>>
Layouts == <<[b |-> 2, r |-> 1, need |-> 1], [b |-> 1, r |-> 2, need |-> 2]>>
Changes == [x : {1, 2}, op : {"insert"}, id : {1, 2}, s : DOMAIN Pool]
           \cup [x : {1, 2}, op : {"remove"}, id : {1, 2}] \cup [x : {1, 2}, op : {"clear"}]
Init == hist = <<>>
Next == Len(hist) < Depth /\ \E c \in Changes : hist' = Append(hist, c)
GSpec == Init /\ [][Next]_hist
Emit == Len(hist) = Depth =>
          PrintT(<<"BEHAVIOUR", ToJson([pool |-> Pool, layouts |-> Layouts, ops |-> hist])>>)
=============================================================================
