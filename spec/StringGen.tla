----------------------------- MODULE StringGen -----------------------------
(* Files over a small alphabet of pieces, and every sequence of two loads   *)
(* and insertions: the ways documents reach the index.                      *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxPieces, Pieces, MaxOps
VARIABLES file, ops
vars == <<file, ops>>
Init == file = <<>> /\ ops = <<>>
Next == \/ ops = <<>> /\ Len(file) < MaxPieces /\ \E p \in Pieces : file' = Append(file, p) /\ UNCHANGED ops
        \/ Len(ops) < MaxOps /\ \E o \in {"insert", "reader", "file", "parallel"} : ops' = Append(ops, o) /\ UNCHANGED file
Spec == Init /\ [][Next]_vars
Emit == Len(ops) > 0 => PrintT(<<"BEHAVIOUR", ToJson([file |-> file, ops |-> ops])>>)
=============================================================================
