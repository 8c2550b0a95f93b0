---------------------------- MODULE SimHashGen ----------------------------
(***************************************************************************)
(* Enumerates, for layouts (blocks, distance), where the bits in which two  *)
(* signatures differ can lie: how many of them in each block, for every     *)
(* total from K - 1 (just inside) to K + 1 (just outside), and at which end *)
(* of the block.  Recall depends only on this; the driver realises every    *)
(* placement on real 64 and 128 bit signatures.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxBlocks
VARIABLES nb, k, place, edge
vars == <<nb, k, place, edge>>
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Init == /\ nb \in 1..MaxBlocks
        /\ k \in 0..(MaxBlocks - 1) /\ k < nb
        /\ place = <<>>
        /\ edge \in {"low", "high", "mid"}
Next == /\ Len(place) < nb
        /\ \E n \in 0..(k + 1) : /\ Sum(place) + n <= k + 1
                                 /\ place' = Append(place, n)
        /\ UNCHANGED <<nb, k, edge>>
Spec == Init /\ [][Next]_vars
Emit == (Len(place) = nb /\ Sum(place) + 1 >= k) =>
          PrintT(<<"BEHAVIOUR", ToJson([nb |-> nb, k |-> k, place |-> place, edge |-> edge])>>)
=============================================================================
