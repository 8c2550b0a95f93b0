------------------------------ MODULE SigGen ------------------------------
(***************************************************************************)
(* Enumerates every small input of the signature and measure functions:     *)
(* token sequences (doc), pairs of token sequences (jac) and pairs of       *)
(* equally long signatures (measure).                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Kind, MaxLen, Sym
VARIABLES x, y
vars == <<x, y>>
Init == x = <<>> /\ y = <<>>
(* lengths grow independently for jac and doc, together for measure *)
Next == \/ Kind = "measure" /\ Len(x) < MaxLen /\ \E a, b \in 1..Sym : x' = Append(x, a) /\ y' = Append(y, b)
        \/ Kind # "measure" /\ Len(x) < MaxLen /\ y = <<>> /\ \E a \in 1..Sym : x' = Append(x, a) /\ UNCHANGED y
        \/ Kind = "jac" /\ Len(y) < MaxLen /\ \E b \in 1..Sym : y' = Append(y, b) /\ UNCHANGED x
Spec == Init /\ [][Next]_vars
Emit == PrintT(<<"BEHAVIOUR", ToJson([kind |-> Kind, x |-> x, y |-> y])>>)
=============================================================================
