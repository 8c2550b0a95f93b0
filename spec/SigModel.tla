----------------------------- MODULE SigModel -----------------------------
(***************************************************************************)
(* How the code computes signatures and parameters, as state machines, in   *)
(* small scope; the invariants say that the results obey SigOps.            *)
(*   "min"    running minima over the tokens of a document                  *)
(*   "vote"   SimHash counters: +1 / -1 per token and bit                   *)
(*   "cent"   centroid counters against half of the number of signatures    *)
(*   "greedy" the search for the number of rows                             *)
(***************************************************************************)
EXTENDS SigOps
CONSTANTS Part, MaxLen, W, N,
          Tie       \* what a tied vote gives; the code says 0
VARIABLES in, acc, out
vars == <<in, acc, out>>
Patterns == [1..W -> {0, 1}]

(* ---- min: the vocabulary is every pair of values, token = its signature *)
Vals == 0..2
Voc == [1..W -> Vals]
MinInit == in = <<>> /\ acc = <<>> /\ out = <<>>
MinNext == /\ Len(in) < MaxLen
           /\ \E t \in Voc : /\ in' = Append(in, t)
                             /\ acc' = IF in = <<>> THEN t
                                       ELSE [i \in 1..W |-> IF t[i] < acc[i] THEN t[i] ELSE acc[i]]
           /\ UNCHANGED out
Self == [t \in Voc |-> t]
MinOK == in # <<>> => MinLaw(Self, in, acc, W)
(* consequences: only the set of tokens counts, unions are minima *)
MinUnion == \A k \in 1..(Len(in) - 1) :
               LET A == SubSeq(in, 1, k)
                   B == SubSeq(in, k + 1, Len(in))
                   f(S) == [i \in 1..W |-> MinOf({t[i] : t \in Rng(S)})]
               IN  \A i \in 1..W : acc[i] = MinOf({f(A)[i], f(B)[i]})

(* ---- vote *)
VoteInit == in = <<>> /\ acc = [i \in 1..W |-> 0] /\ out = <<>>
VoteNext == /\ Len(in) < MaxLen
            /\ \E t \in Patterns : /\ in' = Append(in, t)
                                   /\ acc' = [i \in 1..W |-> acc[i] + (IF t[i] = 1 THEN 1 ELSE -1)]
            /\ UNCHANGED out
VoteSig == [i \in 1..W |-> IF acc[i] > 0 THEN 1 ELSE IF acc[i] = 0 THEN Tie ELSE 0]
VoteOK == MajorityLaw([t \in Patterns |-> t], [j \in DOMAIN in |-> <<in[j], 1>>], VoteSig, W)

(* ---- cent *)
CentInit == in = <<>> /\ acc = [i \in 1..W |-> 0] /\ out = <<>>
CentNext == /\ Len(in) < MaxLen
            /\ \E t \in Patterns : /\ in' = Append(in, t)
                                   /\ acc' = [i \in 1..W |-> acc[i] + t[i]]
            /\ UNCHANGED out
CentSig == [i \in 1..W |-> IF acc[i] > (Len(in) \div 2) - Tie THEN 1 ELSE 0]
CentOK == CentroidLaw(in, CentSig, W)

(* ---- greedy: in = <<n, ok table>>, acc = <<b, r>>, out = "done" or ""    *)
GreedyInit == /\ \E n \in 1..N, ok \in [1..(N + 1) -> {0, 1}] : in = <<n, ok>> /\ acc = <<n, 1>>
              /\ out = ""
GreedyNext ==
    /\ out = ""
    /\ LET n == in[1]  ok == in[2]  b == acc[1]  r == acc[2]
       IN  IF b > 1 /\ ok[r + 1] = 1
           THEN acc' = <<n \div (r + 1), r + 1>> /\ UNCHANGED <<in, out>>
           ELSE out' = "done" /\ UNCHANGED <<in, acc>>
GreedyOK == out = "done" => ParamsLaw(in[1], in[2], acc[1], acc[2])

Init == CASE Part = "min" -> MinInit [] Part = "vote" -> VoteInit [] Part = "cent" -> CentInit [] OTHER -> GreedyInit
Next == CASE Part = "min" -> MinNext [] Part = "vote" -> VoteNext [] Part = "cent" -> CentNext [] OTHER -> GreedyNext
Spec == Init /\ [][Next]_vars
Inv == CASE Part = "min" -> MinOK /\ MinUnion [] Part = "vote" -> VoteOK [] Part = "cent" -> CentOK [] OTHER -> GreedyOK
=============================================================================
