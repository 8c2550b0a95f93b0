----------------------------- MODULE EstModel -----------------------------
(***************************************************************************)
(* Why signatures estimate: the two counting theorems behind the library,   *)
(* checked by enumerating every hash function of a small universe.          *)
(*   MinHash  over all orders of the universe, the minima of A and B agree  *)
(*            in exactly the fraction |A /\ B| / |A \/ B| of them;          *)
(*   SimHash  over all assignments of a bit to every token, the majorities  *)
(*            of A and B differ in exactly the number SigOps!Differ gives   *)
(*            for their common and their own tokens; the more they share    *)
(*            the less often.                                               *)
(* One state per pair of sets.                                              *)
(***************************************************************************)
EXTENDS SigOps
CONSTANTS Part, U
VARIABLES A, B
vars == <<A, B>>
Tokens == 1..U
Perms == {p \in [Tokens -> Tokens] : \A x, y \in Tokens : x # y => p[x] # p[y]}
MinAt(p, X) == MinOf({p[x] : x \in X})
MinTheorem == LET agree == Cardinality({p \in Perms : MinAt(p, A) = MinAt(p, B)})
              IN  agree * Cardinality(A \cup B) = Cardinality(Perms) * Cardinality(A \cap B)

Bits == [Tokens -> {0, 1}]
Majority(v, X) == 2 * Cardinality({x \in X : v[x] = 1}) > Cardinality(X)
Own(X, Y) == Cardinality(X \ Y)
SimTheorem == LET both == A \cup B
                  rest == 2 ^ (U - Cardinality(both))
              IN  /\ Cardinality({v \in Bits : Majority(v, A) # Majority(v, B)})
                        = rest * Differ(Cardinality(A \cap B), Own(A, B), Own(B, A))
                  \* swapping a token of B's own for one of A's can only bring them closer
                  /\ \A x \in A \ B, y \in B \ A :
                        LET D == (B \ {y}) \cup {x}
                        IN  2 * Differ(Cardinality(A \cap D), Own(A, D), Own(D, A))
                               <= Differ(Cardinality(A \cap B), Own(A, B), Own(B, A))
Init == A \in (SUBSET Tokens) \ {{}} /\ B \in (SUBSET Tokens) \ {{}}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Inv == IF Part = "min" THEN MinTheorem ELSE SimTheorem
=============================================================================
