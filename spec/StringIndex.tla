---------------------------- MODULE StringIndex ----------------------------
(***************************************************************************)
(* The string index as code does it: a counter, a map from identities to    *)
(* texts, and the index of identities, with single insertion, loading line  *)
(* by line and loading a batch with precomputed identities.  `bag` is what  *)
(* the user put in.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Texts, MaxDocs, BatchBase      \* first identity of a batch is counter + BatchBase
VARIABLES counter, map, indexed, bag, reported
vars == <<counter, map, indexed, bag, reported>>
Batches == UNION {[1..n -> Texts] : n \in 0..2}
Init == counter = 0 /\ map = << >> /\ indexed = << >> /\ bag = [t \in Texts |-> 0] /\ reported = 0
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Total == LET RECURSIVE S(_) S(T) == IF T = {} THEN 0 ELSE LET t == CHOOSE x \in T : TRUE IN bag[t] + S(T \ {t}) IN S(Texts)
Add1(b, t) == [b EXCEPT ![t] = @ + 1]
Insert == \E t \in Texts : /\ Total < MaxDocs
                           /\ counter' = counter + 1
                           /\ map' = Put(map, counter + 1, t) /\ indexed' = Put(indexed, counter + 1, t)
                           /\ bag' = Add1(bag, t) /\ reported' = 1
RECURSIVE PutAll(_, _, _), AddAll(_, _)
PutAll(f, base, s) == IF s = <<>> THEN f ELSE PutAll(Put(f, base, Head(s)), base + 1, Tail(s))
AddAll(b, s) == IF s = <<>> THEN b ELSE AddAll(Add1(b, Head(s)), Tail(s))
Load(base) == \E s \in Batches : /\ Total + Len(s) <= MaxDocs
                                 /\ map' = PutAll(map, counter + base, s)
                                 /\ indexed' = PutAll(indexed, counter + base, s)
                                 /\ counter' = counter + Len(s)
                                 /\ bag' = AddAll(bag, s) /\ reported' = Len(s)
Next == Insert \/ Load(1) \/ Load(BatchBase)
Spec == Init /\ [][Next]_vars
Kept == /\ counter = Total
        /\ \A t \in Texts : /\ Cardinality({i \in DOMAIN map : map[i] = t}) = bag[t]
                            /\ Cardinality({i \in DOMAIN indexed : indexed[i] = t}) = bag[t]
        /\ DOMAIN map = DOMAIN indexed
        /\ \A i \in DOMAIN map : map[i] = indexed[i]
=============================================================================
