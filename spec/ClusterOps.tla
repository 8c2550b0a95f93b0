---------------------------- MODULE ClusterOps ----------------------------
(***************************************************************************)
(* Clustering of points 1..n.  adj[p] is the set of points a query for p    *)
(* returns, own[p] the id of the cluster p is in (0: none).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Rng(f) == {f[x] : x \in DOMAIN f}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Free(own, S) == {q \in S : own[q] = 0}

(* Greedy clustering of the points of `order`, as <<own, clusters>> where a *)
(* cluster is its set of members; cluster k gets the provisional id -k.     *)
RECURSIVE Greedy(_, _, _, _, _)
Greedy(order, adj, min, own, cl) ==
    IF order = <<>> THEN cl
    ELSE LET p == Head(order)
             S == Free(own, adj[p])
         IN  IF own[p] = 0 /\ Cardinality(S) >= min
             THEN Greedy(Tail(order), adj, min, [q \in DOMAIN own |-> IF q \in S THEN -1 ELSE own[q]], Append(cl, S))
             ELSE Greedy(Tail(order), adj, min, own, cl)

(* a stable sort by decreasing number of similar points *)
ByDegree(order, adj) ==
    LET deg  == TLCEval([i \in DOMAIN order |-> Cardinality(adj[order[i]])])
        Before(i, j) == deg[i] > deg[j] \/ (deg[i] = deg[j] /\ i < j)
        rank == TLCEval([i \in DOMAIN order |-> 1 + Cardinality({j \in DOMAIN order : Before(j, i)})])
    IN  [k \in DOMAIN order |-> order[CHOOSE i \in DOMAIN order : rank[i] = k]]

(* What any clustering has to satisfy.  cls: sequence of <<id, members>>,   *)
(* members a sequence; own0 and own: before and after.                      *)
Members(c) == Rng(c[2])
NoRepeat(s) == Cardinality(Rng(s)) = Len(s)
RECURSIVE Sizes(_, _)
Sizes(cls, k) == IF k = 0 THEN 0 ELSE Len(cls[k][2]) + Sizes(cls, k - 1)
Disjoint(cls) == /\ \A i \in DOMAIN cls : NoRepeat(cls[i][2])
                 /\ Cardinality(UNION {Members(cls[i]) : i \in DOMAIN cls}) = Sizes(cls, Len(cls))
DistinctIds(cls, used) == /\ Cardinality({cls[i][1] : i \in DOMAIN cls}) = Len(cls)
                          /\ \A i \in DOMAIN cls : cls[i][1] \notin used /\ cls[i][1] > 0
Recorded(cls, own0, own) ==
    /\ \A i \in DOMAIN cls : \A p \in Members(cls[i]) : own0[p] = 0 /\ own[p] = cls[i][1]
    /\ LET all == TLCEval(UNION {Members(cls[i]) : i \in DOMAIN cls})
       IN  \A p \in DOMAIN own : p \notin all => own[p] = own0[p]
BigEnough(cls, min) == \A i \in DOMAIN cls : Cardinality(Members(cls[i])) >= min
Centred(cls, adj) == \A i \in DOMAIN cls : \E p \in DOMAIN adj : Members(cls[i]) \subseteq adj[p]
(* no point that was to be clustered is left with enough free neighbours    *)
Complete(pts, adj, min, own) == \A p \in pts : own[p] = 0 => Cardinality(Free(own, adj[p])) < min
(* similarity is an equivalence: exactly the classes of enough points are   *)
(* clusters in the end (ClusterSerial!Classes)                              *)
Equivalence(adj) == \A p \in DOMAIN adj : p \in adj[p] /\ \A q \in adj[p] : adj[q] = adj[p]
ClassesFound(adj, min, own) ==
    \A p \in DOMAIN adj : IF Cardinality(adj[p]) >= min
                          THEN own[p] > 0 /\ \A q \in DOMAIN adj : own[q] = own[p] <=> q \in adj[p]
                          ELSE own[p] = 0
(* the parts of the points that similarity connects, directly or not: runs  *)
(* on different parts have nothing in common but the source of cluster ids  *)
RECURSIVE Reach(_, _)
Reach(adj, S) == LET T == TLCEval(S \cup UNION {adj[p] : p \in S} \cup {q \in DOMAIN adj : adj[q] \cap S # {}})
                 IN  IF T = S THEN S ELSE Reach(adj, T)
RECURSIVE Parts(_, _)
Parts(adj, left) == IF left = {} THEN {}
                    ELSE LET R == TLCEval(Reach(adj, {MinOf(left)})) IN {R} \cup Parts(adj, left \ R)
Possible(pts, adj, min, own0) == \E p \in pts : own0[p] = 0 /\ Cardinality(Free(own0, adj[p])) >= min
(* a cluster comes out of every part where one is possible                  *)
Everywhere(pts, adj, min, own0, sets) ==
    \A R \in Parts(adj, DOMAIN adj) : Possible(pts \cap R, adj, min, own0) => \E X \in sets : X \cap R # {}
=============================================================================
