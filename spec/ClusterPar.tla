---------------------------- MODULE ClusterPar ----------------------------
(***************************************************************************)
(* The lock-free protocol of the parallel clusterer, one action per atomic  *)
(* operation.  A cluster (attempt) is identified by its id, which also      *)
(* stands for its address; own[p] is the pointer stored in point p.         *)
(* The three flags re-introduce defects the code once had (controls).       *)
(***************************************************************************)
EXTENDS ClusterOps
CONSTANTS N, Chunks, Mins, Rel, SameState, FreeEarly, NoTakeover
Points == 1..N
Threads == DOMAIN Chunks
Full == [p \in Points |-> Points]
Reflexive == {r \in [Points -> SUBSET Points] : \A p \in Points : p \in r[p]}
Relations == IF Rel = "full" THEN {Full}
             ELSE IF Rel = "any" THEN Reflexive
             ELSE {r \in Reflexive : \A p, q \in Points : p \in r[q] <=> q \in r[p]}
VARIABLES adj, min, own, st, freed, uaf, res,     \* shared (min and adj fixed)
          todo, pc, cl, rest, got, cur, exp, conf \* per thread
shared == <<adj, min, own, st, freed, uaf, res>>
vars == <<adj, min, own, st, freed, uaf, res, todo, pc, cl, rest, got, cur, exp, conf>>
RB == IF SameState THEN "com" ELSE "rb"
Init == /\ adj \in Relations /\ min \in Mins
        /\ own = [p \in Points |-> 0] /\ st = <<>> /\ freed = {} /\ uaf = FALSE /\ res = <<>>
        /\ todo = Chunks
        /\ pc = [t \in Threads |-> "visit"] /\ cl = [t \in Threads |-> 0]
        /\ rest = [t \in Threads |-> {}] /\ got = [t \in Threads |-> {}]
        /\ cur = [t \in Threads |-> 0] /\ exp = [t \in Threads |-> 0] /\ conf = [t \in Threads |-> 0]
At(t, s) == pc[t] = s
Go(t, s) == pc' = [pc EXCEPT ![t] = s]
NextPoint(t) == todo' = [todo EXCEPT ![t] = Tail(@)] /\ Go(t, "visit")
Visit(t) == /\ At(t, "visit") /\ todo[t] # <<>>
            /\ LET p == Head(todo[t])
               IN  IF own[p] # 0 THEN NextPoint(t) /\ UNCHANGED <<rest, got>>
                   ELSE Go(t, "filter") /\ rest' = [rest EXCEPT ![t] = adj[p]] /\ got' = [got EXCEPT ![t] = {}] /\ UNCHANGED todo
            /\ UNCHANGED <<shared, cl, cur, exp, conf>>
Filter(t) == /\ At(t, "filter")
             /\ IF rest[t] = {}
                THEN /\ IF Cardinality(got[t]) >= min THEN Go(t, "alloc") /\ UNCHANGED todo ELSE NextPoint(t)
                     /\ UNCHANGED <<rest, got>>
                ELSE LET q == MinOf(rest[t])
                     IN  /\ rest' = [rest EXCEPT ![t] = @ \ {q}]
                         /\ got' = [got EXCEPT ![t] = IF own[q] = 0 THEN @ \cup {q} ELSE @]
                         /\ UNCHANGED <<pc, todo>>
             /\ UNCHANGED <<shared, cl, cur, exp, conf>>
Alloc(t) == /\ At(t, "alloc")
            /\ st' = Append(st, "new") /\ cl' = [cl EXCEPT ![t] = Len(st) + 1]
            /\ rest' = [rest EXCEPT ![t] = got[t]] /\ got' = [got EXCEPT ![t] = {}]
            /\ cur' = [cur EXCEPT ![t] = 0] /\ exp' = [exp EXCEPT ![t] = 0]
            /\ Go(t, "check")
            /\ UNCHANGED <<adj, min, own, freed, uaf, res, todo, conf>>
(* give the points back, then drop the cluster *)
GiveUp(t) == Go(t, "release") /\ rest' = [rest EXCEPT ![t] = got[t]]
Check(t) == /\ At(t, "check")
            /\ IF st[cl[t]] = "rb" THEN GiveUp(t) ELSE Go(t, "cas") /\ UNCHANGED rest
            /\ UNCHANGED <<shared, todo, cl, got, cur, exp, conf>>
Took(t, q) == /\ got' = [got EXCEPT ![t] = @ \cup {q}] /\ rest' = [rest EXCEPT ![t] = @ \ {q}]
              /\ cur' = [cur EXCEPT ![t] = 0] /\ exp' = [exp EXCEPT ![t] = 0]
              /\ Go(t, IF rest[t] = {q} THEN "commit" ELSE "check")
Cas(t) == /\ At(t, "cas")
          /\ \E q \in (IF cur[t] = 0 THEN rest[t] ELSE {cur[t]}) :
               IF own[q] = exp[t]
               THEN own' = [own EXCEPT ![q] = cl[t]] /\ Took(t, q) /\ UNCHANGED conf
               ELSE /\ UNCHANGED <<own, got, rest>>
                    /\ cur' = [cur EXCEPT ![t] = q]
                    /\ IF own[q] = 0 THEN Go(t, "check") /\ exp' = [exp EXCEPT ![t] = 0] /\ UNCHANGED conf
                       ELSE Go(t, "look") /\ conf' = [conf EXCEPT ![t] = own[q]] /\ UNCHANGED exp
          /\ UNCHANGED <<adj, min, st, freed, uaf, res, todo, cl>>
Access(c) == uaf' = (uaf \/ c \in freed)
Look(t) == /\ At(t, "look") /\ Access(conf[t])
           /\ IF st[conf[t]] = "rb" THEN Go(t, "check") /\ exp' = [exp EXCEPT ![t] = conf[t]]
              ELSE Go(t, "look2") /\ UNCHANGED exp
           /\ UNCHANGED <<adj, min, own, st, freed, res, todo, cl, rest, got, cur, conf>>
Look2(t) == /\ At(t, "look2") /\ Access(conf[t])
            /\ Go(t, IF st[conf[t]] = "com" \/ cl[t] > conf[t] THEN "lose" ELSE "kick")
            /\ UNCHANGED <<adj, min, own, st, freed, res, todo, cl, rest, got, cur, exp, conf>>
Kick(t) == /\ At(t, "kick") /\ Access(conf[t])
           /\ IF st[conf[t]] = "new"
              THEN /\ st' = [st EXCEPT ![conf[t]] = RB]
                   /\ IF NoTakeover THEN Took(t, cur[t]) ELSE Go(t, "check") /\ UNCHANGED <<got, rest, cur, exp>>
              ELSE Go(t, "check") /\ UNCHANGED <<st, got, rest, cur, exp>>
           /\ UNCHANGED <<adj, min, own, freed, res, todo, cl, conf>>
Lose(t) == /\ At(t, "lose")
           /\ st' = [st EXCEPT ![cl[t]] = IF @ = "new" THEN RB ELSE @]
           /\ GiveUp(t)
           /\ UNCHANGED <<adj, min, own, freed, uaf, res, todo, cl, got, cur, exp, conf>>
Commit(t) == /\ At(t, "commit")
             /\ IF st[cl[t]] = "new"
                THEN /\ st' = [st EXCEPT ![cl[t]] = "com"]
                     /\ res' = Append(res, <<cl[t], got[t]>>)
                     /\ NextPoint(t) /\ UNCHANGED rest
                ELSE GiveUp(t) /\ UNCHANGED <<st, res, todo>>
             /\ UNCHANGED <<adj, min, own, freed, uaf, cl, got, cur, exp, conf>>
Release(t) == /\ At(t, "release")
              /\ IF rest[t] = {}
                 THEN /\ freed' = (IF FreeEarly THEN freed \cup {cl[t]} ELSE freed)
                      /\ NextPoint(t) /\ UNCHANGED <<own, rest>>
                 ELSE LET q == MinOf(rest[t])
                      IN  /\ own' = [own EXCEPT ![q] = IF @ = cl[t] THEN 0 ELSE @]
                          /\ rest' = [rest EXCEPT ![t] = @ \ {q}]
                          /\ UNCHANGED <<freed, pc, todo>>
              /\ UNCHANGED <<adj, min, st, uaf, res, cl, got, cur, exp, conf>>
Step(t) == \/ Visit(t) \/ Filter(t) \/ Alloc(t) \/ Check(t) \/ Cas(t) \/ Look(t) \/ Look2(t)
           \/ Kick(t) \/ Lose(t) \/ Commit(t) \/ Release(t)
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

Done == \A t \in Threads : At(t, "visit") /\ todo[t] = <<>>
None == [p \in Points |-> 0]
(* C16 *)
Exclusive == \A i, j \in DOMAIN res : i # j => res[i][2] \cap res[j][2] = {}
Owned == \A i \in DOMAIN res : \A p \in res[i][2] : own[p] = res[i][1]
Sized == \A i \in DOMAIN res : Cardinality(res[i][2]) >= min /\ \E p \in Points : res[i][2] \subseteq adj[p]
Clean == Done => \A p \in Points : own[p] # 0 => \E i \in DOMAIN res : p \in res[i][2]
NoUseAfterFree == ~uaf
(* C17 *)
Progress == Done => /\ Possible(Points, adj, min, None) => res # <<>>
                    /\ Everywhere(Points, adj, min, None, {res[i][2] : i \in DOMAIN res})
(* One thread: the points in the given order, greedily.                     *)
AlonE == (Cardinality(Threads) = 1 /\ Done) =>
           {res[i][2] : i \in DOMAIN res} = Rng(Greedy(Chunks[1], adj, min, None, <<>>))
Terminates == <>Done
=============================================================================
