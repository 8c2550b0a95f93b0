--------------------------- MODULE ClusterTrace ---------------------------
(***************************************************************************)
(* Judges recorded clustering runs.  One session = one clusterer; own and   *)
(* used carry over from run to run.                                         *)
(***************************************************************************)
EXTENDS ClusterOps, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES own, used, l
vars == <<own, used, l>>
e == Trace[l]
Expect(what, c) == IF c THEN TRUE ELSE PrintT(<<"REJECT", l, what>>) /\ FALSE
Ids(c) == {c[i][1] : i \in DOMAIN c}
Sets(c) == {Members(c[i]) : i \in DOMAIN c}

TNew == e.op = "new" /\ own' = <<>> /\ used' = {}
(* points appear (e.n is the number of points from now on) *)
Grown == TLCEval([p \in 1..e.n |-> IF p <= Len(own) THEN own[p] ELSE 0])
Adj == TLCEval([p \in 1..e.n |-> Rng(e.adj[p])])
Common == /\ Expect("points are in at most one cluster", Disjoint(e.cls))
          /\ Expect("cluster ids are distinct", DistinctIds(e.cls, used))
          /\ Expect("every point knows its cluster", Recorded(e.cls, Grown, e.own))
          /\ Expect("clusters have the minimum size", BigEnough(e.cls, e.min))
          /\ Expect("members are similar to a common point", Centred(e.cls, Adj))
Took == own' = e.own /\ used' = used \cup Ids(e.cls)
TSerial == /\ e.op = "serial" /\ Common
           /\ Expect("greedy clusters", LET g == Greedy(e.order, Adj, e.min, Grown, <<>>)
                                        IN  Len(g) = Len(e.cls) /\ Rng(g) = Sets(e.cls))
           /\ Expect("complete", Complete(Rng(e.order), Adj, e.min, e.own))
           /\ Took
(* C16: exclusive clusters and memory safety; C17: progress and the         *)
(* single-thread result                                                     *)
Prop == IOEnv.PROP
TPar == /\ e.op = "par"
        /\ Prop = "C16" => /\ Expect("no access to a cluster whose memory was released", e.uaf = 0)
                           /\ Common
        /\ Prop = "C17" =>
             /\ Expect("some cluster is found when one exists", Possible(Rng(e.order), Adj, e.min, Grown) => e.cls # <<>>)
             /\ Expect("some cluster is found in every part where one exists", Everywhere(Rng(e.order), Adj, e.min, Grown, Sets(e.cls)))
             /\ e.threads = 1 =>
                 /\ Expect("greedy clusters by degree", LET g == Greedy(ByDegree(e.order, Adj), Adj, e.min, Grown, <<>>)
                                                        IN  Len(g) = Len(e.cls) /\ Rng(g) = Sets(e.cls))
                 /\ Expect("complete", Complete(Rng(e.order), Adj, e.min, e.own))
        /\ Took
(* many points: the classes of an equivalence, as intervals of points; all  *)
(* points are given and none is in a cluster before                         *)
Class(k) == (IF k = 1 THEN 1 ELSE e.ends[k - 1] + 1)..e.ends[k]
Large == {k \in DOMAIN e.ends : Cardinality(Class(k)) >= e.min}
TClasses == /\ e.op = "classes"
            /\ Expect("harness: a fresh session", own = <<>> /\ used = {} /\ e.ends[Len(e.ends)] = e.n)
            /\ Prop \in {"C15", "C16"} =>
                 /\ Expect("no access to a cluster whose memory was released", e.uaf = 0)
                 /\ Expect("points are in at most one cluster", Disjoint(e.cls))
                 /\ Expect("cluster ids are distinct", DistinctIds(e.cls, used))
                 /\ Expect("every point knows its cluster", Recorded(e.cls, Grown, e.own))
                 /\ Expect("clusters have the minimum size", BigEnough(e.cls, e.min))
                 /\ Expect("members are similar to a common point",
                           \A i \in DOMAIN e.cls : \E k \in {c \in DOMAIN e.ends : e.cls[i][2][1] \in Class(c)} : Members(e.cls[i]) \subseteq Class(k))
            /\ Prop = "C17" => Expect("some cluster is found in every class that is large enough",
                                     LET first == {e.cls[i][2][1] : i \in DOMAIN e.cls} IN \A k \in Large : Class(k) \cap first # {})
            /\ Prop \in {"C15", "C17"} /\ e.threads = 1 =>
                 Expect("the classes of enough points", Len(e.cls) = Cardinality(Large) /\ Sets(e.cls) = {Class(k) : k \in Large})
            /\ Took
TPanic == /\ e.op = "panic" /\ UNCHANGED <<own, used>>
          /\ Prop # "C16" => Expect("no panic or hang during " \o e.during, FALSE)
(* what Miri reports about an execution: threads use memory of which they   *)
(* cannot know that it is initialised, or that it still exists              *)
TRace == /\ e.op = "race" /\ UNCHANGED <<own, used>>
         /\ Prop = "C16" => Expect("no race and no released memory: " \o e.what, FALSE)
TraceInit == own = <<>> /\ used = {} /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (TNew \/ TSerial \/ TPar \/ TClasses \/ TPanic \/ TRace)
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
