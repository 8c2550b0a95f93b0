--------------------------- MODULE MinHashTrace ---------------------------
(***************************************************************************)
(* Judges executions recorded from the real index: every recorded call must *)
(* be an action of MinHashAbs, and everything observed must be what the     *)
(* abstract index answers.  A line the specification does not allow has no  *)
(* successor; the reason is printed as <<"REJECT", line, what>>.            *)
(***************************************************************************)
EXTENDS MinHashAbs, Json, IOUtils, Integers

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
tvars == <<cx, sigs, l>>

Expect(what, c) == IF c THEN TRUE ELSE PrintT(<<"REJECT", l, what>>) /\ FALSE
e == Trace[l]
Has(f) == f \in DOMAIN e
(* the configuration is the line that created the index *)
C == Trace[cx]
S(i) == IF C.tab THEN i ELSE C.pool[i]

(* a returned signature: 0 = none, -1 = not one that was ever inserted *)
SameSig(ret, s) == ret > 0 /\ S(ret) = s

TNew == e.op = "new" /\ New(l)

TInsert == e.op = "insert" /\ Insert(e.id, S(e.s))

TBulk == /\ e.op = "bulk"
         /\ BulkInsert([i \in DOMAIN e.batch |-> <<e.batch[i][1], S(e.batch[i][2])>>])

TBulkRange == /\ e.op = "bulkrange"
              /\ BulkInsertRange(e.first, [i \in DOMAIN e.ss |-> S(e.ss[i])])

TRemove == /\ e.op = "remove"
           /\ Expect("remove hands back the signature",
                     IF e.id \in DOMAIN sigs THEN SameSig(e.ret, sigs[e.id]) ELSE e.ret = 0)
           /\ Remove(e.id)

TBulkRemove == /\ e.op = "bulkremove"
               /\ LET want == RemovedSigs(sigs, e.ids)
                  IN  Expect("bulk remove hands back the signatures",
                             /\ Len(e.ret) = Len(want)
                             /\ \A i \in DOMAIN want : SameSig(e.ret[i], want[i]))
               /\ BulkRemove(e.ids)

TRemoveRange == /\ e.op = "removerange"
                /\ LET want == RemovedRange(sigs, e.first, e.count)
                   IN  Expect("removals hand back the signatures",
                              /\ Len(e.ret) = Len(want)
                              /\ \A i \in DOMAIN want : SameSig(e.ret[i], want[i]))
                /\ BulkRemove([k \in 1..e.count |-> e.first + k - 1])

TClear == e.op = "clear" /\ Clear

TNoop == e.op = "noop" /\ Observe

TReject == /\ e.op = "reject"
           /\ Expect("malformed signature refused", e.panicked = 1)
           /\ Observe

TObs == /\ e.op = "obs"
        /\ Expect("size", e.size = Cardinality(DOMAIN sigs))
        /\ Expect("number of hashes and capacity", e.nh = C.b * C.r /\ e.room = 1)
        /\ Has("desc") => Expect("description: hashes, bands, rows, size",
              LET want == <<C.b * C.r, C.b, C.r, Cardinality(DOMAIN sigs)>>
              IN  \A i \in 1..4 : e.desc[i] \in {-1, want[i]})
        /\ Has("dthr") => Expect("description: threshold", e.dthr \in {"-1", C.thr})
        /\ Has("map") => Expect("id -> signature map",
              /\ Len(e.map) = Cardinality(DOMAIN sigs)
              /\ {e.map[i][1] : i \in DOMAIN e.map} = DOMAIN sigs
              /\ \A i \in DOMAIN e.map : SameSig(e.map[i][2], sigs[e.map[i][1]]))
        /\ Has("get") => Expect("signature lookup",
              \A i \in DOMAIN e.get :
                 IF e.get[i][1] \in DOMAIN sigs THEN SameSig(e.get[i][2], sigs[e.get[i][1]])
                                                ELSE e.get[i][2] = 0)
        /\ Has("buckets") => Expect("distinct buckets per band",
              /\ Len(e.buckets) = C.b
              /\ LET here == TLCEval(Rng(sigs))
                 IN  \A k \in 1..C.b : e.buckets[k] = BucketsOf(C, here, k))
        /\ Observe

SetIs(list, want) == Rng(list) = want /\ Len(list) = Cardinality(want)

TQuery == /\ e.op = "q"
          /\ LET q    == S(e.q)
                 want == QSet(C, sigs, q)
             IN /\ Has("set")   => Expect("query", SetIs(e.set, want))
                /\ Has("owned") => Expect("query_owned", SetIs(e.owned, want))
                /\ Has("one")   => Expect("query_one", OneOK(C, sigs, q, e.one))
                /\ Has("sims")  => Expect("query with similarity", SimListOK(C, sigs, q, e.sims))
                /\ Has("topk")  => Expect("query_top_k",
                                     \A i \in DOMAIN e.topk : TopKOK(C, sigs, q, e.topk[i][1], e.topk[i][2]))
          /\ Observe

(* queries by id: nothing for an id that is not indexed *)
TById == /\ e.op = "byid"
         /\ LET want == IF e.id \in DOMAIN sigs THEN QSet(C, sigs, sigs[e.id]) ELSE {}
            IN  /\ Has("set")   => Expect("query_by_id", SetIs(e.set, want))
                /\ Has("owned") => Expect("query_by_id_owned", SetIs(e.owned, want))
                /\ Has("dyn")   => Expect("QueryIndex::query", SetIs(e.dyn, want))
         /\ Observe

TBulkQuery == /\ e.op = "bq"
              /\ Has("sets") => Expect("bulk query",
                    /\ Len(e.sets) = Len(e.qs)
                    /\ \A i \in DOMAIN e.qs : SetIs(e.sets[i], QSet(C, sigs, S(e.qs[i]))))
              /\ Has("sims") => Expect("bulk query with similarity",
                    /\ Len(e.sims) = Len(e.qs)
                    /\ \A i \in DOMAIN e.qs : SimListOK(C, sigs, S(e.qs[i]), e.sims[i]))
              /\ Observe

(* bulk signature creation: labels of the signatures computed one by one    *)
TBulkSig == /\ e.op = "bulksig"
            /\ Expect("bulk signatures", e.bulk = e.single)
            /\ Observe

(* centroid of a group with at least one indexed id; only in concrete mode  *)
TCent == /\ e.op = "cent"
         /\ Expect("centroid", CentroidOK(C, sigs, e.group, e.cent))
         /\ LET known == {i \in DOMAIN e.group : e.group[i] \in DOMAIN sigs}
            IN  \A s \in {sigs[e.group[i]] : i \in known} :
                  2 * Cardinality({i \in known : sigs[e.group[i]] = s}) > Cardinality(known)
                  => /\ Expect("majority centroid", e.cent = s)
                     /\ Has("found") => Expect("majority found by the centroid",
                          {i \in DOMAIN sigs : sigs[i] = s} \subseteq Rng(e.found))
         /\ Observe

(* the centroid of a group of very many documents: e.sigs are signatures    *)
(* and e.counts how many documents of the group have each of them           *)
RECURSIVE Weight(_, _, _)
Weight(k, v, i) == IF i = 0 THEN 0 ELSE Weight(k, v, i - 1) + (IF BandOf(e.sigs[i], k, C.r) = v THEN e.counts[i] ELSE 0)
RECURSIVE MassTotal(_)
MassTotal(i) == IF i = 0 THEN 0 ELSE MassTotal(i - 1) + e.counts[i]
TMassCent == /\ e.op = "masscent"
             /\ Expect("centroid of many documents",
                       /\ Len(e.cent) = C.b * C.r
                       /\ \A k \in 1..C.b : \A i \in DOMAIN e.sigs :
                            Weight(k, BandOf(e.sigs[i], k, C.r), Len(e.sigs)) <= Weight(k, BandOf(e.cent, k, C.r), Len(e.sigs)))
             /\ Expect("majority found by the centroid",
                       \A i \in DOMAIN e.sigs : 2 * e.counts[i] > MassTotal(Len(e.sigs)) => e.found >= e.counts[i])
             /\ Observe

(* id containers used directly: content after pushes and removals *)
TCont == /\ e.op = "container"
         /\ LET RECURSIVE Run(_, _)
                Run(T, i) == IF i > Len(e.ops) THEN T
                             ELSE Run(IF e.ops[i][1] = 1 THEN T \cup {e.ops[i][2]}
                                                         ELSE T \ {e.ops[i][2]}, i + 1)
                want == Run({}, 1)
            IN  /\ Expect("container content", SetIs(e.ids, want))
                /\ Expect("container content by reference", SetIs(e.refs, want))
                /\ Expect("container length", e.len = Cardinality(want) /\ (e.empty = 1) = (want = {}))
         /\ Observe

(* very many documents: id i \in x..n-1 has the value i mod m everywhere    *)
TMass == /\ e.op = "mass"
         /\ LET left == e.n - e.x
                With(j) == {i \in {j + e.m * k : k \in 0..(e.n \div e.m)} : i >= e.x /\ i < e.n}
            IN  /\ Expect("size with many documents", e.size = left)
                /\ Expect("distinct buckets with many documents",
                          Len(e.buckets) = C.b /\ \A k \in 1..C.b : e.buckets[k] = MinN(left, e.m))
                /\ \A i \in DOMAIN e.qs :
                     LET want == With(e.qs[i][1])
                     IN  /\ Expect("query with many documents", SetIs(e.qs[i][2], want))
                         /\ Expect("candidates with many documents", e.qs[i][3] = Cardinality(want))
         /\ Observe

TPanic == /\ e.op = "panic"
          /\ Expect("no panic or hang during " \o e.during, FALSE)
          /\ Observe

(* two threads only asked, but one of them wrote                            *)
TRace == e.op = "race" /\ Expect("questions do not race: " \o e.what, FALSE) /\ Observe
TraceInit == cx = 0 /\ sigs = Empty /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ \/ TNew \/ TInsert \/ TBulk \/ TBulkRange \/ TRemove \/ TBulkRemove \/ TRemoveRange \/ TClear
                \/ TNoop \/ TReject \/ TObs \/ TQuery \/ TById \/ TBulkQuery \/ TBulkSig
                \/ TCent \/ TMassCent \/ TCont \/ TMass \/ TPanic \/ TRace
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
