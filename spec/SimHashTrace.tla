--------------------------- MODULE SimHashTrace ---------------------------
(***************************************************************************)
(* Judges executions recorded from the real SimHash index.  The header line *)
(* of a session gives the layout and the signatures used: with tab = FALSE  *)
(* as sequences of hexadecimal digits (0..15), from which the distances are *)
(* computed here, with tab = TRUE as a distance table (large sessions).     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Bitwise
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES cx, sigs, l
vars == <<cx, sigs, l>>

e == Trace[l]
C == Trace[cx]
Has(f) == f \in DOMAIN e
Expect(what, c) == IF c THEN TRUE ELSE PrintT(<<"REJECT", l, what>>) /\ FALSE

Ones == <<0,1,1,2,1,2,2,3,1,2,2,3,2,3,3,4>>
RECURSIVE HexDist(_, _, _)
HexDist(a, b, i) == IF i = 0 THEN 0 ELSE Ones[(a[i] ^^ b[i]) + 1] + HexDist(a, b, i - 1)
Dist(s, q) == IF C.tab THEN C.dist[s][q] ELSE HexDist(C.pool[s], C.pool[q], Len(C.pool[s]))
INSTANCE SimHashOps WITH D <- Dist

Observe == UNCHANGED <<cx, sigs>>
TNew == e.op = "new" /\ cx' = l /\ sigs' = Empty
TInsert == e.op = "insert" /\ sigs' = Put(sigs, e.id, e.s) /\ UNCHANGED cx
TBulk == e.op = "bulk" /\ sigs' = PutAll(sigs, e.batch) /\ UNCHANGED cx
TBulkRange == e.op = "bulkrange" /\ sigs' = PutRange(sigs, e.first, e.ss) /\ UNCHANGED cx
TSize == e.op = "size" /\ Expect("size", e.size = Cardinality(DOMAIN sigs)) /\ Observe
TQuery == /\ e.op = "q"
          /\ LET want == Matches(sigs, C.k, e.q)
             IN /\ Has("set")   => Expect("query", SetIs(e.set, want))
                /\ Has("owned") => Expect("query_owned", SetIs(e.owned, want))
          /\ Has("dists") => Expect("query_return_distance", DistListOK(sigs, C.k, e.q, e.dists))
          /\ Has("one") => Expect("query_one", NearestOK(sigs, C.k, e.q, e.one))
          /\ Observe
TBulkQuery == /\ e.op = "bq"
              /\ Has("sets") => Expect("bulk query",
                    /\ Len(e.sets) = Len(e.qs)
                    /\ \A i \in DOMAIN e.qs : SetIs(e.sets[i], Matches(sigs, C.k, e.qs[i])))
              /\ Has("dists") => Expect("bulk query with distances",
                    /\ Len(e.dists) = Len(e.qs)
                    /\ \A i \in DOMAIN e.qs : DistListOK(sigs, C.k, e.qs[i], e.dists[i]))
              /\ Observe
TPanic == e.op = "panic" /\ Expect("no panic or hang during " \o e.during, FALSE) /\ Observe

(* two threads only asked, but one of them wrote                            *)
TRace == e.op = "race" /\ Expect("questions do not race: " \o e.what, FALSE) /\ Observe
TraceInit == cx = 0 /\ sigs = Empty /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ \/ TNew \/ TInsert \/ TBulk \/ TBulkRange \/ TSize \/ TQuery \/ TBulkQuery \/ TPanic \/ TRace
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
