---------------------------- MODULE PySimTrace ----------------------------
(***************************************************************************)
(* Judges recorded uses of the Python SimHash index: as PyMinTrace, with    *)
(* the bits of every token, and the bitwise majority over the tokens of a   *)
(* document, with multiplicity.                                             *)
(***************************************************************************)
EXTENDS PyOps, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES cx, dist, docs, l     \* docs: for every indexed id, the number of its document; dist: the distances of the documents
vars == <<cx, dist, docs, l>>
e == Trace[l]
C == Trace[cx]
Has(f) == f \in DOMAIN e
Expect(what, c) == IF c THEN TRUE ELSE PrintT(<<"REJECT", l, what>>) /\ FALSE
Ham(s, q) == Cardinality({i \in DOMAIN s : s[i] # q[i]})
Dist(s, q) == dist[s][q]
INSTANCE SimHashOps WITH D <- Dist
IndexOf(h, x) == CHOOSE k \in DOMAIN h.toks : h.toks[k] = x
Known(h, T) == \A x \in T : \E k \in DOMAIN h.toks : h.toks[k] = x
SigOf(h, T) ==
    LET K == TLCEval([p \in DOMAIN T |-> IndexOf(h, T[p])])
        n == Cardinality(DOMAIN T)
    IN  [b \in 1..h.width |-> IF 2 * Cardinality({p \in DOMAIN K : h.bits[K[p]][b] = 1}) > n THEN 1 ELSE 0]
Tokens(h) == [d \in DOMAIN h.docs |-> TLCEval(Toks(h, h.docs[d]))]
Distances(h) == LET T == TLCEval(Tokens(h))
                    sig == TLCEval([d \in DOMAIN T |-> TLCEval(SigOf(h, T[d]))])
                IN  [s \in DOMAIN sig |-> [q \in DOMAIN sig |-> Ham(sig[s], sig[q])]]
Covered(h) == LET T == TLCEval(Tokens(h)) IN \A d \in DOMAIN T : Known(h, Rng(T[d]))
TNew == /\ e.op = "new" /\ cx' = l /\ docs' = Empty
        /\ Expect("harness: the vocabulary covers the documents", Covered(e))
        /\ Expect("different tokens have different signatures", \A j, k \in DOMAIN e.toks : j < k => e.bits[j] # e.bits[k])
        /\ dist' = TLCEval(Distances(e))
Keep == UNCHANGED <<cx, dist>>
TInsert == e.op = "insert" /\ docs' = Put(docs, e.id, e.d) /\ Keep
TBulk == /\ e.op = "bulk" /\ Keep
         /\ docs' = IF Has("first") THEN PutRange(docs, e.first, e.ds) ELSE PutAll(docs, [k \in DOMAIN e.ids |-> <<e.ids[k], e.ds[k]>>])
Obs == UNCHANGED <<cx, dist, docs>>
TQuery == /\ e.op = "q"
          /\ Has("ids") => Expect("query", SetIs(e.ids, Matches(docs, C.k, e.d)))
          /\ Has("sims") => Expect("query with distances", DistListOK(docs, C.k, e.d, e.sims))
          /\ Obs
(* query k of a bulk query was answered with entry at[k] of ids and bt[k] of sims *)
TBulkQuery == /\ e.op = "bq"
              /\ Has("ids") => Expect("bulk query", Len(e.at) = Len(e.ds) /\ \A q \in {<<e.ds[k], e.at[k]>> : k \in DOMAIN e.ds} : SetIs(e.ids[q[2]], Matches(docs, C.k, q[1])))
              /\ Has("sims") => Expect("bulk query with distances", Len(e.bt) = Len(e.ds) /\ \A q \in {<<e.ds[k], e.bt[k]>> : k \in DOMAIN e.ds} : DistListOK(docs, C.k, q[1], e.sims[q[2]]))
              /\ Obs
TRaise == e.op = "panic" /\ Expect("no exception from " \o e.during, FALSE) /\ Obs
TraceInit == cx = 0 /\ dist = <<>> /\ docs = Empty /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (TNew \/ TInsert \/ TBulk \/ TQuery \/ TBulkQuery \/ TRaise)
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
