---------------------------- MODULE PyMinTrace ----------------------------
(***************************************************************************)
(* Judges recorded uses of the Python MinHash index.  The header gives the  *)
(* configuration, the documents, and for every token the signature of the   *)
(* document that consists of it alone (per position, the rank among all     *)
(* tokens; rank 0 is the value 0).  The signature of a document is derived  *)
(* here from its tokens; low[i][r + 1] is what the hash size keeps of rank  *)
(* r at position i.                                                         *)
(***************************************************************************)
EXTENDS PyOps, MinHashOps, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES cx, rel, docs, l      \* docs: for every indexed id, the number of its document; rel: how the documents compare
vars == <<cx, rel, docs, l>>
e == Trace[l]
C == rel
Has(f) == f \in DOMAIN e
Expect(what, c) == IF c THEN TRUE ELSE PrintT(<<"REJECT", l, what>>) /\ FALSE
None == [id \in {} |-> 0]
IndexOf(h, x) == CHOOSE k \in DOMAIN h.toks : h.toks[k] = x
Known(h, T) == \A x \in T : \E k \in DOMAIN h.toks : h.toks[k] = x
SigOf(h, T) ==
    LET K == TLCEval({IndexOf(h, x) : x \in T})
        n == h.b * h.w
    IN  IF K = {} THEN [i \in 1..n |-> 0]
        ELSE [i \in 1..n |-> LET m == MinOf({h.rank[k][i] : k \in K}) IN IF h.low = <<>> THEN m ELSE h.low[i][m + 1]]
Tokens(h) == [d \in DOMAIN h.docs |-> TLCEval(Rng(Toks(h, h.docs[d])))]
Covered(h) == LET T == TLCEval(Tokens(h)) IN \A d \in DOMAIN T : Known(h, T[d])
(* the documents enter the index by their signatures: content and queries   *)
(* are the numbers of documents, compared by these tables                   *)
Tables(h) ==
    LET T == TLCEval(Tokens(h))
        sig == TLCEval([d \in DOMAIN T |-> TLCEval(SigOf(h, T[d]))])
    IN  [tab |-> TRUE, b |-> h.b, r |-> h.w, need |-> h.need,
         match |-> [s \in DOMAIN sig |-> [q \in DOMAIN sig |-> Agree(sig[s], sig[q])]],
         share |-> [s \in DOMAIN sig |-> [q \in DOMAIN sig |-> IF ShareBand(sig[s], sig[q], h.b, h.w) THEN 1 ELSE 0]]]
TNew == /\ e.op = "new" /\ cx' = l /\ docs' = None
        /\ Expect("harness: the vocabulary covers the documents", Covered(e))
        /\ Expect("different tokens have different signatures", \A j, k \in DOMAIN e.toks : j < k => e.rank[j] # e.rank[k])
        /\ Expect("signature length", \A k \in DOMAIN e.rank : Len(e.rank[k]) = e.b * e.w)
        /\ rel' = TLCEval(Tables(e))
Keep == UNCHANGED <<cx, rel>>
TInsert == e.op = "insert" /\ docs' = Put(docs, e.id, e.d) /\ Keep
TRemove == e.op = "remove" /\ docs' = Without(docs, {e.id}) /\ Keep
TBulk == /\ e.op = "bulk" /\ Keep
         /\ docs' = IF Has("first") THEN PutRange(docs, e.first, e.ds) ELSE PutAll(docs, [k \in DOMAIN e.ids |-> <<e.ids[k], e.ds[k]>>])
SetIs(list, S) == Rng(list) = S /\ NoDup(list)
Obs == UNCHANGED <<cx, rel, docs>>
TSize == e.op = "size" /\ Expect("size", e.size = Cardinality(DOMAIN docs)) /\ Obs
TDesc == /\ e.op = "desc"
         /\ Expect("description: hashes, bands, rows, size",
               LET h == Trace[cx] want == <<h.b * h.w, h.b, h.w, Cardinality(DOMAIN docs)>>
               IN  \A i \in 1..4 : e.desc[i] \in {-1, want[i]})
         /\ Expect("description: threshold", e.thr \in {"-1.0", Trace[cx].thr})
         /\ Obs
TQuery == /\ e.op = "q"
          /\ Has("ids") => Expect("query", SetIs(e.ids, QSet(C, docs, e.d)))
          /\ Has("sims") => Expect("query with similarities", SimListOK(C, docs, e.d, e.sims))
          /\ Obs
(* query k of a bulk query was answered with entry at[k] of ids and bt[k] of sims *)
TBulkQuery == /\ e.op = "bq"
              /\ Has("ids") => Expect("bulk query", Len(e.at) = Len(e.ds) /\ \A q \in {<<e.ds[k], e.at[k]>> : k \in DOMAIN e.ds} : SetIs(e.ids[q[2]], QSet(C, docs, q[1])))
              /\ Has("sims") => Expect("bulk query with similarities", Len(e.bt) = Len(e.ds) /\ \A q \in {<<e.ds[k], e.bt[k]>> : k \in DOMAIN e.ds} : SimListOK(C, docs, q[1], e.sims[q[2]]))
              /\ Obs
TRaise == e.op = "panic" /\ Expect("no exception from " \o e.during, FALSE) /\ Obs
TraceInit == cx = 0 /\ rel = <<>> /\ docs = None /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (TNew \/ TInsert \/ TRemove \/ TBulk \/ TSize \/ TDesc \/ TQuery \/ TBulkQuery \/ TRaise)
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
