----------------------------- MODULE TextTrace -----------------------------
EXTENDS TextOps, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l
e == Trace[l]
Expect(what, c) == IF c THEN TRUE ELSE PrintT(<<"REJECT", l, what>>) /\ FALSE
TNew == e.op = "new"
(* e.r: <<from, to, items>>; several forms that answered alike share one entry *)
TShingles == /\ e.op = "shingles"
             /\ \A j \in DOMAIN e.r : Expect("shingles from " \o ToString(e.r[j][1]) \o " to " \o ToString(e.r[j][2]) \o " of " \o e.forms[j],
                                              IF Len(e.t) > 64 THEN NgramsByPos(e.t, e.r[j][1], e.r[j][2], e.r[j][3])
                                              ELSE Len(e.r[j][3]) = NgramCount(Len(e.t), e.r[j][1], e.r[j][2]) /\ e.r[j][3] = Ngrams(e.t, e.r[j][1], e.r[j][2]))
(* shingle_tokens joins the tokens of an n-gram *)
TTokens == /\ e.op = "tokens"
           /\ Expect("token shingles",
                     Len(e.items) = NgramCount(Len(e.t), e.n, e.n) /\ \A k \in DOMAIN e.items : e.items[k] = Flat(SubSeq(e.t, k, k + e.n - 1)))
TWords == e.op = "words" /\ Expect("words", WordsLaw(e.t, e.items) /\ WordsLaw(e.t, e.boxed))
(* a long text in parts; the items are indices into tab too *)
TParts == /\ e.op = "parts"
          /\ Expect("harness: parts", PartsOK(e.tab, e.s, e.w) /\ Cardinality({e.tab[k] : k \in DOMAIN e.tab}) = Len(e.tab))
          /\ Expect("words of a long text", e.items = e.w /\ e.boxed = e.w)
TPanic == e.op = "panic" /\ Expect("no panic or hang during " \o e.during, FALSE)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (TNew \/ TShingles \/ TTokens \/ TWords \/ TParts \/ TPanic)
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
