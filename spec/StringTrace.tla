---------------------------- MODULE StringTrace ----------------------------
(***************************************************************************)
(* Judges recorded uses of the string index.  The header gives the texts    *)
(* of the session, how many signature positions every two agree on and      *)
(* whether they share a band; bag is how often every text is stored.        *)
(***************************************************************************)
EXTENDS StringOps, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES cx, bag, l
vars == <<cx, bag, l>>
e == Trace[l]
C == Trace[cx]
Expect(what, c) == IF c THEN TRUE ELSE PrintT(<<"REJECT", l, what>>) /\ FALSE
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Total(b) == Sum(b, Len(b))
Near(s, t) == C.share[s][t] = 1 /\ C.match[s][t] >= C.need
TNew == /\ e.op = "new" /\ cx' = l /\ bag' = [i \in DOMAIN e.texts |-> 0]
TInsert == /\ e.op = "insert"
           /\ bag' = [bag EXCEPT ![e.t] = @ + 1]
           /\ Expect("size after insert", e.size = Total(bag'))
           /\ UNCHANGED cx
(* ret: documents reported, -1 for an error, -2 when the form reports nothing *)
TLoad == /\ e.op = "load"
         /\ \E D \in {Docs(e.bytes)} :
                /\ bag' = [i \in DOMAIN bag |-> bag[i] + Cardinality({k \in DOMAIN D : D[k] = C.texts[i]})]
                /\ Expect("harness: the texts of the session cover the file", Total(bag') = Total(bag) + Len(D))
                /\ Expect("number of documents reported", e.ret \in {Len(D), -2})
                /\ Expect("size after load", e.size = Total(bag'))
         /\ UNCHANGED cx
(* a file of e.times copies of a block that ends with a line feed, and a    *)
(* tail: its documents are those of the parts (StringUtf!Parts)             *)
Times(D, i) == Cardinality({k \in DOMAIN D : D[k] = C.texts[i]})
TLoadRep == /\ e.op = "loadrep"
            /\ Expect("harness: the block ends with a line feed", e.block[Len(e.block)] = LF)
            /\ \E D \in {Docs(e.block)}, T \in {Docs(e.tail)} :
                  \E n \in {e.times * Len(D) + Len(T)} :
                    /\ bag' = [i \in DOMAIN bag |-> bag[i] + e.times * Times(D, i) + Times(T, i)]
                    /\ Expect("harness: the texts of the session cover the file", Total(bag') = Total(bag) + n)
                    /\ Expect("number of documents reported", e.ret \in {n, -2})
                    /\ Expect("size after load", e.size = Total(bag'))
            /\ UNCHANGED cx
TBad == /\ e.op = "bad"
        /\ Expect("an unreadable file is an error or adds nothing", e.ret \in {-1, 0} /\ e.size = Total(bag))
        /\ UNCHANGED <<cx, bag>>
(* res: the returned texts, as indices, 0 for a text that is none of the session *)
TQuery == /\ e.op = "q"
          /\ Expect("documents found", /\ Len(e.res) = Sum([i \in DOMAIN bag |-> IF Near(i, e.t) THEN bag[i] ELSE 0], Len(bag))
                                       /\ \A i \in DOMAIN bag : Cardinality({k \in DOMAIN e.res : e.res[k] = i}) = (IF Near(i, e.t) THEN bag[i] ELSE 0))
          /\ UNCHANGED <<cx, bag>>
TPanic == e.op = "panic" /\ Expect("no panic or hang during " \o e.during, FALSE) /\ UNCHANGED <<cx, bag>>
TraceInit == cx = 0 /\ bag = <<>> /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (TNew \/ TInsert \/ TLoad \/ TLoadRep \/ TBad \/ TQuery \/ TPanic)
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
