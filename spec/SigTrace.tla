----------------------------- MODULE SigTrace -----------------------------
(* Judges recorded signatures and measures by the laws of SigOps.           *)
EXTENDS SigOps, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
(* the same inputs hashed in another process *)
Twin == ndJsonDeserialize(IOEnv.TWIN_FILE)
VARIABLES cx, l
vars == <<cx, l>>
e == Trace[l]
C == Trace[cx]
Expect(what, c) == IF c THEN TRUE ELSE PrintT(<<"REJECT", l, what>>) /\ FALSE

Repeated == Expect("the same in every process", Len(Twin) = Len(Trace) /\ Twin[l] = e)
TNew == e.op = "new" /\ Repeated /\ cx' = l

(* header: n, s32, s64 (ranks of single-token signatures).  A document was  *)
(* hashed by two independently created hashers of the same parameters.      *)
TMinSig == /\ e.op = "minsig" /\ Repeated
           /\ Expect("32 bit signature is the minimum over the tokens", MinLaw(C.s32, e.doc, e.r32, C.n))
           /\ Expect("64 bit signature is the minimum over the tokens", MinLaw(C.s64, e.doc, e.r64, C.n))
           /\ Expect("equal parameters give equal signatures", e.same = 1)
           /\ Expect("bulk creation gives the same signatures", e.bulk = 1)
           /\ Expect("16 bit signature is the low bits of the 32 bit one", e.s16 = e.lo16)
           /\ Expect("8 bit signature is the low bits of the 32 bit one",
                     /\ Len(e.s8) = Len(e.lo16)
                     /\ \A i \in DOMAIN e.s8 : e.s8[i] = e.lo16[i] % 256)
           /\ Expect("number of hashes", e.nh = <<C.n, C.n, C.n, C.n>>)
           /\ e.doc = <<>> => Expect("empty document has the zero signature", e.nonzero = 0)
           /\ UNCHANGED cx

(* very many documents: of[i] is which of a few documents the i-th one is,  *)
(* bulk[i] and refs[i] whose signature it got (0: that of none of them)     *)
TBulkMany == /\ e.op = "bulkmany"
             /\ Expect("bulk creation of very many signatures", e.bulk = e.of /\ e.refs = e.of)
             /\ UNCHANGED cx

(* header: w, sing (bits of single-token signatures) *)
TSimSig == /\ e.op = "simsig" /\ Repeated
           /\ \A j \in DOMAIN e.sigs : Expect("signature is the majority of the token signatures",
                                               MajorityLaw(C.sing, e.doc, e.sigs[j], C.w))
           /\ UNCHANGED cx
TSimCent == /\ e.op = "simcent"
            /\ Expect("centroid is the bitwise majority", CentroidLaw(e.list, e.cent, e.w))
            /\ UNCHANGED cx
(* the same with multiplicities *)
TSimCentM == /\ e.op = "simcentm"
             /\ Expect("centroid is the bitwise majority", MajorityLaw(e.list, e.doc, e.cent, e.w))
             /\ UNCHANGED cx
THam == /\ e.op = "ham"
        /\ Expect("Hamming distance", HamLaw(e.a, e.b, e.d) /\ e.d = e.d2)
        /\ Expect("angle and length in bits", e.angle = e.d /\ e.len = Len(e.a))
        /\ Expect("high bits", /\ e.h32 = SubSeq(e.a, Len(e.a) - 31, Len(e.a))
                                /\ e.h64 = SubSeq(e.a, Len(e.a) - 63, Len(e.a)))
        /\ Expect("set bits", e.ones = Cardinality({i \in DOMAIN e.a : e.a[i] = 1}))
        /\ UNCHANGED cx

TMeasure == /\ e.op = "measure"
            /\ LET n == Len(e.a)
               IN  /\ Expect("similarity", Near(e.sim, Agree(e.a, e.b), n) /\ e.sim = e.sim2)
                   /\ Expect("distance", Near(e.dist, n - Agree(e.a, e.b), n) /\ e.dist = e.dist2)
                   /\ Expect("exact", e.exact = 1)
            /\ \A j \in DOMAIN e.thr :
                  Expect("threshold predicate",
                         /\ (e.thr[j][3] = 1) <=> Reaches(e.a, e.b, e.thr[j][1], e.thr[j][2])
                         /\ e.thr[j][4] = e.thr[j][3])
            /\ UNCHANGED cx
(* long signatures: similarities come as numbers of positions *)
TBigMeasure == /\ e.op = "bigmeasure"
               /\ LET m == Agree(e.a, e.b)
                  IN  /\ Expect("similarity", e.sim = m /\ e.sim2 = m)
                      /\ Expect("distance", e.dist = Len(e.a) - m)
                      /\ \A j \in DOMAIN e.thr :
                            Expect("threshold predicate", (e.thr[j][3] = 1) <=> m * e.thr[j][2] >= e.thr[j][1] * Len(e.a))
               /\ UNCHANGED cx
(* x and y are half-open intervals of tokens; similarities in 1/10000 *)
TBigJac == /\ e.op = "bigjac"
           /\ LET i == InterI(e.x, e.y)
                  u == (e.x[2] - e.x[1]) + (e.y[2] - e.y[1]) - i
              IN  /\ Expect("Jaccard similarity", NearC(e.sim, i, u) /\ e.sim = e.sim2)
                  /\ Expect("Jaccard distance", NearC(e.dist, u - i, u))
           /\ UNCHANGED cx
TJac == /\ e.op = "jac"
        /\ LET u == Union(e.x, e.y)
               i == Inter(e.x, e.y)
           IN  /\ Expect("Jaccard similarity", Near(e.sim, i, u) /\ e.sim = e.sim2)
               /\ Expect("Jaccard distance", Near(e.dist, u - i, u) /\ e.dist = e.dist2)
        /\ UNCHANGED cx
THSim == /\ e.op = "hsim"
         /\ Expect("similarity of two documents", /\ Len(e.a) = e.n /\ Len(e.b) = e.n
                                                  /\ Near(e.sim, Agree(e.a, e.b), e.n) /\ e.sim = e.sim2)
         /\ UNCHANGED cx
TFamily == /\ e.op = "family"
           /\ Expect("harness", Len(e.order) = e.n * e.seeds)
           /\ Expect("every position and seed has its own hash function", FamilyLaw(e.order))
           /\ Expect("distinct tokens have distinct signatures", \A i \in DOMAIN e.distinct : e.distinct[i] = e.voc)
           /\ UNCHANGED cx
(* sigs[k][t]: the signature of token t under the k-th pair of keys *)
TSimFamily == /\ e.op = "simfamily"
              /\ Expect("keys and tokens have their own signatures",
                        Cardinality({e.sigs[k][t] : <<k, t>> \in (DOMAIN e.sigs) \X (DOMAIN e.sigs[1])}) = Len(e.sigs) * Len(e.sigs[1]))
              /\ UNCHANGED cx
TEst == /\ e.op = "est"
        /\ Expect("similarity of signatures is near the Jaccard similarity", Est(e.ps, e.width))
        /\ Expect("deviations from the Jaccard similarity average out", EstMean(e.ps, e.width))
        /\ Expect("deviations are those of independent positions", EstSpread(e.ps, e.width))
        /\ UNCHANGED cx
TBits == /\ e.op = "bits"
         /\ Expect("harness", Len(e.ones) = e.w /\ 2 * Len(e.agree) = e.w * (e.w - 1))
         /\ Expect("every bit is set for half of the tokens", \A i \in DOMAIN e.ones : Fair(e.ones[i], e.t))
         /\ Expect("no two bits go together", \A i \in DOMAIN e.agree : Fair(e.agree[i], e.t))
         /\ UNCHANGED cx
TSimEst == /\ e.op = "simest"
           /\ Expect("Hamming distances are those of majorities of fair bits", SimEst(e.ps, e.w))
           /\ UNCHANGED cx
TParams == /\ e.op = "params"
           /\ Expect("banding parameters", ParamsLaw(e.n, e.ok, e.b, e.r))
           /\ UNCHANGED cx
TPanic == e.op = "panic" /\ Expect("no panic or hang during " \o e.during, FALSE) /\ UNCHANGED cx

TraceInit == cx = 0 /\ l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ \/ TNew \/ TBulkMany \/ TMinSig \/ TSimSig \/ TSimCent \/ TSimCentM \/ TBigMeasure \/ TBigJac \/ THam \/ THSim \/ TEst \/ TBits \/ TSimEst \/ TFamily \/ TSimFamily \/ TMeasure \/ TJac \/ TParams \/ TPanic
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
