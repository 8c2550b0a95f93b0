----------------------------- MODULE ConfTrace -----------------------------
(* Judges recorded constructor calls.  0 stands for an argument that is not *)
(* given (nb, bs, nh).                                                      *)
EXTENDS ConfOps, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
e == Trace[l]
Expect(what, x) == IF x THEN TRUE ELSE PrintT(<<"REJECT", l, what>>) /\ FALSE
TNew == e.op = "new"
TConf == /\ e.op = "conf"
         /\ Expect("refused with ValueError exactly when invalid", e.out = (IF Valid(e) THEN "ok" ELSE "ValueError"))
         /\ Expect("an accepted index finds its documents", e.works = 1)
TRaise == e.op = "panic" /\ Expect("no exception from " \o e.during, FALSE)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (TNew \/ TConf \/ TRaise)
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
