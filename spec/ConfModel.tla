----------------------------- MODULE ConfModel -----------------------------
(* The constructors as code does them, check after check; the outcome has   *)
(* to be the declared one.                                                  *)
EXTENDS ConfOps
CONSTANTS Both          \* TRUE: the number of blocks is refused only when it is below AND above the limits
VARIABLES c, pc
vars == <<c, pc>>
MinArgs == [kind : {"min"}, hash : {0, 8, 24, 64, 128}, thr : {"neg", "zero", "half", "one", "two", "nan"},
            cont : {"set", "vec", "list"}, nb : {0, 2}, bs : {0, 2}, nh : {0, 16}, an : {"word"}]
SimArgs == [kind : {"sim"}, hash : {0, 64, 128}, blocks : {0, 2, 3, 6, 32, 33}, k : {0, 2, 3, 5, 31, 32, 33}, an : {"word", "call", "foo"}]
Init == c \in MinArgs \cup SimArgs /\ pc = "hash"
Step(at, ok, next) == pc = at /\ pc' = (IF ok THEN next ELSE "ValueError") /\ UNCHANGED c
Min == c.kind = "min" /\ \/ Step("hash", c.hash \in {8, 16, 32, 64}, "thr")
                         \/ Step("thr", InUnit(c.thr), "cont")
                         \/ Step("cont", c.cont \in {"set", "vec", "smallvec"}, "bands")
                         \/ pc = "bands" /\ pc' = (IF c.nb > 0 /\ c.bs > 0 THEN "ok" ELSE "hashes") /\ UNCHANGED c
                         \/ Step("hashes", c.nh > 0, "ok")
Sim == c.kind = "sim" /\ \/ Step("hash", c.hash \in {64, 128}, "blocks")
                         \/ Step("blocks", ~(IF Both THEN c.blocks < 3 /\ c.blocks > 32 ELSE c.blocks < 3 \/ c.blocks > 32), "dist")
                         \/ Step("dist", c.k < c.blocks, "an")
                         \/ Step("an", c.an \in {"word", "char", "call"}, "ok")
Spec == Init /\ [][Min \/ Sim]_vars
Outcome == pc \in {"ok", "ValueError"} => (pc = "ok") = Valid(c)
=============================================================================
