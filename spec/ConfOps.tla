------------------------------ MODULE ConfOps ------------------------------
(* Which constructor arguments of the Python indexes are valid.             *)
EXTENDS Naturals, Sequences, TLC
InUnit(t) == t \in {"zero", "izero", "low", "half", "one", "ione"}
MinValid(c) == /\ c.hash \in {8, 16, 32, 64} /\ InUnit(c.thr) /\ c.cont \in {"set", "vec", "smallvec"}
               /\ (c.nb > 0 /\ c.bs > 0) \/ c.nh > 0
SimValid(c) == /\ c.hash \in {64, 128} /\ c.blocks \in 3..32 /\ c.k < c.blocks
               /\ c.an \in {"word", "char", "call"}
Valid(c) == IF c.kind = "min" THEN MinValid(c) ELSE SimValid(c)
=============================================================================
