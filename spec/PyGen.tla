------------------------------- MODULE PyGen -------------------------------
(***************************************************************************)
(* Generates configurations and call histories of the Python indexes.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Kind, N
VARIABLES cfg, hist
vars == <<cfg, hist>>
Ranges == {<<>>, <<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<2, 4>>, <<1, 5>>}
Analyzers == {"word", "char", "call"}
MinCfg == [hash : {8, 16, 32, 64}, cont : {"set", "vec", "smallvec"}, an : Analyzers, lower : {0, 1}, rng : Ranges]
SimCfg == [hash : {64, 128}, an : Analyzers, lower : {0, 1}, rng : Ranges]
MinOps == {"ins", "again", "bulk", "big", "rem", "absent"}
SimOps == {"ins", "again", "bulk", "big"}
Init == hist = <<>> /\ cfg \in (IF Kind = "min" THEN MinCfg ELSE SimCfg)
Next == Len(hist) < N /\ \E o \in (IF Kind = "min" THEN MinOps ELSE SimOps) : hist' = Append(hist, o) /\ UNCHANGED cfg
Spec == Init /\ [][Next]_vars
Emit == Len(hist) = N => PrintT(<<"BEHAVIOUR", ToJson([cfg |-> cfg, hist |-> hist])>>)
=============================================================================
