------------------------------ MODULE ConfGen ------------------------------
(* Constructor calls of the Python indexes: all combinations of argument    *)
(* values on both sides of every limit.                                     *)
EXTENDS Naturals, TLC, Json
CONSTANT Kind
VARIABLE c
MinArgs == [kind : {"min"}, hash : {0, 7, 8, 16, 24, 32, 33, 64, 128},
            thr : {"below", "neg", "zero", "izero", "low", "half", "one", "ione", "over", "two", "nan", "inf", "ninf"},
            cont : {"set", "vec", "smallvec", "", "Set", "list", "none"},
            nb : {0, 1, 8}, bs : {0, 1, 3}, nh : {0, 1, 16, 50}, an : {"word", "char", "call"}]
SimArgs == [kind : {"sim"}, hash : {0, 32, 63, 64, 65, 127, 128, 256}, blocks : {0, 1, 2, 3, 4, 6, 12, 31, 32, 33, 34, 40, 64},
            k : {0, 1, 2, 3, 4, 5, 6, 11, 30, 31, 32, 33, 64}, an : {"word", "char", "call", "", "Word", "chars", "none"}]
(* at most a few thousand tables: the number of tables is blocks choose k *)
Small(x) == x.k <= 2 \/ x.blocks <= 12 \/ x.k + 2 >= x.blocks
Init == IF Kind = "min" THEN c \in MinArgs ELSE c \in SimArgs /\ Small(c)
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT(<<"BEHAVIOUR", ToJson(c)>>)
=============================================================================
