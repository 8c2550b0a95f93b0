------------------------------ MODULE PyModel ------------------------------
(***************************************************************************)
(* The Python index as code does it: the constructor's checks, the choice   *)
(* of a tokenizer from analyzer and range, folding, and the three ways a    *)
(* document reaches the index (one at a time, small batch, large batch) or  *)
(* is queried.  It refines "the index maps an id to the tokens of the       *)
(* latest document inserted under it".                                      *)
(***************************************************************************)
EXTENDS PyOps
CONSTANTS MaxLen, Threshold, BulkFolds, SelectEq
VARIABLES g, content, want
vars == <<g, content, want>>
Letters == {97, 65, 32}                \* a, A, blank
Texts == UNION {[1..n -> Letters] : n \in 0..MaxLen}
Ids == {1, 2}
Cfgs == [an : {"word", "char", "call"}, rng : {<<>>, <<1, 1>>, <<2, 2>>, <<1, 2>>, <<2, 3>>}, lower : {0, 1}, fold : {<<<<65, <<97>>>>>>}]
(* which tokenizer is chosen *)
Select(c) == IF c.an = "char"
             THEN IF c.rng = <<>> THEN <<"range", 3, 4>> ELSE IF c.rng[1] = c.rng[2] THEN <<"single", c.rng[1]>> ELSE <<"range", c.rng[1], c.rng[2]>>
             ELSE IF c.rng = <<>> THEN <<"plain">> ELSE IF (IF SelectEq THEN c.rng[1] = c.rng[2] ELSE c.rng[1] < c.rng[2]) THEN <<"single", c.rng[1]>> ELSE <<"range", c.rng[1], c.rng[2]>>
RECURSIVE Windows(_, _, _)
Windows(t, i, n) == IF i + n - 1 > Len(t) THEN {} ELSE {SubSeq(t, i, i + n - 1)} \cup Windows(t, i + 1, n)
Units(c, t) == IF c.an = "char" THEN t ELSE Words(t)
Tokenize(c, t) ==
    LET s == Select(c) u == Units(c, t)
    IN  CASE s[1] = "plain" -> {<<u[i]>> : i \in DOMAIN u}
          [] s[1] = "single" -> Windows(u, 1, s[2])
          [] s[1] = "range" -> UNION {Windows(u, 1, n) : n \in s[2]..s[3]}
Analyze(c, t, folds) == IF c.an = "call" THEN {x : x \in {Pieces(t, 1)[i] : i \in DOMAIN Pieces(t, 1)}}
                        ELSE Tokenize(c, IF folds THEN Folded(c, t) ELSE t)
Put1(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Rng2(s) == {s[i] : i \in DOMAIN s}
Declared(c, t) == Rng2(Toks(c, t))
Init == g \in Cfgs /\ content = << >> /\ want = << >>
Insert == \E i \in Ids, t \in Texts : content' = Put1(content, i, Analyze(g, t, TRUE)) /\ want' = Put1(want, i, Declared(g, t)) /\ UNCHANGED g
(* a batch of two; Threshold decides which path it takes *)
Bulk == \E t \in Texts, u \in {<<97, 32, 65>>, <<65, 97>>} :
            /\ LET f == IF Threshold > 2 THEN TRUE ELSE BulkFolds
               IN  content' = Put1(Put1(content, 1, Analyze(g, t, f)), 2, Analyze(g, u, f))
            /\ want' = Put1(Put1(want, 1, Declared(g, t)), 2, Declared(g, u))
            /\ UNCHANGED g
Next == Insert \/ Bulk
Spec == Init /\ [][Next]_vars
Refines == content = want
=============================================================================
