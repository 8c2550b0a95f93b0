----------------------------- MODULE StringOps -----------------------------
(***************************************************************************)
(* Lines of a file, as sequences of bytes.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Rng(f) == {f[x] : x \in DOMAIN f}
LF == 10
CR == 13
(* where lines end: at line feeds, and at the end of a last line that has   *)
(* no line feed                                                             *)
Ends(b) == {i \in DOMAIN b : b[i] = LF} \cup (IF b # <<>> /\ b[Len(b)] # LF THEN {Len(b)} ELSE {})
(* a line without its LF or CR LF *)
Trim(x) == IF x = <<>> \/ x[Len(x)] # LF THEN x
           ELSE IF Len(x) > 1 /\ x[Len(x) - 1] = CR THEN SubSeq(x, 1, Len(x) - 2)
           ELSE SubSeq(x, 1, Len(x) - 1)
(* the lines of a file, in order *)
Lines(b) == LET E == SetToSortSeq(Ends(b), LAMBDA x, y : x < y)
            IN  [k \in DOMAIN E |-> Trim(SubSeq(b, (IF k = 1 THEN 0 ELSE E[k - 1]) + 1, E[k]))]

(* well-formed UTF-8: every byte that is not a continuation starts a        *)
(* character of the right length, every continuation belongs to one         *)
Cont(x) == x \in 128..191
Width(x) == IF x < 128 THEN 1 ELSE IF x \in 194..223 THEN 2 ELSE IF x \in 224..239 THEN 3
            ELSE IF x \in 240..244 THEN 4 ELSE 0
Starts(b, i) ==
    LET x == b[i]
        n == Width(x)
    IN  /\ n > 0 /\ i + n - 1 <= Len(b)
        /\ \A k \in 1..(n - 1) : Cont(b[i + k])
        /\ x = 224 => b[i + 1] >= 160
        /\ x = 237 => b[i + 1] <= 159
        /\ x = 240 => b[i + 1] >= 144
        /\ x = 244 => b[i + 1] <= 143
Continues(b, i) == \E k \in 1..3 : /\ i > k /\ Width(b[i - k]) > k /\ ~Cont(b[i - k])
                                    /\ \A j \in 1..(k - 1) : Cont(b[i - j])
Utf8(b) == \A i \in DOMAIN b : IF Cont(b[i]) THEN Continues(b, i) ELSE Starts(b, i)
(* the same by consuming one character after the other *)
RECURSIVE Utf8Rec(_)
Utf8Rec(b) == b = <<>> \/ (~Cont(b[1]) /\ Starts(b, 1) /\ Utf8Rec(SubSeq(b, Width(b[1]) + 1, Len(b))))
(* the documents of a file: its lines that are well-formed text *)
Docs(b) == SelectSeq(Lines(b), Utf8)
=============================================================================
