----------------------------- MODULE TextModel -----------------------------
(***************************************************************************)
(* The two scanners as state machines: the shingle iterator (position and   *)
(* size, as in multi_shingles.rs) and the word splitter.                    *)
(***************************************************************************)
EXTENDS TextOps
CONSTANTS Kind, Alphabet, MaxLen, MaxN, EarlyStop
VARIABLES t, from, to, pos, size, out, done
vars == <<t, from, to, pos, size, out, done>>
Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Init == /\ t \in Texts /\ out = <<>> /\ done = FALSE /\ pos = 1
        /\ IF Kind = "shingle" THEN from \in 1..MaxN /\ to \in from..MaxN ELSE from = 1 /\ to = 1
        /\ size = from
Fits == pos + size - 1 <= Len(t)
Yield == /\ Kind = "shingle" /\ ~done /\ Fits
         /\ out' = Append(out, SubSeq(t, pos, pos + size - 1))
         /\ IF size = to THEN size' = from /\ pos' = pos + 1 ELSE size' = size + 1 /\ UNCHANGED pos
         /\ UNCHANGED <<t, from, to, done>>
Skip == /\ Kind = "shingle" /\ ~done /\ ~Fits /\ size > from /\ ~EarlyStop
        /\ size' = from /\ pos' = pos + 1 /\ UNCHANGED <<t, from, to, done, out>>
Stop == /\ Kind = "shingle" /\ ~done /\ ~Fits /\ (size = from \/ EarlyStop)
        /\ done' = TRUE /\ UNCHANGED <<t, from, to, pos, size, out>>
(* words: [size = length of the current run] *)
InitW == 0
Scan == /\ Kind = "word" /\ ~done /\ pos <= Len(t)
        /\ pos' = pos + 1
        /\ IF Sep(t[pos])
           THEN /\ size' = 1
                /\ out' = IF size = 1 THEN out ELSE Append(out, SubSeq(t, pos - (size - 1), pos - 1))
           ELSE size' = size + 1 /\ UNCHANGED out
        /\ UNCHANGED <<t, from, to, done>>
Finish == /\ Kind = "word" /\ ~done /\ pos > Len(t)
          /\ out' = IF size = 1 THEN out ELSE Append(out, SubSeq(t, pos - (size - 1), pos - 1))
          /\ done' = TRUE /\ UNCHANGED <<t, from, to, pos, size>>
Next == Yield \/ Skip \/ Stop \/ Scan \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
ShinglesExact == (done /\ Kind = "shingle") => out = Ngrams(t, from, to) /\ Len(out) = NgramCount(Len(t), from, to)
ShinglesPrefix == Kind = "shingle" => out = SubSeq(Ngrams(t, from, to), 1, Len(out))
ShinglesByPos == (done /\ Kind = "shingle") => /\ NgramsByPos(t, from, to, out)
                                              /\ \A i \in DOMAIN t : Before(Len(t), i, from, to) = Len(NgramsAt(t, 1, from, to)) - Len(NgramsAt(t, i, from, to))
(* the words of a text in parts *)
PartTab == <<<<>>, <<32>>, <<46, 32>>, <<97>>, <<97, 160>>>>
RECURSIVE JoinParts(_, _, _)
JoinParts(sp, wp, i) == PartTab[sp[i]] \o (IF i > Len(wp) THEN <<>> ELSE PartTab[wp[i]] \o JoinParts(sp, wp, i + 1))
ASSUME \A n \in 0..3 : \A wp \in [1..n -> 1..5] : \A sp \in [1..n + 1 -> 1..5] :
          PartsOK(PartTab, sp, wp) => WordsLaw(JoinParts(sp, wp, 1), [i \in DOMAIN wp |-> PartTab[wp[i]]])
WordsExact == (done /\ Kind = "word") => WordsLaw(t, out)
Ends == <>done
=============================================================================
