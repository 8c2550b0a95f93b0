------------------------------ MODULE TextOps ------------------------------
(***************************************************************************)
(* Shingles and words of a text.  A text is a sequence of symbols: code     *)
(* points for strings, arbitrary values for token sequences.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Min2(a, b) == IF a < b THEN a ELSE b

(* all n-grams with from <= n <= to, by start position and then length *)
Fitting(t, i, from, to) == {n \in from..to : i + n - 1 <= Len(t)}
RECURSIVE NgramsAt(_, _, _, _)
NgramsAt(t, i, from, to) ==
    IF i > Len(t) THEN <<>>
    ELSE [k \in 1..Cardinality(Fitting(t, i, from, to)) |-> SubSeq(t, i, i + from + k - 2)] \o NgramsAt(t, i + 1, from, to)
Ngrams(t, from, to) == NgramsAt(t, 1, from, to)
(* how many there are, without listing them *)
RECURSIVE NgramCount(_, _, _)
NgramCount(n, from, to) == IF from > to THEN 0 ELSE (IF n >= from THEN n - from + 1 ELSE 0) + NgramCount(n, from + 1, to)
(* the same by position, for long texts *)
FitAt(n, i, from, to) == IF n - i + 1 < from THEN 0 ELSE Min2(to, n - i + 1) - from + 1
Before(n, i, from, to) ==       \* how many start before position i
    LET m == IF n >= to THEN Min2(i - 1, n - to + 1) ELSE 0     \* positions where all lengths fit
        v == FitAt(n, m + 1, from, to)
        k == Min2(i - 1 - m, v)
    IN  m * (to - from + 1) + k * v - (k * (k - 1)) \div 2
NgramsByPos(t, from, to, obs) ==
    /\ Len(obs) = NgramCount(Len(t), from, to)
    /\ \A i \in DOMAIN t : LET p == Before(Len(t), i, from, to)
                           IN  \A k \in 1..FitAt(Len(t), i, from, to) : obs[p + k] = SubSeq(t, i, i + from + k - 2)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))

(* separators: ASCII punctuation and ASCII whitespace (space, tab, line     *)
(* feed, form feed, carriage return)                                        *)
Punct(c) == c \in 33..47 \/ c \in 58..64 \/ c \in 91..96 \/ c \in 123..126
White(c) == c \in {9, 10, 12, 13, 32}
Sep(c) == Punct(c) \/ White(c)
(* the maximal runs without separators *)
Starts(t) == {i \in DOMAIN t : ~Sep(t[i]) /\ (i = 1 \/ Sep(t[i - 1]))}
RECURSIVE EndOf(_, _)
EndOf(t, j) == IF j = Len(t) \/ Sep(t[j + 1]) THEN j ELSE EndOf(t, j + 1)
WordsLaw(t, obs) ==
    LET S == Starts(t)
    IN  /\ Len(obs) = Cardinality(S)
        /\ \A i \in S : obs[Cardinality({j \in S : j <= i})] = SubSeq(t, i, EndOf(t, i))
(* a text given in parts: s[1] w[1] s[2] ... w[n] s[n + 1], each an index   *)
(* into tab; the words of such a text are its w parts                       *)
PartsOK(tab, sp, wp) ==
    /\ Len(sp) = Len(wp) + 1
    /\ \A k \in {sp[i] : i \in DOMAIN sp} : \A c \in DOMAIN tab[k] : Sep(tab[k][c])
    /\ \A k \in {wp[i] : i \in DOMAIN wp} : tab[k] # <<>> /\ \A c \in DOMAIN tab[k] : ~Sep(tab[k][c])
    /\ \A i \in 2..Len(wp) : tab[sp[i]] # <<>>
=============================================================================
