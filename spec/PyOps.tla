------------------------------- MODULE PyOps -------------------------------
(***************************************************************************)
(* What the Python indexes take a document to be.  A document is a sequence *)
(* of code points, a token a sequence of words (word analyzer) or of code   *)
(* points (char analyzer, callable).  A configuration g has                 *)
(*   an     "word", "char" or "call"                                        *)
(*   rng    <<>> or <<min, max>>                                            *)
(*   lower  1: characters are folded first (built-in analyzers only)        *)
(*   fold   the folding, as pairs <<upper, what it becomes>>                *)
(***************************************************************************)
EXTENDS TextOps
(* Folding.  A letter may become several (U+0130), and the capital sigma      *)
(* becomes the final form at the end of a word: after a letter and not      *)
(* before one, where characters that are ignored (full stops, accents) do not count. *)
Sigma == 931
Cased(g, c) == \/ c \in 65..90 \/ c \in 97..122 \/ c \in {Sigma, 962, 963, 945}
               \/ \E k \in DOMAIN g.fold : c \in {g.fold[k][1], g.fold[k][2][1]}
Ignored(c) == c \in {39, 46, 58, 94, 96, 173, 769, 8203, 65279}
RECURSIVE CasedBefore(_, _, _)
CasedBefore(g, t, i) == i >= 1 /\ IF Ignored(t[i]) THEN CasedBefore(g, t, i - 1) ELSE Cased(g, t[i])
RECURSIVE CasedAfter(_, _, _)
CasedAfter(g, t, i) == i <= Len(t) /\ IF Ignored(t[i]) THEN CasedAfter(g, t, i + 1) ELSE Cased(g, t[i])
FoldC(g, t, i) ==
    IF t[i] = Sigma THEN IF CasedBefore(g, t, i - 1) /\ ~CasedAfter(g, t, i + 1) THEN <<962>> ELSE <<963>>
    ELSE LET P == {k \in DOMAIN g.fold : g.fold[k][1] = t[i]} IN IF P = {} THEN <<t[i]>> ELSE g.fold[MinOf(P)][2]
RECURSIVE Joined(_, _, _)
Joined(u, i, acc) == IF i > Len(u) THEN acc ELSE Joined(u, i + 1, acc \o u[i])
Folded(g, t) == IF g.lower = 1
                THEN LET u == TLCEval([i \in DOMAIN t |-> FoldC(g, t, i)])
                     IN  IF \A i \in DOMAIN u : Len(u[i]) = 1 THEN [i \in DOMAIN u |-> u[i][1]] ELSE Joined(u, 1, <<>>)
                ELSE t
RECURSIVE WordsFrom(_, _)
WordsFrom(t, i) ==
    IF i > Len(t) THEN <<>>
    ELSE IF Sep(t[i]) THEN WordsFrom(t, i + 1)
    ELSE LET j == EndOf(t, i) IN <<SubSeq(t, i, j)>> \o WordsFrom(t, j + 1)
Words(t) == WordsFrom(t, 1)
(* the callable used in the sessions: the non-empty pieces between bars *)
Bar == 124
RECURSIVE BarAfter(_, _)
BarAfter(t, j) == IF j = Len(t) \/ t[j + 1] = Bar THEN j ELSE BarAfter(t, j + 1)
RECURSIVE Pieces(_, _)
Pieces(t, i) ==
    IF i > Len(t) THEN <<>>
    ELSE IF t[i] = Bar THEN Pieces(t, i + 1)
    ELSE LET j == BarAfter(t, i) IN <<SubSeq(t, i, j)>> \o Pieces(t, j + 1)
(* the tokens by where they stand: a function from <<start, length>> *)
GramsOf(u, from, to) == [p \in {q \in (1..Len(u)) \X (from..to) : q[1] + q[2] - 1 <= Len(u)} |-> SubSeq(u, p[1], p[1] + p[2] - 1)]
Toks(g, t) ==
    CASE g.an = "call" -> Pieces(t, 1)
      [] g.an = "word" -> LET w == TLCEval(Words(TLCEval(Folded(g, t))))
                          IN  IF g.rng = <<>> THEN GramsOf(w, 1, 1) ELSE GramsOf(w, g.rng[1], g.rng[2])
      [] g.an = "char" -> LET f == TLCEval(Folded(g, t))
                          IN  IF g.rng = <<>> THEN GramsOf(f, 3, 4) ELSE GramsOf(f, g.rng[1], g.rng[2])
=============================================================================
