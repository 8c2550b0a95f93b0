------------------------------ MODULE SigOps ------------------------------
(***************************************************************************)
(* The laws of signatures and similarity measures, and of the banding       *)
(* parameters.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(f) == {f[x] : x \in DOMAIN f}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Abs(x) == IF x < 0 THEN -x ELSE x

(* MinHash: position i of the signature of a document is the smallest of    *)
(* position i of the signatures of its tokens.  sing[t] is the signature of *)
(* the document consisting of token t alone (values abstracted to ranks).   *)
MinLaw(sing, doc, sig, n) ==
    /\ Len(sig) = n
    /\ doc # <<>> => LET T == Rng(doc)
                     IN  \A i \in 1..n : sig[i] = MinOf({sing[t][i] : t \in T})

(* A family of hash functions, one per (seed, position): no two of them put *)
(* the tokens in the same order.  order[f][t] is the rank of token t.       *)
FamilyLaw(order) == Cardinality(Rng(order)) = Len(order)

(* SimHash: a bit is set iff more than half of the tokens, with             *)
(* multiplicity, have it set on their own.  doc: token -> multiplicity as a *)
(* sequence of <<token, count>>; sing[t]: sequence of bits.                 *)
RECURSIVE SumC(_, _)
SumC(P, i) == IF i = 0 THEN 0 ELSE P[i] + SumC(P, i - 1)
MajorityLaw(sing, doc, sig, w) ==
    LET cnt == [j \in DOMAIN doc |-> doc[j][2]]
        total == SumC(cnt, Len(doc))
    IN  /\ Len(sig) = w
        /\ \A i \in 1..w :
             LET ones == SumC([j \in DOMAIN doc |-> sing[doc[j][1]][i] * doc[j][2]], Len(doc))
             IN  (sig[i] = 1) <=> (2 * ones > total)
CentroidLaw(list, cent, w) ==
    /\ Len(cent) = w
    /\ \A i \in 1..w :
         (cent[i] = 1) <=> (2 * Cardinality({j \in DOMAIN list : list[j][i] = 1}) > Len(list))
HamLaw(a, b, d) == d = Cardinality({i \in DOMAIN a : a[i] # b[i]})

(* Measures.  A reported fraction x comes as round(1000000 * x).            *)
Million == 1000000
Near(micro, num, den) == micro \in 0..Million /\ Abs(micro * den - num * Million) <= 2 * den
Agree(a, b) == Cardinality({i \in DOMAIN a : a[i] = b[i]})
(* reaches num/den, in exact arithmetic *)
Reaches(a, b, num, den) == Agree(a, b) * den >= num * Len(a)
Inter(x, y) == Cardinality(Rng(x) \cap Rng(y))
Union(x, y) == Cardinality(Rng(x) \cup Rng(y))

(* the intersection of two half-open intervals; a fraction in 1/10000 *)
Low(x, y) == IF x < y THEN x ELSE y
High(x, y) == IF x < y THEN y ELSE x
InterI(x, y) == High(0, Low(x[2], y[2]) - High(x[1], y[1]))
NearC(c, num, den) == c \in 0..10000 /\ Abs(c * den - num * 10000) <= den

(* MinHash estimates.  p = <<n, a, e, b, f, agree>>: two documents, the      *)
(* tokens a..e-1 and b..f-1, agree in that many of n positions.  Deviations *)
(* from the Jaccard similarity in 1/1000.  With 32 and 64 bits a pair with  *)
(* at least 8 different tokens may be off by 8 standard errors of n fair    *)
(* draws (at most 1 / 2 sqrt n each), and over a session the squares of the *)
(* deviations are those of independent draws.  For very few tokens a linear *)
(* function of close hash values is not a fair draw, nor are its low bits.  *)
(* At every width the deviations average out.                               *)
UnionI(p) == (p[3] - p[2]) + (p[5] - p[4]) - InterI(<<p[2], p[3]>>, <<p[4], p[5]>>)
Dev(p) == LET i == InterI(<<p[2], p[3]>>, <<p[4], p[5]>>)
              u == UnionI(p)
          IN  (1000 * (p[6] * u - p[1] * i)) \div (p[1] * u)
Est(ps, width) == width >= 32 => \A j \in DOMAIN ps : UnionI(ps[j]) >= 8 => Dev(ps[j]) * Dev(ps[j]) * ps[j][1] <= 16000000
EstMean(ps, width) == Abs(SumC([j \in DOMAIN ps |-> Dev(ps[j])], Len(ps))) <= (IF width = 8 THEN 40 ELSE 30) * Len(ps)
(* mean square in units of the standard error, 1/100 *)
Square(p) == (Dev(p) * Dev(p) * p[1]) \div 2500
EstSpread(ps, width) == width >= 32 => SumC([j \in DOMAIN ps |-> Square(ps[j])], Len(ps)) <= 220 * Len(ps)

(* SimHash bits.  In how many of the 2^(c+x+y) assignments of bits to c     *)
(* common tokens, x of the first and y of the second document's own, do the *)
(* two majorities differ?                                                   *)
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Choose(n - 1, k - 1) + Choose(n - 1, k)
RECURSIVE SumS(_)
SumS(S) == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE IN p[1] + SumS(S \ {p})
Differ(c, x, y) ==
    LET D == {<<i, j, k>> \in (0..c) \X (0..x) \X (0..y) : (2 * (i + j) > c + x) # (2 * (i + k) > c + y)}
    IN  SumS({<<Choose(c, t[1]) * Choose(x, t[2]) * Choose(y, t[3]), t>> : t \in D})
(* ps: documents <<c, x, y, dist>> of w bits, each under keys of its own;   *)
(* expected distances in 1/1000 of a bit                                    *)
Expected(p, w) == w * ((1000 * Differ(p[1], p[2], p[3])) \div (2 ^ (p[1] + p[2] + p[3])))
SimEst(ps, w) == Abs(SumC([j \in DOMAIN ps |-> 1000 * ps[j][4] - Expected(ps[j], w)], Len(ps))) <= 40 * w * Len(ps)
(* ones[i] of t tokens have bit i set, agree[k]: have two bits alike; 7     *)
(* standard deviations of t fair coins                                      *)
Fair(x, t) == (2 * x - t) * (2 * x - t) <= 49 * t

(* Banding parameters: ok[r] is 1 when r rows (and n \div r bands) reach    *)
(* the target probability, 0 when they do not and 2 when the difference is  *)
(* too small for floating point.                                            *)
Ok(ok, r) == ok[r] # 0
NotOk(ok, r) == ok[r] # 1
ParamsLaw(n, ok, b, r) ==
    /\ r >= 1 /\ b >= 1 /\ b = n \div r
    /\ \A x \in 2..r : Ok(ok, x)
    /\ b > 1 => NotOk(ok, r + 1)
=============================================================================
