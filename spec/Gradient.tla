------------------------------- MODULE Gradient -------------------------------
(* The gradient of a training step. Examples have integer gradient vectors     *)
(* X[i] and numbers of targets T[i]; a step deals examples to ranks and, within *)
(* a rank, to micro-batches: deal[r] is a sequence of sequences of examples.   *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE SumSeq(_, _)
SumSeq(f, i) == IF i = 0 THEN 0 ELSE f[i] + SumSeq(f, i - 1)
Sum(f) == SumSeq(f, Len(f))
Abs(x) == IF x < 0 THEN 0 - x ELSE x

Vec(X, b, d) == Sum([i \in 1..Len(b) |-> X[b[i]][d]])
Weight(T, b) == Sum([i \in 1..Len(b) |-> T[b[i]]])
\* Of a rank: all micro-batches.
RankVec(X, mb, d) == Sum([j \in 1..Len(mb) |-> Vec(X, mb[j], d)])
RankWeight(T, mb) == Sum([j \in 1..Len(mb) |-> Weight(T, mb[j])])

\* The promised gradient as numerators and one denominator. With numbers of
\* targets: the sum over everything by all targets. Without: the micro-batches'
\* losses are means, and the step is the mean of them all.
Num(X, deal, d) == Sum([r \in 1..Len(deal) |-> RankVec(X, deal[r], d)])
Den(T, deal, counted) ==
    IF counted
    THEN LET t == Sum([r \in 1..Len(deal) |-> RankWeight(T, deal[r])]) IN IF t = 0 THEN 1 ELSE t
    ELSE Len(deal) * Len(deal[1])
=============================================================================
