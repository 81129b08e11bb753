------------------------------- MODULE Validation -------------------------------
(* What a validation or evaluation over units of data reports.  Data of a unit: per  *)
(* data parallel rank its reads, each a sequence of batches [v, w].                  *)
EXTENDS Naturals, Sequences
RECURSIVE Cat(_), SumOf(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
SumOf(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumOf(Tail(s))
Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
Mine(data, d) == Cat(data[d])
All(data) == Cat([d \in 1..Len(data) |-> Mine(data, d)])
V(data) == LET f(b) == b.v IN SumOf(Map(f, All(data)))
W(data) == LET f(b) == b.w IN SumOf(Map(f, All(data)))
VW(data) == LET f(b) == b.v * b.w IN SumOf(Map(f, All(data)))
\* Examples per read of the first rank.
PerRead(data) == IF Len(data[1]) = 0 THEN 0 ELSE W(data) \div Len(data[1])
=============================================================================
