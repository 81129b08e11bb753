------------------------------ MODULE SpanMask ------------------------------
(* Which masks over rows of given lengths can come from spans of one length, *)
(* and which candidates a masked step may be contrasted with.  Random        *)
(* choices are not fixed; what they may result in is.                        *)
EXTENDS Integers, Sequences, FiniteSets
Least(s) == CHOOSE m \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : m <= s[i]
\* Spans per row, the same for all rows; the probability is num/den.
Spans(lens, span, num, den) == (num * (Least(lens) - 1)) \div (den * span)
Masked(row) == {k \in 1..Len(row) : row[k] = 1}
\* The fewest spans that cover the elements of a set: leftmost first, each as far left as it may start.
RECURSIVE Cover(_, _, _)
Cover(m, len, span) ==
    IF m = {} THEN 0
    ELSE LET a == CHOOSE x \in m : \A y \in m : x <= y
             b == IF a + span - 1 <= len THEN a ELSE len - span + 1 IN
         1 + Cover({x \in m : x > b + span - 1}, len, span)
\* Elements of a row that a number of spans can cover, where anything of them may have been given up again.
Coverable(row, len, span, n) == LET m == Masked(row) IN m \subseteq 1..len /\ Cover(m, len, span) <= n
Admissible(rows, lens, span, num, den) ==
    LET n == Spans(lens, span, num, den) IN
    /\ \A i \in 1..Len(rows) : Coverable(rows[i], lens[i], span, n)
    /\ \A i, j \in 1..Len(rows) : Cardinality(Masked(rows[i])) = Cardinality(Masked(rows[j]))
    /\ \A i \in 1..Len(rows) : Cardinality(Masked(rows[i])) < lens[i]
    /\ n > 0 => \A i \in 1..Len(rows) : Cardinality(Masked(rows[i])) >= span /\ Cardinality(Masked(rows[i])) <= n * span
Refuse(lens, span, least, num, den) == (\E i \in 1..Len(lens) : lens[i] <= span) \/ least > Spans(lens, span, num, den)
\* Distractors of step t among n steps of the same sequence.
Others(n, t) == (1..n) \ {t}
=============================================================================
