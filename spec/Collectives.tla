---------------------------- MODULE Collectives ----------------------------
(* What a collective over a gang gives each of its members.  A gang is the    *)
(* sequence of its members' processes; ranks are positions in it, from 0.     *)
(* The contribution of each member is a sequence of integers (a tensor).      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Fold(_, _)
Fold(op, q) == IF Len(q) = 1 THEN q[1]
               ELSE LET a == q[1] b == Fold(op, Tail(q)) IN
                    CASE op = "SUM" -> a + b
                      [] op = "PRODUCT" -> a * b
                      [] op = "MIN" -> IF a <= b THEN a ELSE b
                      [] op = "MAX" -> IF a >= b THEN a ELSE b

\* Reduction, element by element; MEAN is given as SUM here (the harness multiplies back).
Reduce(op, ins) == [k \in 1..Len(ins[1]) |->
    Fold(IF op = "MEAN" THEN "SUM" ELSE op, [i \in 1..Len(ins) |-> ins[i][k]])]

Refusable(kind, op) == kind = "reduce" /\ op \in {"MEAN", "MIN", "MAX"}

\* The result for every member.
Result(e) ==
    LET n == Len(e.ins) IN
    CASE e.kind = "reduce" -> [i \in 1..n |-> Reduce(e.op, e.ins)]
      [] e.kind \in {"gather", "gather_list"} -> [i \in 1..n |-> e.ins]
      [] e.kind \in {"broadcast", "objects", "flag"} -> [i \in 1..n |-> e.ins[e.src + 1]]
      [] e.kind = "sum" -> [i \in 1..n |-> Reduce("SUM", e.ins)]
      [] e.kind = "barrier" -> [i \in 1..n |-> <<n>>]
ValidSource(e) == e.kind \notin {"broadcast", "objects", "flag"} \/ e.src \in 0..(Len(e.ins) - 1)
=============================================================================
