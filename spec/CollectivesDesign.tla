------------------------- MODULE CollectivesDesign -------------------------
(* All processes of a job apply collectives over arbitrary gangs, one after    *)
(* the other.  What holds of every such history.                              *)
EXTENDS Collectives
CONSTANTS N, Vals, Depth
VARIABLES val, last, n
vars == <<val, last, n>>
Procs == 0..(N - 1)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Init == val \in [Procs -> Vals] /\ last = [kind |-> "none", gang |-> <<>>, src |-> 0, op |-> "", ins |-> <<>>] /\ n = 0

Apply(e) ==
    LET res == Result(e) IN
    val' = [p \in Procs |-> IF \E i \in 1..Len(e.gang) : e.gang[i] = p
                            THEN res[CHOOSE i \in 1..Len(e.gang) : e.gang[i] = p][1] ELSE val[p]]
Do(kind, op, src, g) ==
    LET e == [kind |-> kind, op |-> op, src |-> src, gang |-> g, ins |-> [i \in 1..Len(g) |-> <<val[g[i]]>>]]
    IN  ValidSource(e) /\ Apply(e) /\ last' = e /\ n' = n + 1
Next == n < Depth /\ \E S \in (SUBSET Procs) \ {{}} :
           \/ \E op \in {"SUM", "PRODUCT", "MIN", "MAX"} : Do("reduce", op, 0, Sorted(S))
           \/ \E src \in 0..(N - 1) : Do("broadcast", "", src, Sorted(S))
Spec == Init /\ [][Next]_vars

Members == {last.gang[i] : i \in 1..Len(last.gang)}
\* All members of the gang hold the same value afterwards.
Agree == \A p, q \in Members : val[p] = val[q]
\* The source of a broadcast keeps its value, and it is a member.
SourceKept == last.kind = "broadcast" =>
    last.gang[last.src + 1] \in Members /\ val[last.gang[last.src + 1]] = last.ins[last.src + 1][1]
\* Others are not affected.
Unaffected == [][\A p \in Procs : (\A i \in 1..Len(last'.gang) : last'.gang[i] # p) => val'[p] = val[p]]_vars
\* Reducing does not depend on the order of the members.
Perms == Len(last.ins) = 3 /\ last.kind = "reduce" =>
    Reduce(last.op, last.ins) = Reduce(last.op, <<last.ins[3], last.ins[1], last.ins[2]>>)
=============================================================================
