----------------------------- MODULE ContainerGen -----------------------------
(* All containers of two types with small bodies; sequences of look-ups.       *)
EXTENDS Container, TLC, Json
CONSTANTS Types, MaxDeps, Depth, Ops, Emitting
VARIABLES R, c, last, n
vars == <<R, c, last, n>>

Deps1 == [op : Ops, t : Types, k : {""}]
Bodies == UNION {[1..m -> Deps1] : m \in 0..MaxDeps}
Regs(t) == {<<>>} \cup {<<[t |-> t, k |-> "", coll |-> FALSE, single |-> s, out |-> "obj", fails |-> 0, deps |-> b]>> : s \in BOOLEAN, b \in Bodies}
Coll(t) == [t |-> t, k |-> "", coll |-> TRUE, single |-> FALSE, out |-> "obj", fails |-> 0, deps |-> <<[op |-> "opt", t |-> t, k |-> ""]>>]
Worlds == {a \o b \o x : a \in Regs("A"), b \in Regs("B"), x \in {<<>>, <<Coll("A"), Coll("A")>>}}

RECURSIVE Filled(_, _)
Filled(d, i) == IF i = 0 THEN d ELSE Register(Filled(d, i - 1), i)
Init == /\ R \in Worlds /\ c = Filled(InitC(R), Len(R)) /\ last = [op |-> "", t |-> "", r |-> Res("obj")] /\ n = 0
        /\ (Emitting => PrintT("GEN|" \o ToJson(R)))
Look(op, t) == LET x == IF op = "req" THEN Resolve(c, R, t, "") ELSE IF op = "opt" THEN Maybe(c, R, t, "") ELSE All(c, R, t, "", 1, <<>>) IN
               c' = [x[1] EXCEPT !.frozen = TRUE] /\ last' = [op |-> op, t |-> t, r |-> x[2]]
Next == ~Emitting /\ n < Depth /\ n' = n + 1 /\ UNCHANGED R /\ \E op \in {"req", "opt", "all"}, t \in Types : Look(op, t)
Spec == Init /\ [][Next]_vars

NoPartial == c.busy = {}
OneShared == \A i \in 1..Len(R) : R[i].single => Cardinality({j \in 1..Len(c.made) : c.made[j].reg = i}) <= 1
\* Whatever an object needs right away.
Needs(i) == {j \in 1..Len(R) : \E d \in 1..Len(R[i].deps) : R[i].deps[d].t = R[j].t /\ (IF R[i].deps[d].op = "all" THEN R[j].coll ELSE ~R[j].coll)}
RECURSIVE Reach(_)
Reach(S) == LET T == S \cup UNION {Needs(i) : i \in S} IN IF T = S THEN S ELSE Reach(T)
Cyclic(i) == i \in Reach(Needs(i))
From == {i \in 1..Len(R) : R[i].t = last.t /\ R[i].coll = (last.op = "all")}
Missing(i) == \E d \in 1..Len(R[i].deps) : R[i].deps[d].op = "req" /\ ~\E j \in 1..Len(R) : ~R[j].coll /\ R[j].t = R[i].deps[d].t
Faithful == n > 0 =>
    LET S == Reach(From) IN
    /\ last.r.s = "obj" => \A i \in S : ~Cyclic(i) /\ ~Missing(i)
    /\ last.r.s = "cycle" => (\E i \in S : Cyclic(i)) /\ last.r.path[Len(last.r.path)] \in {last.r.path[j] : j \in 1..(Len(last.r.path) - 1)}
    /\ last.r.s = "none" => last.op = "opt" /\ From = {}
    /\ last.r.s = "nf" => (\E i \in S : Missing(i)) \/ From = {}
=============================================================================
