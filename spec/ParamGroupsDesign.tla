------------------------- MODULE ParamGroupsDesign -------------------------
EXTENDS ParamGroups
CONSTANTS Chars, Longest, Elements, Most, Params
VARIABLES names, groups
vars == <<names, groups>>
Texts == UNION {[1..n -> Chars] : n \in 1..Longest}
Pats == [el : UNION {[1..n -> Elements] : n \in 1..2}, text : {<<>>}] \cup [el : {<<"$">>}, text : {<<"a">>, <<"b", "a">>}]
Tops == [lr |-> "1"]
Init == names = <<>> /\ groups = <<>>
Add == /\ groups = <<>> /\ Len(names) < Params /\ \E x \in Texts : (\A i \in 1..Len(names) : names[i] # x) /\ names' = Append(names, x)
       /\ UNCHANGED groups
Group == /\ Len(groups) < Most /\ names # <<>>
         /\ \E p \in Pats, v \in {"default", "2"} : groups' = Append(groups, [pats |-> <<p>>, set |-> [lr |-> v]])
         /\ UNCHANGED names
Next == Add \/ Group
Spec == Init /\ [][Next]_vars
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
All == Made(groups, names, Tops)
\* Every parameter is in one group, once.
Parts == /\ Sum([i \in 1..Len(All) |-> Len(All[i].names)]) = Len(names)
         /\ \A k \in 1..Len(names) : Cardinality({i \in 1..Len(All) : \E j \in 1..Len(All[i].names) : All[i].names[j] = names[k]}) = 1
\* The groups are there, in order, with at most one after them.
Kept == Len(All) \in {Len(groups), Len(groups) + 1}
Sets == \A i \in 1..Len(All) : All[i].set.lr = IF i <= Len(groups) /\ groups[i].set.lr # "default" THEN groups[i].set.lr ELSE "1"
\* A group takes parameters only from those after it.
Later == [][Len(groups') > Len(groups) => \A i \in 1..Len(groups) : Members(groups', names, i) = Members(groups, names, i)]_vars
\* A group that selects everything leaves nothing.
Everything == \A i \in 1..Len(groups) : groups[i].pats[1].el[1] = "*" /\ Len(groups[i].pats[1].el) = 1 => \A j \in (i + 1)..Len(All) : All[j].names = <<>>
============================================================================
