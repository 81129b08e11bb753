----------------------------- MODULE ConfigDesign -----------------------------
(* All small configurations and overrides: the recursive rule against what it  *)
(* means for each setting.                                                     *)
EXTENDS Config, Json, TLC
CONSTANTS Emitting, Wide
VARIABLES t, s, out
vars == <<t, s, out>>
Opt(k, S) == {{}} \cup {{<<k, x>>} : x \in S}
Two(A, B) == {a \cup b : a \in A, b \in B}
Maps1 == {Map(c) : c \in Two(Opt("a", {Leaf("1")}), Opt("b", {Leaf("2")}))}
Targets == {Map(c) : c \in Two(Opt("a", {Leaf("3")} \cup Maps1), Opt("b", {Leaf("4")} \cup (IF Wide THEN Maps1 ELSE {Map({<<"a", Leaf("1")>>})})))} \cup {Leaf("5")}
Over(c, d, x) == [k |-> "map", v |-> "", c |-> c, d |-> d, s |-> x]
OLeaf(v) == [k |-> "leaf", v |-> v, c |-> {}, d |-> {}, s |-> {}]
Overs1 == {Over(c, d, x) : c \in Two(Opt("a", {OLeaf("6")}), Opt("b", {Over({}, {}, {})})), d \in SUBSET {"a", "b"},
                            x \in IF Wide THEN Two(Opt("a", {Leaf("7")}), Opt("b", {Map({<<"a", Leaf("7")>>})})) ELSE Opt("a", {Leaf("7")})}
Overs == {Over(c, d, x) : c \in Two(Opt("a", {OLeaf("8")} \cup Overs1), Opt("b", {OLeaf("8"), Over({<<"a", OLeaf("6")>>}, {"b"}, {})})),
                          d \in SUBSET {"a", "b"}, x \in Two(Opt("a", {Map({<<"b", Leaf("9")>>})}), Opt("b", {Leaf("9")}))} \cup {OLeaf("0")}
Init == t \in Targets /\ s \in Overs /\ out = Empty
Apply == out = Empty /\ out' = Merge(t, s) /\ UNCHANGED <<t, s>>
Next == Apply
Spec == Init /\ [][Next]_vars
Done == out # Empty
All == Paths(t) \cup Paths(out)
\* What is not named stays as it is, or is a mapping because the override has one there.
RECURSIVE Through(_, _)
Through(o, p) == o.k = "map" /\ (p = <<>> \/ (p[1] \in KeysOf(o.c) /\ Through(At(o.c, p[1]), Tail(p))))
Frame == Done => \A p \in All : Named(s, p) \/ Reads(out, p) = Reads(t, p) \/ (Through(s, p) /\ Reads(out, p) = "{}")
\* An override of nothing changes nothing, and repeating one changes nothing more.
Nothing == Done /\ s = Over({}, {}, {}) /\ t.k = "map" => out = t
Idem == Done => Merge(out, s) = out
\* What is set is there, whatever else is said; what is deleted and not given anew is gone.
SetWins == Done /\ s.k = "map" => \A p \in s.s : p \in out.c
DelGone == Done /\ s.k = "map" => \A k \in s.d : k \in KeysOf(out.c) => k \in KeysOf(s.c) \cup KeysOf(s.s)
\* What was deleted leaves nothing below a setting that is merged anew.
Fresh == Done /\ s.k = "map" => \A k \in s.d \cap KeysOf(s.c) : k \notin KeysOf(s.s) => At(out.c, k) = Merge(Empty, At(s.c, k))
Emit == Emitting /\ Done => PrintT("GEN|" \o ToJson([t |-> t, s |-> s]))
=============================================================================
