---------------------------- MODULE SweepTagDesign ----------------------------
(* All small pairs of configurations, and all short formats.                    *)
EXTENDS SweepTag, Json
CONSTANTS Emitting, Size
VARIABLES kind, a, b, s
vars == <<kind, a, b, s>>
L(v) == Node("leaf", v, <<>>)
Leaves == {L("1"), L("none")}
Lists == {Node("list", "", q) : q \in {<<>>} \cup {<<<<"0", x>>>> : x \in Leaves} \cup {<<<<"0", x>>, <<"1", y>>>> : x, y \in Leaves}}
Maps(V) == {Node("map", "", q) : q \in {<<>>} \cup {<<<<k, x>>>> : k \in {"p", "q"}, x \in V} \cup {<<<<"p", x>>, <<"q", y>>>> : x, y \in V} \cup {<<<<"q", y>>, <<"p", x>>>> : x, y \in V}}
Configs == Maps(Leaves \cup Lists \cup Maps(Leaves))
Chars == {"{", "}", "x", "y"}
Formats == UNION {[1..n -> Chars] : n \in 0..Size}
Keys == (<<"x">> :> <<"v", "1">>) @@ (<<"x", "y">> :> <<"w">>)
Nil == L("")
Init == \/ kind = "pair" /\ a \in Configs /\ b = Nil /\ s = <<>>
        \/ kind = "format" /\ a = Nil /\ b = Nil /\ s \in Formats
Pair == kind = "pair" /\ b = Nil /\ b' \in Configs /\ UNCHANGED <<kind, a, s>>
Next == Pair
Spec == Init /\ [][Next]_vars
\* The settings tell configurations apart.
Injective == kind = "pair" /\ b # Nil => ((Settings(a, <<>>) = Settings(b, <<>>)) <=> SameTag(a, 1, b, 1))
\* Escaped text stands for itself; text without braces too; what is refused has unpaired braces or an unknown key.
RECURSIVE Escape(_)
Escape(q) == IF q = <<>> THEN <<>> ELSE (IF q[1] \in {"{", "}"} THEN <<q[1], q[1]>> ELSE <<q[1]>>) \o Escape(Tail(q))
Count(c) == Cardinality({i \in 1..Len(s) : s[i] = c})
Escapes == kind = "format" => Parse(Escape(s), Keys) = Good(s)
Literal == kind = "format" /\ Count("{") + Count("}") = 0 => Parse(s, Keys) = Good(s)
Braces == kind = "format" /\ Parse(s, Keys).ok => (Count("{") + Count("}")) % 2 = 0
Emit == Emitting /\ kind = "format" => PrintT("GEN|" \o ToJson([s |-> s]))
===============================================================================
