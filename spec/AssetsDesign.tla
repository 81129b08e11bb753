----------------------------- MODULE AssetsDesign -----------------------------
(* All small sets of entries and look-ups.                                     *)
EXTENDS Assets, Json, TLC
CONSTANTS Emitting, Small
VARIABLES es, q, default, out
vars == <<es, q, default, out>>
Ns == {"a", "b"}
E0(n, e, b, hasb, f) == [n |-> n, e |-> e, b |-> b, hasb |-> hasb, f |-> f, cfg |-> {}, hascfg |-> FALSE, dir |-> n \o e]
Fs(v) == {{}, {<<"x", v>>}}
Main(n) == {{}} \cup {{E0(n, "", b, b # "", f)} : b \in {"", "a", "b", "z"}, f \in Fs(n)}
Env(n, e) == {{}, {E0(n, e, "", FALSE, {<<"x", n \o e>>})}, {E0(n, e, "b", TRUE, {})}} \cup (IF Small THEN {} ELSE {{E0(n, e, "", TRUE, {<<"y", n \o e>>})}})
Q(n, t, e) == [n |-> n, tagged |-> t, env |-> e]
Queries == {Q("a", FALSE, ""), Q("a", TRUE, ""), Q("a", TRUE, "e"), Q("a", TRUE, "user"), Q("b", FALSE, "")}
Init == /\ \E m1 \in Main("a"), m2 \in Main("b"), u1 \in Env("a", "user"), u2 \in Env("b", "user"), e1 \in Env("a", "e"), e2 \in IF Small THEN {{}} ELSE Env("b", "e") :
             es = m1 \cup m2 \cup u1 \cup u2 \cup e1 \cup e2
        /\ q \in Queries /\ default \in {"", "e"} /\ out = [s |-> "?", c |-> <<>>]
Ask == out.s = "?" /\ out' = Lookup(es, q, default) /\ UNCHANGED <<es, q, default>>
Next == Ask
Spec == Init /\ [][Next]_vars
Done == out.s # "?"
\* A look-up depends on nothing but the entries of the names it goes through.
Through == IF out.s = "error" THEN Ns ELSE {out.c[i].n : i \in 1..Len(out.c)}
Local == Done /\ out.s # "none" => Lookup({x \in es : x.n \in Through}, q, default) = out
\* Every name once.
Once == Done => \A i, j \in 1..Len(out.c) : out.c[i].n = out.c[j].n => i = j
\* An empty tag: environments do not count; a tag: no other environment counts.
Bare == Done /\ q.tagged => out = Lookup({x \in es : x.e \in {"", q.env}}, q, default)
\* The user's entry counts first, and the default environment's is not seen then.
User == Done /\ ~q.tagged => out = Lookup({x \in es : x.e \in {"", "user"} \/ Find(es, x.n, "user") = {}}, q, default)
\* An own field hides a base's; a field is there iff some card of the chain has it.
Own == Done /\ out.s = "card" => \A f \in {"x", "y"} :
         /\ (Value(out.c, f) = "-") = (\A i \in 1..Len(out.c) : \A p \in out.c[i].f : p[1] # f)
         /\ \A p \in out.c[1].f : p[1] = f => Value(out.c, f) = p[2]
\* An error is a base that is missing or circular, never anything else.
Errs == Done /\ out.s = "error" => \E x \in es : x.hasb /\ x.b # ""
Emit == Emitting /\ Done => PrintT("GEN|" \o ToJson([es |-> es, q |-> q, default |-> default]))
=============================================================================
