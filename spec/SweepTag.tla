------------------------------- MODULE SweepTag -------------------------------
(* The tag that names the output directory of a run.                            *)
(* A configuration: [k, v, c]: a leaf (v: its value, with its type), or a list  *)
(* or mapping (c: sequence of <<key, node>>).                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Node(k, v, c) == [k |-> k, v |-> v, c |-> c]
Rng(q) == {q[i] : i \in 1..Len(q)}
\* What a configuration says, whatever the order of its keys.
RECURSIVE Norm(_)
Norm(n) == [k |-> n.k, v |-> n.v, c |-> {<<p[1], Norm(p[2])>> : p \in Rng(n.c)}]
\* The same as a set of settings: paths with values; an empty list or mapping is a value too.
RECURSIVE Settings(_, _)
Settings(n, path) ==
    IF n.k = "leaf" \/ n.c = <<>> THEN {<<path, n.k, n.v>>}
    ELSE UNION {Settings(p[2], Append(path, <<n.k, p[1]>>)) : p \in Rng(n.c)}
SameTag(a, wa, b, wb) == wa = wb /\ Norm(a) = Norm(b)

\* ---- formats: sequences of characters ----
\* {key} stands for a value, {{ and }} for braces; anything else is refused.
Bad == [ok |-> FALSE, q |-> <<>>]
Good(q) == [ok |-> TRUE, q |-> q]
Then(x, r) == IF r.ok THEN Good(x \o r.q) ELSE Bad
RECURSIVE Close(_, _)
Close(s, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = "}" THEN i ELSE Close(s, i + 1)
RECURSIVE Parse(_, _)
\* keys: the known keys as [sequence of characters -> sequence of characters]
Parse(s, keys) ==
    IF s = <<>> THEN Good(<<>>)
    ELSE IF s[1] \notin {"{", "}"} THEN Then(<<s[1]>>, Parse(Tail(s), keys))
    ELSE IF Len(s) > 1 /\ s[2] = s[1] THEN Then(<<s[1]>>, Parse(SubSeq(s, 3, Len(s)), keys))
    ELSE IF s[1] = "}" THEN Bad
    ELSE LET e == Close(s, 2) IN
         IF e = 0 THEN Bad
         ELSE LET key == SubSeq(s, 2, e - 1) IN
              IF key \notin DOMAIN keys THEN Bad
              ELSE Then(keys[key], Parse(SubSeq(s, e + 1, Len(s)), keys))
===============================================================================
