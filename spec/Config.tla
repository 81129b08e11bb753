------------------------------- MODULE Config -------------------------------
(* Configurations and overrides.                                               *)
(*                                                                             *)
(* A configuration node is a leaf or a mapping: [k |-> "leaf"/"map", v |->     *)
(* leaf value, c |-> set of <<key, node>>]. An override node also has d, the   *)
(* keys to delete, and s, the keys to set; in an override c is the part that   *)
(* is merged in.                                                               *)
EXTENDS Naturals, Sequences, FiniteSets
Leaf(v) == [k |-> "leaf", v |-> v, c |-> {}]
Map(c) == [k |-> "map", v |-> "", c |-> c]
Empty == Map({})
KeysOf(c) == {p[1] : p \in c}
At(c, k) == (CHOOSE p \in c : p[1] = k)[2]

RECURSIVE Merge(_, _)
\* t: configuration; s: override
Merge(t, s) ==
    IF s.k = "leaf" THEN Leaf(s.v)
    ELSE LET kept == IF t.k = "map" THEN {p \in t.c : p[1] \notin s.d} ELSE {}
             body == {<<p[1], Merge(IF p[1] \in KeysOf(kept) THEN At(kept, p[1]) ELSE Empty, p[2])>> : p \in s.c}
             over(a, b) == {p \in a : p[1] \notin KeysOf(b)} \cup b
         IN Map(over(over(kept, body), s.s))

\* ---- what it means, path by path ----
RECURSIVE Paths(_), Reads(_, _), Named(_, _)
\* Every setting of a configuration.
Paths(t) == {<<>>} \cup UNION {{<<p[1]>> \o q : q \in Paths(p[2])} : p \in t.c}
\* The leaf (or "{}" for a mapping) at a path; "-": nothing.
Reads(t, p) ==
    IF p = <<>> THEN (IF t.k = "leaf" THEN t.v ELSE "{}")
    ELSE IF p[1] \in KeysOf(t.c) THEN Reads(At(t.c, p[1]), Tail(p)) ELSE "-"
\* Whether an override says something about the setting at this path.
Named(s, p) ==
    \/ s.k = "leaf"
    \/ p # <<>> /\ (p[1] \in s.d \/ p[1] \in KeysOf(s.s))
    \/ p # <<>> /\ p[1] \in KeysOf(s.c) /\ Named(At(s.c, p[1]), Tail(p))
=============================================================================
