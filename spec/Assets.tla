------------------------------- MODULE Assets -------------------------------
(* Asset entries, and what looking one up gives.                               *)
(*                                                                             *)
(* An entry: n (name), e (environment, "" for none), b (base; "" if it has     *)
(* none), hasb (whether it says anything about its base), f (set of <<field,   *)
(* value>>), cfg (settings; hascfg: whether it has any), dir (where it is).      *)
EXTENDS Integers, Sequences, FiniteSets
Find(es, n, e) == {x \in es : x.n = n /\ x.e = e}
Over(a, b) == {p \in a : \A q \in b : q[1] # p[1]} \cup b

\* The environments to look for: the first that has an entry counts.
Envs(q, default) ==
    IF q.tagged THEN (IF q.env = "" THEN <<>> ELSE <<q.env>>)
    ELSE IF default = "" THEN <<"user">> ELSE <<"user", default>>
RECURSIVE Overlay(_, _, _, _), Chain(_, _, _, _)
Overlay(es, n, envs, i) ==
    IF i > Len(envs) THEN {} ELSE IF Find(es, n, envs[i]) # {} THEN Find(es, n, envs[i]) ELSE Overlay(es, n, envs, i + 1)
\* The cards from the asked-for one to its last base; ends with an error if a base is missing or comes again.
Chain(es, n, envs, down) ==
    LET main == Find(es, n, "")
        over == Overlay(es, n, envs, 1)
        m == CHOOSE x \in main : TRUE
        o == CHOOSE x \in over : TRUE
        b == IF over # {} /\ o.hasb THEN o.b ELSE m.b
        card == [n |-> n, f |-> IF over = {} THEN m.f ELSE Over(m.f, o.f), cfg |-> IF over # {} /\ o.hascfg THEN o.cfg ELSE m.cfg,
                 dir |-> IF over # {} /\ o.dir # "" THEN o.dir ELSE m.dir]
    IN IF n \in down THEN [s |-> "error", c |-> <<>>]
       ELSE IF main = {} THEN [s |-> IF down = {} THEN "none" ELSE "error", c |-> <<>>]
       ELSE IF b = "" THEN [s |-> "card", c |-> <<card>>]
       ELSE LET rest == Chain(es, b, envs, down \cup {n}) IN
            IF rest.s = "error" THEN rest ELSE [s |-> "card", c |-> <<card>> \o rest.c]
Lookup(es, q, default) == IF q.n = "" THEN [s |-> "none", c |-> <<>>] ELSE Chain(es, q.n, Envs(q, default), {})

\* The card a field comes from (0: none has it), and its value.
Owner(chain, f) ==
    LET has == {i \in 1..Len(chain) : \E p \in chain[i].f : p[1] = f}
    IN IF has = {} THEN 0 ELSE CHOOSE i \in has : \A j \in has : i <= j
Value(chain, f) == IF Owner(chain, f) = 0 THEN "-" ELSE (CHOOSE p \in chain[Owner(chain, f)].f : p[1] = f)[2]
Names(es) == {x.n \o "@" \o x.e : x \in es}

\* The configuration of an asset: the given one, overlaid by each base's in turn, farthest first.
RECURSIVE Config(_, _, _)
Config(chain, given, i) == IF i = 0 THEN given ELSE Config(chain, Over(given, chain[i].cfg), i - 1)
=============================================================================
