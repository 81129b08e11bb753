----------------------------- MODULE LossScaler -----------------------------
(* The dynamic loss scale.  Scales are integers in a unit chosen so that all   *)
(* scales that occur are whole.  P = [init, factor, window, min, noop].        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Fresh(P) == [scale |-> P.init, good |-> 0]

\* One optimizer step; bad: the gradients of some rank are not finite.
After(P, s, bad) ==
    IF P.noop THEN s
    ELSE IF bad
    THEN [scale |-> IF s.scale \div P.factor < P.min THEN P.min ELSE s.scale \div P.factor, good |-> 0]
    ELSE IF s.good + 1 = P.window THEN [scale |-> s.scale * P.factor, good |-> 0]
    ELSE [s EXCEPT !.good = @ + 1]

Result(P, s, bad) ==
    LET t == After(P, s, bad) IN
    [old |-> s.scale, new |-> t.scale,
     scaled |-> ~P.noop /\ ~bad /\ s.good + 1 = P.window,
     overflowed |-> ~P.noop /\ bad,
     exploded |-> ~P.noop /\ bad /\ s.scale \div P.factor < P.min]
Applied(P, bad) == P.noop \/ ~bad
=============================================================================
