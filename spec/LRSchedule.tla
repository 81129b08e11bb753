---------------------------- MODULE LRSchedule ----------------------------
(* Learning rate schedules.  The value of a schedule after t steps is given *)
(* as a form, whose numbers are exact:                                      *)
(*   lin n/d   : start + (base - start) n/d                                 *)
(*   base      : base                                                       *)
(*   cos n/d c : (final + (base - final) (1 + cos(pi n/d)) / 2) lr_mul^c    *)
(*   pow n/d   : final + (base - final) (n/d)^power                         *)
(*   exp n/d   : base * scale^(n/d)                                         *)
(*   root n/d  : base * sqrt(n/d)                                           *)
(*   rise n/d  : base * n/d * sqrt(1/d)                                     *)
(*   final     : final                                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Form(k, n, d, c) == [k |-> k, n |-> n, d |-> d, c |-> c]
Max(x, y) == IF x > y THEN x ELSE y
Kinds == {"cosine", "myle", "noam", "poly", "tri", "none"}

\* A configuration: kind; w: steps of warmup; l: length of the first cycle, 0 if
\* it is derived from the steps of the training; mp/mq: growth of cycles; n: steps
\* of the training; h, d: steps of the hold and decay stages.
First(c) == IF c.l = 0 THEN Max(IF c.n > c.w THEN c.n - c.w ELSE 0, 1) ELSE c.l

\* Length of cycle k, whose predecessor has length p.
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
Length(c, k, p) ==
    IF c.mp = c.mq THEN First(c)
    ELSE IF c.mp < c.mq /\ p = 1 THEN 1
    ELSE Max((Pow(c.mp, k) * First(c)) \div Pow(c.mq, k), 1)

\* <<number, length, position>> of the cycle x steps after the warmup.
RECURSIVE Walk(_, _, _, _)
Walk(c, k, len, x) == IF x < len THEN <<k, len, x>> ELSE Walk(c, k + 1, Length(c, k + 1, len), x - len)
Cycle(c, x) ==
    IF c.mp = c.mq THEN <<x \div First(c), First(c), x % First(c)>>
    ELSE Walk(c, 0, First(c), x)

At(c, t) ==
    CASE c.kind = "none" -> Form("base", 0, 0, 0)
      [] c.kind = "cosine" ->
            IF t < c.w THEN Form("lin", t, c.w, 0)
            ELSE LET y == Cycle(c, t - c.w) IN Form("cos", y[3], y[2], y[1])
      [] c.kind = "myle" ->
            IF t < c.w THEN Form("lin", t, c.w, 0) ELSE Form("root", c.w, t, 0)
      [] c.kind = "noam" ->
            IF t < c.w THEN Form("rise", t, c.w, 0)
            ELSE IF t = 0 THEN Form("base", 0, 0, 0) ELSE Form("root", 1, t, 0)
      [] c.kind = "poly" ->
            IF t >= c.n THEN Form("final", 0, 0, 0)
            ELSE IF t < c.w THEN Form("lin", t, c.w, 0)
            ELSE Form("pow", c.n - t, c.n - c.w, 0)
      [] c.kind = "tri" ->
            IF t < c.w THEN Form("lin", t, c.w, 0)
            ELSE IF t < c.w + c.h THEN Form("base", 0, 0, 0)
            ELSE IF t < c.w + c.h + c.d THEN Form("exp", t - c.w - c.h, c.d, 0)
            ELSE Form("final", 0, 0, 0)
============================================================================
