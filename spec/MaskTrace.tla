------------------------------- MODULE MaskTrace -------------------------------
(* Attention of the real code: which keys every query attends to, which outputs *)
(* of a model change with an input, outputs in a batch and alone, and losses.   *)
EXTENDS Attention, Batch
Units == 10000
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Near(a, b, t) == (a - b) <= t /\ (b - a) <= t
Row(b, qn, kn, i, j, w) == j \in Visible(b, qn, kn, i)
\* e: bias, ql, kl (lengths), heads: per head, per sequence, per real query, the weights
\* of all keys; own: index of the first key of each sequence.
Attend(e) ==
    /\ Chk("a result is not a number", ~e.nan)
    /\ \A s \in 1..Len(e.ql) : \A h \in 1..Len(e.w) : \A i \in 1..e.ql[s] :
        LET w == e.w[h][s][i]
            want == {e.own[s] + j : j \in Visible(e.bias, e.ql[s], e.kl[s], i - 1)}
            got == {j - 1 : j \in {x \in 1..Len(w) : w[x] > 0}}
            m == Cardinality(want)
        IN /\ IF got = want THEN TRUE
              ELSE Rej("query " \o ToString(i - 1) \o " of sequence " \o ToString(s) \o ": attends to keys " \o ToJson(got) \o ", specification says " \o ToJson(want)) /\ FALSE
           \* Without scores the weights are equal, or differ by the slope of the head.
           /\ e.zero => IF e.bias.k # "alibi" THEN \A j \in want : Chk("weights of equal keys are not equal", Near(w[j + 1] * m, Units, m))
                        ELSE \A j \in want : ((j - 1) \in want) =>
                               Chk("slope of head " \o ToString(h) \o ": got " \o ToString(e.slope[h][s][i][j + 1]),
                                   Near(e.slope[h][s][i][j + 1], Units \div Pow2((8 * h) \div Len(e.w)), 4))
\* Positions reached by a change of position p after all layers; layers[l].src is the
\* layer whose keys layer l uses.
RECURSIVE Reach(_, _, _)
Reach(layers, len, sets) ==
    LET m == Len(sets) IN
    IF m > Len(layers) THEN sets[m]
    ELSE LET b == layers[m] IN
         Reach(layers, len, Append(sets, sets[m] \cup {i \in 0..(len - 1) : \E j \in sets[b.src] : Sees(b, i, j)}))
SetOf(q) == {q[i] : i \in 1..Len(q)}
Perturb(e) ==
    /\ Chk("a result is not a number", ~e.nan)
    /\ \A s \in 1..Len(e.changed) :
        LET want == IF e.i < 0 \/ e.s # s THEN {}
                    ELSE IF e.side = "src" THEN 0..(Cfg.lens[s] - 1)
                    ELSE Reach(Cfg.layers, Cfg.lens[s], <<{e.i}>>)
        IN IF SetOf(e.changed[s]) = want THEN TRUE
           ELSE Rej("a change of " \o e.side \o " position " \o ToString(e.i) \o " of sequence " \o ToString(e.s) \o " shows at " \o ToJson(e.changed[s]) \o " of sequence " \o ToString(s)
                    \o ", specification says " \o ToJson(want)) /\ FALSE
Alone(e) == Chk("sequence " \o ToString(e.s) \o " has another output in the batch than alone, by " \o ToString(e.diff), e.diff <= e.tol)
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
\* Losses: of the batch, of each sequence alone, and of every step that counts.
Loss(e) == LET want == Sum(e.each) IN
    /\ IF Near(e.sum, want, 20 + Len(e.each)) THEN TRUE
       ELSE Rej("loss of the batch: got " \o ToString(e.sum) \o ", specification says " \o ToString(want)) /\ FALSE
    /\ IF Near(want, Sum(e.steps), 20 + (2 * Len(e.steps))) THEN TRUE
       ELSE Rej("loss of the batch: got " \o ToString(want) \o ", specification says " \o ToString(Sum(e.steps)) \o " by steps") /\ FALSE
    /\ Chk("number of steps", Len(e.steps) = e.n)
    /\ e.n > 0 => IF Near(e.mean * e.n, want, 20 + (2 * e.n)) THEN TRUE
       ELSE Rej("mean loss of the batch: got " \o ToString(e.mean) \o ", specification says " \o ToString(want) \o " over " \o ToString(e.n)) /\ FALSE
Init == BatchInit
Step == CASE Ev.op = "attend" -> Attend(Ev)
          [] Ev.op = "perturb" -> Perturb(Ev)
          [] Ev.op = "alone" -> Alone(Ev)
          [] Ev.op = "loss" -> Loss(Ev)
Next == BatchMore /\ BatchStep /\ Step
Spec == Init /\ [][Next]_<<tid, l>>
=============================================================================
