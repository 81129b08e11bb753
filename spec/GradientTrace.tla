---------------------------- MODULE GradientTrace ----------------------------
(* Gradients the optimizer of a real trainer saw, one rank's view. Numbers are  *)
(* in units of 1/1000 (gradients) and 1/50 (the reported norm).                 *)
EXTENDS Gradient, Batch
VARIABLE k
vars == <<tid, l, k>>
U == 1000
V == 50
Dims == 1..Len(Cfg.X[1])
Near(enc, num, den) == Abs((enc * den) - (num * U)) <= den
Zeros(n) == [i \in 1..n |-> 0]

OnStep ==
    LET e == Ev
        deal == Cfg.steps[k + 1]
        den == Den(Cfg.T, deal, Cfg.counted)
        num == [d \in Dims |-> Num(Cfg.X, deal, d)]
        sq == Sum([d \in Dims |-> num[d] * num[d]])
        m == Cfg.max
        clipped == m > 0 /\ sq > m * m * den * den
        encSq == Sum([d \in Dims |-> (e.g[d] \div 10) * (e.g[d] \div 10)])
        micro == Len(deal[Cfg.r]) IN
    /\ Exp("step", e.n, k + 1)
    /\ IF ~clipped
       THEN \A d \in Dims : Chk("gradient at step " \o ToString(k + 1) \o ": got " \o ToJson(e.g) \o " for " \o ToJson(num) \o " / " \o ToString(den),
                                Near(e.g[d], num[d], den))
       ELSE /\ Chk("norm of the clipped gradient at step " \o ToString(k + 1) \o ": got " \o ToJson(e.g),
                   Abs(encSq - (m * m * 100 * 100)) <= 4 * m * 100 * Len(e.g))
            /\ \A d, c \in Dims : Chk("direction of the clipped gradient at step " \o ToString(k + 1) \o ": got " \o ToJson(e.g) \o " for " \o ToJson(num),
                    Abs((e.g[d] * num[c]) - (e.g[c] * num[d])) <= Abs(num[c]) + Abs(num[d]) /\ e.g[d] * num[d] >= 0)
    /\ Chk("reported gradient norm at step " \o ToString(k + 1) \o ": got " \o ToString(e.norm) \o " for " \o ToJson(num) \o " / " \o ToString(den),
           Abs((e.norm * e.norm * den * den) - (sq * V * V)) <= ((2 * e.norm) + 1) * den * den)
    \* Seen through a hook, which only one kind of wrapper has.
    /\ IF Cfg.ranks = 1 \/ Cfg.wrap # "ddp" THEN TRUE
       ELSE Exp("synchronizations with the micro-batches of step " \o ToString(k + 1), e.syncs,
                IF Cfg.nosync THEN [Zeros(micro) EXCEPT ![micro] = 1] ELSE [j \in 1..micro |-> 1])
    /\ k' = k + 1
OnEnd == /\ Exp("steps", k, Len(Cfg.steps))
         /\ Chk("parameters agree on all ranks: " \o ToJson(Ev.all), \A i \in 1..Len(Ev.all) : Ev.all[i] = Ev.all[1])
         /\ UNCHANGED k
Init == BatchInit /\ k = 0
Next == BatchMore /\ BatchStep /\ CASE Ev.a = "step" -> OnStep [] Ev.a = "end" -> OnEnd [] OTHER -> Rej(ToJson(Ev)) /\ FALSE /\ UNCHANGED k
Spec == Init /\ [][Next]_vars
=============================================================================
