---------------------------- MODULE SpanMaskTrace ---------------------------
(* Masks drawn, applied and used for contrasting by the real code.           *)
EXTENDS SpanMask, Batch
vars == <<tid, l>>
Near(a, b, d) == a - b <= d /\ b - a <= d
Draw ==
    /\ Ev.op = "mask"
    /\ IF Refuse(Ev.lens, Ev.span, Ev.least, Ev.num, Ev.den) THEN Exp("error of what cannot be masked", Ev.err, "ValueError")
       ELSE /\ Exp("error", Ev.err, "")
            /\ Chk("mask", Admissible(Ev.rows, Ev.lens, Ev.span, Ev.num, Ev.den))
Apply ==
    /\ Ev.op = "masker"
    /\ Chk("mask", Admissible(Ev.rows, Ev.lens, Ev.span, Ev.num, Ev.den))
    /\ \A i \in 1..Len(Ev.rows) :
        /\ Exp("what became of row " \o ToString(i), Ev.what[i], [k \in 1..Len(Ev.rows[i]) |-> IF Ev.rows[i][k] = 1 THEN "masked" ELSE "kept"])
        /\ IF Ev.spatial THEN TRUE ELSE Exp("features set to zero", Masked(Ev.zeros[i]), {})
    /\ IF Ev.spatial THEN Chk("features set to zero", Admissible(Ev.zeros, [i \in 1..Len(Ev.rows) |-> Ev.dim], Ev.sspan, 6, 10)) ELSE TRUE
Tell ==
    /\ Ev.op = "contrast"
    /\ Exp("masked steps of each sequence", Ev.per, [i \in 1..Ev.n |-> Ev.steps])
    /\ Exp("number of targets", Ev.targets, Ev.n * Ev.steps)
    /\ \A i \in 1..Len(Ev.rows) :
        LET r == Ev.rows[i]
            same == {r.same[k] : k \in 1..Len(r.same)} IN
        /\ Exp("number of candidates", Len(r.cands), 1 + Ev.distractors)
        /\ Chk("the first candidate is the target", ~r.cands[1].inf /\ \E k \in 1..Len(r.cands[1].at) : r.cands[1].at[k] = r.t)
        /\ \A j \in 2..Len(r.cands) :
            LET at == {r.cands[j].at[k] : k \in 1..Len(r.cands[j].at)} IN
            IF r.cands[j].inf THEN Chk("left out for being the target", same \cap Others(Ev.steps, r.t) # {})
            ELSE Chk("another step of the same sequence", (at \cap Others(Ev.steps, r.t)) \ same # {})
    /\ Chk("contrastive loss", Near(Ev.contrastive, Ev.want, 2 + Ev.want \div 1000))
    /\ Chk("aggregate loss", Near(2 * Ev.aggregate, 2 * Ev.contrastive + Ev.diversity + 4 * Ev.penalty, 12 + Ev.aggregate \div 1000))
Init == BatchInit
Next == BatchMore /\ (Draw \/ Apply \/ Tell) /\ BatchStep
Spec == Init /\ [][Next]_vars
=============================================================================
