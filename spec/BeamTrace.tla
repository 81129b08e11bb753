------------------------------- MODULE BeamTrace -------------------------------
(* Batches of prompts given to the real beam search generators: the beam after *)
(* each step (from step hooks) and the hypotheses.                             *)
EXTENDS Generation, Batch
CONSTANTS Gap, Tol
Longest == LET RECURSIVE M(_) M(i) == IF i > Len(Cfg.prompts) THEN 0 ELSE LET x == Len(Cfg.prompts[i]) y == M(i + 1) IN IF x > y THEN x ELSE y IN M(1)
C == [V |-> Cfg.V, B |-> Cfg.B, eos |-> Cfg.eos, pad |-> Cfg.pad, unk |-> Cfg.unk, pen |-> Cfg.pen, procs |-> Cfg.procs, lp |-> Cfg.lp,
      min |-> Minimum(Cfg.maxseq, Longest + Cfg.mingen), max |-> Minimum(Cfg.maxseq, Longest + Cfg.maxgen)]
Near(a, b) == Abs(a - b) <= Tol
Cut(q, prompt) == IF Cfg.echo THEN q ELSE SubSeq(q, Len(prompt) + 1, Len(q))
\* The score of a hypothesis, and that of each of its tokens.
Norm(e) == IF Cfg.norm THEN LET d == Cfg.pow[Len(e.t) - 1] s == -Score(e) IN -((s \div d) * 1000 + ((s % d) * 1000) \div d) ELSE Score(e)
PerToken(e) == [i \in 1..Len(e.s) |-> IF i = 1 THEN 0 ELSE e.s[i] - e.s[i - 1]]
HypOk(h, e, prompt) ==
    /\ IF Abs(h.score - Norm(e)) <= Tol + Abs(Norm(e)) \div 2000 THEN TRUE
       ELSE Rej("score of " \o ToJson(h.seq) \o " after " \o ToJson(prompt) \o ": got " \o ToString(h.score) \o ", specification says " \o ToString(Norm(e))) /\ FALSE
    /\ LET w == Cut(PerToken(e), prompt) IN
       IF Len(h.steps) = Len(w) /\ \A i \in 1..Len(w) : Near(h.steps[i], w[i]) THEN TRUE
       ELSE Rej("step scores of " \o ToJson(h.seq) \o " after " \o ToJson(prompt) \o ": got " \o ToJson(h.steps) \o ", specification says " \o ToJson(w)) /\ FALSE
Prompt(p) ==
    LET prompt == Cfg.prompts[p]
        r == Search(C, prompt, Cfg.srcs[p], Gap)
        got == Ev.hyps[p]
        want == {Cut(r.hyps[k].t, prompt) : k \in 1..Len(r.hyps)}
        hooks == Ev.hooks[p]
    IN (r.vague /\ ~Cfg.strict) \/
       /\ Exp("hypotheses of prompt " \o ToString(prompt), {got[k].seq : k \in 1..Len(got)}, want)
       /\ Exp("number of hypotheses", Len(got), Len(r.hyps))
       /\ \A k \in 1..Len(got) : LET e == CHOOSE x \in {r.hyps[j] : j \in 1..Len(r.hyps)} : Cut(x.t, prompt) = got[k].seq IN HypOk(got[k], e, prompt)
       /\ Chk("hypotheses are in the order of their scores", \A k \in 1..(Len(got) - 1) : got[k].score >= got[k + 1].score)
       \* hooks[k]: the texts of length Shortest + k - 1 (prefill), ...
       /\ \A k \in 1..Len(hooks) :
            Exp("beam of prompt " \o ToString(prompt) \o " at length " \o ToString(hooks[k].n),
                {hooks[k].seqs[j] : j \in 1..Len(hooks[k].seqs)}, IF hooks[k].n > Len(r.hist) THEN {} ELSE r.hist[hooks[k].n])
Step ==
    /\ Ev.op = "out"
    /\ Exp("number of outputs", Len(Ev.hyps), Len(Cfg.prompts))
    /\ Chk("a model saw a step number that is not that of its text", ~Ev.lost)
    /\ \A p \in 1..Len(Cfg.prompts) : Prompt(p)
Init == BatchInit
Next == BatchMore /\ BatchStep /\ Step
Spec == Init /\ [][Next]_<<tid, l>>
=============================================================================
