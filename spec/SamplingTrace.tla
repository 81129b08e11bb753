----------------------------- MODULE SamplingTrace -----------------------------
(* Batches of prompts given to the real sampling generators: what the sampler  *)
(* was offered for every text at every step, what it chose, and the outcome;   *)
(* and draws of the real samplers.                                             *)
(* c.pr: probabilities, c.lp: their logarithms, c.lpu: logarithms of the       *)
(* probabilities of UNK less its penalty.                                      *)
EXTENDS Generation, Batch
CONSTANTS Tol
VARIABLES rows, done
Longest == LET RECURSIVE M(_) M(i) == IF i > Len(Cfg.prompts) THEN 0 ELSE LET x == Len(Cfg.prompts[i]) y == M(i + 1) IN IF x > y THEN x ELSE y IN M(1)
Shortest == LET RECURSIVE M(_) M(i) == IF i > Len(Cfg.prompts) THEN 10000 ELSE Minimum(Len(Cfg.prompts[i]), M(i + 1)) IN M(1)
C == [V |-> Cfg.V, eos |-> Cfg.eos, pad |-> Cfg.pad, procs |-> Cfg.procs,
      min |-> Minimum(Cfg.maxseq, Longest + Cfg.mingen), max |-> Minimum(Cfg.maxseq, Longest + Cfg.maxgen)]
Near(a, b) == Abs(a - b) <= Tol
Count(x, q) == Cardinality({i \in 1..Len(q) : q[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a[i], a) = Count(a[i], b)
Prob(row, v) == IF v = Cfg.unk THEN (LET x == Cfg.pr[row][v] - Cfg.penp IN IF x < 0 THEN 0 ELSE x) ELSE Cfg.pr[row][v]
Offered(x) == LET no == Forbidden(C, x.t, FALSE) row == RowOf(Cfg.srcs[x.p], x.t) IN
              [v \in 1..Cfg.V |-> IF v \in no THEN 0 ELSE Prob(row, v)]
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
SumOf(probs, S) == Sum([v \in 1..Len(probs) |-> IF v \in S THEN probs[v] ELSE 0])
Better(probs, v, slack) == {w \in 1..Len(probs) : probs[w] > probs[v] + slack}
\* Whether token v may come out of the sampler.
MayChoose(probs, v, s, slack) ==
    /\ probs[v] > 0
    /\ CASE s.k = "topk" -> Cardinality(Better(probs, v, slack)) < s.n
         [] s.k = "topp" -> SumOf(probs, Better(probs, v, slack)) * 100 <= s.n * Sum(probs) + 200 * slack
         [] OTHER -> TRUE
InPrompt(x) == Len(x.t) < Len(Cfg.prompts[x.p])
Last(x) == Len(x.t) = C.max - 1
\* One text at one step. s: p, t, and, if the sampler was asked, probs, chosen; next.
RowOk(x) ==
    LET me == [p |-> x.p, t |-> x.t] IN
    /\ IF Last(me) THEN Exp("the sampler is not asked about the last token", x.chosen, 0)
       ELSE /\ LET w == Offered(me) IN
               IF InPrompt(me) \/ (Len(x.probs) = Cfg.V /\ \A v \in 1..Cfg.V : Near(x.probs[v], w[v]) /\ (v \in Forbidden(C, x.t, FALSE) => x.probs[v] = 0)) THEN TRUE
               ELSE Rej("probabilities after " \o ToJson(x.t) \o ": got " \o ToJson(x.probs) \o ", specification says " \o ToJson(w)) /\ FALSE
            /\ Chk("the sampler chose a token that it must not", InPrompt(me) \/ MayChoose(x.probs, x.chosen, Cfg.sampler, 3))
    /\ Exp("the next token after " \o ToJson(x.t), x.next,
           IF InPrompt(me) THEN Cfg.prompts[x.p][Len(x.t) + 1] ELSE IF Last(me) THEN Cfg.eos ELSE x.chosen)
Finished(x) == ~InPrompt([p |-> x.p, t |-> x.t]) /\ x.next = Cfg.eos
Grown(q) == [i \in 1..Len(q) |-> [p |-> q[i].p, t |-> Append(q[i].t, q[i].next)]]
StepOk(e) ==
    /\ Chk("texts at a step: got " \o ToJson([i \in 1..Len(e.rows) |-> [p |-> e.rows[i].p, t |-> e.rows[i].t]]) \o ", specification says " \o ToJson(rows),
           SameBag([i \in 1..Len(e.rows) |-> [p |-> e.rows[i].p, t |-> e.rows[i].t]], rows))
    /\ \A i \in 1..Len(e.rows) : RowOk(e.rows[i])
    /\ rows' = Grown(SelectSeq(e.rows, LAMBDA x : ~Finished(x)))
    /\ done' = done \o Grown(SelectSeq(e.rows, LAMBDA x : Finished(x)))
\* Scores of text t of prompt p: per token, and the logarithms' sum.
Piece(p, t, i) ==      \* token i + 1, after the i tokens before it
    LET pre == SubSeq(t, 1, i) row == RowOf(Cfg.srcs[p], pre) v == t[i + 1] IN
    IF i < Len(Cfg.prompts[p]) \/ i = C.max - 1 \/ v # Cfg.unk THEN [s |-> Cfg.pr[row][v], l |-> Cfg.lp[row][v]]
    ELSE [s |-> Prob(row, v), l |-> Cfg.lpu[row]]
HypOk(h, x) ==
    LET n == Len(x.t)
        ps == [i \in 1..n |-> IF i = 1 THEN [s |-> 0, l |-> 0] ELSE Piece(x.p, x.t, i - 1)]
        sum == Sum([i \in 1..n |-> -ps[i].l])
        d == Cfg.pow[n - 1]
        want == IF Cfg.norm THEN -((sum \div d) * 1000 + ((sum % d) * 1000) \div d) ELSE -sum
        from == IF Cfg.echo THEN 0 ELSE Len(Cfg.prompts[x.p])
        \* numbers that are small in units are not precise
        faint == \E i \in 2..n : ps[i].s < 200
    IN IF ~Cfg.scores THEN Chk("there are no scores unless asked for", h.steps = <<>> /\ h.score = 1)
       ELSE /\ IF faint \/ Abs(h.score - want) <= Tol * n + Abs(want) \div 1000 THEN TRUE
               ELSE Rej("score of " \o ToJson(x.t) \o ": got " \o ToString(h.score) \o ", specification says " \o ToString(want)) /\ FALSE
            /\ IF Len(h.steps) = n - from /\ \A i \in 1..(n - from) : Near(h.steps[i], ps[from + i].s) THEN TRUE
               ELSE Rej("step scores of " \o ToJson(x.t) \o ": got " \o ToJson(h.steps) \o ", specification says " \o ToJson(SubSeq(ps, from + 1, n))) /\ FALSE
Cut(x) == IF Cfg.echo THEN x.t ELSE SubSeq(x.t, Len(Cfg.prompts[x.p]) + 1, Len(x.t))
Out(e) ==
    /\ Exp("texts still going on", rows, <<>>)
    /\ Chk("a model saw a step number that is not that of its text", ~e.lost)
    /\ Exp("number of outputs", Len(e.hyps), Len(Cfg.prompts))
    /\ \A p \in 1..Len(Cfg.prompts) :
         LET mine == SelectSeq(done, LAMBDA x : x.p = p)
             got == e.hyps[p]
         IN /\ Exp("number of hypotheses of a prompt", Len(got), Cfg.gens)
            /\ Chk("hypotheses of prompt " \o ToString(p) \o ": got " \o ToJson([k \in 1..Len(got) |-> got[k].seq]) \o ", specification says " \o ToJson(mine),
                   SameBag([k \in 1..Len(got) |-> got[k].seq], [k \in 1..Len(mine) |-> Cut(mine[k])]))
            /\ \A k \in 1..Len(got) : HypOk(got[k], [p |-> p, t |-> IF Cfg.echo THEN got[k].seq ELSE Cfg.prompts[p] \o got[k].seq])
            /\ Cfg.scores => Chk("hypotheses are in the order of their scores", \A k \in 1..(Len(got) - 1) : got[k].score >= got[k + 1].score)
\* Draws of a sampler from the same row: support and frequencies.
Draws(e) ==
    LET S == {v \in 1..Len(e.probs) : MayChoose(e.probs, v, e.sampler, 0)}
        total == SumOf(e.probs, S)
        F(v) == IF v \in S THEN (e.probs[v] * e.n) \div total ELSE 0
    IN \A v \in 1..Len(e.probs) :
         IF (v \notin S => e.counts[v] = 0) /\ Abs(e.counts[v] - F(v)) <= e.slack THEN TRUE
         ELSE Rej("draws from " \o ToJson(e.probs) \o " by " \o ToJson(e.sampler) \o ": token " \o ToString(v) \o " came " \o ToString(e.counts[v]) \o " times, specification says " \o ToString(F(v))) /\ FALSE
Begin(prompts, gens) == LET n == Len(prompts) IN
    [i \in 1..(n * gens) |-> LET p == ((i - 1) \div gens) + 1 IN [p |-> p, t |-> SubSeq(prompts[p], 1, Shortest)]]
Init == BatchInit /\ rows = <<>> /\ done = <<>>
Step ==
    CASE Ev.op = "begin" -> rows' = Begin(Cfg.prompts, Cfg.gens) /\ done' = <<>>
      [] Ev.op = "step" -> StepOk(Ev)
      [] Ev.op = "out" -> Out(Ev) /\ UNCHANGED <<rows, done>>
      [] Ev.op = "draws" -> Draws(Ev) /\ UNCHANGED <<rows, done>>
Next == BatchMore /\ BatchStep /\ Step
Spec == Init /\ [][Next]_<<tid, l, rows, done>>
=============================================================================
