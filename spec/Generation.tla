------------------------------ MODULE Generation ------------------------------
(* What beam search and sampling produce. A model is a table of rows of log    *)
(* probabilities (c.lp, integers) and of probabilities (c.pr), and a hash of   *)
(* the source and of the text so far that picks the row of the next token.     *)
(* Tokens are 1..c.V. Positions count from 0, so that the next token of text   *)
(* t has position Len(t).                                                      *)
EXTENDS Processors, TLC
Rows == 31
None == 0
Lowest == -1000000000
Start(src) == src % Rows
Feed(h, t) == (h * 7 + t * 3 + 1) % Rows
Minimum(a, b) == IF a < b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE HashOf(_, _)
HashOf(h, t) == IF t = <<>> THEN h ELSE HashOf(Feed(h, t[1]), Tail(t))
RowOf(src, t) == HashOf(Start(src), t) + 1
Forbidden(c, t, last) ==
    IF last THEN 1..c.V \ {c.eos}
    ELSE UNION {Bans(t, c.procs[i], c.V) : i \in 1..Len(c.procs)}
         \cup (IF c.pad = None THEN {} ELSE {c.pad})
         \cup (IF Len(t) < c.min - 1 THEN {c.eos} ELSE {})

(* Beam search. An entry of a beam: its text t, its cumulative scores s, one   *)
(* per token (the first token has none), and h, the hash of its text.          *)
Entry(src, tok) == [t |-> <<tok>>, s |-> <<0>>, h |-> Feed(Start(src), tok)]
Extend(c, e, tok, score) == [t |-> Append(e.t, tok), s |-> Append(e.s, score), h |-> Feed(e.h, tok)]
Score(e) == e.s[Len(e.s)]
\* The candidates for the next token of all entries.
RECURSIVE Candidates(_, _, _, _)
Candidates(c, beam, last, i) ==
    IF i > Len(beam) THEN <<>>
    ELSE LET e == beam[i]
             no == Forbidden(c, e.t, last)
             Val(v) == Score(e) + c.lp[e.h + 1][v] - (IF v = c.unk /\ ~last THEN c.pen ELSE 0)
         IN SelectSeq([v \in 1..c.V |-> [i |-> i, v |-> v, s |-> Val(v)]], LAMBDA x : x.v \notin no)
            \o Candidates(c, beam, last, i + 1)
Ranked(cands) == SortSeq(cands, LAMBDA a, b : a.s > b.s)
Close(ranked, n, gap) == \E i \in 1..(Minimum(n, Len(ranked)) - 1) : ranked[i].s - ranked[i + 1].s < gap
\* Finished entries come from the best B candidates, the next beam is the best
\* B candidates that go on, out of the best 2B.
Ends(c, beam, ranked) ==
    LET top == SubSeq(ranked, 1, Minimum(c.B, Len(ranked))) IN
    LET e == SelectSeq(top, LAMBDA x : x.v = c.eos) IN
    [k \in 1..Len(e) |-> Extend(c, beam[e[k].i], e[k].v, e[k].s)]
Goes(c, beam, ranked) ==
    LET top == SubSeq(ranked, 1, Minimum(2 * c.B, Len(ranked))) IN
    LET g == SelectSeq(top, LAMBDA x : x.v # c.eos) IN
    [k \in 1..Minimum(c.B, Len(g)) |-> Extend(c, beam[g[k].i], g[k].v, g[k].s)]
\* r: beam, hyps (finished entries), hist (the beam after each step), vague
\* (whether a decision was too close to call).
BeamStep(c, r, gap) ==
    LET last == Len(r.beam[1].t) = c.max - 1
        ranked == Ranked(Candidates(c, r.beam, last, 1))
        ends == Ends(c, r.beam, ranked)
        full == Len(r.hyps) + Len(ends) >= c.B
        next == IF full \/ last THEN <<>> ELSE Goes(c, r.beam, ranked)
    IN [beam |-> next,
        hyps |-> r.hyps \o SubSeq(ends, 1, Minimum(Len(ends), c.B - Len(r.hyps))),
        hist |-> Append(r.hist, {next[k].t : k \in 1..Len(next)}),
        vague |-> r.vague \/ Close(ranked, 2 * c.B + 1, gap) \/ ranked = <<>>]
PromptStep(c, r, tok) ==
    LET e == r.beam[1]
        n == Extend(c, e, tok, Score(e) + c.lp[e.h + 1][tok])
    IN [r EXCEPT !.beam = <<n>>, !.hist = Append(@, {n.t})]
RECURSIVE SearchFrom(_, _, _, _)
SearchFrom(c, prompt, r, gap) ==
    IF r.beam = <<>> THEN r
    ELSE LET n == Len(r.beam[1].t) IN
         SearchFrom(c, prompt, IF n < Len(prompt) THEN PromptStep(c, r, prompt[n + 1]) ELSE BeamStep(c, r, gap), gap)
Search(c, prompt, src, gap) ==
    SearchFrom(c, prompt, [beam |-> <<Entry(src, prompt[1])>>, hyps |-> <<>>, hist |-> <<{<<prompt[1]>>}>>, vague |-> FALSE], gap)
=============================================================================
