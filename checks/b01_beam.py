"""B01: beam search returns the best finished hypotheses under its rules."""

from __future__ import annotations

import random

from vlib import genstub, tlc
from vlib.pool import pmap


def play(c):
    from fairseq2.generation.beam_search import BeamSearchSeq2SeqGenerator, BeamSearchSequenceGenerator

    s2s, lp, model, vocab, args, kw = genstub.build(c)
    gen = (BeamSearchSeq2SeqGenerator if s2s else BeamSearchSequenceGenerator)(model, vocab, beam_size=c["B"], **kw)
    hooks = [[] for _ in c["prompts"]]

    def hook(prompt_indices, seqs, step_scores, prefill):
        n = seqs.size(1)
        for p, h in enumerate(hooks):
            h.append({"n": n, "seqs": [[int(v) + 1 for v in s] for i, s in zip(prompt_indices, seqs) if int(i) == p]})

    if c["hooks"]:
        gen.register_step_hook(hook)
    evs = []
    for _ in range(c["calls"]):
        model.lost = False
        for h in hooks:
            h.clear()
        out = gen(*args)
        hyps = [[{"seq": [int(v) + 1 for v in h.seq], "score": genstub.units(h.score), "steps": [genstub.units(x) for x in h.step_scores]} for h in hs] for hs in out.hypotheses]
        evs.append({"op": "out", "hyps": hyps, "hooks": [list(h) for h in hooks], "lost": model.lost})
    return {"cfg": genstub.config(c, lp), "ev": evs, "_info": c}


def run(ctx):
    tlc.model_check(ctx, "BeamDesign")
    tlc.model_check(ctx, "BeamDesign", overrides={"V": 4, "Pad": 4, "MaxLen": 3, "MinLen": 2})
    tlc.model_check(ctx, "BeamDesign", overrides={"B": 3, "MaxLen": 4, "MinLen": 2})
    if not ctx.quick:
        tlc.model_check(ctx, "BeamDesign", overrides={"V": 4, "Pad": 4, "MaxLen": 4, "MinLen": 3})
        tlc.model_check(ctx, "BeamDesign", overrides={"V": 4, "MaxLen": 4, "Ban": 2, "MinLen": 1, "B": 1})
    cases = []
    for _ in range(ctx.pick(700, 12000)):
        rng = random.Random(ctx.rng.random())
        c = genstub.case(rng, rng.choice([1, 1, 2, 2, 3, 4]))
        cases.append(c | {"hooks": rng.random() < 0.6, "calls": 2 if rng.random() < 0.2 else 1})
    traces = pmap(ctx, play, cases, 10)
    ctx.count("prompts", sum(len(t["cfg"]["prompts"]) * len(t["ev"]) for t in traces))
    ctx.count("hypotheses", sum(len(h) for t in traces for e in t["ev"] for h in e["hyps"]))
    ctx.sample(traces[-1])
    tlc.validate(ctx, "BeamTrace", traces)

    def corrupt(t, rng):
        t["cfg"]["strict"] = True
        hs = [h for e in t["ev"] for hs in e["hyps"] for h in hs]
        for h in hs:
            h["score"] += 900
        return t

    tlc.selftest(ctx, "BeamTrace", traces, corrupt)
