"""B02: sampling generates only admissible tokens and finishes every sequence."""

from __future__ import annotations

import random

from vlib import genstub, tlc
from vlib.pool import pmap


def make_sampler(s, rng):
    import torch

    from fairseq2.generation.sampling import Sampler, TopKSampler, TopPSampler

    if s["k"] == "topk":
        inner = TopKSampler(s["n"])
    elif s["k"] == "topp":
        inner = TopPSampler(s["n"] / 100)
    else:
        inner = None

    class Recorder(Sampler):
        """Passes on what the real sampler says, or picks any token that may be chosen."""

        def __init__(self):
            self.asked = None

        def sample(self, probs):
            given = probs.clone()
            if inner is not None:
                chosen = inner.sample(probs)
            else:
                chosen = torch.tensor([rng.choice([v for v in range(len(r)) if r[v] > 0] or [0]) for r in probs.tolist()])
            self.asked = (given, chosen.clone())
            return chosen

    return Recorder()


def punits(x):
    """Probabilities that are positive stay so."""
    return max(genstub.units(x), 1) if float(x) > 0 else genstub.units(x)


def play(c):
    import torch

    from fairseq2.generation.sampling import SamplingSeq2SeqGenerator, SamplingSequenceGenerator

    if "draws" in c:
        return draws(c)
    torch.manual_seed(c["seed"] & 0xFFFF)
    rng = random.Random(c["seed"])
    s2s, lp, model, vocab, args, kw = genstub.build(c)
    pr = lp.exp()
    sampler = make_sampler(c["sampler"], rng)
    gen = (SamplingSeq2SeqGenerator if s2s else SamplingSequenceGenerator)(model, vocab, sampler, num_gens=c["gens"], compute_scores=c["scores"], **kw)
    evs = []

    def hook(prompt_indices, seqs, step_scores, prefill):
        if prefill:
            return
        rows = []
        for i in range(seqs.size(0)):
            t = [int(v) + 1 for v in seqs[i]]
            probs, chosen = [], 0
            if sampler.asked is not None:
                probs = [punits(x) for x in sampler.asked[0][i]]
                chosen = int(sampler.asked[1][i]) + 1
            rows.append({"p": int(prompt_indices[i]) + 1, "t": t[:-1], "probs": probs, "chosen": chosen, "next": t[-1]})
        sampler.asked = None
        evs.append({"op": "step", "rows": rows})

    gen.register_step_hook(hook)
    for _ in range(c["calls"]):
        evs.append({"op": "begin"})
        model.lost = False
        out = gen(*args)
        hyps = [
            [{"seq": [int(v) + 1 for v in h.seq], "score": 1 if h.score is None else genstub.units(h.score), "steps": [] if h.step_scores is None else [genstub.units(x) for x in h.step_scores]} for h in hs]
            for hs in out.hypotheses
        ]
        evs.append({"op": "out", "hyps": hyps, "lost": model.lost})
    pen = c["unk_penalty"]
    unk = c["unk"] - 1
    cfg = genstub.config(c, lp) | {
        "sampler": c["sampler"], "pr": [[punits(x) for x in row] for row in pr], "penp": genstub.units(pen),
        "lpu": [genstub.units((row[unk] - pen).clamp(min=0).log()) if c["unk"] else 0 for row in pr],
    }
    return {"cfg": cfg, "ev": evs, "_info": c}


def draws(c):
    """Many draws from a few rows."""
    import torch

    from fairseq2.generation.sampling import TopKSampler, TopPSampler

    torch.manual_seed(c["seed"] & 0xFFFF)
    rng = random.Random(c["seed"])
    n, s = c["draws"], c["sampler"]
    sampler = TopKSampler(s["n"]) if s["k"] == "topk" else TopPSampler(s["n"] / 100)
    rows = []
    while len(rows) < 3:
        V = c["V"]
        w = [rng.choice([0, 1]) * rng.randrange(1, 200) if c["sparse"] else rng.randrange(1, 200) for _ in range(V)]
        # no ties, and a clear edge
        pos = sorted((x for x in w if x), reverse=True)
        if not pos or len(set(pos)) != len(pos):
            continue
        tot, cum, clear = sum(pos), 0, True
        for x in pos:
            clear &= abs(cum * 100 - s["n"] * tot) > tot or cum == 0
            cum += x
        if s["k"] == "topp" and not clear:
            continue
        rows.append(w)
    probs = torch.tensor(rows, dtype=torch.float32)
    scale = 1.0 if c["raw"] else 1.0 / probs.sum(-1, keepdim=True)
    counts = [[0] * c["V"] for _ in rows]
    # Rows alternate in one batch.
    big = (probs * scale).repeat(n, 1)
    given = big.clone()
    out = sampler.sample(big).view(n, len(rows))
    touched = bool((given != big).any())
    for i in range(len(rows)):
        for v, k in zip(*out[:, i].unique(return_counts=True)):
            counts[i][int(v)] = int(k)
    ev = [{"op": "draws", "sampler": s, "probs": r, "counts": k, "n": n, "slack": 220} for r, k in zip(rows, counts)]
    return {"cfg": {"prompts": [], "touched": touched}, "ev": ev, "_info": c}


def run(ctx):
    cases = []
    for _ in range(ctx.pick(600, 9000)):
        rng = random.Random(ctx.rng.random())
        c = genstub.case(rng, rng.choice([1, 2, 3]))
        # in probabilities
        c["unk_penalty"] = rng.choice([0.0, 0.02, 0.2]) if c["unk"] else 0.0
        k = rng.choice(["any", "topk", "topp"])
        s = {"k": k, "n": {"any": 0, "topk": rng.randrange(1, 6), "topp": rng.choice([0, 30, 60, 90, 100])}[k]}
        if not usable(c):
            continue
        cases.append(c | {"sampler": s, "calls": 2 if rng.random() < 0.2 else 1})
    for _ in range(ctx.pick(60, 600)):
        rng = random.Random(ctx.rng.random())
        k = rng.choice(["topk", "topp"])
        V = rng.randrange(2, 9)
        s = {"k": k, "n": rng.randrange(1, V + 3) if k == "topk" else rng.choice([10, 30, 50, 70, 90, 99])}
        cases.append({"draws": 4000, "V": V, "sampler": s, "sparse": rng.random() < 0.4, "raw": rng.random() < 0.3, "seed": rng.randrange(1 << 30)})
    traces = pmap(ctx, play, cases, 10)
    ctx.count("hypotheses", sum(len(h) for t in traces for e in t["ev"] if e["op"] == "out" for h in e["hyps"]))
    ctx.count("samplings", sum(len(e["rows"]) for t in traces for e in t["ev"] if e["op"] == "step"))
    ctx.sample(traces[0])
    tlc.validate(ctx, "SamplingTrace", traces)

    def corrupt(t, rng):
        for e in t["ev"]:
            if e["op"] == "out":
                e["hyps"][-1].pop()
            elif e["op"] == "draws":
                e["counts"][0] += 500
        return t

    tlc.selftest(ctx, "SamplingTrace", traces, corrupt)


def usable(c):
    """Whether there is always a token left to choose."""
    V = c["V"]
    gone = 1 + (1 if c["pad"] else 0) + (1 if c["unk"] else 0)
    for p in c["procs"]:
        gone += len(p["seqs"]) if p["k"] == "seqs" else 4
    return V > gone
