"""B03: step processors ban exactly what they promise to ban."""

from __future__ import annotations

import itertools
import math
import random

from vlib import tlc
from vlib.pool import pmap


def play(a):
    """Calls one processor on batches of sequences."""
    p, V, batches, lprob, seed = a
    import torch

    from fairseq2.generation.step_processor import BannedSequenceProcessor, NGramRepeatBlockProcessor

    g = torch.Generator().manual_seed(seed)
    if p["k"] == "ngram":
        proc = NGramRepeatBlockProcessor(p["n"])
    else:
        proc = BannedSequenceProcessor([torch.tensor(q, dtype=torch.int64) - 1 for q in p["seqs"]])
    ev = []
    for seqs in batches:
        t = torch.tensor(seqs, dtype=torch.int64) - 1
        if not seqs[0]:
            t = torch.empty((len(seqs), 0), dtype=torch.int64)
        probs = torch.rand((len(seqs), V), generator=g) * 0.8 + 0.1
        if lprob:
            probs = probs.log()
        before, given = probs.clone(), t.clone()
        proc(t, probs, lprob=True) if lprob else proc(t, probs)
        ban = -math.inf if lprob else 0.0
        banned = [[v + 1 for v in range(V) if probs[i, v] == ban] for i in range(len(seqs))]
        touched = bool((((probs != before) & (probs != ban)).any() | (t != given).any()).item())
        ev.append({"seqs": seqs, "banned": banned, "touched": touched})
    return {"cfg": {"p": p, "V": V}, "ev": ev, "_info": {"lprob": lprob, "seed": seed}}


def procs(rng, V):
    if rng.random() < 0.5:
        return {"k": "ngram", "n": rng.randrange(1, 5), "seqs": []}
    m = rng.randrange(1, 5)
    same = rng.randrange(1, 4) if rng.random() < 0.3 else 0
    return {"k": "seqs", "n": 0, "seqs": [[rng.randrange(1, V + 1) for _ in range(same or rng.randrange(1, 5))] for _ in range(m)]}


def batches(rng, V):
    """Batches of growing sequences, as during generation."""
    rows = rng.randrange(1, 5)
    n = rng.randrange(0, 14)
    seqs = [[] for _ in range(rows)]
    out = [[list(s) for s in seqs]]
    for _ in range(n):
        for s in seqs:
            # what has been seen is likely to come again
            s.append(s[-rng.randrange(1, 4)] if len(s) > 3 and rng.random() < 0.5 else rng.randrange(1, V + 1))
        out.append([list(s) for s in seqs])
    return out


def run(ctx):
    tlc.model_check(ctx, "ProcessorsDesign", overrides={} if ctx.quick else {"Depth": 6})
    tlc.model_check(ctx, "ProcessorsDesign", overrides={"N": 3, "Maxb": 2} if ctx.quick else {"N": 3, "Depth": 7, "Maxb": 2})
    cases = []
    # Everything there is over two tokens, and small processors.
    n = ctx.pick(5, 7)
    small = [[list(s) for s in itertools.product((1, 2), repeat=k)] for k in range(n + 1)]
    for k in (1, 2, 3, 4):
        for lp in (False, True):
            cases.append(({"k": "ngram", "n": k, "seqs": []}, 2, small, lp, k))
    qs = [list(s) for k in (1, 2, 3) for s in itertools.product((1, 2), repeat=k)]
    for a, b in itertools.combinations_with_replacement(qs, 2):
        cases.append(({"k": "seqs", "n": 0, "seqs": [a] if a == b else [a, b]}, 2, small, ctx.rng.random() < 0.5, 1))
    for i in range(ctx.pick(600, 20000)):
        V = ctx.rng.choice([3, 5, 12])
        rng = random.Random(ctx.rng.random())
        cases.append((procs(rng, V), V, batches(rng, V), rng.random() < 0.5, i))
    cases.append(({"k": "seqs", "n": 0, "seqs": []}, 5, batches(ctx.rng, 5), True, 0))
    traces = pmap(ctx, play, cases, 20)
    ctx.count("calls", sum(len(t["ev"]) for t in traces))
    ctx.sample(traces[-2])
    tlc.validate(ctx, "ProcessorsTrace", traces)

    def corrupt(t, rng):
        b = rng.choice(rng.choice(t["ev"])["banned"])
        if b:
            b.pop()
        else:
            b.append(1)
        return t

    tlc.selftest(ctx, "ProcessorsTrace", traces, corrupt)
