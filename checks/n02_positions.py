"""N02: every element is encoded with its place in its own sequence, in every layout and step."""

from __future__ import annotations

import math
import random

from vlib import core, tlc
from vlib.pool import pmap

KINDS = ["sinusoidal", "learned", "rotary", "reference", "dual"]


def make(kind, dim, most, seed):
    import torch
    from fairseq2.nn import LearnedPositionEncoder, ReferenceRotaryEncoder, RotaryEncoder, SinusoidalPositionEncoder
    from fairseq2.nn.position_encoder import DualRotaryEncoder

    torch.manual_seed(seed)
    return {
        "sinusoidal": SinusoidalPositionEncoder, "learned": LearnedPositionEncoder, "rotary": RotaryEncoder, "reference": ReferenceRotaryEncoder, "dual": DualRotaryEncoder,
    }[kind](dim, most)


def play(case):
    core.setup_fairseq2()
    import torch
    from fairseq2.nn import BatchLayout, IncrementalStateBag
    from fairseq2.nn.utils.module import reset_non_persistent_buffers

    kind, seed = case
    rng = random.Random(seed)
    if kind == "grid":
        return grids(rng)
    dim, most = rng.choice([4, 8, 16]), rng.randrange(3, 14)
    enc = make(kind, dim, most, seed)
    g = torch.Generator().manual_seed(seed)
    probe = torch.randn(dim, generator=g) + 2.0
    enc.eval()

    def table():
        lay = BatchLayout((1, most), [most])
        return enc(probe.expand(1, most, dim).clone(), lay)[0].detach()

    base = table()
    evs = []
    if rng.random() < 0.3 and kind != "learned":
        # Content that is not saved is there again after a reset.
        for b in enc.buffers():
            b.fill_(float("nan"))
        reset_non_persistent_buffers(enc)
    if rng.random() < 0.2:
        import copy

        enc = copy.deepcopy(enc)
    for _ in range(12):
        training = rng.random() < 0.3
        enc.train(training)
        packed = rng.random() < 0.4
        n = rng.randrange(1, 4)
        lens = [rng.randrange(1, max(2, most - 1)) for _ in range(n)]
        if rng.random() < 0.2:
            lens[0] = most
        if rng.random() < 0.1:
            lens[-1] = most + rng.randrange(1, 3)
        if rng.random() < 0.3:
            lens = [lens[0]] * n
        width = (sum(lens) if packed else max(lens)) + rng.choice([0, 0, 0, 1, 3])
        bag = None
        step = 0
        if rng.random() < 0.5:
            step = rng.randrange(0, most)
            bag = IncrementalStateBag(most + 10)
            if step:
                bag.increment_step_nr(step)
        lay = BatchLayout((width,) if packed else (n, width), lens, packed=packed)
        heads = rng.choice([0, 0, 1, 3])
        shape = ([width] if packed else [n, width]) + ([heads] if heads else []) + [dim]
        x = probe.expand(shape).clone()
        keep = x.clone()
        err, found = "", []
        try:
            y = enc(x, lay, state_bag=bag).detach()
            if tuple(y.shape) != tuple(shape) or y.dtype != x.dtype:
                err = f"shape {list(y.shape)}, type {y.dtype}"
            elif not torch.equal(x, keep):
                err = "input changed"
            else:
                y = y.view(1 if packed else n, width, max(heads, 1), dim)
                d = (y[:, :, :, None, :] - base).abs().amax(-1)  # by position
                best, where = d.min(-1)
                same = (where == where[:, :, :1]).all(-1) & (best < 1e-5).all(-1)
                found = torch.where(same, where[:, :, 0], -2).tolist()
        except Exception as ex:  # noqa: BLE001
            err = "ValueError" if type(ex) is ValueError else f"{type(ex).__name__}: {ex}"
        evs.append({"op": "encode", "lens": lens, "packed": packed, "width": width, "step": step if bag is not None else 0, "training": training, "err": err, "found": found})
    if kind != "learned":
        enc.eval()
        q, k = torch.randn(dim, generator=g), torch.randn(dim, generator=g)
        lay = BatchLayout((2, most), [most, most])
        if kind == "sinusoidal":
            q, k = torch.zeros(dim), torch.zeros(dim)
        y = enc(torch.stack([q.expand(most, dim), k.expand(most, dim)]), lay).double()
        picks = [(rng.randrange(most), rng.randrange(most)) for _ in range(14)]
        evs.append({"op": "relative", "tol": 3, "dots": [[a, b, round(float(y[0, a] @ y[1, b]) * 10000)] for a, b in picks]})
    return {"cfg": {"most": most}, "ev": evs, "_info": {"kind": kind, "seed": seed}}


def grids(rng):
    import torch
    from fairseq2.nn import Sinusoidal2dPositionEncoder, Sinusoidal3dPositionEncoder

    evs = []
    for _ in range(6):
        dim = rng.choice([6, 8, 12, 16, 24])
        three = rng.random() < 0.5
        lo, hi = (1, 6) if three else (1, 15)
        grid = [rng.randrange(lo, hi) for _ in range(3 if three else 2)]
        inp = list(grid) if rng.random() < 0.2 else [rng.randrange(lo, hi + 20) for _ in grid]
        if rng.random() < 0.2:
            f = rng.randrange(2, 4)
            inp = [f * x for x in grid]
        half = math.ceil(dim / 4) * 2
        if three:
            uniform = rng.random() < 0.5
            enc = Sinusoidal3dPositionEncoder(dim, tuple(grid), uniform_power=uniform)
            third, eighth = math.ceil(dim / 6) * 2, math.ceil(dim / 8) * 2
            cuts = [third] * 3 if uniform else [half, eighth, eighth]
        else:
            enc = Sinusoidal2dPositionEncoder(dim, tuple(grid))
            cuts = [half] * 2
        owner = [a for a, c in enumerate(cuts) for _ in range(c)][:dim]
        err, shape, vary, same = "", [], [], True
        try:
            y = enc(torch.zeros(1, *inp, dim))[0].detach()
            shape = list(y.shape[:-1])
            for f in range(dim):
                for a in range(len(inp)):
                    if a != owner[f] and float((y[..., f].amax(a) - y[..., f].amin(a)).max()) > 1e-4:
                        vary.append([f, a])
            if inp == grid:
                t = enc.freqs
                same = bool(torch.equal(t, y))
        except Exception as ex:  # noqa: BLE001
            err = f"{type(ex).__name__}: {ex}"[:150]
        evs.append({"op": "grid", "grid": grid, "inp": inp, "dim": dim, "err": err, "shape": shape, "vary": vary, "want": [], "same": same})
    return {"cfg": {"most": 0}, "ev": evs, "_info": {"kind": "grid"}}


def run(ctx):
    tlc.model_check(ctx, "PositionsDesign", overrides=ctx.pick({}, {"MaxLen": "6", "MaxSeqs": "4"}), timeout=850)
    cases = [(k, ctx.rng.randrange(2**31)) for k in KINDS + ["grid"] for _ in range(ctx.pick(50, 600))]
    traces = pmap(ctx, play, cases, 20)
    evs = [e for t in traces for e in t["ev"]]
    ctx.count("batches", sum(e["op"] == "encode" for e in evs))
    ctx.count("refused batches", sum(e["op"] == "encode" and e["err"] == "ValueError" for e in evs))
    ctx.count("grids", sum(e["op"] == "grid" for e in evs))
    ctx.sample(traces[0]["ev"][0])
    tlc.validate(ctx, "PositionsTrace", traces)

    def corrupt(t, rng):
        es = [e for e in t["ev"] if e["op"] == "encode" and e["found"]]
        if not es:
            return None
        e = rng.choice(es)
        e["found"][0][0] += 1
        return t

    tlc.selftest(ctx, "PositionsTrace", traces, corrupt)
