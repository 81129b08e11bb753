"""L01: the dynamic loss scale follows its rules and never steps on bad gradients."""

from __future__ import annotations

import random

from vlib import gloo, tlc
from vlib.fp16 import patch_torch
from vlib.pool import pmap

UNIT = 256  # units per 1.0


class Rank:
    """One rank's scaler, parameters and optimizer."""

    def __init__(self, gangs, p, dtype):
        import torch

        self.torch, self.gangs, self.p, self.dtype = torch, gangs, p, dtype
        self.params = [torch.nn.Parameter(torch.zeros(3, dtype=dtype)), torch.nn.Parameter(torch.zeros(2, dtype=dtype))]
        self.opt = torch.optim.SGD(self.params, lr=1.0)
        self.scaler = self.make()
        self.slots = []

    def make(self):
        from fairseq2.optim.fp16_loss_scaler import (
            NOOP_FP16_LOSS_SCALER,
            StandardFloat16LossScaler,
        )

        if self.p["noop"]:
            return NOOP_FP16_LOSS_SCALER
        return StandardFloat16LossScaler(self.gangs, init_scale=self.p["init"] / UNIT, scale_factor=float(self.p["factor"]),
                                         scale_window=self.p["window"], min_scale=self.p["min"] / UNIT)

    def step(self, g, bad, where, manual):
        """g: the (integer) gradients; bad: None, or what to put in at index `where`."""
        torch = self.torch
        self.opt.zero_grad()
        flat = [float(x) for x in g]
        if bad is not None:
            flat[where] = {"inf": float("inf"), "-inf": -float("inf"), "nan": float("nan")}[bad]
        gs = [torch.tensor(flat[:3]), torch.tensor(flat[3:])]
        loss = sum((p.float() * x).sum() for p, x in zip(self.params, gs))
        before = [p.detach().clone() for p in self.params]
        self.scaler.backward(loss)
        unscaled = True
        if manual:
            self.scaler.unscale_grads_(self.opt)
            unscaled = all(torch.equal(p.grad.float(), x) for p, x in zip(self.params, gs))
        r = self.scaler.run_optimizer_step(self.opt)
        if all(torch.equal(p, b - x.to(self.dtype)) for p, b, x in zip(self.params, before, gs)):
            ap = "exactly"
        elif all(torch.equal(p, b) for p, b in zip(self.params, before)):
            ap = "not"
        else:
            ap = "wrongly"
        with torch.no_grad():
            for p in self.params:
                p.zero_()

        def u(x):
            x = x * UNIT
            return int(x) if x == int(x) else str(x)

        return {"old": u(r.old_scale), "new": u(r.new_scale), "scaled": r.scaled, "overflowed": r.overflowed,
                "exploded": r.exploded}, ap, unscaled

    def save(self):
        import copy

        self.slots.append(copy.deepcopy(self.scaler.state_dict()))

    def restore(self, i, fresh):
        if fresh:
            self.scaler = self.make()
        try:
            self.scaler.load_state_dict(self.slots[i])
        except Exception as ex:  # noqa: BLE001
            return f"{type(ex).__name__}: {ex}"
        return "ok"

    def refuse(self, how):
        from fairseq2.error import StateDictError

        good = self.scaler.state_dict()
        sd = {"extra": {**good, "x": 1}, "missing": {}, "type": {"grad_scaler": 3}, "empty": {"grad_scaler": {}}}[how]
        try:
            self.scaler.load_state_dict(sd)
        except StateDictError:
            return "StateDictError"
        except Exception as ex:  # noqa: BLE001
            return type(ex).__name__
        return "accepted"


def plan(hist, n, seed):
    """Fills a history with gradients, per rank; None entries are resolved by the harness."""
    rng = random.Random(seed)
    out, saves = [], 0
    for a in hist:
        if a in ("good", "bad"):
            bads = [None] * n
            if a == "bad":
                for i in rng.sample(range(n), rng.randrange(1, n + 1)):
                    bads[i] = rng.choice(["inf", "-inf", "nan"])
            out.append({"op": "step", "g": [[rng.randrange(1, 6) for _ in range(5)] for _ in range(n)], "bad": bads,
                        "where": [rng.randrange(5) for _ in range(n)], "manual": rng.random() < 0.5})
        elif a == "save":
            saves += 1
            out.append({"op": "save"})
        elif a == "restore":
            out.append({"op": "restore", "slot": saves if rng.random() < 0.6 else rng.randrange(1, saves + 1),
                        "fresh": rng.random() < 0.6})
        elif a == "refuse":
            out.append({"op": "refuse", "how": rng.choice(["extra", "missing", "type", "empty"])})
    return out


def play(gangs, r, p, half, acts):
    """What one rank observes."""
    import torch

    patch_torch()
    rank = Rank(gangs, p, torch.float16 if half else torch.float32)
    res = []
    for a in acts:
        if a["op"] == "step":
            res.append(rank.step(a["g"][r], a["bad"][r], a["where"][r], a["manual"]))
        elif a["op"] == "save":
            rank.save()
            res.append(None)
        elif a["op"] == "restore":
            res.append(rank.restore(a["slot"] - 1, a["fresh"]))
        else:
            res.append(rank.refuse(a["how"]))
    return res


def assemble(n, p, half, acts, res, info):
    evs = []
    for i, a in enumerate(acts):
        got = [res[r][i] for r in range(n)]
        if a["op"] == "step":
            evs.append({"op": "step", "g": [max(x) for x in a["g"]], "inf": [b is not None for b in a["bad"]], "manual": a["manual"],
                        "res": [x[0] for x in got], "applied": [x[1] for x in got], "unscaled": [x[2] for x in got]})
        elif a["op"] == "save":
            evs.append({"op": "save"})
        elif a["op"] == "restore":
            evs.append({"op": "restore", "slot": a["slot"], "res": got})
        else:
            evs.append({"op": "refuse", "res": got})
    return {"cfg": {"n": n, "p": p, "cap": 65504 if half else 0, "unit": UNIT}, "ev": evs, "_info": info}


def local(args):
    import torch
    from fairseq2.gang import create_fake_gangs

    p, half, acts, info = args
    try:
        res = [play(create_fake_gangs(torch.device("cpu")), 0, p, half, acts)]
    except Exception as ex:  # noqa: BLE001
        import traceback

        return {"cfg": {"n": 1, "p": p, "cap": 0, "unit": UNIT},
                "ev": [{"op": "error", "what": f"{type(ex).__name__}: {ex} {traceback.format_exc()[-300:]}"}], "_info": info}
    return assemble(1, p, half, acts, res, info)


def body(root, kind, cases):
    from fairseq2.gang import FakeGang, Gangs, create_fsdp_gangs, create_parallel_gangs

    one = FakeGang(root.device)
    if kind == "tp":
        gangs = create_parallel_gangs(root, tp_size=root.size)
    elif kind == "fsdp":
        gangs = create_fsdp_gangs(create_parallel_gangs(root))
    elif kind == "hsdp":
        gangs = create_fsdp_gangs(create_parallel_gangs(root), 2)
    else:
        gangs = Gangs(root=root, dp=one, rdp=one, sdp=one, tp=one, pp=root)
    return [play(gangs, root.rank, p, half, acts) for p, half, acts, _ in cases]


def shared(args):
    n, kind, cases = args
    res = gloo.world(n, body, kind, cases, timeout=200)
    bad = [f"rank {i}: {st} {v[-400:]}" for i, (st, v) in enumerate(res) if st != "ok"]
    if bad:
        return [{"cfg": {"n": n, "p": cases[0][0], "cap": 0, "unit": UNIT}, "ev": [{"op": "error", "what": bad[0]}],
                 "_info": {"kind": kind}}]
    return [assemble(n, c[0], c[1], c[2], [res[r][1][i] for r in range(n)], c[3]) for i, c in enumerate(cases)]


def params(rng, long=False):
    # Bounded so that TLC's integers never overflow.
    f = rng.choice([2, 2, 4])
    mn = rng.choice([UNIT // 4, UNIT, 3 * UNIT, UNIT // 16])
    return {"init": mn * rng.choice([1, 2, 4, 8, 3]) if rng.random() < 0.6 else UNIT * rng.choice([16, 32] if long else [16, 64]), "factor": f,
            "window": rng.choice([3, 4, 6] if long else [1, 2, 3, 4]), "min": mn, "noop": False}


def run(ctx):
    rng = ctx.rng
    for w, m in ((1, "4"), (2, "4"), (3, "5")):
        tlc.model_check(ctx, "LossScalerGen", overrides={"Emitting": "FALSE", "Window": w, "Min": m, "Depth": ctx.pick("7", "9")})
    hists = tlc.generate(ctx, "LossScalerGen", overrides={"Depth": ctx.pick("5", "7")})
    long = tlc.generate(ctx, "LossScalerGen", overrides={"Depth": "25"}, num=ctx.pick(300, 4000), depth=27)
    cases = []
    for h in hists + long:
        # Histories that first probe a malformed state keep their meaning.
        p = params(rng, len(h) > 8)
        if rng.random() < 0.05:
            p["noop"] = True
            p["init"] = UNIT
            p["min"] = 1
            h = [x for x in h if x == "good"] or ["good"]
        elif rng.random() < 0.2:
            h = list(h)
            h.insert(rng.randrange(len(h) + 1), "refuse")
        half = rng.random() < 0.4 and not p["noop"]
        cases.append((p, half, plan(h, 1, rng.random()), {"history": h}))
    traces = pmap(ctx, local, cases, 20)
    jobs = []
    for n, kind in [(2, "tp"), (2, "fsdp"), (3, "fsdp"), (4, "hsdp"), (2, "pp")] + ctx.pick([], [(4, "tp"), (4, "fsdp")]):
        cs = []
        for h in rng.sample(hists, ctx.pick(40, 300)) + rng.sample(long, ctx.pick(25, 200)):
            p = params(rng, len(h) > 8)
            cs.append((p, rng.random() < 0.4, plan(h, n, rng.random()), {"kind": kind, "history": h}))
        jobs.append((n, kind, cs))
    for j in jobs:
        traces += shared(j)
    ctx.count("steps", sum(1 for t in traces for e in t["ev"] if e["op"] == "step"))
    ctx.count("overflows", sum(1 for t in traces for e in t["ev"] if e["op"] == "step" and e["res"][0]["overflowed"]))
    ctx.count("explosions", sum(1 for t in traces for e in t["ev"] if e["op"] == "step" and e["res"][0]["exploded"]))
    ctx.sample(traces[-1]["ev"][:2])
    ctx.assumptions.append("torch's scaler is made to run on the CPU, by constructing it for that device")
    tlc.validate(ctx, "LossScalerTrace", traces)

    def corrupt(t, rng):
        c = [e for e in t["ev"] if e["op"] == "step"]
        if not c:
            return None
        e = rng.choice(c)
        i = rng.randrange(t["cfg"]["n"])
        if rng.random() < 0.5:
            e["applied"][i] = "not" if e["applied"][i] == "exactly" else "exactly"
        else:
            e["res"][i]["new"] *= 2
        return t

    tlc.selftest(ctx, "LossScalerTrace", traces, corrupt)
