"""L02: learning rate schedules are what they are defined as at every step."""

from __future__ import annotations

import copy
import math
import random

from vlib import tlc
from vlib.pool import pmap

RATES = [0.05, 0.5, 1.0, 0.003, 2.0, 1e-5, 0.0]


def value(f, b, s, e, scale, lrm, power):
    """The number that a form of the specification stands for."""
    k, n, d = f["k"], f["n"], f["d"]
    if k == "base":
        return b
    if k == "final":
        return e
    x = n / d
    if k == "lin":
        return s + (b - s) * x
    if k == "cos":
        return (e + (b - e) * (1 + math.cos(math.pi * x)) / 2) * lrm ** f["c"]
    if k == "pow":
        return e + (b - e) * x**power
    if k == "exp":
        return b * (scale**x if scale else float(x == 0))
    if k == "root":
        return b * math.sqrt(x)
    if k == "rise":
        return b * x / math.sqrt(d)
    raise ValueError(k)


class Run:
    def __init__(self, c, p):
        self.c, self.p = c, p
        self.make()

    def optimizer(self, initial=False):
        import torch

        gs = []
        for b in self.p["base"]:
            lr = torch.tensor(b, dtype=torch.float64) if self.p["tensor"] else b
            g = {"params": [torch.nn.Parameter(torch.zeros(1))], "lr": lr}
            if initial:
                g["initial_lr"] = copy.deepcopy(lr)
            gs.append(g)
        return torch.optim.SGD(gs, lr=0.1)

    def per_group(self, name):
        """Of all groups or each group respectively."""
        x = self.p[name]
        if len(set(x)) == 1 and self.p["one"]:
            return int(x[0]) if self.p["int"] and x[0] == int(x[0]) else x[0]
        return tuple(x) if self.p["tuple"] else list(x)

    def make(self, done=None):
        from fairseq2.optim.lr_schedulers import (
            CosineAnnealingLR,
            MyleLR,
            NoamLR,
            PassthroughLR,
            PolynomialDecayLR,
            TriStageLR,
        )

        c, p, g = self.c, self.p, self.per_group
        self.opt = o = self.optimizer(done is not None)
        kw = {} if done is None else {"last_epoch": done - 1}
        if p["recipe"] and done is None and c["kind"] != "none":
            self.sched = self.from_recipe(o)
            return
        k = c["kind"]
        if k == "none":
            self.sched = PassthroughLR(o, **kw)
        elif k == "cosine":
            n = c["l"] or max(c["n"] - c["w"], 1)
            self.sched = CosineAnnealingLR(o, n, c["w"], cycle_mul=c["mp"] / c["mq"], lr_mul=p["lrm"], start_lr=g("start"),
                                           final_lr=g("final"), **kw)
        elif k == "myle":
            self.sched = MyleLR(o, c["w"], start_lr=g("start"), **kw)
        elif k == "noam":
            self.sched = NoamLR(o, c["w"], **kw)
        elif k == "poly":
            self.sched = PolynomialDecayLR(o, c["n"], c["w"], power=p["power"], start_lr=g("start"), final_lr=g("final"), **kw)
        else:
            self.sched = TriStageLR(o, c["n"], self.ratio(), start_lr_scale=g("sscale"), final_lr_scale=g("fscale"), **kw)

    def ratio(self):
        c = self.c
        return (c["w"] / c["n"], c["h"] / c["n"], c["d"] / c["n"])

    def from_recipe(self, o):
        from fairseq2.recipe import config as rc
        from fairseq2.recipe.internal import lr_schedulers as ls
        from fairseq2.utils.structured import StandardValueConverter

        c, p, g = self.c, self.p, self.per_group

        def cfg(kls, **kw):
            x = StandardValueConverter().structure(kw, kls)
            r = x.validate()
            if r is not None and r.errors:
                raise AssertionError(str(r.errors))
            return x

        regime = rc.RegimeSection(num_steps=c["n"] or None)
        k = c["kind"]
        if k == "cosine":
            fin = {"final_lr": g("final"), "final_lr_scale": None} if not p["scaled"] else {"final_lr_scale": g("fscale")}
            return ls._CosineAnnealingLRFactory(o, regime).create(cfg(
                rc.CosineAnnealingLRConfig, cycle_len=c["l"] or None, num_warmup_steps=c["w"], cycle_mul=c["mp"] / c["mq"],
                lr_mul=p["lrm"], start_lr=g("start"), **fin))
        if k == "myle":
            return ls._MyleLRFactory(o).create(cfg(rc.MyleLRConfig, num_warmup_steps=c["w"], start_lr=g("start")))
        if k == "noam":
            return ls._NoamLRFactory(o).create(cfg(rc.NoamLRConfig, num_warmup_steps=c["w"]))
        if k == "poly":
            return ls._PolynomialDecayLRFactory(o, regime).create(cfg(
                rc.PolynomialDecayLRConfig, num_warmup_steps=c["w"], power=p["power"], start_lr=g("start"), final_lr=g("final")))
        return ls._TriStageLRFactory(o, regime).create(cfg(
            rc.TriStageLRConfig, stage_ratio=self.ratio(), start_lr_scale=g("sscale"), final_lr_scale=g("fscale")))

    def want(self, f, i):
        p = self.p
        b, s, e, sc = p["base"][i], p["start"][i], p["final"][i], p["fscale"][i]
        if self.c["kind"] == "tri":
            s, e = p["sscale"][i] * b, sc * b
        elif self.c["kind"] == "cosine" and p["scaled"]:
            e = sc * b
        return value(f, b, s, e, sc, p["lrm"], p["power"])


def play(args):
    import torch

    c, p, hist = args
    where = {"schedule": c, "setting": p}
    out = {"bad": None, "n": 0, "forms": []}
    saved = None
    try:
        torch.manual_seed(0)
        run = Run(c, p)
        for i, h in enumerate(hist):
            op = h["op"]
            if op == "step":
                run.opt.step()
                run.sched.step()
            elif op == "save":
                saved = copy.deepcopy((run.opt.state_dict(), run.sched.state_dict()))
            elif op == "restore":
                run.make()
                a, b = copy.deepcopy(saved)
                if p["order"]:
                    run.opt.load_state_dict(a)
                    run.sched.load_state_dict(b)
                else:
                    run.sched.load_state_dict(b)
                    run.opt.load_state_dict(a)
            elif op == "rebuild":
                run.make(h["to"])
            got = [float(x) for x in run.sched.get_last_lr()]
            used = [float(g["lr"]) for g in run.opt.param_groups]
            want = [run.want(h["at"], k) for k in range(len(p["base"]))]
            out["n"] += 1
            out["forms"].append(h["at"]["k"])
            for name, x in (("reported", got), ("used by the optimizer", used)):
                if len(x) != len(want) or any(not math.isclose(a, b, rel_tol=1e-7, abs_tol=1e-12) for a, b in zip(x, want)):
                    out["bad"] = (f"the learning rates {name} after {h['to']} steps ({op}) are {x}, the schedule says {want}, that is {h['at']}: {c}",
                                  {**where, "index": i, "history": [x["op"] for x in hist[: i + 1]]})
                    return out
            if [float(x) for x in run.sched.get_last_lr()] != got:
                out["bad"] = (f"reading the learning rate changes it: {c}", where)
                return out
    except Exception as ex:  # noqa: BLE001
        import traceback

        out["bad"] = (f"schedule {c} fails after {out['n']} actions: {type(ex).__name__}: {ex}", {**where, "trace": traceback.format_exc()[-1500:]})
    return out


def setting(rng, c):
    n = rng.choice([1, 2, 3])
    same = rng.random() < 0.4

    def pick(xs):
        return [rng.choice(xs)] * n if same else [rng.choice(xs) for _ in range(n)]

    recipe = rng.random() < 0.5
    scaled = recipe and rng.random() < 0.5
    return {
        "base": [rng.choice(RATES) for _ in range(n)], "start": pick(RATES), "final": pick(RATES),
        "sscale": pick([0.01, 0.5, 0.0, 1.0]), "fscale": pick([0.01, 0.5, 0.2, 1.0, 0.0]),
        "lrm": rng.choice([1.0, 0.5, 0.75]), "power": rng.choice([1.0, 2.0, 0.5, 1.5, 3.0]), "tensor": rng.random() < 0.25,
        "one": rng.random() < 0.7, "int": rng.random() < 0.5, "tuple": rng.random() < 0.4,
        # Without the length of a cycle the final rate is the same, however the scheduler is made.
        "recipe": recipe, "scaled": scaled, "order": rng.random() < 0.5,
    }


def exact(c):
    """Whether the ratios of a tri-stage schedule give whole numbers of steps."""
    if c["kind"] != "tri":
        return True
    return all(int(c[x] / c["n"] * c["n"]) == c[x] for x in "whd")


def fits(c, p):
    # A schedule that is rebuilt is given its rates, as a recipe would have derived them.
    return not (c["kind"] == "cosine" and c["l"] == 0 and c["n"] == 0)


def run(ctx):
    rng = ctx.rng
    tlc.model_check(ctx, "LRScheduleDesign", overrides={"Depth": ctx.pick("8", "10")})
    big = {"Warmups": "{0, 1, 2, 5, 10, 32}", "Cycles": "{0, 4, 5, 8, 16, 40}", "Growths": "{11, 32, 21, 12, 34, 54}", "Totals": "{0, 1, 4, 10, 32, 50}",
           "Restores": "4", "Emitting": "TRUE"}
    hs = []
    for depth, every, num in ((40, 7, ctx.pick(500, 4000)), (160, 31, ctx.pick(250, 2500))):
        hs += tlc.generate(ctx, "LRScheduleDesign", overrides={**big, "Depth": depth, "Every": every}, num=num, depth=depth + 4)
    # Cycles that begin exactly where a power of their growth puts them.
    for g in ("31", "51", "21", "41"):
        hs += tlc.generate(ctx, "LRScheduleDesign", overrides={**big, "Warmups": "{0, 3}", "Cycles": "{1, 2}", "Growths": "{%s}" % g, "Totals": "{1}",
                                                               "Depth": 420, "Every": 100}, num=ctx.pick(24, 120), depth=425)
    cases = []
    for h in hs:
        c = h["c"]
        if not exact(c):
            continue
        for _ in range(2):
            p = setting(rng, c)
            if fits(c, p):
                if p["scaled"] and any(x["op"] == "rebuild" for x in h["h"]):
                    p["final"] = [a * b for a, b in zip(p["base"], p["fscale"])]
                cases.append((c, p, h["h"]))
    res = pmap(ctx, play, cases, 20)
    for r in res:
        if r["bad"]:
            ctx.violation(*r["bad"])
    ctx.traces += len(cases)
    ctx.count("histories", len(cases))
    ctx.count("rates compared", sum(r["n"] for r in res))
    for k in sorted({f for r in res for f in r["forms"]}):
        ctx.count(f"rates of the form {k}", sum(r["forms"].count(k) for r in res))
    ctx.sample({"schedule": cases[0][0], "setting": cases[0][1], "history": cases[0][2][:4]})
    ctx.assumptions.append("the ratios of tri-stage schedules give whole numbers of steps")

    # The comparison tells a schedule from one that is a step late.
    n = 0
    for c, p, h in rng.sample(cases, 60):
        if any(len({repr(x["at"]) for x in h}) > 3 and p["base"][i] > 0 and c["kind"] not in ("none",) for i in range(1)):
            late = [h[0]] + [{**x, "at": y["at"]} for x, y in zip(h[1:], h)]
            q = {**p, "base": [1.0] * len(p["base"]), "start": [0.25] * len(p["base"]), "final": [0.125] * len(p["base"]), "fscale": [0.5] * len(p["base"])}
            if not play((c, q, late))["bad"]:
                raise tlc.Machinery(f"a schedule that is a step late goes unnoticed: {c} {q}")
            n += 1
    ctx.count("late schedules told apart", n)
