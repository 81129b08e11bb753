"""U03: scoped seeding does not leak, saved state resumes the stream."""

from __future__ import annotations

import hashlib
import random

from vlib import tlc
from vlib.pool import pmap


class Boom(Exception):
    pass


def draw(kind, gen):
    import torch

    if kind == "int":
        t = torch.randint(0, 2**62, (2,), generator=gen)
    elif kind == "randn":
        t = torch.randn(3, generator=gen, dtype=torch.float64)
    elif kind == "one":
        t = torch.randn(1, generator=gen, dtype=torch.float64)
    elif kind == "perm":
        t = torch.randperm(9, generator=gen)
    elif kind == "fill":
        t = torch.rand(40, generator=gen)
    else:
        t = torch.bernoulli(torch.full((30,), 0.5), generator=gen)
    return hashlib.sha1(t.numpy().tobytes()).hexdigest()[:12]


def play(a):
    """Performs a history on a real bag; default: the bag of the default CPU generator."""
    hist, n, default, seed = a
    import torch
    from fairseq2.device import CPU, META_DEVICE
    from fairseq2.utils.rng import RngBag

    rng = random.Random(seed)
    if default:
        gens = [None]
        torch.manual_seed(rng.randrange(2**40))
        bag = RngBag.from_device_defaults(*rng.choice([[CPU], [CPU, CPU], [META_DEVICE, CPU], [torch.device("cpu"), CPU, META_DEVICE]]))
    else:
        gens = [torch.Generator() for _ in range(n)]
        for g in gens:
            g.manual_seed(rng.randrange(2**40))
        bag = RngBag(*gens)
    slots = []
    ev = []

    def guard(f):
        try:
            f()
            return "ok"
        except Exception as ex:  # noqa: BLE001
            return type(ex).__name__

    def perform(e):
        e = dict(e)
        if e["a"] == "draw":
            e["v"] = draw(e["x"], gens[e["g"] - 1])
        elif e["a"] == "manual":
            e["res"] = guard(lambda: bag.manual_seed(int(e["x"])))
        elif e["a"] == "seed":
            e["res"] = guard(bag.seed)
        elif e["a"] == "save":
            e["res"] = guard(lambda: slots.append(bag.state_dict()))
        elif e["a"] == "load":
            e["res"] = guard(lambda: bag.load_state_dict(slots[e["g"] - 1]))
        elif e["a"] == "badload":
            good = bag.state_dict()
            bad = rng.choice([{}, {"generators": 1}, {"generators": good["generators"] + good["generators"][:1]}, {"generators": [3] * len(good["generators"])},
                              good | {"other": 1}, {"generators": good["generators"][1:]}])
            e["res"] = guard(lambda: bag.load_state_dict(bad))
        ev.append(e)

    def run(i, top=False):
        """From operation i until the scope it is in is left; returns (next, how)."""
        while i < len(hist):
            e = hist[i]
            if e["a"] in ("exit", "raise"):
                return i, e["a"]
            if e["a"] == "enter":
                entered = False
                how = "exit"
                try:
                    if rng.random() < 0.3:
                        # The scope is that of a generator, which is closed or thrown into.
                        def scoped(x):
                            with bag.temporary_manual_seed(x):
                                yield

                        g = scoped(int(e["x"]))
                        next(g)
                        entered = True
                        ev.append(dict(e) | {"res": "ok"})
                        i, how = run(i + 1)
                        if how == "raise":
                            g.throw(Boom())
                        g.close()
                    else:
                        with bag.temporary_manual_seed(int(e["x"])):
                            entered = True
                            ev.append(dict(e) | {"res": "ok"})
                            i, how = run(i + 1)
                            if how == "raise":
                                raise Boom()
                    got = "ok"
                except Boom:
                    got = "raised"
                except ValueError as ex:
                    got = type(ex).__name__
                if not entered:
                    ev.append(dict(e) | {"res": got})
                elif i < len(hist):
                    ev.append(dict(hist[i]) | {"res": got})
                i += 1
                continue
            perform(e)
            if rng.random() < 0.05:
                perform({"a": "badload", "g": 0, "x": ""})
            i += 1
        return i, "exit"

    run(0, True)
    # What every generator has in store shows where it stands.
    open_scopes = 0
    for e in ev:
        open_scopes += (e["a"] == "enter" and e["res"] == "ok") - (e["a"] in ("exit", "raise"))
    ev += [{"a": "exit", "g": 0, "x": "", "res": "ok"}] * open_scopes
    for g in range(len(gens)):
        perform({"a": "draw", "g": g + 1, "x": "int"})
    return {"cfg": {"n": len(gens)}, "ev": ev, "_info": {"default": default}}


def run(ctx):
    hists = []
    full = tlc.generate(ctx, "RngGen", overrides={"Depth": ctx.pick("4", "5")})
    tlc.model_check(ctx, "RngGen", overrides={"Depth": ctx.pick("4", "5"), "Emitting": "FALSE"}, timeout=600)
    ctx.rng.shuffle(full)
    hists += [(h, 2) for h in full[: ctx.pick(2500, 40000)]]
    kinds = '{"int", "randn", "one", "perm", "fill", "bern"}'
    for n, depth in ((1, 8), (2, 12), (3, 16)):
        num = ctx.pick(500, 6000)
        hists += [(h, n) for h in tlc.generate(ctx, "RngGen", overrides={"Gens": n, "Depth": depth, "Kinds": kinds, "Seeds": '{"0", "1", "4294967295", "-1", "4294967296"}'},
                                               num=num, depth=depth + 2, limit=num)]
    cases = []
    for h, n in hists:
        cases.append((h, n, n == 1 and ctx.rng.random() < 0.7, ctx.rng.random()))
    traces = pmap(ctx, play, cases, 100)
    ctx.count("draws", sum(e["a"] == "draw" for t in traces for e in t["ev"]))
    ctx.sample(traces[-1]["ev"])
    tlc.validate(ctx, "RngTrace", traces)

    def corrupt(t, rng):
        c = [e for e in t["ev"] if "res" in e]
        if not c:
            return None
        rng.choice(c)["res"] = "x"
        return t

    tlc.selftest(ctx, "RngTrace", traces, corrupt)
