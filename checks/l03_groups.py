"""L03: every parameter is updated with the settings of the first group that selects it."""

from __future__ import annotations

import random

from vlib import tlc
from vlib.pool import pmap

NAMES = ["a", "b", "ab", "ba", "bb"]
ADAMW = {"lr": [0.001, 0.25, 0.5, 2.0], "eps": [1e-12, 1e-10], "weight_decay": [0.0], "betas": [[0.9, 0.999], [0.5, 0.75]]}
ADAFACTOR = {"lr": [0.001, 0.25, 0.5], "beta2_decay": [-0.8, -0.5], "d": [1.0, 2.0], "weight_decay": [0.0, 0.125], "eps": [[None, 0.001], [0.001, 0.01]]}


def text(x):
    if isinstance(x, (list, tuple)):
        return "(" + ",".join(text(v) for v in x) + ")"
    return "none" if x is None else f"{float(x):g}"


def tree(rng, depth):
    """Module as nested dictionaries; a leaf is a parameter."""
    out = {}
    for k in rng.sample(NAMES, rng.randrange(1, 4)):
        out[k] = None if depth == 0 or rng.random() < 0.5 else tree(rng, depth - 1)
    return out


def module(t):
    import torch

    m = torch.nn.Module()
    for k, v in t.items():
        if v is None:
            m.register_parameter(k, torch.nn.Parameter(torch.ones(3)))
        else:
            m.add_module(k, module(v))
    return m


def names_of(t, pre=""):
    # A module lists its own parameters before those of its children.
    out = [pre + k for k, v in t.items() if v is None]
    for k, v in t.items():
        if v is not None:
            out += names_of(v, pre + k + ".")
    return out


def pattern(rng, names):
    r = rng.random()
    if r < 0.15:
        return [*"*"], ".*"
    base = rng.choice(names)
    if r < 0.35:
        return None, base  # the name itself
    el = []
    i = rng.choice([0, 0, rng.randrange(len(base))])
    if i:
        el.append("*")
    for ch in base[i: rng.randrange(i + 1, len(base) + 1)]:
        el.append("?" if rng.random() < 0.2 else ch)
        if rng.random() < 0.1:
            el.append("*")
    if rng.random() < 0.25:
        el.append("$")
    return el, "".join({"*": ".*", "?": ".", "$": "$", ".": r"\."}.get(c, c) for c in el)


def case(rng):
    t = tree(rng, 2)
    names = names_of(t)
    kind = rng.choice(["adamw", "adamw", "adafactor"])
    fields = ADAMW if kind == "adamw" else ADAFACTOR
    top = {f: rng.choice(v) for f, v in fields.items()}
    groups = []
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
        pats = [pattern(rng, names) for _ in range(rng.choice([1, 1, 2, 3]))]
        own = {f: rng.choice(v) for f, v in fields.items() if rng.random() < 0.4}
        groups.append({"pats": pats, "own": own, "str": len(pats) == 1 and rng.random() < 0.5, "spell": rng.random() < 0.3})
    frozen = [n for n in names if rng.random() < 0.15]
    return {"tree": t, "names": names, "kind": kind, "top": top, "groups": groups, "frozen": frozen, "wrap": rng.random() < 0.4,
            "seed": rng.randrange(1 << 30)}


def play(c):
    import torch
    from fairseq2.recipe import config as rc
    from fairseq2.recipe.internal.optim import _AdafactorFactory, _AdamWFactory
    from fairseq2.utils.structured import StandardValueConverter

    pats = []
    for g in c["groups"]:
        # A bare name is a regular expression, too, whose dots are any character.
        pats.append([{"el": ["?" if ch == "." else ch for ch in s] if e is None else e, "text": list(s)} for e, s in g["pats"]])
    ev = {"names": [list(n) for n in c["names"]], "top": {f: text(v) for f, v in c["top"].items()},
          "groups": [{"pats": p, "set": {**{f: "default" for f in c["top"]}, **{f: text(v) for f, v in g["own"].items()}}} for p, g in zip(pats, c["groups"])],
          "frozen": [n in c["frozen"] for n in c["names"]], "err": "", "got": [], "moved": []}
    try:
        m = module(c["tree"])
        assert [n for n, _ in m.named_parameters()] == c["names"]
        byid = {}
        for n, p in m.named_parameters():
            byid[id(p)] = n
            p.requires_grad_(n not in c["frozen"])
        data = dict(c["top"])
        data["groups"] = [
            {"params": g["pats"][0][1] if g["str"] else [s for _, s in g["pats"]], **({f: "default" for f in c["top"]} if g["spell"] else {}), **g["own"]}
            for g in c["groups"]
        ]
        kls, fac = (rc.AdamWConfig, _AdamWFactory) if c["kind"] == "adamw" else (rc.AdafactorConfig, _AdafactorFactory)
        cfg = StandardValueConverter().structure(data, kls)
        model = m
        if c["wrap"]:
            from fairseq2.recipe.model import RecipeModel

            class Wrapped(RecipeModel):
                module = m
                name = family_name = "x"
                config = family = None
                newly_initialized = False

                def __init__(self):
                    pass

            try:
                model = Wrapped()
            except TypeError:
                model = m
        o = fac(model).create(cfg)
        for g in o.param_groups:
            ev["got"].append({"names": [list(byid[id(p)]) for p in g["params"]], "set": {f: text(g[f]) for f in c["top"]}})
        before = {n: p.detach().clone() for n, p in m.named_parameters()}
        for n, p in m.named_parameters():
            if p.requires_grad:
                p.grad = torch.full_like(p, 0.5)
        o.step()
        lrs = {id(p): float(g["lr"]) for g in o.param_groups for p in g["params"]}
        for n, p in m.named_parameters():
            d = (before[n] - p.detach()).abs().max().item()
            if c["kind"] == "adamw" or d == 0:
                ev["moved"].append(text(round(d, 5)))
            else:
                ev["moved"].append(text(lrs[id(p)]))  # how far is a matter of the algorithm
    except Exception as ex:  # noqa: BLE001
        import traceback

        ev["err"] = f"{type(ex).__name__}: {ex} {traceback.format_exc()[-300:]}"
    return {"cfg": {}, "ev": [ev], "_info": {"groups": [[s for _, s in g["pats"]] for g in c["groups"]], "optimizer": c["kind"]}}


def run(ctx):
    tlc.model_check(ctx, "ParamGroupsDesign", overrides={"Params": ctx.pick("2", "3"), "Elements": ctx.pick('{"a", "*", "$"}', '{"a", "?", "*", "$"}')})
    rng = ctx.rng
    cases = [case(rng) for _ in range(ctx.pick(2500, 30000))]
    traces = pmap(ctx, play, cases, 50)
    ctx.count("groups", sum(len(t["ev"][0]["groups"]) for t in traces))
    ctx.count("empty groups", sum(1 for t in traces for g in t["ev"][0]["got"] if not g["names"]))
    ctx.count("frozen parameters", sum(sum(t["ev"][0]["frozen"]) for t in traces))
    ctx.sample(traces[0]["ev"][0])
    tlc.validate(ctx, "ParamGroupsTrace", traces)

    def corrupt(t, rng):
        e = t["ev"][0]
        gs = [g for g in e["got"] if g["names"]]
        if len(e["got"]) < 2 or not gs:
            return None
        if rng.random() < 0.5:
            g = rng.choice(gs)
            n = g["names"].pop()
            h = rng.choice([x for x in e["got"] if x is not g])
            h["names"].append(n)
        else:
            g = rng.choice(e["got"])
            g["set"]["lr"] = "7"
        return t

    tlc.selftest(ctx, "ParamGroupsTrace", traces, corrupt)
