"""M02: distributed metrics equal the metrics of the combined data."""

from __future__ import annotations

import random

from checks.m01_bag import UNIT, encode, kinds, update
from vlib import gloo, tlc

KINDS = {"s": "sum", "m": "mean", "lo": "min", "hi": "max", "m2": "mean"}
WORDS = ["a", "b", "the cat", "sat on", "mat", "dog !", "house", "x y z", ""]


def plan(n, seed, length):
    rng = random.Random(seed)
    quiet = {r for r in range(n) if rng.random() < 0.25}  # ranks without updates
    ops = []
    for _ in range(length):
        x = rng.random()
        r = rng.randrange(n)
        if x < 0.55:
            if r not in quiet:
                ops.append({"op": "upd", "r": r + 1, "n": rng.choice(list(KINDS)), "v": rng.randrange(-6, 9), "w": rng.choice([1, 1, 2, 3])})
        elif x < 0.62:
            if r not in quiet:
                ops.append({"op": "undone", "r": r + 1, "n": rng.choice(list(KINDS)), "v": rng.randrange(-6, 9), "w": 1})
        elif x < 0.70:
            ops.append({"op": "reset", "r": r + 1})
        elif x < 0.78:
            ops.append({"op": "own"})
        else:
            ops.append({"op": "sync"})
    ops += [{"op": "sync"}, {"op": "own"}, {"op": "sync"}]
    return ops


def texts(n, seed):
    """Per rank a list of updates of the text metrics, possibly empty."""
    rng = random.Random(seed)

    def sent():
        return " ".join(rng.choice(WORDS) for _ in range(rng.randrange(1, 5))).strip() or "a"

    def pair():
        ref = sent()
        hyp = ref if rng.random() < 0.3 else sent()
        return ref, hyp, [rng.randrange(5) for _ in range(rng.randrange(1, 6))], [rng.randrange(5) for _ in range(rng.randrange(1, 6))]

    return [[[pair() for _ in range(rng.randrange(1, 4))] for _ in range(rng.randrange(0, 3))] for _ in range(n)]


def text_metrics():
    from fairseq2.metrics.text import BleuMetric, ChrfMetric, WerMetric

    return {"bleu": BleuMetric(), "chrf": ChrfMetric(), "wer": WerMetric()}


def text_update(ms, batch):
    import torch
    from fairseq2.nn import BatchLayout

    refs, hyps = [p[0] for p in batch], [p[1] for p in batch]
    ms["bleu"].update(refs, hyps)
    ms["chrf"].update(refs, hyps)

    def pad(seqs):
        w = max(map(len, seqs))
        return torch.tensor([s + [9] * (w - len(s)) for s in seqs]), BatchLayout((len(seqs), w), [len(s) for s in seqs])

    ms["wer"].update(refs, *pad([p[2] for p in batch]), hyps, *pad([p[3] for p in batch]))


def flat(v):
    import torch

    if isinstance(v, torch.Tensor):
        return round(float(v) * 1000)
    return [flat(x) for x in v]


def member(gang, plans, txts):
    """What one rank sees; one process runs all the histories."""
    import torch
    from fairseq2.metrics.bag import MetricBag, sync_and_compute_metrics

    K = kinds()
    me = gang.rank + 1
    out = []
    for seed, ops in plans:
        rng = random.Random(seed * 31 + me)
        bag = MetricBag(torch.device("cpu"))
        for n, k in KINDS.items():
            bag.add(n, K[k]())
        res = []

        def show(vals):
            return [{"n": n, "v": encode(KINDS.get(n, "sum"), v)} for n, v in vals.items()]

        for o in ops:
            if o["op"] == "upd" and o["r"] == me:
                update(bag.get(o["n"], K[KINDS[o["n"]]]), KINDS[o["n"]], o["v"], o["w"], rng)
            elif o["op"] == "undone" and o["r"] == me:
                bag.begin_updates()
                update(bag.get(o["n"], K[KINDS[o["n"]]]), KINDS[o["n"]], o["v"], o["w"], rng)
                bag.rollback_updates()
            elif o["op"] == "reset" and o["r"] == me:
                bag.reset_metrics()
            elif o["op"] == "own":
                res.append(("ok", show({n: m.compute() for n, m in bag.metrics.items()})))
            elif o["op"] == "sync":
                try:
                    v = sync_and_compute_metrics(bag, gang)
                    res.append(("ok", show(v) if v is not None else []))
                except Exception as ex:  # noqa: BLE001
                    res.append((f"{type(ex).__name__}: {ex}"[:300], []))
        out.append(res)
    tout = []
    for shares in txts:
        bag = MetricBag(torch.device("cpu"))
        ms = text_metrics()
        for n, m in ms.items():
            bag.add(n, m)
        for b in shares[me - 1]:
            text_update(ms, b)
        got = []
        for _ in range(2):  # again: synchronizing changes nothing
            try:
                v = sync_and_compute_metrics(bag, gang)
                got.append({n: flat(x) for n, x in v.items()})
            except Exception as ex:  # noqa: BLE001
                got.append({"error": f"{type(ex).__name__}: {ex}"[:300]})
        tout.append(got)
    return out, tout


def run(ctx):
    tlc.model_check(ctx, "MetricSyncDesign", overrides={"Depth": ctx.pick("4", "5")})
    traces, nsync = [], 0
    for n in (1, 2, 3, 4) if ctx.tier == "quick" else (1, 2, 3, 4, 5, 6):
        plans = [(s, plan(n, ctx.rng.random(), ctx.pick(20, 40))) for s in range(ctx.pick(12, 80))]
        txts = [texts(n, ctx.rng.random()) for _ in range(ctx.pick(8, 40))]
        res = gloo.world(n, member, plans, txts, timeout=ctx.pick(150, 400))
        bad = [r for r in res if r[0] != "ok"]
        cfg = {"n": n, "kinds": KINDS}
        if bad:
            traces.append({"cfg": cfg, "ev": [{"op": "failed", "what": str(bad[0])[:500]}], "_info": n})
            continue
        for pi, (_, ops) in enumerate(plans):
            evs, i = [], 0
            for o in ops:
                if o["op"] == "undone":
                    continue
                if o["op"] in ("own", "sync"):
                    r = [res[k][1][0][pi][i] for k in range(n)]
                    i += 1
                    e = {"op": o["op"], "views": [x[1] for x in r]}
                    if o["op"] == "sync":
                        e["res"] = [x[0] for x in r]
                        nsync += 1
                    evs.append(e)
                else:
                    evs.append(o)
            traces.append({"cfg": cfg, "ev": evs, "_info": ops})
        for ti, shares in enumerate(txts):
            ms = text_metrics()
            for sh in shares:
                for b in sh:
                    text_update(ms, b)
            single = {k: flat(m.compute()) for k, m in ms.items()}
            evs = [{"op": "opaque", "what": w, "got": [res[k][1][1][ti][j].get(w, str(res[k][1][1][ti][j])) for k in range(n)], "single": single[w]}
                   for w in single for j in range(2)]
            traces.append({"cfg": cfg, "ev": evs, "_info": shares})
    ctx.count("syncs", nsync)
    ctx.sample(traces[15]["ev"][:6])
    tlc.validate(ctx, "MetricSyncTrace", traces)

    def corrupt(t, rng):
        c = [e for e in t["ev"] if e["op"] in ("sync", "own")]
        if not c:
            return None
        v = rng.choice(rng.choice(rng.choice(c)["views"]))
        v["v"] += 2 * UNIT if KINDS[v["n"]] == "mean" else 1
        return t

    tlc.selftest(ctx, "MetricSyncTrace", traces, corrupt)
