"""M01: metric updates are transactional and survive save and restore."""

from __future__ import annotations

import copy
import io
import math
import random

from vlib import tlc

UNIT = 27720
INF = 1000000


def kinds():
    from fairseq2.metrics.aggregation import Max, Mean, Min, Sum

    return {"sum": Sum, "mean": Mean, "min": Min, "max": Max}


def encode(kind, x):
    x = float(x)
    if math.isinf(x):
        return INF if x > 0 else -INF
    if math.isnan(x):
        return 999999
    return round(x * UNIT) if kind == "mean" else round(x)


def update(m, kind, v, w, rng):
    """The same update, given as a number or as a tensor."""
    import torch

    val = rng.choice([v, float(v), torch.tensor(float(v)), torch.tensor([float(v)]) if kind in ("min", "max") else torch.tensor(float(v))])
    if kind in ("sum", "mean"):
        if w == 1 and rng.random() < 0.5:
            m.update(val)
        else:
            m.update(val, weight=rng.choice([w, float(w)]))
    else:
        m.update(val)


def replay(hist, seed):
    import torch
    from fairseq2.error import InvalidOperationError, StateDictError
    from fairseq2.metrics.bag import MetricBag

    rng = random.Random(seed)
    K = kinds()
    cpu = torch.device("cpu")
    bag = MetricBag(cpu)
    kind_of, saves, evs = {}, [], []

    def view(b):
        out = []
        for n, m in b.metrics.items():
            k = next((k for k, c in K.items() if type(m) is c), type(m).__name__)
            out.append({"n": n, "k": k, "v": encode(k, m.compute())})
        return out

    for a in hist:
        a = dict(a)
        if "v" in a:
            a["v"] -= 2  # configurations of TLC have no negative numbers
        e = dict(a)
        res = "ok"
        try:
            k = a["a"]
            if k == "add":
                bag.add(a["n"], K[a["k"]]())
                kind_of[a["n"]] = a["k"]
            elif k == "upd":
                kk = next(x for x, c in K.items() if type(bag.metrics[a["n"]]) is c)
                update(bag.get(a["n"], K[kk]), kk, a["v"], a["w"], rng)
            elif k == "begin":
                bag.begin_updates()
            elif k == "commit":
                bag.commit_updates()
            elif k == "rollback":
                bag.rollback_updates()
            elif k == "reset":
                bag.reset_metrics()
            elif k == "save":
                sd = bag.state_dict()
                if rng.random() < 0.5:
                    f = io.BytesIO()
                    torch.save(sd, f)
                    sd = torch.load(io.BytesIO(f.getvalue()), weights_only=False)
                saves.append(sd)
            elif k == "load":
                if "fresh" not in a and rng.random() < 0.4 and bag_idle(evs):
                    # A new bag with the same metrics, as in a new job.
                    b2 = MetricBag(cpu)
                    for n, m in bag.metrics.items():
                        b2.add(n, type(m)())
                    bag = b2
                bag.load_state_dict(saves[a["i"] - 1])
            elif k == "missing":
                bag.get("zz", K["sum"])
            elif k == "badkind":
                n = rng.choice(list(bag.metrics))
                bag.get(n, next(c for c in K.values() if type(bag.metrics[n]) is not c))
            elif k == "badstate":
                sd = dict(copy.deepcopy(bag.state_dict()))
                names = list(sd)
                how = rng.choice(["extra", "type", "missing"]) if names else "extra"
                if how == "extra":
                    sd["zz"] = {}
                elif how == "type":
                    sd[names[0]] = 5
                else:
                    del sd[names[0]]
                bag.load_state_dict(sd)
        except (ValueError, TypeError, InvalidOperationError, StateDictError) as ex:
            res = type(ex).__name__
        except Exception as ex:  # noqa: BLE001
            res = f"{type(ex).__name__}: {ex}"
        e["res"] = res
        try:
            e["view"] = view(bag)
        except Exception as ex:  # noqa: BLE001
            e["res"] = f"compute: {type(ex).__name__}: {ex}"
            e["view"] = []
        evs.append(e)
    return {"cfg": {}, "ev": evs, "_info": hist}


def bag_idle(evs):
    """Whether no transaction is open after the recorded events."""
    op = False
    for e in evs:
        if e["a"] == "begin":
            op = True
        elif e["a"] in ("commit", "rollback"):
            op = False
    return not op


import logging

logging.disable(logging.WARNING)


def run(ctx):
    tlc.model_check(ctx, "MetricBagGen", overrides={"Emitting": "FALSE", "Depth": ctx.pick("5", "6")})
    hists = tlc.generate(ctx, "MetricBagGen", overrides={"Depth": ctx.pick("4", "5"), "NameSet": '{"a"}'})
    all4 = '{"sum", "mean", "min", "max"}'
    for d, num in ((8, ctx.pick(300, 3000)), (16, ctx.pick(300, 3000))):
        hists += tlc.generate(ctx, "MetricBagGen", overrides={"Depth": d, "Kinds": all4, "Vals": "{0, 2, 9}", "NameSet": '{"a", "b", "c"}'},
                              num=num, depth=d + 2, limit=num)
    extra = []
    for h in hists[-400:]:
        h = list(h)
        i = ctx.rng.randrange(len(h) + 1)
        names = {a["n"] for a in h[:i] if a["a"] == "add"}
        # A rollback may have removed a metric again.
        how = ctx.rng.choice(["missing", "badkind", "badstate"])
        if how == "badkind" and (not names or any(a["a"] == "rollback" for a in h[:i])):
            how = "missing"
        if how == "badstate":
            h = h[:i]  # what a refused state leaves behind is not promised
        extra.append(h[:i] + [{"a": how}] + h[i:])
    ctx.rng.shuffle(hists)
    traces = [replay(h, ctx.rng.random()) for h in hists[: ctx.pick(1800, 20000)]]
    for h in extra:
        t = replay(h, ctx.rng.random())
        if t["ev"][-1]["a"] == "badstate":
            # Only the refusal is judged, not the values after it.
            t["ev"][-1]["view"] = t["ev"][-2]["view"] if len(t["ev"]) > 1 else []
        traces.append(t)
    ctx.sample(traces[0]["ev"])
    tlc.validate(ctx, "MetricBagTrace", traces)

    def corrupt(t, rng):
        c = [e for e in t["ev"] if e["view"]]
        if not c:
            return None
        v = rng.choice(rng.choice(c)["view"])
        v["v"] += 2 * UNIT if v["k"] == "mean" else 1
        return t

    tlc.selftest(ctx, "MetricBagTrace", traces, corrupt)
