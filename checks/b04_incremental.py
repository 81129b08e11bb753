"""B04: incremental decoding equals full decoding, through reordering and chunking."""

from __future__ import annotations

import random

from vlib import tiny, tlc
from vlib.pool import pmap


def state_case(c):
    """A key/value state alone: every key is a number."""
    import torch

    from fairseq2.models.transformer import FullAttentionState, LocalAttentionStateFactory, StaticAttentionState

    rng = random.Random(c["seed"])
    W = c["bias"]["n"]
    factory = {"window": LocalAttentionStateFactory(W), "causal": FullAttentionState, "none": StaticAttentionState}[c["bias"]["k"]]
    state, evs, fresh = None, [], 0
    shape = (rng.randrange(1, 3), rng.randrange(1, 4))

    def tensor(rows, plus):
        return torch.tensor(rows, dtype=torch.float32)[:, :, None, None].expand(-1, -1, *shape) + plus

    def held():
        k, v = state.get()
        if not all((x == x[:, :, :1, :1]).all() for x in (k, v)):
            return {"k": [[-1]] * k.size(0), "v": [[-1]] * k.size(0)}
        return {"k": [[int(x) for x in r] for r in k[:, :, 0, 0].tolist()], "v": [[int(x - 0.5) for x in r] for r in v[:, :, 0, 0].tolist()]}

    rows = c["rows"]
    for op in c["ops"]:
        if op["a"] == "feed":
            if state is not None and c["bias"]["k"] == "none":
                continue
            new = [[fresh + i * op["n"] + t + 1 for t in range(op["n"])] for i in range(rows)]
            fresh += rows * op["n"]
            k, v = tensor(new, 0.0), tensor(new, 0.5)
            if state is None:
                state = factory(k, v, c["max"], c["inc"])
            else:
                state.append(k, v)
            evs.append({"op": "feed", "new": new, "got": held()})
        else:
            order = [x - 1 for x in op["o"]]
            rows = len(order)
            state.reorder(torch.tensor(order))
            evs.append({"op": "reorder", "order": order, "got": held()})
    return {"cfg": {"kind": "state", "bias": c["bias"], "max": c["max"]}, "ev": evs, "_info": c}


def model_case(c):
    import torch

    from fairseq2.nn import BatchLayout, IncrementalStateBag

    rng = random.Random(c["seed"])
    model = tiny.make(c["family"], c["seed"] % 1000003, c["window"], c["sdpa"]).double()
    s2s = c["family"] in tiny.S2S
    R, V = c["rows"], tiny.VOCAB
    evs = []
    srcs = list(range(R)) if s2s else [0] * R
    if s2s:
        lens = [rng.randrange(8, 17) for _ in range(R)] if c["family"] == "s2t" else [rng.randrange(1, 7) for _ in range(R)]
        if rng.random() < 0.3:
            lens = [max(lens)] * R
        src = torch.randn(R, max(lens), 8, dtype=torch.float64) if c["family"] == "s2t" else torch.randint(1, V, (R, max(lens)))
    bag = IncrementalStateBag(c["max"], capacity_increment=c["inc"])
    evs.append({"op": "begin", "srcs": srcs})
    hist = [(s, ()) for s in srcs]

    def rows_of(which):
        return src.index_select(0, torch.tensor(which)), BatchLayout.of(src.index_select(0, torch.tensor(which)), [lens[s] for s in which])

    def whole(cands):
        t = torch.tensor([x[1] for x in cands])
        return model(*(rows_of([x[0] for x in cands]) if s2s else ()), t, BatchLayout.of(t))

    more = True
    with torch.inference_mode():
        for op in c["ops"]:
            if op["a"] == "feed":
                n = op["n"]
                toks = [[rng.randrange(1, V) for _ in range(n)] for _ in hist]
                t = torch.tensor(toks)
                # the source sequences are encoded once, and reordered by the state
                got = model(*(rows_of(srcs) if s2s else ()), t, BatchLayout.of(t), state_bag=bag)
                bag.increment_step_nr(n)
                hist = [(s, h + tuple(x)) for (s, h), x in zip(hist, toks)]
                cands = list(dict.fromkeys((s, h) for s in (range(R) if s2s else [0]) for _, h in hist))
                want = whole(cands)[:, -n:]
                scale = want.abs().max().item()
                matches = [
                    [{"s": s, "t": list(h)} for (s, h), w in zip(cands, want) if (row - w).abs().max().item() <= 3e-5 * max(1.0, scale)]
                    for row in got
                ]
                evs.append({"op": "feed", "toks": toks, "matches": matches})
            else:
                order = [x - 1 for x in op["o"]]
                bag.reorder(torch.tensor(order))
                hist = [hist[i] for i in order]
                evs.append({"op": "reorder", "order": order})
            if more and rng.random() < 0.3:
                n = c["max"] - bag.step_nr + rng.choice([1, 1, 2])
                try:
                    bag.increment_step_nr(n)
                    ok = True
                except ValueError:
                    ok = False
                evs.append({"op": "more", "nr": bag.step_nr if not ok else bag.step_nr - n, "n": n, "ok": ok})
                if ok:
                    break
    return {"cfg": {"kind": "model", "max": c["max"]}, "ev": evs, "_info": c}


def play(c):
    return state_case(c) if c["what"] == "state" else model_case(c)


def run(ctx):
    for o in ({"Kind": '"window"', "Size": 3}, {"Kind": '"window"', "Size": 1}, {"Kind": '"causal"'}, {"Kind": '"chunk"', "Size": 2, "MaxLen": 6}, {"Kind": '"window"', "Size": 4, "MaxLen": 9, "MaxRows": 1, "MaxOps": 7}):
        if not ctx.quick:
            o = {"MaxOps": 6, "MaxLen": 7} | o
        tlc.model_check(ctx, "AttentionCacheDesign", overrides=o, allow_uncovered=("Reorder",) if o.get("MaxRows") == 1 else ())
    scripts = tlc.generate(
        ctx, "AttentionCacheDesign", overrides={"Gen": "TRUE", "MaxLen": 10, "MaxChunk": 5, "MaxRows": 3, "MaxOps": 7, "Kind": '"window"', "Size": 4}, num=ctx.pick(1500, 12000), depth=8,
    )
    ctx.rng.shuffle(scripts)
    cases, fams = [], list(tiny.LMS) + list(tiny.S2S)
    for i, ops in enumerate(scripts[: ctx.pick(700, 6000)]):
        rng = random.Random(ctx.rng.random())
        total = sum(o["n"] for o in ops)
        first = next((len(ops_["o"]) and max(ops_["o"]) for ops_ in ops if ops_["a"] == "reorder"), 1)
        c = {"ops": ops, "rows": max(first, rng.randrange(1, 4)), "max": total + rng.choice([0, 0, 1, 5]), "inc": rng.choice([None, 1, 3, 16]), "seed": rng.randrange(1 << 30)}
        if i % 2:
            k = rng.choice(["window", "window", "window", "causal", "none"])
            cases.append(c | {"what": "state", "bias": {"k": k, "n": rng.randrange(1, 7)}})
        else:
            cases.append(c | {"what": "model", "family": fams[(i // 2) % len(fams)], "window": rng.randrange(1, 6), "sdpa": rng.choice(["naive", "torch"])})
    # rows chosen by an order must exist
    for c in cases:
        n = c["rows"]
        for o in c["ops"]:
            if o["a"] == "reorder":
                o["o"] = [(x - 1) % n + 1 for x in o["o"]]
                n = len(o["o"])
    traces = pmap(ctx, play, cases, 8)
    ctx.count("model_runs_incremental", sum(t["cfg"]["kind"] == "model" for t in traces))
    ctx.count("state_runs", sum(t["cfg"]["kind"] == "state" for t in traces))
    ctx.count("chunks", sum(e["op"] == "feed" for t in traces for e in t["ev"]))
    ctx.sample(traces[0])
    tlc.validate(ctx, "IncrementalTrace", traces)

    def corrupt(t, rng):
        for e in t["ev"]:
            if e["op"] == "feed" and t["cfg"]["kind"] == "model":
                e["toks"][0][-1] = e["toks"][0][-1] % 16 + 1
            elif e["op"] == "feed":
                e["got"]["k"][0][-1] += 1
        return t

    tlc.selftest(ctx, "IncrementalTrace", traces, corrupt)
