"""K01: split layers compute what the whole ones compute."""

from __future__ import annotations

import random

from vlib import gloo, tlc

KINDS = ["column", "row", "vocab", "dim", "chain", "back", "fresh", "op"]


def _mat(rng, r, c, lo=-3, hi=4):
    return [[rng.randrange(lo, hi) for _ in range(c)] for _ in range(r)]


def _ints(t):
    a = t.detach().double()
    assert (a == a.round()).all(), "numbers that are not whole"
    return a.long().tolist()


def _layer_case(rng, n, rank, gangs):
    import torch

    from fairseq2.nn import ColumnShardedLinear, Linear, RowShardedLinear, ShardedEmbedding, StandardEmbedding, VocabShardedEmbedding
    from fairseq2.ops.tensor_parallel import gather, reduce, reduce_on_backward, scatter

    kind = rng.choice(KINDS)
    lead = rng.choice([(2,), (1,), (2, 2), (1, 3)])
    bsz = lead[0] * (lead[1] if len(lead) > 1 else 1)
    i, o = n * rng.randrange(1, 3), n * rng.randrange(1, 3)
    bias, local = rng.random() < 0.5, rng.random() < 0.5
    f64 = torch.float64
    ev = {"kind": kind, "n": n, "rank": rank}

    def tensor(m, shape=None):
        t = torch.tensor(m, dtype=f64)
        return t if shape is None else t.view(*shape, -1)

    def linear(w, b):
        m = Linear(len(w[0]), len(w), bias=bool(b), dtype=f64)
        with torch.no_grad():
            m.weight.copy_(tensor(w))
            if b:
                m.bias.copy_(tensor(b))
        return m

    def flat(t):
        return _ints(t.reshape(-1, t.shape[-1]))

    def bgrad(m):
        return [] if m.bias is None else _ints(m.bias.grad)

    def cols(t):
        return t.chunk(n, dim=-1)[rank].clone()

    # The gradient reaches the last layer as a product, or spread from one number.
    def backward(y, g):
        if rng.random() < 0.3:
            k = rng.randrange(-2, 3)
            (y.sum() * k).backward()
            return [[k] * len(r) for r in g]
        (y * tensor(g, lead)[..., : y.shape[-1]] if y.shape[-1] == len(g[0]) else y * cols(tensor(g, lead))).sum().backward()
        return g

    with_gangs = rng.random() < 0.5
    how = {"gangs": gangs} if with_gangs else {"gang": gangs.tp}
    x, w, g = _mat(rng, bsz, i), _mat(rng, o, i), _mat(rng, bsz, o)
    b = [rng.randrange(-3, 4) for _ in range(o)] if bias else []
    if kind == "column":
        m = ColumnShardedLinear.from_linear(linear(w, b), gather_output=not local, **how)
        xt = tensor(x, lead).requires_grad_()
        y = m(xt)
        g = backward(y, g)
        ev |= {"x": x, "w": w, "b": b, "g": g, "local": local, "y": flat(y), "dx": flat(xt.grad), "dw": _ints(m.weight.grad), "db": bgrad(m), "mine": _ints(m.weight)}
    elif kind == "row":
        red = bias or rng.random() < 0.8
        m = RowShardedLinear.from_linear(linear(w, b), scatter_input=not local, reduce_output=red, **how)
        xt = (cols(tensor(x, lead)) if local else tensor(x, lead)).requires_grad_()
        y = m(xt)
        g = backward(y, g)
        ev |= {"x": x, "w": w, "b": b, "g": g, "local": local, "reduce": red, "y": flat(y), "dx": flat(xt.grad), "dw": _ints(m.weight.grad), "db": bgrad(m), "mine": _ints(m.weight)}
    elif kind in ("vocab", "dim"):
        rows = n * rng.randrange(1, 4)
        w = _mat(rng, rows, o)
        pad = rng.choice([None, rng.randrange(rows)])
        e = StandardEmbedding(rows, o, pad, dtype=f64)
        with torch.no_grad():
            e.weight.copy_(tensor(w))
        m = (VocabShardedEmbedding if kind == "vocab" else ShardedEmbedding).from_embedding(e, **how)
        ids = [rng.randrange(rows) for _ in range(bsz)]
        y = m(torch.tensor(ids).view(lead))
        g = backward(y, g)
        ev |= {"x": ids, "w": w, "g": g, "pad": 99 if pad is None else pad, "y": flat(y), "dw": _ints(m.weight.grad), "mine": _ints(m.weight)}
    elif kind == "chain":
        h = n * rng.randrange(1, 3)
        w, w2 = _mat(rng, h, i), _mat(rng, o, h)
        b2, b = b, [rng.randrange(-3, 4) for _ in range(h)] if bias else []
        m1 = ColumnShardedLinear.from_linear(linear(w, b), gather_output=False, **how)
        m2 = RowShardedLinear.from_linear(linear(w2, b2), scatter_input=False, **how)
        xt = tensor(x, lead).requires_grad_()
        y = m2(m1(xt))
        g = backward(y, g)
        ev |= {"x": x, "w": w, "b": b, "w2": w2, "b2": b2, "g": g, "y": flat(y), "dx": flat(xt.grad), "dw": _ints(m1.weight.grad), "dw2": _ints(m2.weight.grad)}
    elif kind == "back":
        what = rng.choice(["column", "row", "vocab", "dim"])
        if what in ("column", "row"):
            m = (ColumnShardedLinear if what == "column" else RowShardedLinear).from_linear(linear(w, b), **how)
            a = m.to_linear()
            ev |= {"again": _ints(a.weight), "bagain": [] if a.bias is None else _ints(a.bias)}
        else:
            b = []
            e = StandardEmbedding(o, i, dtype=f64)
            with torch.no_grad():
                e.weight.copy_(tensor(w))
            m = (VocabShardedEmbedding if what == "vocab" else ShardedEmbedding).from_embedding(e, **how)
            ev |= {"again": _ints(m.to_embedding().weight), "bagain": []}
        ev |= {"w": w, "b": b}
    elif kind == "fresh":
        what = rng.choice(["column", "row", "vocab", "dim"])
        seed, pad = rng.randrange(10**6), rng.choice([None, 0])
        kw = {"dtype": torch.float32}
        torch.manual_seed(seed)
        if what in ("column", "row"):
            m = (ColumnShardedLinear if what == "column" else RowShardedLinear)(i, o, bias, gangs=gangs, **kw)
            torch.manual_seed(seed)
            e = Linear(i, o, bias, **kw)
        else:
            m = (VocabShardedEmbedding if what == "vocab" else ShardedEmbedding)(o, i, pad, gangs=gangs, **kw)
            torch.manual_seed(seed)
            e = StandardEmbedding(o, i, pad, **kw)

        def bits(t):
            return t.detach().contiguous().view(torch.int32).tolist()

        ev |= {"dim": 0 if what in ("column", "vocab") else 1, "w": bits(e.weight), "mine": bits(m.weight)}
    else:
        fn, dim = rng.choice(["reduce", "scatter", "gather", "reduce_on_backward"]), rng.choice([0, 1])
        r, c = n * rng.randrange(1, 3), n * rng.randrange(1, 3)
        xs = [_mat(rng, r, c) for _ in range(n)]
        xt = tensor(xs[rank]).requires_grad_()
        if rng.random() < 0.3:  # same numbers, columns first in memory
            xt = tensor(xs[rank]).T.contiguous().T.requires_grad_()
        args = () if fn in ("reduce", "reduce_on_backward") else (dim if rng.random() < 0.5 else dim - 2,)
        f = {"reduce": reduce, "scatter": scatter, "gather": gather, "reduce_on_backward": reduce_on_backward}[fn]
        y = f(xt, gangs.tp, *args)
        hs, gs = [_mat(rng, *y.shape) for _ in range(n)], [_mat(rng, *y.shape) for _ in range(n)]
        ht = tensor(hs[rank]).requires_grad_()
        y = ht + y if rng.random() < 0.5 else y + ht
        if rng.random() < 0.4:
            ks = [rng.randrange(-2, 3) for _ in range(n)]
            gs = [[[ks[q]] * y.shape[1] for _ in range(y.shape[0])] for q in range(n)]
            (y.sum() * ks[rank]).backward()
        else:
            (y * tensor(gs[rank])).sum().backward()
        ev |= {"fn": fn, "dim": dim, "xs": xs, "h": hs[rank], "gs": gs, "y": _ints(y), "dx": _ints(xt.grad), "dh": _ints(ht.grad)}
    return ev


def _model_case(rng, n, rank, gangs, seed):
    """A model split over the ranks against the whole one with the same parameters."""
    import torch

    from fairseq2.data_type import set_dtype
    from fairseq2.gang import set_gangs
    from fairseq2.nn import BatchLayout

    from checks.s01_reshard import _config, _gangs

    name = rng.choice(["llama", "qwen"])
    config = _config(rng, name, n)
    if name == "llama":
        config.shard_embed_dim = rng.random() < 0.5
        config.num_key_value_heads = rng.choice([k for k in (2, 4) if k % n == 0])
        from fairseq2.models.llama import create_llama_model as create
    else:
        config.num_key_value_heads = rng.choice([k for k in (2, 4) if k % n == 0])
        from fairseq2.models.qwen import create_qwen_model as create
    models = []
    for g in (_gangs(1, 0), gangs):
        torch.manual_seed(seed)
        with set_gangs(g), set_dtype(torch.float64):
            models.append(create(config))
    whole, split = models
    with torch.no_grad():  # parameters that are all different
        ws, torch_gen = dict(whole.named_parameters()), torch.Generator().manual_seed(seed)
        for k, p in split.named_parameters():
            q = ws[k]
            q.copy_(torch.randn(q.shape, generator=torch_gen, dtype=torch.float64) * 0.3)
            d = [j for j in range(q.ndim) if q.shape[j] != p.shape[j]]
            p.copy_(q.chunk(n, dim=d[0])[rank] if d else q)
    ids = torch.tensor([[rng.randrange(16) for _ in range(5)] for _ in range(2)])
    layout = BatchLayout(tuple(ids.shape), [5, rng.randrange(2, 6)])
    ys = [m(ids, layout) for m in models]
    g = torch.randn(ys[0].shape, generator=torch_gen, dtype=torch.float64)
    for y in ys:
        (y * g).sum().backward()

    def r(t):
        t = (t.detach() * 1e4).round().long()
        return (t.reshape(-1, t.shape[-1]) if t.ndim > 1 else t[:, None]).tolist()

    ev = {"kind": "model", "family": name, "n": n, "rank": rank, "y": r(ys[1]), "whole": r(ys[0]), "pars": []}
    for k, p in split.named_parameters():
        ev["pars"].append({"key": k, "mine": r(p.grad), "whole": r(ws[k].grad)})
    # The normalization of queries and keys (a known finding) is judged on its own.
    norms = [p for p in ev["pars"] if "q_norm" in p["key"] or "k_norm" in p["key"]]
    ev["pars"] = [p for p in ev["pars"] if p not in norms]
    return [ev] + ([{**ev, "family": name + " qk-norm", "y": [], "whole": [], "pars": norms}] if norms else [])


def work(root, seed, layers, models):
    import torch

    from fairseq2.gang import create_parallel_gangs

    gangs = create_parallel_gangs(root, tp_size=root.size)
    out = []
    for i in range(layers):
        try:
            out.append(_layer_case(random.Random(f"{seed}-{i}"), root.size, root.rank, gangs))
        except Exception as ex:  # noqa: BLE001
            raise RuntimeError(f"case {i}: {type(ex).__name__}: {ex}") from ex
    for i in range(models):
        out += _model_case(random.Random(f"{seed}-m{i}"), root.size, root.rank, gangs, seed + i)
    return out


def corrupt(t, rng):
    e = t["ev"][0]
    if e["kind"] == "back":
        e["again"][0][0] += 1
    elif e["kind"] == "fresh":
        e["mine"][0][0] += 1
    elif e["kind"] == "model":
        m = rng.choice(e["pars"])["mine"]
        m[rng.randrange(len(m))][0] += 3
    else:
        k = rng.choice([k for k in ("y", "dx", "dw", "mine") if k in e])
        e[k][rng.randrange(len(e[k]))][0] += 1
    return t


def run(ctx):
    from fairseq2 import init_fairseq2

    tlc.model_check(ctx, "TensorParallelDesign", timeout=800)
    if not ctx.quick:
        rows, cols = '{"rowscatter", "rowlocal"}', '{"colgather", "collocal"}'
        for o in (
            {"N": 3, "In": 3, "Out": 1, "Kinds": rows}, {"N": 3, "In": 1, "Out": 3, "Kinds": cols}, {"N": 3, "In": 3, "Out": 1, "Vals": "{0, 1, 2}", "Kinds": rows},
            {"N": 4, "In": 4, "Out": 1, "Kinds": rows}, {"N": 4, "In": 1, "Out": 4, "Kinds": cols}, {"Batch": 2}, {"Vals": "{0, 1, 2}", "Kinds": '{"chain"}'},
        ):
            tlc.model_check(ctx, "TensorParallelDesign", overrides=o, timeout=850)
    init_fairseq2(no_progress=True)
    traces = []
    for n in (2, 3, 4):
        for j in range(ctx.pick(1, 6)):
            seed = ctx.seed * 1000 + (n * 10) + j
            out = gloo.world(n, work, seed, ctx.pick(150, 600), 0 if n == 3 else ctx.pick(6, 20), timeout=400)
            for o in out:
                if o[0] != "ok":
                    ctx.violation(f"tensor parallel layers over {n} ranks: {o[0]} {o[1][:600]}", {"n": n, "seed": seed, "out": o})
                    break
            for rank, o in enumerate(out):
                if o[0] == "ok":
                    traces += [{"cfg": {}, "ev": [e], "_info": {"n": n, "seed": seed, "case": i}} for i, e in enumerate(o[1])]
    if not traces:
        return
    ctx.sample(traces[0]["_info"])
    tlc.validate(ctx, "TensorParallelTrace", traces, chunk=300)
    tlc.selftest(ctx, "TensorParallelTrace", traces, corrupt)
