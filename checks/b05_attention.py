"""B05: attention sees exactly the admissible positions, in every batch layout."""

from __future__ import annotations

import math
import random

from vlib import tiny, tlc
from vlib.pool import pmap


def _layout(rng, lens, packed, width, **kw):
    from fairseq2.nn import BatchLayout

    return BatchLayout((width,) if packed else (len(lens), width), None if kw.get("full") else lens, packed=packed)


def attend_case(c):
    """One call of an attention implementation: the values are one-hot, the outputs the weights."""
    import torch

    from fairseq2.models.transformer import ALiBiAttentionBias, AttentionBiasCache, CausalAttentionBias, ChunkedAttentionBias, IdentityBias, NaiveSDPA, RelativePositionalEncoding, RelativePositionSDPA, ShawRelativePositionSDPA, TorchSDPA
    from fairseq2.models.transformer.sdpa.soft_capped import SoftCappedSDPA

    rng = random.Random(c["seed"])
    torch.manual_seed(c["seed"])
    impl, H, K = c["impl"], c["heads"], 4
    cache = AttentionBiasCache()
    evs = []
    biases = {
        "none": lambda n: IdentityBias(), "causal": lambda n: CausalAttentionBias(), "window": lambda n: CausalAttentionBias(attn_window_len=n),
        "chunk": ChunkedAttentionBias, "alibi": lambda n: ALiBiAttentionBias(H),
    }
    packed, qw, kw, ql, kl = c["packed"], c["qw"], c["kw"], c["ql"], c["kl"]
    if rng.random() < 0.5 and not packed and set(ql) == {qw} and set(kl) == {kw}:
        q_layout, k_layout = _layout(rng, ql, packed, qw, full=True), _layout(rng, kl, packed, kw, full=True)
    else:
        q_layout, k_layout = _layout(rng, ql, packed, qw), _layout(rng, kl, packed, kw)
    if packed:
        own = [sum(kl[:s]) for s in range(len(kl))]
        at = [[(sum(ql[:s]) + i,) for i in range(n)] for s, n in enumerate(ql)]
    else:
        own = [0] * len(kl)
        at = [[(s, i) for i in range(n)] for s, n in enumerate(ql)]
    lead = () if packed else (len(ql),)
    # the same cache is used for several biases, as the layers of a model do
    for kind, size in c["kinds"]:
        bias = biases[kind](size)
        if impl == "naive":
            sdpa = NaiveSDPA(bias, scale=rng.choice([None, 1.0, 0.3]))
        elif impl == "torch":
            sdpa = TorchSDPA(bias, scale=rng.choice([None, 1.0, 0.3]))
        elif impl == "soft":
            sdpa = SoftCappedSDPA(bias, soft_cap=rng.choice([1.0, 30.0]))
        elif impl == "shaw":
            sdpa = ShawRelativePositionSDPA(H * K, H, bias, rng.randrange(1, 5), max_rhs_rel_pos=rng.choice([None, 1, 3]))
        else:
            sdpa = RelativePositionSDPA(H * K, H, RelativePositionalEncoding(H * K, 40), bias)
        sdpa = sdpa.double().eval()
        zero = rng.random() < 0.5 or kind == "alibi" and impl != "relative"
        q, k = ((torch.zeros if zero else torch.randn)((*lead, w, H, K), dtype=torch.float64) for w in (qw, kw))
        v = torch.eye(kw, dtype=torch.float64)[:, None, :].expand(kw, H, kw)
        v = v if packed else v.expand(len(kl), -1, -1, -1)
        ask = impl != "torch" and rng.random() < 0.5
        with torch.inference_mode():
            if impl in ("shaw", "relative"):
                q, k, v, ql_, kl_ = q, k, v, q_layout, k_layout
            out, weights = sdpa(q, q_layout, k, k_layout, v, cache, needs_weights=ask)
        w = weights.movedim(-3, -2) if ask and rng.random() < 0.7 else out  # ([N], S, H, S_kv)

        def units(h, p):
            return [max(1, round(x * 1e4)) if x > 0 else 0 for x in w[p][h].tolist()]

        def slopes(h, p):
            x = w[p][h].tolist()
            return [0] + [round(math.log(b / a) * 1e4) if a > 0 and b > 0 else 0 for a, b in zip(x, x[1:])]

        zero = zero and impl != "relative"
        evs.append(
            {
                "op": "attend", "bias": {"k": kind, "n": size}, "ql": ql, "kl": kl, "own": own, "nan": bool(out.isnan().any() or w.isnan().any()), "zero": zero,
                "w": [[[units(h, p) for p in ps] for ps in at] for h in range(H)],
                "slope": [[[slopes(h, p) for p in ps] for ps in at] for h in range(H)] if zero and kind == "alibi" else [],
            }
        )
    return {"cfg": {"what": "attend"}, "ev": evs, "_info": c}


def model_case(c):
    """A whole model in double precision: which outputs an input shows in, and losses."""
    import torch

    rng = random.Random(c["seed"])
    model = tiny.make(c["family"], c["seed"] % 1000003, c["window"], c["sdpa"]).double()
    s2s = c["family"] in tiny.S2S
    V, packed, lens, srcs = tiny.VOCAB, c["packed"], c["lens"], c["srcs"]
    enc = c["family"] in tiny.ENCODERS
    if enc:
        packed = packed and model.vt_packs
    pad = None if enc else model.pad_idx

    def batch(lens, extra):
        w = sum(lens) + extra if packed else max(lens) + extra
        t = torch.tensor([rng.randrange(2, V) for _ in range(w if packed else w * len(lens))])
        if enc:
            t = torch.randn(t.size(0), 16, dtype=torch.float64)
            return (t if packed else t.view(len(lens), w, 16)), _layout(rng, lens, packed, w)
        return (t if packed else t.view(len(lens), w)), _layout(rng, lens, packed, w)

    def pos(lens, s, i):
        return (sum(lens[:s]) + i,) if packed else (s, i)

    def rows(x, lens):
        return [x[sum(lens[:s]) : sum(lens[:s]) + n] if packed else x[s, :n] for s, n in enumerate(lens)]

    t, t_layout = batch(lens, c["extra"])
    s, s_layout = batch(srcs, c["sextra"]) if s2s else (None, None)

    def out(t, s):
        return model(*((s, s_layout) if s2s else ()), t, t_layout)

    evs = []
    with torch.inference_mode():
        base = out(t, s)
        for side in ("tgt", "src") if s2s else ("tgt",):
            ls, x = (lens, t) if side == "tgt" else (srcs, s)
            spots = [(a, i, pos(ls, a, i)) for a, n in enumerate(ls) for i in range(n)]
            spots = rng.sample(spots, min(3, len(spots)))
            pads = [(j,) for j in range(sum(ls), x.size(0))] if packed else [(a, j) for a, n in enumerate(ls) for j in range(n, x.size(1))]
            if pads:
                spots.append((-1, -1, pads))
            for a, i, p in spots:
                y = x.clone()
                for z in p if a < 0 else [p]:
                    y[z] = torch.randn(16) if enc else (y[z] - 2 + rng.randrange(1, V - 2)) % (V - 2) + 2
                got = out(y, s) if side == "tgt" else out(t, y)
                evs.append(
                    {
                        "op": "perturb", "side": side, "s": a + 1 if a >= 0 else 0, "i": i,
                        "changed": [[j for j in range(len(u)) if not torch.equal(u[j], w[j])] for u, w in zip(rows(base, lens), rows(got, lens))],
                        "nan": bool(got.isnan().any() or base.isnan().any()),
                    }
                )
        alone = []
        from fairseq2.nn import BatchLayout

        for a in range(len(lens)):
            args = []
            if s2s:
                x = rows(s, srcs)[a][None]
                args += [x, BatchLayout.of(x)]
            x = rows(t, lens)[a][None]
            args += [x, BatchLayout.of(x)]
            alone.append(args)
            want = model(*args)[0]
            got = rows(base, lens)[a]
            scale = max(1.0, want.abs().max().item())
            d = (got - want).abs().max().item() / scale
            evs.append({"op": "alone", "s": a + 1, "diff": -1 if d != d else min(round(d * 1e6), 10**9), "tol": 30})
            if d != d:
                evs[-1]["diff"] = 10**9
        if enc:
            return {"cfg": {"what": "model", "lens": lens, "layers": model.vt_layers}, "ev": evs, "_info": c}
        # losses
        targets = torch.randint(2, V, t.shape)
        if pad is not None and rng.random() < 0.5:  # targets that count for nothing
            targets[torch.rand(targets.shape) < 0.2] = pad
        mask = (torch.rand(targets.shape) < 0.7) if rng.random() < 0.6 or pad is None else None
        real = torch.zeros(targets.shape, dtype=torch.bool)
        for r in rows(real, lens):
            r[:] = True
        if pad is not None and (mask is None or rng.random() < 0.5):
            targets[~real] = pad
            if mask is not None:
                mask = mask | ~real
        else:
            mask = mask & real
        kw = {"label_smoothing": rng.choice([0.0, 0.1])}
        counted = real & (mask if mask is not None else True)
        if pad is not None:
            counted = counted & (targets != pad)
        args = [*((s, s_layout) if s2s else ()), t, t_layout]

        def loss(args, targets, mask, red):
            m = {} if mask is None else {"target_mask": mask}
            if rng.random() < 0.5:
                return model(*args, targets, reduction=red, return_logits=True, **m, **kw)[0].item()
            return model(*args, targets, reduction=red, **m, **kw).item()

        # The loss is the sum over the steps: from the outputs, step by step.
        each = []
        for a in range(len(lens)):
            m = None if mask is None else rows(mask, lens)[a][None]
            each.append(round(loss(alone[a], rows(targets, lens)[a][None], m, "sum") * 1e4))
        n = int(counted.sum())
        steps = []
        lp = torch.log_softmax(base.double(), dim=-1)
        eps = kw["label_smoothing"]
        for p, q, m in zip(rows(lp, lens), rows(targets, lens), rows(counted, lens)):
            for row, y, on in zip(p, q, m):
                if on:
                    # label smoothing: eps is spread over the other symbols
                    e = eps / (row.numel() - 1)
                    steps.append(round((-(1.0 - eps - e) * row[y] - e * row.sum()).item() * 1e4))
        evs.append({"op": "loss", "sum": round(loss(args, targets, mask, "sum") * 1e4), "mean": round(loss(args, targets, mask, "mean") * 1e4) if n else 0, "each": each, "steps": steps, "n": n})
    return {"cfg": {"what": "model", "lens": lens, "layers": model.vt_layers}, "ev": evs, "_info": c}


def play(c):
    return attend_case(c) if c["what"] == "attend" else model_case(c)


def run(ctx):
    for o in ({}, {"MaxSeqs": 1, "MaxLen": 6, "Sizes": "{1, 2, 3, 4}"}):
        tlc.model_check(ctx, "MaskDesign", overrides=o)
    rng = ctx.rng
    cases = []
    impls = ["naive", "torch", "soft", "shaw", "relative"]
    for i in range(ctx.pick(900, 9000)):
        impl = impls[i % 5]
        packed = impl not in ("shaw", "relative") and rng.random() < 0.5
        n = rng.randrange(1, 4)
        kl = [rng.randrange(1, 8) for _ in range(n)]
        if rng.random() < 0.3:
            kl = kl[:1] * n
        same = impl == "relative" or rng.random() < 0.5
        ql = list(kl) if same else [rng.randrange(1, x + 1) for x in kl]
        if rng.random() < 0.2 and not same:
            ql = [1] * n
        size = sum if packed else max
        qw, kw = size(ql) + rng.choice([0, 0, 1, 3]), size(kl) + rng.choice([0, 0, 1, 3])
        if impl in ("relative", "shaw"):
            ql, qw = list(kl), kw
        kinds = ["none", "causal", "window", "chunk", "alibi"]
        rng.shuffle(kinds)
        kinds = [(k, rng.randrange(1, 7)) for k in kinds[:3]]
        if rng.random() < 0.5:
            kinds[rng.randrange(3)] = (kinds[rng.randrange(3)][0], rng.randrange(1, 7))
        cases.append({"what": "attend", "impl": impl, "packed": packed, "ql": ql, "kl": kl, "qw": qw, "kw": kw, "heads": rng.choice([1, 2, 4, 8]), "kinds": kinds, "seed": rng.randrange(1 << 30)})
    fams = [*tiny.LMS, "nllb", "encoder", "encoder"]
    for i in range(ctx.pick(400, 4000)):
        n = rng.randrange(1, 4)
        cases.append(
            {
                "what": "model", "family": fams[i % len(fams)], "window": rng.randrange(1, 5), "sdpa": rng.choice(["naive", "torch"]), "packed": rng.random() < 0.4 and fams[i % len(fams)] != "gemma3n",
                "lens": [rng.randrange(1, 8) for _ in range(n)], "srcs": [rng.randrange(1, 6) for _ in range(n)], "extra": rng.choice([0, 0, 1, 2]), "sextra": rng.choice([0, 0, 1, 2]), "seed": rng.randrange(1 << 30),
            }
        )
    traces = pmap(ctx, play, cases, 10)
    ctx.count("attention_calls", sum(e["op"] == "attend" for t in traces for e in t["ev"]))
    ctx.count("model_batches", sum(t["cfg"]["what"] == "model" for t in traces))
    ctx.sample(traces[0])
    tlc.validate(ctx, "MaskTrace", traces)

    def corrupt(t, rng):
        e = rng.choice(t["ev"])
        if e["op"] == "attend":
            w = e["w"][0][0][0]
            w[0] = 0 if w[0] else 10
        elif e["op"] == "perturb":
            if e["changed"][0]:
                e["changed"][0].pop()
            else:
                e["changed"][0].append(0)
        elif e["op"] == "alone":
            e["diff"] = 31
        else:
            e["sum"] += 5000
        return t

    tlc.selftest(ctx, "MaskTrace", traces, corrupt)
