"""W01: masked speech pretraining masks what it may, and tells each masked step from others of its own sequence."""

from __future__ import annotations

import random

from vlib import core, tlc
from vlib.pool import pmap


def numbers(rng):
    """Lengths, span length and probability away from where rounding decides about the number of spans."""
    while True:
        span = rng.randrange(1, 5)
        lens = [rng.randrange(span, 17) if rng.random() < 0.05 else rng.randrange(span + 1, 17) for _ in range(rng.randrange(1, 4))]
        den = rng.choice([2, 4, 5, 10])
        num = rng.randrange(1, den + 1)
        if (num * (min(lens) - 1)) % (den * span):
            return lens, span, num, den


def play(case):
    core.setup_fairseq2()
    import torch

    from fairseq2.nn import BatchLayout
    from fairseq2.nn.utils.mask import compute_row_mask

    seed = case
    rng = random.Random(seed)
    torch.manual_seed(seed)
    evs = []
    for _ in range(10):
        lens, span, num, den = numbers(rng)
        full = rng.random() < 0.3
        if full:
            lens = [lens[0]] * len(lens)
        width = max(lens) + (0 if full else rng.choice([0, 0, 1, 4]))
        least = rng.choice([0, 0, 1, 2, 3])
        err, rows = "", []
        try:
            m = compute_row_mask((len(lens), width), span, num / den, None if full else torch.tensor(lens), least)
            if tuple(m.shape) != (len(lens), width) or m.dtype != torch.bool:
                err = "shape or type"
            rows = m.int().tolist()
        except Exception as ex:  # noqa: BLE001
            err = type(ex).__name__
        evs.append({"op": "mask", "lens": lens, "span": span, "num": num, "den": den, "least": least, "err": err, "rows": rows})
    evs += [masker(rng) for _ in range(3)] + [contrast(rng) for _ in range(2)]
    return {"cfg": {}, "ev": [e for e in evs if e], "_info": {"seed": seed}}


def masker(rng):
    import torch
    from fairseq2.models.wav2vec2 import StandardWav2Vec2Masker
    from fairseq2.nn import BatchLayout

    lens, span, num, den = numbers(rng)
    if num * (min(lens) - 1) < den * span or min(lens) <= span:
        return None
    dim = 8
    sspan, sp = 2, rng.choice([0.0, 0.0, 0.6])  # 0.6 * 7 / 2: two spans
    m = StandardWav2Vec2Masker(dim, span, num / den, 1, sspan, sp, 1)
    width = max(lens) + rng.choice([0, 2])
    x = torch.randn(len(lens), width, dim).abs() + 10.0
    keep = x.clone()
    y, mask = m(x, BatchLayout((len(lens), width), lens))
    y, e = y.detach(), m.temporal_mask_embed.detach()
    # Features of a row that are zero at all steps.
    zeros = [[int(bool((y[i, :, f] == 0).all())) for f in range(dim)] for i in range(len(lens))]
    what = []
    for i in range(len(lens)):
        on = torch.tensor([z == 0 for z in zeros[i]])
        what.append(["masked" if torch.equal(y[i, k][on], e[on]) else "kept" if torch.equal(y[i, k][on], keep[i, k][on]) else "other" for k in range(width)])
    return {"op": "masker", "lens": lens, "span": span, "num": num, "den": den, "dim": dim, "sspan": sspan, "spatial": sp > 0, "rows": mask.int().tolist(), "what": what, "zeros": zeros}


def contrast(rng):
    import torch
    from fairseq2.models.wav2vec2 import Wav2Vec2Config, create_wav2vec2_model
    from fairseq2.models.wav2vec2.config import Wav2Vec2EncoderConfig
    from fairseq2.nn import BatchLayout

    enc = Wav2Vec2EncoderConfig(
        model_dim=8, feature_dim=8, use_fbank=True, num_fbank_channels=4, fbank_stride=2, sample_fbank_every_k=1, pos_conv_kernel_size=3, num_pos_conv_groups=1,
        num_encoder_layers=1, num_encoder_attn_heads=2, ffn_inner_dim=8, layer_drop_p=0.0, max_seq_len=64,
    )
    k = rng.randrange(1, 6)
    temp = rng.choice([1.0, 0.5, 0.1])
    cfg = Wav2Vec2Config(
        encoder_config=enc, final_dim=8, temporal_mask_span_len=2, max_temporal_mask_prob=0.6, min_num_temporal_mask_spans=1, quantized_dim=8, num_codebooks=2,
        num_codebook_entries=rng.choice([2, 6, 40]), num_distractors=k, logit_temp=temp,
    )
    model = create_wav2vec2_model(cfg)
    model.train(rng.random() < 0.5)
    n = rng.randrange(1, 4)
    lens = [2 * rng.randrange(6, 13) for _ in range(n)]
    lay = BatchLayout((n, max(lens)), lens)
    with torch.no_grad():
        feats = model.run_frontend(torch.randn(n, max(lens), 4), lay)
        feats.seqs = model.encoder(feats.seqs, feats.seqs_layout)
        out = model.quantize_and_contrast(feats)
        loss = model.compute_loss(out, diversity_weight=0.5, features_penalty_weight=2.0)
        mine = model.masker.extract_masked_elements(out.encoder_output, out.temporal_mask)
        mine = model.final_proj(mine).double()
        t = out.quantized_targets.double()
        steps = t.size(1)
        steps_of = [r.nonzero().flatten().tolist() for r in out.temporal_mask]
        cos = torch.cosine_similarity(mine[:, :, None, :], t[:, None, :, :], dim=-1)  # (N, T, T)
        same = (out.quantized_targets[:, :, None] == out.quantized_targets[:, None]).all(-1)
        logits = out.logits.double()
        rows = []
        for i in range(n):
            for s in range(steps):
                cands = []
                for j in range(logits.size(2)):
                    v = float(logits[i, s, j])
                    hit = [] if v == float("-inf") else [u + 1 for u in range(steps) if abs(float(cos[i, s, u]) - v * temp) < 1e-4]
                    cands.append({"inf": v == float("-inf"), "at": hit})
                rows.append({"t": s + 1, "cands": cands, "same": [u + 1 for u in range(steps) if bool(same[i, s, u])]})
        want = -torch.log_softmax(logits, dim=-1)[:, :, 0].sum()
        r = lambda x: round(float(x) * 100)  # noqa: E731
    return {
        "op": "contrast", "n": n, "steps": steps, "distractors": k, "targets": out.num_targets, "rows": rows, "per": [len(x) for x in steps_of], "contrastive": r(loss.contrastive), "want": r(want),
        "diversity": r(loss.diversity), "penalty": r(loss.features_penalty), "aggregate": r(loss.aggregate),
    }


def run(ctx):
    tlc.model_check(ctx, "SpanMaskDesign", overrides=ctx.pick({"MaxLen": "4", "Rows": "2"}, {"MaxLen": "6", "Rows": "2"}), timeout=850)
    traces = pmap(ctx, play, [ctx.rng.randrange(2**31) for _ in range(ctx.pick(48, 600))], 10)
    evs = [e for t in traces for e in t["ev"]]
    for op in ("mask", "masker", "contrast"):
        ctx.count(op, sum(e["op"] == op for e in evs))
    ctx.count("refused", sum(e["op"] == "mask" and e["err"] != "" for e in evs))
    ctx.count("repeated targets", sum(c["inf"] for e in evs if e["op"] == "contrast" for r in e["rows"] for c in r["cands"]))
    ctx.sample(evs[0])
    ctx.assumptions.append("The value of the contrastive loss is compared to one computed in double precision by the driver; random choices are not fixed, only what they may result in.")
    tlc.validate(ctx, "SpanMaskTrace", traces)

    def corrupt(t, rng):
        es = [e for e in t["ev"] if e["op"] in ("mask", "masker") and e["rows"] and sum(e["rows"][0])]
        if not es:
            return None
        e = rng.choice(es)
        e["rows"][0][e["rows"][0].index(1)] = 0
        if len(e["rows"]) == 1 or rng.random() < 0.3:
            e["rows"][0] = [1] * len(e["rows"][0])
        return t

    tlc.selftest(ctx, "SpanMaskTrace", traces, corrupt)
