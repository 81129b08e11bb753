"""H02: what language models are trained on (spec/Loss.tla)."""

from __future__ import annotations

import random

from vlib import core, tlc
from vlib.pool import pmap


def weights(c):
    """The weights of the log probabilities in a loss, recovered from its values."""
    import torch

    from fairseq2.nn.functional import cross_entropy

    g = torch.Generator().manual_seed(c["seed"])
    ts, ms, pad, V, a, b, red, shape = c["ts"], c["ms"], c["pad"], c["V"], c["a"], c["b"], c["red"], c["shape"]
    n = len(ts)
    t = torch.tensor(ts).view(shape)
    m = None if c["nomask"] else torch.tensor(ms).view(shape)
    cnt = sum(1 for x, y in zip(ts, ms) if x != pad and y)
    scale = b * (V - 1) * (cnt if red == "mean" else 1)
    e = {"op": "weights", "ts": ts, "ms": ms, "pad": -1 if pad is None else pad, "V": V, "a": a, "b": b, "red": red, "scale": scale, "w": [], "err": ""}
    try:
        xs, ys = [], []
        for _ in range(n * V + 8):
            lp = torch.log_softmax(torch.randn((n, V), generator=g) * 2, -1)
            loss = cross_entropy((lp + torch.randn((n, 1), generator=g)).view(*shape, V), t, pad, label_smoothing=a / b, target_mask=m, reduction=red)
            if tuple(loss.shape) != (tuple(shape) if red == "none" else ()):
                raise RuntimeError(f"a loss of shape {tuple(loss.shape)} for targets of shape {tuple(shape)}")
            xs.append(-lp.flatten().double())
            ys.append(loss.double().sum())
        x, y = torch.stack(xs), torch.stack(ys)
        w = torch.linalg.lstsq(x, y[:, None]).solution[:, 0]
        if (x @ w - y).abs().max() > 1e-3:
            raise RuntimeError("the loss is not linear in the log probabilities")
        e["w"] = [[int(v) if abs(v - u) < 0.05 else 999999 for v, u in zip(r.round().tolist(), r.tolist())] for r in (w * scale).view(n, V)]
    except Exception as ex:  # noqa: BLE001
        e["err"] = repr(ex)
    return e


def hf_model(kind, seed):
    import torch
    import transformers as tf

    tf.logging.set_verbosity(50)
    torch.manual_seed(seed)
    base = dict(vocab_size=13, hidden_size=16, intermediate_size=24, num_hidden_layers=2, num_attention_heads=2, num_key_value_heads=1, max_position_embeddings=32)
    if kind == "gpt2":
        m = tf.GPT2LMHeadModel(tf.GPT2Config(vocab_size=13, n_positions=32, n_embd=16, n_layer=2, n_head=2, attn_pdrop=0.0, embd_pdrop=0.0, resid_pdrop=0.0))
    elif kind == "llama":
        m = tf.LlamaForCausalLM(tf.LlamaConfig(**base))
    elif kind == "qwen2":
        m = tf.Qwen2ForCausalLM(tf.Qwen2Config(**base))
    elif kind == "mistral":
        m = tf.MistralForCausalLM(tf.MistralConfig(**base, sliding_window=None))
    else:
        m = tf.GemmaForCausalLM(tf.GemmaConfig(**base, head_dim=8))
    return m.double().eval()


def model(c):
    """A Transformers model trained through the library: which position learns to predict which token."""
    import torch
    from types import SimpleNamespace

    from fairseq2.datasets import SequenceBatch
    from fairseq2.models.hg.adapter import HgCausalLMAdapter, wrap_hg_model_if_causal_lm

    rng = random.Random(c["seed"])
    hf = hf_model(c["kind"], c["seed"] % 10007)
    rows, masks, extra, red = c["rows"], c["masks"], c["extra"], c["red"]
    lens = [len(r) for r in rows]
    w = max(lens) + extra
    seqs = torch.tensor([r + [rng.randrange(13) for _ in range(w - len(r))] for r in rows])
    mask = torch.tensor([m + [c["told"] == "layout"] * (w - len(m)) for m in masks])
    batch = SequenceBatch(seqs, lens if rng.random() < 0.9 or min(lens) < w else None, target_mask=None if c["nomask"] else mask)
    e = {"op": "model", "rows": seqs.tolist(), "masks": mask.tolist(), "lens": lens, "red": red, "err": "", "pairs": [], "w": [], "n": 0, "counted": 0, "scale": 0,
         "leaks": False, "sees": False, "same": True, "agrees": True}
    try:
        lm = wrap_hg_model_if_causal_lm(hf, SimpleNamespace(model_type="causal_lm"))
        if not isinstance(lm, HgCausalLMAdapter) or lm.max_seq_len != 32:
            raise RuntimeError("the model is not wrapped, or its length is lost")
        inp, tgt = batch.as_auto_regressive()
        x, layout = inp.as_input()
        args = dict(targets=tgt.seqs, target_mask=tgt.target_mask, reduction=red)
        loss, logits = lm(x, layout, return_logits=True, **args)
        (g,) = torch.autograd.grad(loss, logits)
        p = logits.softmax(-1)
        nll, n = 0.0, 0
        hits = []
        for r in range(len(rows)):
            for i in range(x.size(1)):
                if g[r, i].abs().max() < 1e-12:
                    continue
                t = int(g[r, i].argmin())
                want = p[r, i].clone()
                want[t] -= 1
                hits.append((r, i, t, float((g[r, i] / want).mean()), float((g[r, i] / want).std())))
        n = len(hits)
        e["counted"] = tgt.num_target_elements if c["nomask"] or c["told"] == "mask" else sum(sum(m[1:]) for m in masks)
        e["n"], e["scale"] = n, n if red == "mean" else 1
        for r, i, t, k, dev in hits:
            k *= e["scale"]
            e["pairs"].append([r + 1, i + 1, t])
            e["w"].append(round(k) if abs(k - round(k)) < 1e-3 and dev < 1e-3 else 999999)
            nll -= float(p[r, i, t].log())
        e["agrees"] = abs(float(loss) - nll / max(e["scale"], 1)) < 1e-3 * (1 + abs(nll))
        other = lm(x, layout, **args)
        e["same"] = not isinstance(other, tuple) and abs(float(other) - float(loss)) < 1e-4
        with torch.no_grad():
            out = lm(x, layout)
            e["same"] = e["same"] and torch.allclose(out, logits, atol=1e-6)
            y = x.clone()
            for r, m in enumerate(lens):
                y[r, m - 1:] = torch.tensor([rng.randrange(13) for _ in range(y.size(1) - m + 1)])
            got = lm(y, layout)
            e["leaks"] = any((got[r, : m - 1] - out[r, : m - 1]).abs().max() > 1e-6 for r, m in enumerate(lens))
            r = rng.randrange(len(rows))
            j = rng.randrange(lens[r] - 1)
            z = x.clone()
            z[r, j] = (z[r, j] + rng.randrange(1, 13)) % 13
            d = (lm(z, layout) - out).abs().amax(-1)
            e["sees"] = bool((d[r, :j] > 1e-6).any() or any((d[q, : m - 1] > 1e-6).any() for q, m in enumerate(lens) if q != r) or (d[r, j : lens[r] - 1] < 1e-12).any())
    except Exception as ex:  # noqa: BLE001
        e["err"] = repr(ex)
    return e


def play(c):
    return {"cfg": {}, "ev": [model(c) if "kind" in c else weights(c)], "_info": c}


def run(ctx):
    core.setup_fairseq2()
    tlc.model_check(ctx, "LossDesign", overrides=ctx.pick({}, {"V": "3", "MaxRows": "1", "MaxLen_": "4"}), timeout=600, coverage=False)
    gen = tlc.generate(ctx, "LossDesign", overrides={"Emitting": "TRUE", "MaxRows": "2"}, num=1, depth=1)
    rng, cases = ctx.rng, []
    for g in rng.sample(gen, min(len(gen), ctx.pick(400, 3000))) if len(gen) > 400 else gen:
        rows, masks = [list(r) for r in g["rows"]], [list(m) for m in g["masks"]]
        w = max(map(len, rows)) + g["extra"]
        pad = rng.choice([None, 0, 2, 3])
        fill = 0 if pad is None or pad == 3 else pad
        ts = [x for r in rows for x in (r + [fill] * (w - len(r)))[1:]]
        ms = [x for m in masks for x in (m + [False] * (w - len(m)))[1:]]
        nomask = all(ms) or rng.random() < 0.3
        a, b = rng.choice([tuple(g["smooth"]), (1, 10), (3, 4)])
        red = rng.choice(["sum", "mean", "none"])
        c = {"ts": ts, "ms": [True] * len(ms) if nomask else ms, "nomask": nomask, "pad": pad, "V": rng.choice([3, 4]), "a": a, "b": b, "red": red,
             "shape": rng.choice([[len(rows), w - 1], [len(ts)]]), "seed": rng.randrange(10**6)}
        if red != "mean" or any(t != pad and m for t, m in zip(ts, c["ms"])):
            cases.append(c)
    n = len(cases)
    for _ in range(ctx.pick(240, 2400)):
        k = rng.randrange(1, 4)
        rows = [[rng.randrange(13) for _ in range(rng.randrange(2, 8))] for _ in range(k)]
        nomask = rng.random() < 0.35
        masks = [[nomask or rng.random() < 0.6 for _ in r] for r in rows]
        for m in masks:
            if not any(m[1:]):
                m[-1] = True
        cases.append({"kind": rng.choice(["llama", "gpt2", "qwen2", "gemma", "mistral"]), "rows": rows, "masks": masks, "nomask": nomask, "extra": rng.choice([0, 0, 1, 3]),
                      "told": rng.choice(["layout", "mask"]), "red": rng.choice(["sum", "mean"]), "seed": rng.randrange(10**9)})
    traces = pmap(ctx, play, cases, 10)
    ctx.count("losses", n)
    ctx.count("models trained through the adapter", len(cases) - n)
    ctx.sample(traces[-1]["ev"][0])
    tlc.validate(ctx, "LossTrace", traces)

    def corrupt(t, rng):
        e = t["ev"][0]
        if e["op"] == "weights":
            i, v = rng.randrange(len(e["w"])), rng.randrange(e["V"])
            e["w"][i][v] += rng.choice([-1, 1])
        else:
            k = rng.randrange(4)
            if k == 0:
                e["pairs"][rng.randrange(len(e["pairs"]))][2] += 1
            elif k == 1:
                e["pairs"].pop()
            elif k == 2:
                e["leaks"] = True
            else:
                e["w"][0] += 1
        return t

    tlc.selftest(ctx, "LossTrace", traces[:40] + traces[-60:], corrupt)
    ctx.assumptions += ["weights are recovered from loss values by least squares, so up to a relative error of about one percent"]
