"""N01: batch layouts describe exactly the real elements of a batch."""

from __future__ import annotations

import random

from vlib import tlc
from vlib.pool import pmap


def _lens(rng, packed, n, w):
    """Lengths that mostly fit, and sometimes do not."""
    if packed:
        lens, left = [], w - rng.choice([0, 0, 1, 2])
        while left > 0 and len(lens) < 5:
            k = rng.randrange(1, left + 1)
            lens.append(k)
            left -= k
        if left > 0 and rng.random() < 0.7:
            lens.append(left)
    else:
        lens = [rng.choice([w, rng.randrange(1, w + 1)]) for _ in range(n)]
    r = rng.random()
    if r < 0.06 and lens:
        lens[rng.randrange(len(lens))] = rng.choice([0, w + 1, w])
    elif r < 0.1:
        lens = lens + [1] if rng.random() < 0.5 else lens[:-1]
    return lens


def _shape(rng, size=7):
    packed = rng.random() < 0.5
    n, w = 1 if packed else rng.randrange(1, 5), rng.randrange(1, size + 1)
    lens = _lens(rng, packed, n, w)
    nolens = rng.random() < 0.15
    return {"packed": packed, "n": n, "w": w, "lens": [] if nolens else lens, "nolens": nolens}


def _full(s):
    return ([s["w"]] if s["packed"] else [s["w"]] * s["n"]) if s["nolens"] else list(s["lens"])


def layout_ev(rng):
    import torch

    from fairseq2.nn import BatchLayout

    s = _shape(rng, 8)
    ev = {"op": "layout", **s, "ok": True}
    lens = None if s["nolens"] else s["lens"]
    try:
        if rng.random() < 0.5:
            shape = (s["w"],) if s["packed"] else (s["n"], s["w"])
            y = BatchLayout(shape, lens, packed=s["packed"])
        else:
            more = rng.choice([(), (3,)])
            y = BatchLayout.of(torch.zeros((s["w"], *more) if s["packed"] else (s["n"], s["w"], *more)), lens, packed=s["packed"])
    except ValueError:
        ev["ok"] = False
        return ev
    return ev | {
        "begins": list(y.seq_begin_indices), "got": list(y.seq_lens), "beginspt": y.seq_begin_indices_pt.tolist(), "gotpt": y.seq_lens_pt.tolist(), "pos": y.position_indices.flatten().tolist(),
        "width": y.width, "min": y.min_seq_len, "max": y.max_seq_len, "padded": y.padded, "ispacked": y.packed,
    }


def _batch(b):
    seqs, layout = b.as_input()
    assert list(layout.seq_lens) == list(b.seq_lens) and layout.packed == b.packed
    return {
        "lens": list(b.seq_lens), "elems": b.num_elements, "targets": b.num_target_elements, "pad": b.padding, "size": b.batch_size, "examples": b.num_examples, "packed": b.packed,
        "slots": seqs.reshape(-1, *seqs.shape[1 if b.packed else 2 :])[(slice(None),) + (0,) * (seqs.ndim - (1 if b.packed else 2))].tolist(),
        "masked": b.target_mask is not None, "bits": [] if b.target_mask is None else b.target_mask.int().flatten().tolist(),
    }


def _tensor(rng, s):
    import torch

    more = rng.choice([(), (), (2,)])
    size = s["w"] if s["packed"] else s["n"] * s["w"]
    x = torch.arange(size).view((s["w"],) if s["packed"] else (s["n"], s["w"]))
    return x[(...,) + (None,) * len(more)].expand(*x.shape, *more) + 0


def seqs_ev(rng):
    import torch

    from fairseq2.datasets import SequenceBatch
    from fairseq2.device import CPU
    from fairseq2.error import InvalidOperationError

    s = _shape(rng)
    masked = rng.random() < 0.5
    x = _tensor(rng, s)
    mask = (torch.rand(x.shape[: 1 if s["packed"] else 2]) < 0.6) if masked else None
    ev = {"op": "seqs", **s, "masked": masked, "bits": mask.int().flatten().tolist() if masked else [], "ok": True, "shift": True}
    note = object()
    lens = None if s["nolens"] else list(s["lens"])
    try:
        b = SequenceBatch(x, lens, packed=s["packed"], target_mask=mask, example=note)
    except ValueError:
        return ev | {"ok": False}
    b.to(CPU)
    try:
        i, t = b.as_auto_regressive()
    except (InvalidOperationError, ValueError):
        return ev | {"b": _batch(b), "shift": False}
    return ev | {"b": _batch(b), "i": _batch(i), "t": _batch(t), "kept": i.example is note}


def _pair(b):
    x, y = b.as_target_input()
    u, v = b.as_source_input()
    assert list(y.seq_lens) == list(b.target_seq_lens) and list(v.seq_lens) == list(b.source_seq_lens)

    def slots(z):
        return z.reshape(-1, *z.shape[1 if b.packed else 2 :])[(slice(None),) + (0,) * (z.ndim - (1 if b.packed else 2))].tolist()

    return {
        "lens": list(b.target_seq_lens), "slens": list(b.source_seq_lens), "elems": b.num_elements, "selems": b.num_source_elements, "targets": b.num_target_elements, "pad": b.padding, "size": b.batch_size,
        "examples": b.num_examples, "slots": slots(x), "sslots": slots(u),
    }


def pairs_ev(rng):
    import torch

    from fairseq2.datasets import Seq2SeqBatch
    from fairseq2.error import InvalidOperationError

    s = _shape(rng)
    f = _full(s)
    w = rng.randrange(1, 8)
    if s["packed"]:
        w = max(w, len(f))
        src = {"n": 1, "w": w, "lens": [1] * len(f), "nolens": False}
        for _ in range(rng.randrange(0, w - len(f) + 1)):
            if src["lens"]:
                src["lens"][rng.randrange(len(src["lens"]))] += 1
        if rng.random() < 0.1:
            src["lens"] = _lens(rng, True, 1, w)
    else:
        n = s["n"] if rng.random() < 0.95 else s["n"] + 1
        src = {"n": n, "w": w, "lens": _lens(rng, False, n, w), "nolens": rng.random() < 0.2}
        if src["nolens"]:
            src["lens"] = []
    src["packed"] = s["packed"]
    masked = rng.random() < 0.5
    x, u = _tensor(rng, s), _tensor(rng, src)
    mask = (torch.rand(x.shape[: 1 if s["packed"] else 2]) < 0.6) if masked else None
    ev = {"op": "pairs", **s, "s": src, "masked": masked, "bits": mask.int().flatten().tolist() if masked else [], "ok": True, "shift": True}
    try:
        b = Seq2SeqBatch(u, None if src["nolens"] else list(src["lens"]), x, None if s["nolens"] else list(s["lens"]), packed=s["packed"], target_mask=mask)
    except ValueError:
        return ev | {"ok": False}
    try:
        i, t = b.as_auto_regressive()
    except (InvalidOperationError, ValueError):
        return ev | {"b": _pair(b), "shift": False}
    return ev | {"b": _pair(b), "i": _pair(i), "t": _batch(t)}


def rowmask_ev(rng):
    import torch

    from fairseq2.nn.utils.mask import compute_row_mask

    n, w, span = rng.randrange(1, 5), rng.randrange(2, 25), rng.choice([1, 2, 4])
    nolens = rng.random() < 0.3
    lens = [rng.randrange(max(1, min(w, span + 1) - (rng.random() < 0.1)), w + 1) for _ in range(n)]
    quarters, least = rng.randrange(1, 5), rng.choice([0, 0, 1, 2])
    ev = {"op": "rowmask", "n": n, "w": w, "lens": [] if nolens else lens, "nolens": nolens, "span": span, "quarters": quarters, "minspans": least, "ok": True, "shape": [], "bool": True, "mask": []}
    try:
        m = compute_row_mask((n, w), span, quarters / 4, None if nolens else torch.tensor(lens), least)
    except ValueError:
        return ev | {"ok": False}
    return ev | {"shape": list(m.shape), "bool": m.dtype == torch.bool, "mask": m.int().tolist()}


def masker_ev(rng):
    import torch

    from fairseq2.models.wav2vec2 import StandardWav2Vec2Masker, Wav2Vec2Masker
    from fairseq2.nn import BatchLayout

    n, w, dim = rng.randrange(1, 4), rng.randrange(8, 20), 8
    lens = [rng.randrange(6, w + 1) for _ in range(n)]
    spatial = rng.random() < 0.5
    m = StandardWav2Vec2Masker(dim, rng.choice([1, 2]), rng.choice([0.5, 0.75]), 1, 2, 0.5 if spatial else 0.0, 1)
    with torch.no_grad():
        m.temporal_mask_embed.fill_(-7.0)
        x = torch.arange(n * w).view(n, w, 1).expand(n, w, dim).float() + 1.0
        got, mask = m(x.clone(), BatchLayout((n, w), lens))
        code = torch.where(got == x, 0, torch.where(got == -7.0, 1, torch.where(got == 0.0, 2, 9)))
        taken = Wav2Vec2Masker.extract_masked_elements(x - 1.0, mask)
    return {"op": "masker", "n": n, "w": w, "dim": dim, "spatial": spatial, "code": code.tolist(), "mask": mask.int().tolist(), "taken": taken[:, :, 0].int().tolist()}


def apply_ev(rng):
    import torch

    from fairseq2.nn.utils.mask import apply_mask

    n, w = rng.randrange(1, 4), rng.randrange(1, 6)
    mask = torch.rand(n, w) < 0.5
    fill = rng.choice([0, -3])
    x = (torch.arange(n * w) + 1).view(n, w)
    if rng.random() < 0.5:
        y = apply_mask(x[:, :, None].expand(-1, -1, 3), mask, fill_value=fill)
        assert (y == y[:, :, :1]).all()
        y = y[:, :, 0]
    else:
        y = apply_mask(x, mask, fill_value=fill)
    return {"op": "apply", "mask": mask.int().flatten().tolist(), "fill": fill, "got": y.flatten().tolist()}


def _encoders(rng, limit):
    from fairseq2.nn import LearnedPositionEncoder, ReferenceRotaryEncoder, RotaryEncoder, SinusoidalPositionEncoder
    from fairseq2.nn.position_encoder import DualRotaryEncoder

    kind = rng.choice(["sin", "learned", "rotary", "reference", "dual"])
    return kind, {
        "sin": lambda: SinusoidalPositionEncoder(8, limit, _legacy_pad_idx=rng.choice([None, 1])),
        "learned": lambda: LearnedPositionEncoder(8, limit),
        "rotary": lambda: RotaryEncoder(8, limit),
        "reference": lambda: ReferenceRotaryEncoder(8, limit),
        "dual": lambda: DualRotaryEncoder(8, limit, theta=100.0, dual_theta=10.0),
    }[kind]()


def encode_ev(rng):
    import torch

    from fairseq2.nn import BatchLayout, IncrementalStateBag

    limit = rng.randrange(6, 20)
    kind, enc = _encoders(rng, limit)
    enc.eval()
    s = _shape(rng, 9)
    s["lens"] = [min(max(1, x), s["w"]) for x in s["lens"]]
    if s["packed"]:
        while sum(s["lens"]) > s["w"]:
            s["lens"].pop()
        if not s["lens"]:
            s["nolens"] = True
    elif not s["nolens"]:
        s["lens"] = (s["lens"] + [1] * s["n"])[: s["n"]]
    start = rng.choice([0, 0, rng.randrange(0, limit)])
    bag = IncrementalStateBag(10000)
    bag.increment_step_nr(start)
    heads = kind in ("rotary", "reference", "dual") and rng.random() < 0.6
    ev = {"op": "encode", **s, "start": start, "limit": limit, "ok": True, "at": []}
    x = torch.linspace(0.5, 1.5, 8)

    def fill(shape):
        y = x.expand(*shape, 8)
        return y.unsqueeze(-2).expand(*shape, 2, 8).contiguous() if heads else y.contiguous()

    def one(y):
        if heads:
            assert torch.equal(y[..., 0, :], y[..., 1, :])
        return y[..., 0, :] if heads else y

    with torch.inference_mode():
        table = one(enc(fill((1, limit)), BatchLayout((1, limit), None)))[0]
        lead = (s["w"],) if s["packed"] else (s["n"], s["w"])
        layout = BatchLayout(lead, None if s["nolens"] else s["lens"], packed=s["packed"])
        try:
            got = one(enc(fill(lead), layout, state_bag=bag if start or rng.random() < 0.3 else None)).reshape(-1, 8)
        except ValueError:
            return ev | {"ok": False}
    d = (got[:, None] - table[None]).abs().amax(-1)
    ev["at"] = [int(r.argmin()) if r.min() < 1e-5 and (r < 1e-5).sum() == 1 else -9 for r in d]
    return ev


def rotary_ev(rng):
    import torch

    from fairseq2.nn import BatchLayout

    while True:
        kind, enc = _encoders(rng, 24)
        if kind in ("rotary", "reference", "dual"):
            break
    n = rng.randrange(3, 9)
    with torch.inference_mode():
        q, k = (enc.eval()(torch.randn(8).expand(1, n, 8).contiguous(), BatchLayout((1, n), None))[0] for _ in range(2))
    return {"op": "rotary", "score": [[round(x * 1e4) for x in r] for r in (q @ k.T).tolist()]}


def front_ev(rng):
    import torch

    from fairseq2.models.s2t_transformer import Conv1dFbankSubsampler
    from fairseq2.models.wav2vec2 import Wav2Vec2FbankFeatureExtractor, Wav2Vec2FeatureExtractor
    from fairseq2.nn import BatchLayout

    n, kind = rng.randrange(1, 4), rng.choice(["wave", "wave", "bank", "s2t"])
    exact = kind != "s2t"
    if kind == "wave":
        descs = [(4, rng.randrange(1, 5), rng.randrange(1, 4)) for _ in range(rng.randrange(1, 4))]
        norm, channels = rng.random() < 0.5, rng.choice([1, 1, 2])
        f = Wav2Vec2FeatureExtractor(descs, rng.random() < 0.5, num_channels=channels, layer_norm=norm)
        need = 1
        for _, k, st in reversed(descs):
            need = (need - 1) * st + k
        lens = [need + rng.randrange(0 if norm else 9, 20) for _ in range(n)]
        more = () if channels == 1 and rng.random() < 0.7 else (channels,)
        exact = norm  # otherwise the first layer normalizes over time
    elif kind == "bank":
        stride = rng.randrange(1, 4)
        f = Wav2Vec2FbankFeatureExtractor(4, stride, sample_every_k=rng.choice([1, 1, 1, 2, 3]) if rng.random() < 0.4 else 1)
        lens = [stride * f.sample_every_k * 2 + rng.randrange(0, 12) for _ in range(n)]
        more = (4,)
        if f.sample_every_k > 1 and n == 1:
            f.sample_every_k = 1
    else:
        f = Conv1dFbankSubsampler(4, 8, 6, kernel_sizes=rng.choice([None, [5, 3], [3], [3, 5, 3]]))
        lens = [rng.randrange(1, 20) for _ in range(n)]
        more = (4,)
    if rng.random() < 0.2:
        lens = lens[:1] * n
    x = torch.randn(n, max(lens) + rng.choice([0, 0, 1, 3]), *more, dtype=torch.float64)
    f = f.double().eval()
    ev = {"op": "front", "kind": kind, "exact": exact, "rows": 0, "got": [], "alone": [], "differ": []}
    every = getattr(f, "sample_every_k", 1)
    if every > 1:
        ev["kind"] = f"bank, sample_every_k={every}"
    with torch.inference_mode():
        alone = []
        for i, k in enumerate(lens):
            if every > 1:
                f.sample_every_k = 1
            y = x[i : i + 1, :k]
            alone.append(f(y, BatchLayout.of(y))[0][0])
        if every > 1:
            f.sample_every_k = every
            try:
                out, layout = f(x, BatchLayout.of(x, list(lens)))
                ev["rows"] = out.size(0)
            except ValueError:
                pass
            return ev | {"alone": [a.size(0) // every for a in alone], "got": [] if not ev["rows"] else list(layout.seq_lens)}
        out, layout = f(x, BatchLayout.of(x, list(lens)))
    ev |= {"rows": out.size(0), "got": list(layout.seq_lens), "alone": [a.size(0) for a in alone]}
    ev["differ"] = [i for i, a in enumerate(alone) if a.size(0) > out.size(1) or not torch.allclose(out[i, : a.size(0)], a, atol=1e-6)]
    if layout.width != out.size(1):
        ev["got"] = ["width"]
    return ev


KINDS = {"layout": layout_ev, "seqs": seqs_ev, "pairs": pairs_ev, "rowmask": rowmask_ev, "masker": masker_ev, "apply": apply_ev, "encode": encode_ev, "rotary": rotary_ev, "front": front_ev}


def play(c):
    import torch

    rng = random.Random(c["seed"])
    torch.manual_seed(c["seed"])
    return {"cfg": {"what": c["kind"]}, "ev": [KINDS[c["kind"]](rng) for _ in range(c["n"])], "_info": c}


def run(ctx):
    tlc.model_check(ctx, "LayoutDesign", overrides={"MaxSeqs": ctx.pick(4, 5), "MaxLen": 4, "MaxPad": 2})
    weights = {"layout": 4, "seqs": 5, "pairs": 5, "rowmask": 4, "masker": 1, "apply": 1, "encode": 4, "rotary": 1, "front": 3}
    cases = []
    for kind, k in weights.items():
        for _ in range(k * ctx.pick(10, 120)):
            cases.append({"kind": kind, "n": 12 if kind != "front" else 6, "seed": ctx.rng.randrange(1 << 30)})
    traces = pmap(ctx, play, cases, 10)
    for kind in KINDS:
        ctx.count(f"{kind}_events", sum(len(t["ev"]) for t in traces if t["cfg"]["what"] == kind))
    ctx.sample(traces[0])
    # every event is judged for itself
    singles = [{"cfg": t["cfg"], "ev": [e], "_info": t["_info"]} for t in traces for e in t["ev"]]
    tlc.validate(ctx, "LayoutTrace", singles)

    def corrupt(t, rng):
        e = t["ev"][0]
        for k in ("pos", "at", "score", "mask", "code"):
            if isinstance(e.get(k), list) and e[k] and e.get("ok", True):
                x = e[k]
                while isinstance(x[-1], list):
                    x = x[-1]
                x[-1] = x[-1] + 1000 if k != "mask" else 1 - x[-1]
                return t
        if "b" in e:
            e["b"]["targets"] += 1
        elif "got" in e:
            e["got"] = e["got"] + [1]
        else:
            e["ok"] = not e["ok"]
        return t

    tlc.selftest(ctx, "LayoutTrace", singles[:: max(1, len(singles) // 40)], corrupt)
