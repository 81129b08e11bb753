"""H01: a model exported to Hugging Face Transformers is the same model."""

from __future__ import annotations

import json
import random
import re
import shutil
import tempfile
from pathlib import Path

from vlib import core, tlc
from vlib.pool import pmap

VOCAB = 17
STEP = 4096  # rows of a parameter


def fraction(x):
    from fractions import Fraction

    f = Fraction(x).limit_denominator(100)
    return [f.numerator, f.denominator]


def whole(x, by):
    return int(round(x * by))


# --- Configurations, as the specification sees them --------------------------


def of_llama(c):
    rope = {"type": "default", "theta": int(c.rope_theta)}
    if c.use_scaled_rope:
        r = c.rope_scale
        rope |= {"type": "llama3", "factor": whole(r.factor, 1000), "low": whole(r.frequency_factors[0], 1000), "high": whole(r.frequency_factors[1], 1000), "orig": r.original_context_length}
    return {"fam": "llama", "model": c.model_dim, "ffn": c.ffn_inner_dim, "mult": fraction(c.ffn_inner_dim_multiplier), "scale": fraction(c.ffn_inner_dim_scale), "multiple": c.ffn_inner_dim_multiple_of, "layers": c.num_layers, "heads": c.num_attn_heads, "kv": c.num_key_value_heads, "head": c.model_dim // c.num_attn_heads, "vocab": c.vocab_size, "len": c.max_seq_len, "tied": c.tied_embeddings, "eps": 10000, "window": 0, "kinds": [], "shared": 0, "rope": [rope]}


def of_qwen(c):
    return {"fam": "qwen2" if c.qkv_proj_bias else "qwen3", "model": c.model_dim, "ffn": c.ffn_inner_dim, "layers": c.num_layers, "heads": c.num_attn_heads, "kv": c.num_key_value_heads, "head": c.head_dim or c.model_dim // c.num_attn_heads, "vocab": c.vocab_size, "len": c.max_seq_len, "tied": c.tied_embeddings, "eps": 1000, "window": 0, "kinds": [], "shared": 0, "rope": [{"type": "default", "theta": int(c.rope_theta)}]}


def of_olmo(c):
    rope = {"type": "default", "theta": int(c.rope_theta)}
    if y := c.yarn_scale_config:
        rope |= {"type": "yarn", "factor": whole(y.scale_factor, 1000), "orig": y.original_max_seq_len, "fast": whole(y.beta_fast, 1000), "slow": whole(y.beta_slow, 1000), "mscale": whole(y.mscale, 1000), "mall": whole(y.mscale_all_dim, 1000), "trunc": y.truncate}
    return {"fam": "olmo", "model": c.model_dim, "ffn": c.ffn_inner_dim, "layers": c.num_layers, "heads": c.num_attn_heads, "kv": c.num_key_value_heads, "head": c.model_dim // c.num_attn_heads, "vocab": c.vocab_size, "len": c.max_seq_len, "tied": c.tied_embeddings, "eps": whole(c.rms_norm_eps, 1e9), "window": c.sliding_window or 0, "kinds": c.layer_types or [], "shared": 0, "rope": [rope] * (2 if c.sliding_window else 1)}


def of_gemma(c):
    return {"fam": "gemma", "model": c.model_dim, "ffn": c.ffn_inner_dim, "layers": c.num_layers, "heads": c.num_attn_heads, "kv": c.num_key_value_heads, "head": c.head_dim, "vocab": c.vocab_size, "len": c.max_seq_len, "tied": c.tied_embeddings, "eps": whole(c.rms_norm_eps, 1e9), "window": c.sliding_window, "kinds": [], "shared": c.num_kv_shared_layers, "rope": [{"type": "default", "theta": int(c.rope_theta)}, {"type": "default", "theta": int(c.rope_theta_global)}]}


def exported(h, arch):
    """The same of a configuration of Transformers, as read back from disk."""
    kinds = list(getattr(h, "layer_types", None) or ["full_attention"] * h.num_hidden_layers)
    window = h.sliding_window or 0 if "sliding_attention" in kinds else 0
    ropes = h.rope_parameters
    nested = all(isinstance(x, dict) for x in ropes.values())
    ropes = [ropes["sliding_attention"], ropes["full_attention"]] if nested else [ropes]

    def rope(p):
        r = {"type": p["rope_type"], "theta": int(p["rope_theta"])}
        if r["type"] == "llama3":
            r |= {"factor": whole(p["factor"], 1000), "low": whole(p["low_freq_factor"], 1000), "high": whole(p["high_freq_factor"], 1000), "orig": p["original_max_position_embeddings"]}
        elif r["type"] == "yarn":
            r |= {"factor": whole(p["factor"], 1000), "orig": p["original_max_position_embeddings"], "fast": whole(p["beta_fast"], 1000), "slow": whole(p["beta_slow"], 1000), "mscale": whole(p.get("mscale") or 0, 1000), "mall": whole(p.get("mscale_all_dim") or 0, 1000), "trunc": p.get("truncate", True)}
        return r

    inner = h.intermediate_size
    if isinstance(inner, (list, tuple)) and len(set(inner)) == 1:
        inner = inner[0]
    return {"arch": arch, "model": h.hidden_size, "inner": inner, "layers": h.num_hidden_layers, "heads": h.num_attention_heads, "kv": h.num_key_value_heads, "head": getattr(h, "head_dim", None) or h.hidden_size // h.num_attention_heads, "vocab": h.vocab_size, "len": h.max_position_embeddings, "tied": bool(h.tie_word_embeddings), "eps": whole(h.rms_norm_eps, 1e9), "window": window, "kinds": kinds, "rope": [rope(r) for r in ropes]}


# --- Models -------------------------------------------------------------------


def llama(rng):
    from fairseq2.models.llama import LLaMAConfig

    while True:
        heads, head = rng.choice([1, 2, 4]), rng.choice([2, 4, 6, 8])
        d = heads * head
        c = LLaMAConfig(model_dim=d, max_seq_len=rng.choice([16, 40]), vocab_size=VOCAB, tied_embeddings=rng.random() < 0.5, num_layers=rng.choice([1, 2, 3]), num_attn_heads=heads, num_key_value_heads=rng.choice([k for k in (1, 2, 4) if heads % k == 0]), ffn_inner_dim=rng.choice([4 * d, 24, 48]), ffn_inner_dim_multiple_of=rng.choice([1, 8, 16]), ffn_inner_dim_scale=rng.choice([2 / 3, 1.0]), ffn_inner_dim_multiplier=rng.choice([1.0, 1.3, 1.5]), use_scaled_rope=rng.random() < 0.5, rope_theta=rng.choice([10000.0, 500000.0]), shard_embed_dim=False)
        c.rope_scale.original_context_length = 16
        c.rope_scale.factor = rng.choice([8.0, 32.0])
        a = of_llama(c)
        x = c.ffn_inner_dim * a["mult"][0] // a["mult"][1]
        if x == int(c.ffn_inner_dim * c.ffn_inner_dim_multiplier) and x * a["scale"][0] // a["scale"][1] == int(x * c.ffn_inner_dim_scale):
            return c


def qwen(rng):
    from fairseq2.models.qwen import QwenConfig

    q = rng.random() < 0.5
    return QwenConfig(model_dim=16, max_seq_len=40, vocab_size=VOCAB, tied_embeddings=rng.random() < 0.5, num_layers=rng.choice([1, 2, 3]), num_attn_heads=4, num_key_value_heads=rng.choice([1, 2, 4]), head_dim=rng.choice([None, 4, 6]) if q else None, qkv_proj_bias=not q, q_norm=q, k_norm=q, ffn_inner_dim=rng.choice([24, 40]), rope_theta=rng.choice([10000.0, 1000000.0]))


def olmo(rng):
    from fairseq2.models.olmo import OLMOConfig
    from fairseq2.models.olmo.config import YaRNScaleConfig

    k = rng.choice([0, 1, 2])
    c = OLMOConfig(model_dim=16, max_seq_len=40, vocab_size=VOCAB, pad_idx=0, eos_token_id=2, tied_embeddings=rng.random() < 0.5, num_layers=rng.choice([2, 4, 5]), num_attn_heads=4, num_key_value_heads=rng.choice([1, 2, 4]), ffn_inner_dim=24, rope_theta=rng.choice([10000.0, 1000000.0]), rms_norm_eps=rng.choice([1e-6, 1e-5]))
    if k:
        c.sliding_window = rng.choice([2, 3, 6])
        if rng.random() < 0.5:
            c.layer_types = [rng.choice(["sliding_attention", "full_attention"]) for _ in range(c.num_layers)]
    if k == 2:
        c.yarn_scale_config = YaRNScaleConfig(scale_factor=rng.choice([4.0, 8.0]), original_max_seq_len=10, beta_fast=rng.choice([32.0, 4.0]), mscale=rng.choice([1.0, 0.7]), mscale_all_dim=rng.choice([0.0, 0.5]), truncate=rng.random() < 0.7)
    return c


def gemma(rng):
    from fairseq2.models.gemma3n import Gemma3nConfig

    layers, shared = rng.choice([(5, 0), (10, 0), (10, 5), (15, 0), (15, 5)])
    return Gemma3nConfig(model_dim=16, max_seq_len=40, vocab_size=VOCAB, num_layers=layers, num_attn_heads=2, num_key_value_heads=rng.choice([1, 2]), head_dim=8, ffn_inner_dim=24, altup_hidden_dim=24, sliding_window=rng.choice([2, 3, 512]), num_kv_shared_layers=shared, laurel_rank=4, vocab_size_per_layer_input=VOCAB, hidden_size_per_layer_input=4, final_logit_soft_cap=rng.choice([30.0, 5.0]), altup_num_inputs=rng.choice([2, 4]), altup_active_idx=rng.choice([0, 1]), altup_coef_clip=rng.choice([120.0, 0.5]), altup_correct_scale=rng.random() < 0.7)


def audio(rng):
    from fairseq2.models.gemma3n.config import Gemma3nAudioConfig, Gemma3nConfig

    a = Gemma3nAudioConfig(vocab_size=8, vocab_offset=VOCAB, input_feat_size=rng.choice([16, 32]), hidden_size=16, conf_num_hidden_layers=rng.choice([1, 2]), conf_num_attention_heads=2, conf_conv_kernel_size=rng.choice([3, 5]), conf_attention_chunk_size=rng.choice([2, 4]), conf_attention_context_left=rng.choice([3, 5]), conf_attention_context_right=rng.choice([0, 1]), conf_reduction_factor=rng.choice([2, 4]), sscp_conv_channel_size=(8, 4), conf_attention_logit_cap=rng.choice([50.0, 3.0]), conf_residual_weight=rng.choice([0.5, 0.7]))
    return Gemma3nConfig(model_dim=16, num_layers=5, num_attn_heads=2, num_key_value_heads=1, head_dim=8, ffn_inner_dim=24, altup_hidden_dim=24, laurel_rank=4, max_seq_len=40, num_kv_shared_layers=0, vocab_size=VOCAB, vocab_size_per_layer_input=VOCAB, hidden_size_per_layer_input=4, audio_config=a)


def family(name):
    """How to describe, create, export and import models of a family."""
    if name in ("llama", "ref", "mistral"):
        from fairseq2.models.llama import create_llama_model
        from fairseq2.models.llama.interop import _LLaMAHuggingFaceConverter, convert_llama_state_dict, convert_to_ref_llama_state_dict
        from fairseq2.models.mistral.interop import convert_mistral_state_dict

        if name == "llama":
            return llama, of_llama, create_llama_model, _LLaMAHuggingFaceConverter(), convert_llama_state_dict
        imp = convert_llama_state_dict if name == "ref" else convert_mistral_state_dict
        return llama, lambda c: of_llama(c) | {"fam": "ref"}, create_llama_model, convert_to_ref_llama_state_dict, imp
    if name == "qwen":
        from fairseq2.models.qwen import create_qwen_model
        from fairseq2.models.qwen.interop import _QwenHuggingFaceConverter, convert_qwen_state_dict

        return qwen, of_qwen, create_qwen_model, _QwenHuggingFaceConverter(), convert_qwen_state_dict
    if name == "olmo":
        from fairseq2.models.olmo import create_olmo_model
        from fairseq2.models.olmo.interop import _OLMOHuggingFaceConverter, convert_olmo_state_dict

        return olmo, of_olmo, create_olmo_model, _OLMOHuggingFaceConverter(), convert_olmo_state_dict
    from fairseq2.models.gemma3n.factory import create_gemma3n_model
    from fairseq2.models.gemma3n.interop import convert_gemma3n_state_dict, export_gemma3n

    if name == "gemma":
        return gemma, of_gemma, create_gemma3n_model, export_gemma3n, convert_gemma3n_state_dict
    return audio, lambda c: of_gemma(c) | {"fam": "audio"}, create_gemma3n_model, export_gemma3n, convert_gemma3n_state_dict


def export(name, how, sd, c):
    """The exported tensors, and what save_hugging_face_model is to be given with them."""
    from fairseq2.models.hg.converter import HuggingFaceConfig

    if name in ("ref", "mistral"):
        return how(sd), None
    if name in ("gemma", "audio"):
        x = how(sd, c)
        return x.state_dict, HuggingFaceConfig(x.config, x.config_kls_name, x.arch)
    conf = how.to_hg_config(c)
    return how.to_hg_state_dict(sd, c), conf


def part(key):
    """A name with its number taken out."""
    m = re.search(r"\.(\d+)\.", key)
    return (key, -1) if m is None else (key[: m.start(1)] + "#" + key[m.end(1) :], int(m[1]))


def rows(t):
    return t.reshape(t.shape[0], -1)[:, 0]


def tensors(name, c, model, how, imp, wanted):
    """What becomes of every row of every parameter."""
    import torch

    sd, names = {}, []
    for k, v in model.state_dict().items():
        if not wanted(k):
            continue
        names.append(k)
        x = torch.arange(v.shape[0], dtype=torch.float64) + STEP * len(names)
        sd[k] = x.reshape(-1, *[1] * (v.ndim - 1)).expand(v.shape).contiguous()
    if getattr(c, "tied_embeddings", False) and name not in ("gemma", "audio"):
        sd["final_proj.weight"] = sd["decoder_frontend.embed.weight"]
    before = dict(sd)
    out, _ = export(name, how, dict(sd), c)
    ev, got = [], set()
    for k, v in out.items():
        r = rows(v)
        ids = {int(x) // STEP for x in r.tolist()}
        fs, i = part(names[ids.pop() - 1]) if len(ids) == 1 else (f"rows of several parameters in {k}", -1)
        hf, hi = part(k)
        if fs == "decoder_frontend.embed.weight" and hf in ("lm_head.weight", "output.weight"):  # the same tensor, if tied
            fs = "final_proj.weight"
        got.add((fs, i))
        ev.append({"op": "tensor", "n": fs, "i": i, "hf": hf, "hi": hi, "rows": [int(x) % STEP for x in r.tolist()]})
    all_ = {part(k) for k in names}
    ev.append({"op": "names", "got": sorted({p for p, _ in got}), "lost": sorted({p for p, _ in all_ - got})})
    back = imp(dict(out), c)
    changed = [k for k in before if k in back and not (before[k].shape == back[k].shape and torch.equal(before[k], back[k]))]
    return ev + [{"op": "back", "lost": sorted(set(before) - set(back)), "extra": sorted(set(back) - set(before)), "changed": changed}]


def differ(a, b):
    d = (a - b).abs().amax(-1)
    return [[int(x) for x in i] for i in ((d > 5e-3) | d.isnan()).nonzero()][:20] if a.shape == b.shape else [["shapes", list(a.shape), list(b.shape)]]


def fill(model, seed):
    import torch

    torch.manual_seed(seed)
    with torch.no_grad():
        for p in model.parameters():
            p.copy_(torch.randn_like(p) * 0.3 + (1 if p.ndim == 1 else 0))


def loading(info):
    return {"op": "load", "missing": sorted(info["missing_keys"]), "mismatched": sorted(str(k[0] if isinstance(k, tuple) else k) for k in info["mismatched_keys"]), "unexpected": unexpected(info["unexpected_keys"])}


def unexpected(keys):
    out = []
    for k in sorted(keys):
        m = re.search(r"\.layers\.(\d+)\.(.*)$", k)
        out.append([int(m[1]), m[2]] if m else [-1, k])
    return out


def behaviour(name, c, model, how, seed, rng):
    """The model that Transformers makes of an export."""
    import safetensors.torch
    import torch
    import transformers

    from fairseq2.models.hg.converter import save_hugging_face_model
    from fairseq2.nn import BatchLayout

    fill(model, seed)
    d = Path(tempfile.mkdtemp(prefix="h01-"))
    try:
        out, conf = export(name, how, model.state_dict(), c)
        save_hugging_face_model(d, out, conf)
        arch = json.loads((d / "config.json").read_text())["architectures"][0]
        h = transformers.AutoConfig.from_pretrained(d)
        ev = []
        n = 12
        x = torch.tensor([[rng.randrange(1, VOCAB) for _ in range(n)]])
        if name == "audio":
            from transformers.models.gemma3n.modeling_gemma3n import Gemma3nAudioEncoder, Gemma3nMultimodalEmbedder

            sd = safetensors.torch.load_file(d / "model.safetensors")
            enc, emb = Gemma3nAudioEncoder(h.audio_config).eval(), Gemma3nMultimodalEmbedder(h.audio_config, h.text_config).eval()
            miss, extra = [], []
            for m, p in ((enc, "model.audio_tower."), (emb, "model.embed_audio.")):
                r = m.load_state_dict({k[len(p) :]: v for k, v in sd.items() if k.startswith(p)}, strict=False)
                miss += [p + k for k in r.missing_keys]
                extra += [p + k for k in r.unexpected_keys]
            ev.append({"op": "load", "missing": sorted(miss), "mismatched": [], "unexpected": unexpected(extra)})
            frames = rng.choice([16, 37, 48])
            y = torch.randn(2, frames, c.audio_config.input_feat_size)
            with torch.no_grad():
                a = model.audio_tower(y)
                b = emb(inputs_embeds=enc(y, torch.zeros(2, frames, dtype=torch.bool)).last_hidden_state)
        elif name == "gemma":
            ev.append({"op": "config", "got": exported(h.text_config, arch)})
            sd = {k.replace("model.language_model.", "model."): v for k, v in safetensors.torch.load_file(d / "model.safetensors").items()}
            h.text_config.save_pretrained(d / "text")
            safetensors.torch.save_file(sd, d / "text" / "model.safetensors", metadata={"format": "pt"})
            hm, info = transformers.Gemma3nForCausalLM.from_pretrained(d / "text", output_loading_info=True, attn_implementation="eager")
            ev.append(loading(info))
            hm.eval()
            with torch.no_grad():
                a, b = model(x, BatchLayout((1, n), [n])), hm(x).logits
        else:
            ev.append({"op": "config", "got": exported(h, arch)})
            hm, info = getattr(transformers, arch).from_pretrained(d, output_loading_info=True, attn_implementation=rng.choice(["eager", "sdpa"]))
            ev.append(loading(info))
            hm.eval()
            with torch.no_grad():
                a, b = model(x, BatchLayout((1, n), [n])), hm(x).logits
        return ev + [{"op": "same", "differ": differ(a.double(), b.double())}]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def quiet():
    import transformers

    transformers.logging.set_verbosity_error()
    transformers.utils.logging.disable_progress_bar()


def registered(ctx_archs):
    """Exports of the architectures that fairseq2 registers, without their tensors."""
    import torch
    import transformers

    from fairseq2.models.hg.converter import save_hugging_face_model

    name, arch = ctx_archs
    core.setup_fairseq2()
    quiet()
    _, of, create, how, _ = family(name)
    c = arch_config(name, arch)
    d = Path(tempfile.mkdtemp(prefix="h01-"))
    try:
        with torch.device("meta"):
            model = create(c)
        out, conf = export(name, how, model.state_dict(), c)
        save_hugging_face_model(d, {"x": torch.ones(1)}, conf)
        kind = json.loads((d / "config.json").read_text())["architectures"][0]
        h = transformers.AutoConfig.from_pretrained(d)
        if name == "gemma":
            h.text_config._attn_implementation = "eager"
            with torch.device("meta"):
                hm = transformers.Gemma3nForCausalLM(h.text_config)
            out = {k.replace("model.language_model.", "model."): v for k, v in out.items() if not k.startswith(("model.audio_tower", "model.embed_audio"))}
            cfg = h.text_config
        else:
            with torch.device("meta"):
                hm = getattr(transformers, kind)(h)
            cfg = h
        want = hm.state_dict()
        tied = {"lm_head.weight"} if cfg.tie_word_embeddings else set()
        return {"cfg": of(c), "_info": f"architecture {arch}", "ev": [
            {"op": "config", "got": exported(cfg, kind)},
            {"op": "load", "missing": sorted(set(want) - set(out) - tied), "mismatched": sorted(k for k in want if k in out and out[k].shape != want[k].shape), "unexpected": unexpected(set(out) - set(want))},
        ]}
    finally:
        shutil.rmtree(d, ignore_errors=True)




def archs_of(name):
    """The configurations that a family registers by name."""
    import importlib

    from fairseq2.runtime.dependency import DependencyContainer

    mod, kls = {"llama": ("llama", "LLaMAConfig"), "qwen": ("qwen", "QwenConfig"), "olmo": ("olmo", "OLMOConfig"), "gemma": ("gemma3n", "Gemma3nConfig")}[name]
    m = importlib.import_module(f"fairseq2.models.{mod}.config")
    container = DependencyContainer()
    getattr(m, f"register_{mod}_configs")(container)
    return container, getattr(m, kls)


def arch_config(name, arch):
    container, kls = archs_of(name)
    return container.resolve(kls, key=arch)


def arch_names(name):
    container, kls = archs_of(name)
    return sorted(str(k) for k in container.iter_keys(kls))


def play(a):
    name, seed = a
    core.setup_fairseq2()
    quiet()
    rng = random.Random(f"{name}-{seed}")
    draw, of, create, how, imp = family(name)
    c = draw(rng)
    text = repr(c)
    model = create(c).eval()
    wanted = (lambda k: k.startswith("audio_tower.")) if name == "audio" else (lambda k: True)
    cfg = of(c)
    try:
        ev = tensors(name, c, model, how, imp, wanted)
        if name not in ("ref", "mistral"):
            ev += behaviour(name, c, model, how, seed, rng)
    except Exception as ex:  # noqa: BLE001
        ev = [{"op": "outcome", "out": repr(ex)[:600]}]
    return {"cfg": cfg, "ev": ev, "_info": text}


def run(ctx):
    core.setup_fairseq2()
    ctx.assumptions.append("Transformers 5.22 with PyTorch 2.9 on the CPU is what 'Transformers computes' means; outputs within 0.005 of each other in single precision count as the same")
    tlc.model_check(ctx, "HuggingFaceDesign", overrides={} if ctx.quick else {"MaxHeads": 8, "MaxHalf": 16})
    n = ctx.pick(10, 60)
    cases = [(f, f"{ctx.seed}-{i}") for f, k in (("llama", 1), ("qwen", 1), ("olmo", 1), ("gemma", 0.5), ("audio", 0.5), ("ref", 0.3), ("mistral", 0.3)) for i in range(int(n * k))]
    cases = [(f, int(__import__("zlib").crc32(s.encode()))) for f, s in cases]
    traces = pmap(ctx, play, cases, chunk=2)
    ctx.count("models exported", len(traces))
    archs = [(f, x) for f in ("llama", "qwen", "olmo", "gemma") for x in arch_names(f)]
    if ctx.quick:
        archs = ctx.rng.sample(archs, 6)
    traces += pmap(ctx, registered, archs)
    ctx.count("registered architectures", len(archs))
    tlc.validate(ctx, "HuggingFaceTrace", traces)

    def corrupt(t, rng):
        k = rng.choice(["rows", "name", "load", "config", "same"])
        for e in t["ev"]:
            if k == "rows" and e["op"] == "tensor" and len(e["rows"]) > 2 and "q_proj.weight" in e["n"]:
                e["rows"][0], e["rows"][1] = e["rows"][1], e["rows"][0]
                return t
            if k == "name" and e["op"] == "tensor" and e["i"] >= 0:
                e["hi"] += 1
                return t
            if k == "load" and e["op"] == "load":
                e["missing"] = ["model.norm.weight"]
                return t
            if k == "config" and e["op"] == "config":
                e["got"]["inner"] = 7
                return t
            if k == "same" and e["op"] == "same":
                e["differ"] = [[0, 3]]
                return t
        return None

    tlc.selftest(ctx, "HuggingFaceTrace", traces, corrupt)
    ctx.sample({"case": traces[0]["_info"], "events": traces[0]["ev"][:3]})
