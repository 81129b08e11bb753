"""U07: tokenizers turn text into indices and back, framed as each mode asks for."""

from __future__ import annotations

import base64
import json
import random
import shutil

from vlib import core, tlc
from vlib.pool import pmap

ALPHABET = ["a", "b", "c", "n", "'", " ", " ", "é", "😀", "<", "|", ">"]
ROLES = ("unk", "bos", "eos", "pad", "boh", "eoh")
LL = {"unk": "", "bos": "<|begin_of_text|>", "eos": "<|end_of_text|>", "pad": "<|finetune_right_pad_id|>", "boh": "<|start_header_id|>", "eoh": "<|end_header_id|>"}
#: The roles each family gives to special tokens, and the tokens that replace the end.
SAYS = {
    "llama_tt": (LL, "<|eot_id|>"),
    "llama4_tt": ({**LL, "pad": "<|finetune_right_pad|>", "boh": "<|header_start|>", "eoh": "<|header_end|>"}, "<|eot|>"),
    "llama_hg": (LL, "<|eot_id|>"),
    "qwen": ({"unk": "", "bos": "", "eos": "<|endoftext|>", "pad": "<|endoftext|>", "boh": "", "eoh": ""}, "<|im_end|>"),
    "olmo": ({"unk": "<|endoftext|>", "bos": "<|endoftext|>", "eos": "<|endoftext|>", "pad": "<|pad|>", "boh": "", "eoh": ""}, "<|im_end|>"),
    "gemma": ({"unk": "<unk>", "bos": "<bos>", "eos": "<eos>", "pad": "<pad>", "boh": "", "eoh": ""}, None),
    "hg": None,
}
EXTRA = ["<|tool|>", "<|x|>"]


def byte_chars():
    """The characters that stand for bytes in byte-level vocabularies."""
    bs = list(range(33, 127)) + list(range(161, 173)) + list(range(174, 256))
    cs, n = bs[:], 0
    for b in range(256):
        if b not in bs:
            bs.append(b)
            cs.append(256 + n)
            n += 1
    return {b: chr(c) for b, c in zip(bs, cs)}


CH = byte_chars()
HC = {c: b for b, c in CH.items()}


def vocabulary(rng, fam):
    """A random vocabulary, as the specification sees it."""
    kind = "tt" if fam.endswith("_tt") else "hg"
    parts = [[b] for c in set(ALPHABET) for b in c.encode()]
    toks, pairs = [], []
    for _ in range(rng.randrange(0, 14)):
        x, y = rng.choice(parts), rng.choice(parts)
        if (x + y) in toks or len(x + y) > 6 or (32 in x) != (32 in y):
            continue
        toks.append(x + y)
        parts.append(x + y)
        pairs.append((x, y))
    rng.shuffle(toks)
    if kind == "hg":
        # A second way to the same token.
        for t in toks:
            if rng.random() < 0.2 and len(t) > 2:
                k = rng.randrange(1, len(t))
                p = (t[:k], t[k:])
                if p not in pairs and all(len(h) == 1 or h in toks for h in p):
                    pairs.insert(rng.randrange(len(pairs) + 1), p)
    ids = list(range(256 + len(toks)))
    rng.shuffle(ids)
    byte, tok_ids = ids[:256], ids[256:]
    index = {bytes(t): i for t, i in zip(toks, tok_ids)} | {bytes([b]): i for b, i in enumerate(byte)}
    v = {"kind": kind, "byte": byte, "toks": [{"id": index[bytes(t)], "b": t} for t in toks], "merges": [], "specials": []}
    if kind == "hg":
        v["merges"] = [{"x": index[bytes(x)], "y": index[bytes(y)], "z": index[bytes(x + y)]} for x, y in pairs]
    own = dict.fromkeys(ROLES, "")
    if fam == "hg":
        says = {r: rng.choice(["", "<s>", "</s>", "<pad>", "<none>"]) for r in ROLES}
        names = ["<s>", "</s>", "<pad>", "<unk>"] + EXTRA
        for r, t in (("bos", "<s>"), ("eos", "</s>"), ("unk", "<unk>")):
            own[r] = rng.choice(["", t])
        alt = False
    else:
        table, other = SAYS[fam]
        alt = other is not None and rng.random() < 0.5
        says = dict(table)
        if alt:
            says["eos"] = other
        names = sorted({t for t in table.values() if t} | ({other} if other else set())) + EXTRA
        if kind == "hg":
            rng.shuffle(names)
            if rng.random() < 0.4 and fam != "gemma":
                # A tokenizer that has an unknown token of its own.
                own["unk"] = "<oov>"
                names.append("<oov>")
            if rng.random() < 0.3:
                # The padding token is missing; no mode depends on it.
                pad = says["pad"]
                if pad not in (says["eos"], says["bos"], says["unk"]):
                    names.remove(pad)
    v["says"], v["own"] = says, own
    if kind == "hg":
        v["specials"] = [{"name": n, "b": list(n.encode()), "id": 256 + len(toks) + i} for i, n in enumerate(names)]
    else:
        v["specials"] = None
    return v, {"alt": alt, "toks": index, "pairs": pairs, "names": names}


def write_tt(path, info):
    items = sorted(info["toks"].items(), key=lambda x: x[1])
    path.write_bytes(b"".join(base64.b64encode(t) + b" " + str(i).encode() + b"\n" for t, i in items))


def write_hg(path, v, info):
    from tokenizers import Regex, Tokenizer, decoders, models, pre_tokenizers
    from transformers import PreTrainedTokenizerFast

    s = lambda b: "".join(CH[x] for x in b)  # noqa: E731
    tok = Tokenizer(models.BPE(vocab={s(b): i for b, i in info["toks"].items()}, merges=[(s(x), s(y)) for x, y in info["pairs"]]))
    tok.pre_tokenizer = pre_tokenizers.Sequence([pre_tokenizers.Split(Regex(" +|[^ ]+"), "isolated"), pre_tokenizers.ByteLevel(add_prefix_space=False, use_regex=False)])
    tok.decoder = decoders.ByteLevel()
    tok.add_special_tokens([x["name"] for x in v["specials"]])
    fast = PreTrainedTokenizerFast(tokenizer_object=tok, clean_up_tokenization_spaces=False, **{f"{r}_token": t for r, t in v["own"].items() if t})
    if path.exists():
        shutil.rmtree(path)
    fast.save_pretrained(path)


def load(fam, path, info, says):
    alt = info["alt"] if info else False
    split = r" +|[^ ]+"
    if fam == "llama_tt":
        from fairseq2.models.llama.tokenizer import LLaMATokenizerConfig, load_llama_tokenizer

        return load_llama_tokenizer(path, LLaMATokenizerConfig(impl="tiktoken", use_eot=alt, split_regex=split))
    if fam == "llama_hg":
        from fairseq2.models.llama.tokenizer import LLaMATokenizerConfig, load_llama_tokenizer

        return load_llama_tokenizer(path, LLaMATokenizerConfig(impl="hg", use_eot=alt))
    if fam == "llama4_tt":
        from fairseq2.models.llama4.tokenizer import Llama4TokenizerConfig, load_llama4_tokenizer

        return load_llama4_tokenizer(path, Llama4TokenizerConfig(use_eot=alt, split_regex=split))
    if fam == "qwen":
        from fairseq2.models.qwen.tokenizer import QwenTokenizerConfig, load_qwen_tokenizer

        return load_qwen_tokenizer(path, QwenTokenizerConfig(use_im_end=alt))
    if fam == "olmo":
        from fairseq2.models.olmo.tokenizer import OLMOTokenizerConfig, load_olmo_tokenizer

        return load_olmo_tokenizer(path, OLMOTokenizerConfig(use_im_end=alt))
    if fam == "gemma":
        from fairseq2.models.gemma3n.tokenizer import load_gemma3n_tokenizer

        return load_gemma3n_tokenizer(path, None)
    from fairseq2.models.hg.tokenizer import HgTokenizerConfig, load_hg_tokenizer

    return load_hg_tokenizer(path, HgTokenizerConfig(**{f"{r}_token": t or None for r, t in (says or {}).items()}))


def error(fn):
    """What `fn` returns, and what kind of error it raised."""
    from fairseq2.data.tokenizers.family import TokenizerModelError
    from fairseq2.error import NotSupportedError

    try:
        return fn(), ""
    except TokenizerModelError:
        return None, "model"
    except OSError:
        return None, "system"
    except NotSupportedError:
        return None, "refused"
    except UnicodeError as ex:
        return None, f"{type(ex).__name__}: {ex}"
    except ValueError as ex:
        return None, "refused"
    except Exception as ex:  # noqa: BLE001
        return None, f"{type(ex).__name__}: {ex}"


def some_text(rng, names):
    out = []
    for _ in range(rng.randrange(0, 9)):
        r = rng.random()
        out.append(rng.choice(names) if r < 0.15 else rng.choice(names)[: rng.randrange(1, 4)] if r < 0.25 else rng.choice(ALPHABET))
    return "".join(out)


def play(case):
    core.setup_fairseq2()
    import torch

    fam, seed, root = case
    rng = random.Random(seed)
    if fam == "ref":
        return references(rng)
    core_root = core.Path(root) / f"{fam}-{seed}"
    core_root.mkdir(parents=True)
    path = core_root / "tok"
    vs, evs, encs, decs = [], [], [], []
    kind = "tt" if fam.endswith("_tt") else "hg"
    tk = cur = names = None
    devs = {"cpu": None, "meta": torch.device("meta")}

    def to_bytes(tokens, names):
        if kind == "tt":
            return [list(t.encode("utf-8", errors="surrogateescape")) for t in tokens]
        return [list(t.encode()) if t in names else [HC[c] for c in t] for t in tokens]

    def reload():
        nonlocal tk, cur, names
        v, info = vocabulary(rng, fam)
        write_tt(path, info) if kind == "tt" else write_hg(path, v, info)
        tk, err = error(lambda: load(fam, path, info, v["says"]))
        if tk is None:
            evs.append({"op": "load", "v": 1, "err": err or "?", "info": {}})
            vs.append(v)
            return False
        if kind == "tt":
            # The order of the special tokens is the family's; that they follow the others is not.
            d, first, size = tk.create_decoder(), len(info["toks"]), tk.vocab_info.size
            found = {d(torch.tensor([i])): i for i in range(first, size)}
            have = [t for t in info["names"] if t in found] + list(found)[-1:]
            info["names"] = have
            v["specials"] = [{"name": n, "b": list(n.encode()), "id": found[n]} for n in have]
            if len(found) != size - first or "" in found:
                err = "special tokens overlap"
        vs.append(v)
        names = info["names"]
        vi = tk.vocab_info
        num = lambda x: -1 if x is None else x  # noqa: E731
        evs.append({"op": "load", "v": len(vs), "err": err, "info": {"size": vi.size, **{r: num(getattr(vi, f"{r}_idx")) for r in ROLES}}})
        cur = len(vs)
        return True

    def bad():
        what = rng.choice(["missing", "garbage", "numbers", "bytes"])
        p = core_root / "bad"
        if p.is_dir():
            shutil.rmtree(p)
        elif p.exists():
            p.unlink()
        if what == "missing":
            p = core_root / "nowhere"
        elif kind == "tt":
            line = {"garbage": b"what is this\n", "numbers": b"YQ== one\n", "bytes": b"\xff\xfe 1\n"}[what]
            p.write_bytes(b"Yg== 0\n" + line)
        else:
            p.mkdir()
            if what == "garbage":
                (p / "tokenizer.json").write_text("what is this")
                (p / "tokenizer_config.json").write_text(json.dumps({"tokenizer_class": "PreTrainedTokenizerFast"}))
            elif what == "numbers":
                (p / "tokenizer_config.json").write_text(json.dumps({"tokenizer_class": "PreTrainedTokenizerFast"}))
            else:
                (p / "tokenizer_config.json").write_text(json.dumps({"tokenizer_class": "NoSuchTokenizer"}))
        _, err = error(lambda: load(fam, p, None, None))
        evs.append({"op": "bad", "what": what, "err": err or "nothing"})

    def new_encoder():
        mode = rng.choice(["", "default", "prompt", "prompt_response", "as_is", "what"])
        raw, other = rng.random() < 0.15, rng.random() < 0.1
        dev = rng.choice(["cpu", "cpu", "cpu", "meta"])
        kw = {"device": devs[dev]}
        if other:
            kw |= rng.choice([{"task": "t"}, {"lang": "en"}])
        if raw:
            e, err = error(lambda: tk.create_raw_encoder(device=devs[dev]))
        else:
            e, err = error(lambda: tk.create_encoder(mode=mode or None, **kw))
        ev = {"op": "encoder", "mode": mode, "raw": raw, "other": other and not raw, "dev": dev, "err": err, "pre": [], "suf": []}
        if e is not None:
            ref = error(lambda: (tk.create_raw_encoder() if raw else tk.create_encoder(mode=mode or None)))[0]
            ev["pre"] = [] if ref.prefix_indices is None else ref.prefix_indices.tolist()
            ev["suf"] = [] if ref.suffix_indices is None else ref.suffix_indices.tolist()
            for x in (e.prefix_indices, e.suffix_indices):
                if x is not None and x.device.type != dev:
                    ev["err"] = "prefix or suffix on another device"
            encs.append((e, cur, names, dev, ref))
        evs.append(ev)

    def new_decoder():
        skip = rng.random() < 0.5
        d = tk.create_decoder(skip_special_tokens=skip)
        decs.append((d, cur, skip))
        evs.append({"op": "decoder", "skip": skip})

    kept = []

    def encode():
        k = rng.randrange(len(encs))
        e, v, nm, dev, ref = encs[k]
        text = some_text(rng, nm)
        ids, err = error(lambda: e(text))
        toks, err2 = error(lambda: (e if dev == "cpu" else ref).encode_as_tokens(text))
        ev = {"op": "encode", "k": k + 1, "text": list(text.encode()), "err": err or err2, "dev": "", "n": 0, "ids": [], "toks": []}
        if ids is not None:
            ev["dev"], ev["n"] = ids.device.type, ids.numel()
            if ids.device.type == "cpu":
                ev["ids"] = ids.tolist()
        if toks is not None:
            ev["toks"] = to_bytes(toks, nm)
            if ids is not None and ids.device.type == "cpu":
                kept.append((v, ev["ids"], toks))
        evs.append(ev)

    def decode():
        k = rng.randrange(len(decs))
        d, v, skip = decs[k]
        mine = [x for x in kept if x[0] == v]
        if not mine:
            return
        if rng.random() < 0.5:
            _, ids, toks = rng.choice(mine)
            text, err = error(lambda: d.decode_from_tokens(toks))
        else:
            ids = [i for x in rng.sample(mine, rng.randrange(1, min(3, len(mine)) + 1)) for i in x[1]]
            text, err = error(lambda: d(torch.tensor(ids, dtype=torch.int64)))
        evs.append({"op": "decode", "k": k + 1, "ids": ids, "err": err, "text": list(text.encode("utf-8", errors="surrogateescape")) if text is not None else []})

    ok = reload()
    for _ in range(16):
        if not ok:
            break
        ops = [new_encoder, new_encoder, new_decoder] + ([encode] * 5 if encs else []) + ([decode] * 4 if decs and kept else [])
        r = rng.random()
        if r < 0.06:
            ok = reload()
        elif r < 0.1:
            bad()
        else:
            rng.choice(ops)()
    shutil.rmtree(core_root)
    family = {"llama_tt": "llama", "llama4_tt": "llama", "llama_hg": "llama"}.get(fam, fam)
    return {"cfg": {"family": family, "vs": vs}, "ev": evs, "_info": {"family": fam, "seed": seed}}


def references(rng):
    from fairseq2.assets import AssetCard, AssetCardError
    from fairseq2.data.tokenizers.ref import resolve_tokenizer_reference

    evs = []
    for _ in range(8):
        n = rng.randrange(1, 6)
        names = [f"t{i}" for i in range(n)]
        cards = [{"name": x, "to": rng.choice(["", ""] + names + ["nowhere"])} for x in names]
        start = rng.choice(names)
        asked = []

        class Store:
            def maybe_retrieve_card(self, name):
                asked.append(name)
                if len(asked) > 50:
                    raise RecursionError("endless")
                for c in cards:
                    if c["name"] == name:
                        return AssetCard(name, {"name": name} | ({"tokenizer_ref": c["to"]} if c["to"] else {}))
                return None

        store = Store()
        try:
            got = resolve_tokenizer_reference(store, store.maybe_retrieve_card(start)).name
        except AssetCardError:
            got = "refused"
        except Exception as ex:  # noqa: BLE001
            got = f"{type(ex).__name__}: {ex}"
        evs.append({"op": "ref", "cards": cards, "start": start, "got": got})
    return {"cfg": {"family": "", "vs": []}, "ev": evs, "_info": {"family": "references"}}


def run(ctx):
    tlc.model_check(ctx, "TokenizerDesign", overrides={"MaxText": ctx.pick("3", "4"), "MaxToks": ctx.pick("2", "2")}, timeout=850)
    cases = []
    for fam in SAYS:
        n = ctx.pick(6 if fam == "llama4_tt" else 30, 60 if fam == "llama4_tt" else 400)
        cases += [(fam, ctx.rng.randrange(2**31), str(ctx.scratch)) for _ in range(n)]
    cases += [("ref", ctx.rng.randrange(2**31), "") for _ in range(ctx.pick(40, 400))]
    traces = pmap(ctx, play, cases, 6)
    evs = [e for t in traces for e in t["ev"]]
    for op in ("load", "bad", "encoder", "decoder", "encode", "decode", "ref"):
        ctx.count(op, sum(e["op"] == op for e in evs))
    ctx.count("refused modes", sum(e["op"] == "encoder" and e["err"] == "refused" for e in evs))
    ctx.count("refused references", sum(e["op"] == "ref" and e["got"] == "refused" for e in evs))
    ctx.sample({"ev": traces[0]["ev"][:6]})
    ctx.assumptions.append("Regular expressions that split text into words are stood in for by one that separates spaces from other characters; the SentencePiece-based tokenizers need the native library, which cannot be built here.")
    tlc.validate(ctx, "TokenizerTrace", traces)

    def corrupt(t, rng):
        es = [e for e in t["ev"] if e["op"] in ("encode", "decode", "ref", "load")]
        e = rng.choice(es)
        if e["op"] == "encode":
            if len(e["ids"]) < 1:
                return None
            e["ids"].append(e["ids"][0])
            e["n"] += 1
        elif e["op"] == "decode":
            e["text"] = e["text"] + [33]
        elif e["op"] == "load":
            e["info"]["size"] -= 1
        else:
            e["got"] = "elsewhere"
        return t

    tlc.selftest(ctx, "TokenizerTrace", traces, corrupt)
