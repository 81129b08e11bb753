"""S01: a checkpoint written under one layout is loaded under any other."""

from __future__ import annotations

import math
import random
from pathlib import Path

from vlib import gloo, tlc
from vlib.pool import pmap
from vlib.tiny import LMS

WHOLE = 2


def _full(p):
    import torch

    t = (torch.arange(p["rows"] * p["cols"]) + p["base"]).float().view(p["rows"], p["cols"])
    return t[:, 0].clone() if p["vec"] else t


def _slice(t, dim, n, r):
    return t if dim == WHOLE else t.chunk(n, dim=dim)[r].clone()


def _rows(t, n, s):
    cs = t.chunk(n, dim=0)
    return cs[s].clone() if s < len(cs) else t[:0].clone()


def _seen(t):
    """Columns, and first elements of rows of consecutive numbers."""
    if t.ndim != 2:
        t = t.reshape(t.shape[0], -1) if t.ndim else t.reshape(1, 1)
    a = t.to("cpu").double().tolist()
    whole = all(r and all(r[j] == r[0] + j for j in range(len(r))) and r[0] == int(r[0]) for r in a)
    return {"whole": whole, "cols": t.shape[1], "starts": [int(r[0]) for r in a] if whole else [int(x) for r in a for x in r]}


def _gangs(tp, r):
    import torch

    from fairseq2.gang import FakeGang, Gangs

    one = FakeGang(torch.device("cpu"))
    t = FakeGang(torch.device("cpu"), rank=r, size=tp)
    return Gangs(root=t, dp=one, rdp=one, sdp=one, tp=t, pp=one)


def _loader():
    from fairseq2.model_checkpoint import ModelCheckpointLoader
    from fairseq2.runtime.dependency import get_dependency_resolver

    return get_dependency_resolver().resolve(ModelCheckpointLoader)


def _write(fmt, path: Path, files):
    """files: [tp][dp] -> dict"""
    import torch

    if fmt == "native":
        for t, dps in enumerate(files):
            d = path / "pp_00" / f"tp_{t:02d}"
            d.mkdir(parents=True)
            for s, x in enumerate(dps):
                torch.save(x, d / f"sdp_{s:02d}.pt")
        return path
    if fmt == "llama":
        path.mkdir()
        for t, dps in enumerate(files):
            torch.save(dps[0], path / f"consolidated.{t:02d}.pth")
        return path
    if fmt == "basic":
        f = path.with_suffix(".pt")
        torch.save(files[0][0], f)
        return f
    from safetensors.torch import save_file

    x = {k: v.contiguous() for k, v in files[0][0].items()}
    ks = list(x)
    if len(ks) % 2 == 0:
        f = path.with_suffix(".safetensors")
        save_file(x, f)
        return f
    path.mkdir()
    n = min(len(ks), 3)
    for i in range(n):
        save_file({k: x[k] for k in ks[i::n]}, path / f"model-{i + 1}-of-{n}.safetensors")
    return path


def _load(ev, path, dims, gangs, mmap):
    from fairseq2.model_checkpoint import CorruptModelCheckpointError, ModelCheckpointLoadOptions

    try:
        got = [(k, v) for k, v in _loader().lazy_load(path, dims, ModelCheckpointLoadOptions(gangs=gangs, mmap=mmap))]
        ev["res"] = "ok"
    except CorruptModelCheckpointError:
        ev["res"], got = "corrupt", []
    except FileNotFoundError:
        ev["res"], got = "absent", []
    except Exception as ex:  # noqa: BLE001
        ev["res"], got = f"{type(ex).__name__}: {str(ex)[:200]}", []
    ev["got"] = [{"key": k} | _seen(v) for k, v in got]
    return dict(got)


def _pars(rng, sizes, n):
    pars, base = [], 0
    for i in range(n):
        dim = rng.choice([0, 0, 1, 1, WHOLE])
        m = math.lcm(*sizes)
        rows, cols = rng.randrange(1, 8), rng.randrange(1, 6)
        vec = rng.random() < 0.3
        if vec:
            cols, dim = 1, dim if dim != 1 else 0
        if dim == 0:
            rows = m * rng.randrange(1, 3)
        elif dim == 1:
            cols = m * rng.randrange(1, 3)
        pars.append({"key": f"p{i}.{rng.choice(['weight', 'bias'])}", "rows": rows, "cols": cols, "vec": vec, "base": base, "dim": dim})
        base += rows * cols + 3
    return pars


def _harm(rng, fmt, path, files, tgt):
    """Damages the checkpoint; where, for a rank that reads the damaged place only."""
    import torch

    t, s = rng.randrange(len(files)), rng.randrange(len(files[0]))
    where = {"native": path / "pp_00" / f"tp_{t:02d}" / f"sdp_{s:02d}.pt", "llama": path / f"consolidated.{t:02d}.pth"}.get(fmt)
    if where is None:
        where = path if path.is_file() else sorted(path.iterdir())[-1]
    kinds = ["garbage", "short", "hollow", "missing"]
    if fmt != "tensors":
        kinds.append("alien")
    if fmt == "native" and len(files[0]) > 1 and len(files) > 1:
        kinds += ["hole"] * 2
    if fmt == "native":
        kinds.append("empty")
    if fmt == "tensors" and path.is_dir():
        kinds += ["twice"] * 2
    if len(files) > 1 and tgt != len(files):
        kinds += ["dropped", "misshapen"]
    kind = rng.choice(kinds)
    if kind == "garbage":
        where.write_bytes(bytes(rng.randrange(256) for _ in range(200)))
    elif kind == "short":
        b = where.read_bytes()
        where.write_bytes(b[: len(b) // 2])
    elif kind == "hollow":
        where.write_bytes(b"")
    elif kind == "missing":
        return {"kind": kind, "tp": 99}, path.parent / "elsewhere"
    elif kind == "alien":
        x = torch.load(where)
        if not x:
            return {"kind": "none", "tp": 99}, path
        x[rng.choice(list(x))] = rng.choice(["text", 3, [1.0]])
        torch.save(x, where)
    elif kind == "hole":
        where.unlink()
        t = 99
    elif kind == "empty":
        import shutil

        shutil.rmtree(path / "pp_00" / "tp_00")
        t = 99
    elif kind == "twice":
        from safetensors.torch import load_file, save_file

        save_file(load_file(where), path / "more.safetensors")
    elif kind == "dropped":  # a parameter is in the first slice only
        t = rng.randrange(1, len(files))
        k = rng.choice([k for k, d in files[0][0].items()])
        for s, _ in enumerate(files[t]):
            f = path / "pp_00" / f"tp_{t:02d}" / f"sdp_{s:02d}.pt" if fmt == "native" else path / f"consolidated.{t:02d}.pth"
            x = torch.load(f)
            x.pop(k, None)
            torch.save(x, f)
        return {"kind": kind, "tp": 99, "key": k}, path
    elif kind == "misshapen":
        x = torch.load(where)
        if not x:
            return {"kind": "none", "tp": 99}, path
        k = rng.choice(list(x))
        x[k] = torch.zeros(*[n + 1 for n in x[k].shape], 2)
        torch.save(x, where)
        return {"kind": kind, "tp": t, "key": k}, path
    return {"kind": kind, "tp": t}, path


def load_case(case):
    import tempfile

    import torch

    seed, scratch, way = case
    rng = random.Random(seed)
    tmp = Path(tempfile.mkdtemp(dir=scratch))
    path_of = iter(tmp / f"c{i}" for i in range(99))
    evs = []
    if way is not None:  # a way through layouts, each saved from what was loaded under the one before
        sizes = sorted({t for t, _ in way["way"]})
        first = way["par"]
        pars = [{"key": "p", "rows": first["rows"], "cols": first["cols"], "vec": False, "base": 0, "dim": first["dim"]}]
        extra = _pars(rng, sizes, rng.randrange(1, 4))
        for p in extra:
            p["base"] += 100
        pars += extra
        src = (1, 1)
        moves = [tuple(m) for m in way["way"]]
    else:
        src = (rng.choice([1, 2, 3, 4, 6, 8]), rng.choice([1, 1, 2, 3, 4]))
        tgt = rng.choice([1, 2, 3, 4, 6, 8, src[0]])
        pars = _pars(rng, [src[0], tgt], rng.randrange(1, 6))
        moves = [(tgt, 1)]
    dims = {p["key"]: p["dim"] for p in pars if p["dim"] != WHOLE}
    held = [[{p["key"]: _rows(_slice(_full(p), p["dim"], src[0], t), src[1], s) for p in pars} for s in range(src[1])] for t in range(src[0])]
    for i, (tp, dp) in enumerate(moves):
        fmts = ["native"] * 3
        if src[1] == 1:
            fmts += ["llama"] * 2
            if src[0] == 1:
                fmts += ["basic", "tensors"]
        fmt = rng.choice(fmts)
        # Rows that end early may be left out of the later files.
        files = [[dict(x) for x in dps] for dps in held]
        if rng.random() < 0.5:
            for dps in files:
                for x in dps[1:]:
                    for k in [k for k, v in x.items() if v.shape[0] == 0]:
                        del x[k]
        # Names that share one tensor.
        if fmt != "tensors" and rng.random() < 0.3:
            for dps in files:
                for x in dps:
                    for k in list(files[0][0])[:1]:
                        if k in x:
                            x["zz.tied." + k] = x[k]
            if (k := next(iter(files[0][0]))) in dims:
                dims["zz.tied." + k] = dims[k]
        path = _write(fmt, next(path_of), files)
        harm = {"kind": "none", "tp": 99}
        if way is None and rng.random() < 0.35:
            harm, path = _harm(rng, fmt, path, files, tp)
        new = []
        mmap = rng.random() < 0.3
        for r in range(tp):
            ev = {"op": "load", "fmt": fmt, "src": {"tp": src[0], "dp": src[1]}, "tp": tp, "rank": r, "pars": pars, "harm": harm}
            got = _load(ev, path, dims, _gangs(tp, r), mmap)
            evs.append(ev)
            new.append([{k: _rows(v, dp, s) for k, v in got.items()} for s in range(dp)])
        if evs[-1]["res"] != "ok":
            break
        held, src = new, (tp, dp)
    harm = evs[-1]["harm"]
    if harm["kind"] == "dropped" and harm["key"] not in dims or harm["kind"] == "misshapen" and (harm["key"] not in dims or src[1] == 0):
        # Only one copy of a parameter that is not cut is looked at.
        return None
    return {"cfg": {}, "ev": evs, "_info": {"seed": seed, "way": way}}


# Models --------------------------------------------------------------------


def _family(name):
    from fairseq2.models import ModelFamily
    from fairseq2.runtime.dependency import get_dependency_resolver
    from fairseq2.runtime.dependency import DependencyLookup

    return DependencyLookup(get_dependency_resolver(), ModelFamily).maybe_get(name)


def _config(rng, name, tp):
    if name == "llama":
        from fairseq2.models.llama import LLaMAConfig

        return LLaMAConfig(
            model_dim=16, max_seq_len=16, vocab_size=16, tied_embeddings=tp == 1 and rng.random() < 0.5, shard_embed_dim=False, num_layers=rng.randrange(1, 3), num_attn_heads=4,
            num_key_value_heads=4, ffn_inner_dim=24, ffn_inner_dim_multiple_of=8,
        )
    from fairseq2.models.qwen import QwenConfig

    return QwenConfig(
        model_dim=16, max_seq_len=16, vocab_size=16, tied_embeddings=tp == 1 and rng.random() < 0.5, num_layers=1, num_attn_heads=4, num_key_value_heads=4,
        qkv_proj_bias=rng.random() < 0.7, q_norm=rng.random() < 0.5, k_norm=rng.random() < 0.5, ffn_inner_dim=24,
    )


def model_case(case):
    import tempfile

    import torch

    from fairseq2.model_checkpoint import CorruptModelCheckpointError

    seed, scratch = case
    rng = random.Random(seed)
    tmp = Path(tempfile.mkdtemp(dir=scratch))
    name = rng.choice(["llama", "qwen"])
    family = _family(name)
    src, tgt, dp = rng.choice([1, 2, 4]), rng.choice([1, 2, 4]), rng.choice([1, 1, 2, 3])
    config = _config(rng, name, max(src, tgt))
    if name == "llama" and not config.tied_embeddings and rng.random() < 0.5:
        config.shard_embed_dim = True

    def state(tp, r):
        model = family.create_new_model(config, _gangs(tp, r), torch.float32, False, False)
        return dict(model.state_dict())

    base, full = 0, {}
    whole = {k: v.shape for k, v in state(1, 0).items()}
    cut = {k: v.shape for k, v in state(src, 0).items()}
    for k, sh in whole.items():
        n = math.prod(sh)
        full[k] = (torch.arange(n) + base).float().view(sh)
        if not (config.tied_embeddings and k == "decoder_frontend.embed.weight"):
            base += n + 5
    if config.tied_embeddings:
        full["final_proj.weight"] = full["decoder_frontend.embed.weight"]

    def mine(k, tp, shapes, r):
        d = [i for i, (a, b) in enumerate(zip(whole[k], shapes[k])) if a != b]
        return full[k].chunk(tp, dim=d[0])[r].clone() if d else full[k].clone()

    files = []
    for t in range(src):
        x = {k: mine(k, src, cut, t) for k in whole}
        files.append([{k: _rows(v, dp, s) for k, v in x.items()} for s in range(dp)])
    harm = "none"
    if rng.random() < 0.35:
        kinds = ["lost key", "extra key", "wrong shape"]
        if dp > 1:
            kinds.append("lost file")
        if src > 1:
            kinds += ["lost slice", "lost key later", "bent slice"]
        harm = rng.choice(kinds)
        k = rng.choice([k for k in whole if cut[k] != whole[k]] if src > 1 else list(whole))
        if config.tied_embeddings:
            k = "decoder.layer_norm.weight"
        if harm == "lost key":
            for dps in files:
                for x in dps:
                    del x[k]
        elif harm == "extra key":
            for dps in files:
                for x in dps:
                    x["alien.weight"] = torch.ones(3)
        elif harm == "wrong shape":
            for dps in files:
                for x in dps:
                    x[k] = torch.cat([x[k], x[k]], -1)
        elif harm == "lost file":
            files = [dps[:1] for dps in files]
        elif harm == "lost slice":
            files = files[:1] + files[2:]
        elif harm == "bent slice":
            for x in files[-1]:
                x[k] = torch.stack([x[k], x[k]], -1)
        elif harm == "lost key later":
            for x in files[-1]:
                del x[k]
    fmt = "native"
    if name == "llama" and dp == 1 and rng.random() < 0.6:
        fmt = "llama"
        if harm == "none" and rng.random() < 0.7:
            from fairseq2.models.llama import convert_to_ref_llama_state_dict

            files = [[convert_to_ref_llama_state_dict(dps[0]) | {"rope.freqs": torch.ones(2)}] for dps in files]
    elif src == 1 and dp == 1 and rng.random() < 0.6 and not config.tied_embeddings:
        fmt = rng.choice(["basic", "tensors"])
    path = _write(fmt, tmp / "c", files)
    evs = []
    for r in range(tgt):
        gangs = _gangs(tgt, r)
        ev = {"op": "model", "fmt": fmt, "tp": tgt, "rank": r, "src": {"tp": src, "dp": dp}, "harm": {"kind": harm}, "pars": [], "res": "ok"}
        if harm == "lost key later" and src == tgt and r != src - 1:
            continue
        try:
            model = family.load_custom_model(path, config, gangs, torch.float32, False, rng.random() < 0.3, None)
        except CorruptModelCheckpointError:
            ev["res"] = "corrupt"
        except Exception as ex:  # noqa: BLE001
            ev["res"] = f"{type(ex).__name__}: {str(ex)[:200]}"
        else:
            st = dict(model.state_dict())
            assert set(st) == set(whole)
            if config.tied_embeddings:
                assert st["final_proj.weight"].data_ptr() == st["decoder_frontend.embed.weight"].data_ptr(), "tied parameters came apart"
            for k, v in st.items():
                sh, lo = (tuple(x) if len(x) == 2 else (x[0], 1) for x in (whole[k], v.shape))
                ev["pars"].append({"key": k, "rows": sh[0], "cols": sh[1], "base": int(full[k].flatten()[0]), "lrows": lo[0], "lcols": lo[1], "got": _seen(v)})
        evs.append(ev)
    return {"cfg": {}, "ev": evs, "_info": {"seed": seed, "model": name}} if evs else None


# FSDP ----------------------------------------------------------------------


def _sample(rng, buffers):
    import torch
    from torch import nn

    class Sample(nn.Module):
        def __init__(self):
            super().__init__()
            self.i, b, c = rng.randrange(1, 7), rng.randrange(1, 7), rng.randrange(2, 9)
            self.a = nn.Linear(self.i, b)
            self.b = nn.Sequential(nn.Linear(b, c, bias=False), nn.LayerNorm(c))
            self.c = nn.Embedding(rng.randrange(1, 9), c)
            self.n = nn.BatchNorm1d(c) if buffers else None

        def forward(self, x):
            y = self.b(self.a(x[:, : self.i])) + self.c(torch.zeros(len(x), dtype=torch.int64))
            return y if self.n is None else self.n(y)

    return Sample()


def fsdp_world(root, seed, version, intra, buffers, tmp):
    import torch

    from fairseq2.gang import create_fsdp_gangs, create_parallel_gangs
    from fairseq2.nn.data_parallel import get_data_parallel_facade
    from fairseq2.nn.fsdp import fsdp_load_local_state_dict, load_with_sdp_gang, to_fsdp

    gangs = create_fsdp_gangs(create_parallel_gangs(root, tp_size=1), intra)

    wants = []

    def build(off):
        m = _sample(random.Random(seed), buffers)
        base = 0
        with torch.no_grad():
            for p in m.parameters():
                p.copy_((torch.arange(p.numel()) + base + off).view(p.shape))
                base += p.numel() + 4
            if buffers:
                m.n.running_mean.copy_(torch.arange(len(m.n.running_mean)) + 1 + off)
        x = torch.randn(3, 7, generator=torch.Generator().manual_seed(seed))
        with torch.no_grad():
            wants.append((x, m.eval()(x)))
        shapes = [(k, tuple(v.shape), int(v.flatten()[0])) for k, v in m.named_parameters()]

        def applier(module, wrap):
            module.a = wrap(module.a, True)
            return module

        return to_fsdp(m, gangs, applier, version=version, broadcast_state=False), shapes

    model, shapes = build(0)
    facade = get_data_parallel_facade(model)
    with load_with_sdp_gang(gangs):
        mine = facade.state_dict()
    f = Path(tmp) / "pp_00" / "tp_00" / f"sdp_{gangs.sdp.rank:02d}.pt"
    f.parent.mkdir(parents=True, exist_ok=True)
    if gangs.rdp.rank == 0:
        torch.save(mine, f)
    root.barrier()
    other, _ = build(1000)
    with load_with_sdp_gang(gangs):
        back = torch.load(f, weights_only=False)
        of = get_data_parallel_facade(other)
        fsdp_load_local_state_dict(other, back)
        again = of.state_dict()
    ev = {"op": "fsdp", "version": version, "dp": gangs.sdp.size, "rank": gangs.sdp.rank, "pars": [], "res": "ok"}
    with of.summon_full_parameters():
        summoned = {k.replace("_fsdp_wrapped_module.", ""): v.detach().clone() for k, v in other.named_parameters()}
    with torch.no_grad():
        ev["forward"] = all(torch.allclose(m.eval()(wants[0][0]), wants[0][1]) for m in (model, other))
    for k, sh, b in shapes:
        rows, cols = sh if len(sh) == 2 else (sh[0], 1)
        ev["pars"].append({"key": k, "rows": rows, "cols": cols, "base": b, "dim": WHOLE, "saved": _seen(mine[k].reshape(-1, cols)), "restored": _seen(again[k].reshape(-1, cols)), "summoned": _seen(summoned[k])})
    bufs = [(k, v.tolist()) for k, v in mine.items() if k not in {k for k, _, _ in shapes}]
    return ev, bufs


def fsdp_traces(ctx, case):
    i, n, intra, version, buffers = case
    tmp = Path(ctx.scratch) / f"fsdp{i}"
    tmp.mkdir()
    seed = ctx.seed * 1000 + i
    out = gloo.world(n, fsdp_world, seed, version, intra, buffers, str(tmp))
    bad = [o for o in out if o[0] != "ok"]
    if bad:
        ctx.violation(f"sharded data parallel of {n} ranks: {bad[0][1][:500]}", {"case": case, "out": bad})
        return []
    evs = [o[1][0] for o in out]
    info = {"case": case}
    traces = [{"cfg": {}, "ev": evs, "_info": info}]
    names = {p["key"] for p in evs[0]["pars"]}
    pars = [{k: p[k] for k in ("key", "rows", "cols", "base", "dim")} for p in evs[0]["pars"]]
    ev = {"op": "load", "fmt": f"fsdp {version}", "src": {"tp": 1, "dp": intra or n}, "tp": 1, "rank": 0, "pars": pars, "harm": {"kind": "none", "tp": 99}}
    if not buffers:
        _load(ev, tmp, {}, _gangs(1, 0), False)
        traces.append({"cfg": {}, "ev": [ev], "_info": info})
    else:
        wants = dict(out[0][1][1])
        for k, want in wants.items():
            # One buffer at a time, so that one does not hide the next.
            import torch

            one = tmp / k
            for s in range(intra or n):
                x = torch.load(tmp / "pp_00" / "tp_00" / f"sdp_{s:02d}.pt", weights_only=False)
                (one / "pp_00" / "tp_00").mkdir(parents=True, exist_ok=True)
                torch.save({a: b for a, b in x.items() if a == k}, one / "pp_00" / "tp_00" / f"sdp_{s:02d}.pt")
            e = dict(ev)
            got = _load(e, one, {}, _gangs(1, 0), False)
            vals = got[k].tolist() if k in got else e["res"]
            g = {"key": k, "vals": _text(vals), "want": _text(want)}
            traces.append({"cfg": {}, "ev": [{"op": "buffers", "kind": "FSDP", "got": [g]}], "_info": info})
    return traces


def _text(x):
    return str(x)


def corrupt(t, rng):
    e = rng.choice(t["ev"])
    if e["op"] == "load":
        if e["res"] != "ok":
            e["res"] = "ok" if e["harm"]["kind"] != "none" else "corrupt"
            return t if e["res"] == "corrupt" or e["pars"] else None
        g = rng.choice(e["got"])
        if rng.random() < 0.3:
            e["got"].remove(g)
            return t
        g["starts"] = [x + 1 for x in g["starts"]] if g["starts"] else [7]
        return t
    if e["op"] == "model" and e["pars"]:
        g = rng.choice(e["pars"])["got"]
        g["starts"][rng.randrange(len(g["starts"]))] += 1
        return t
    if e["op"] == "fsdp":
        g = rng.choice(e["pars"])["summoned"]
        g["starts"][-1] += 1
        return t
    return None


def run(ctx):
    from fairseq2 import init_fairseq2

    tlc.model_check(ctx, "ReshardDesign", overrides=ctx.pick({}, {"MaxDim": "12", "Sizes": "{1, 2, 3, 4, 6, 12}"}), timeout=800)
    ways = tlc.generate(ctx, "ReshardDesign", overrides={"MaxMoves": 4, "MaxDim": 6, "Emitting": "TRUE", "Sizes": "{1, 2, 3, 4}"}, num=ctx.pick(60, 600), depth=8, limit=ctx.pick(60, 600))
    # Worlds first: nothing in this process but torch and the library.
    worlds = [(0, 2, None, "v2", False), (1, 3, None, "v1", False), (2, 2, None, "v2", True)]
    if not ctx.quick:
        worlds += [(3, 4, 2, "v2", False), (4, 4, 2, "v1", False), (5, 3, None, "v2", False), (6, 4, None, "v1", False), (7, 2, None, "v1", True)]
        worlds += [(10 + i, ctx.rng.randrange(2, 5), None, ctx.rng.choice(["v1", "v2"]), False) for i in range(12)]
    init_fairseq2(no_progress=True)
    traces = []
    for w in worlds:
        traces += fsdp_traces(ctx, w)
    cases = [(ctx.seed * 100003 + i, str(ctx.scratch), None) for i in range(ctx.pick(500, 8000))]
    cases += [(ctx.seed * 100019 + i, str(ctx.scratch), w) for i, w in enumerate(ways)]
    traces += [t for t in pmap(ctx, load_case, cases, 20) if t]
    models = [(ctx.seed * 100043 + i, str(ctx.scratch)) for i in range(ctx.pick(120, 1500))]
    traces += [t for t in pmap(ctx, model_case, models, 8) if t]
    ctx.count("worlds", len(worlds))
    ctx.sample(traces[-1]["_info"])
    tlc.validate(ctx, "ReshardTrace", traces, chunk=200)
    tlc.selftest(ctx, "ReshardTrace", traces, corrupt)
