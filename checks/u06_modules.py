"""U06: creating, loading, moving, sharing and syncing modules keeps their structure and gives every rank the right content."""

from __future__ import annotations

import random
import tempfile
from pathlib import Path

from vlib import gloo, tlc
from vlib.pool import pmap

NAMES = ["a", "b", "c", "d"]
KIDS = ["x", "y", "z"]


# --- Modules -------------------------------------------------------------------------


class Universe:
    """Modules and their tensors, numbered."""

    def __init__(self):
        self.mods = []
        self.ids = {}
        self.keep = []

    def of(self, t):
        if id(t) not in self.ids:
            self.keep.append(t)
            self.ids[id(t)] = len(self.keep)
        return self.ids[id(t)]

    def index(self, m):
        for i, x in enumerate(self.mods):
            if x is m:
                return i + 1
        return 0

    def add(self, spec):
        import torch

        u = self

        class Node(torch.nn.Module):
            def __init__(self):
                super().__init__()
                self.slots = []

        def reset(self):
            with torch.no_grad():
                for i, (n, _) in enumerate(self.slots):
                    getattr(self, n).fill_(1000 * self.num + i + 1)

        def reset_np(self):
            with torch.no_grad():
                for i, (n, k) in enumerate(self.slots):
                    if k == "n":
                        getattr(self, n).fill_(1000 * self.num + i + 1)

        if spec["rs"]:
            Node.reset_parameters = reset
        if spec["rn"]:
            Node.reset_non_persistent_buffers = reset_np
        m = Node()
        u.mods.append(m)
        m.num = len(u.mods)
        return m

    def snap(self):
        mods, ten, seen = [], [], set()

        def see(t, g):
            i = self.of(t)
            if i not in seen:
                seen.add(i)
                ten.append({"t": i, "dev": t.device.type, "val": val(t), "rg": t.requires_grad, "g": g})
            return i

        for m in self.mods:
            own = []
            for n, p in m.named_parameters(recurse=False, remove_duplicate=False):
                g = 0
                if p.grad is not None:
                    g = see(p.grad, 0)
                own.append({"n": n, "t": see(p, g), "k": "p"})
            for n, b in m.named_buffers(recurse=False, remove_duplicate=False):
                own.append({"n": n, "t": see(b, 0), "k": "n" if n in m._non_persistent_buffers_set else "b"})
            kids = [{"n": n, "m": 0 if c is None else self.index(c)} for n, c in m._modules.items()]
            mods.append({"own": own, "kids": kids, "rs": hasattr(m, "reset_parameters"), "rn": hasattr(m, "reset_non_persistent_buffers")})
        return {"mods": mods, "ten": ten}


def val(t):
    if t.device.type == "meta":
        return 0
    v = {float(x) for x in t.detach().double().reshape(-1).tolist()}
    x = v.pop() if v else 0.0
    return int(x) if not v and x == int(x if x == x and abs(x) < 1e9 else 0) and 0 <= x < 900000 else 999999


def plan(rng, n, mixed):
    """Modules (children have larger numbers) and the tensors they hold."""
    tens = []
    for _ in range(rng.randrange(1, 7)):
        tens.append({"shape": rng.choice([[2], [], [2, 3], [3, 1]]), "dtype": rng.choice(["float32", "float32", "float64"]),
                     "meta": False, "rg": rng.random() < 0.7, "v": rng.randrange(1, 200), "g": 0, "flip": rng.random() < 0.2, "p": rng.random() < 0.6})
    meta = rng.choice([0, 0, 1, 2])
    mods = []
    for i in range(n):
        own = []
        names = rng.sample(NAMES, rng.choice([0, 1, 1, 2, 3]))
        dev = None
        for nm in names:
            k = rng.randrange(len(tens))
            kind = "p" if tens[k]["p"] else rng.choice("bn")
            own.append((nm, k, kind))
        mods.append({"own": own, "kids": [], "rs": rng.random() < 0.8, "rn": rng.random() < 0.5, "none": rng.random() < 0.2})
    for i in range(n):
        for nm in KIDS:
            r = rng.random()
            if i + 1 < n and r < 0.45:
                mods[i]["kids"].append((nm, rng.randrange(i + 1, n)))
            elif r > 0.9:
                mods[i]["kids"].append((nm, None))
    # Devices: of modules that share tensors as one.
    comp = list(range(n))
    for i in range(n):
        for j in range(i):
            if {k for _, k, _ in mods[i]["own"]} & {k for _, k, _ in mods[j]["own"]}:
                a, b = comp[i], comp[j]
                comp = [a if c == b else c for c in comp]
    on = {c: meta == 1 or (meta == 2 and rng.random() < 0.5) for c in set(comp)}
    for i in range(n):
        for _, k, _ in mods[i]["own"]:
            tens[k]["meta"] = on[comp[i]]
    if mixed:
        t = rng.choice(tens)
        t["meta"] = not t["meta"]
    for t in tens:
        if t["p"] and not t["meta"] and rng.random() < 0.15:
            t["g"] = rng.randrange(1, 200)
    return {"tens": tens, "mods": mods}


def twin(rng, p):
    """A plan of the same shape with tensors of its own."""
    import copy

    q = copy.deepcopy(p)
    for t in q["tens"]:
        t["v"] = rng.randrange(200, 400)
        t["g"] = 0 if rng.random() < 0.8 else t["g"]
    r = rng.random()
    m = rng.choice(q["mods"])
    if r < 0.15 and m["own"]:
        m["own"].pop()
    elif r < 0.25 and m["own"]:
        i = rng.randrange(len(m["own"]))
        nm, k, kind = m["own"][i]
        m["own"][i] = (nm, rng.choice([j for j, t in enumerate(q["tens"]) if t["p"] == q["tens"][k]["p"]]), kind)
    return q


def build(u, p, bump=0, meta=None):
    import torch

    made = []
    for t in p["tens"]:
        dev = "meta" if (t["meta"] if meta is None else meta) else "cpu"
        dt = getattr(torch, t["dtype"])
        x = torch.full(t["shape"], t["v"] + bump, dtype=dt, device=dev)
        if t["flip"] and t["shape"] == [2, 3]:
            x = torch.full(t["shape"][::-1], t["v"] + bump, dtype=dt, device=dev).t()
        if t["p"]:
            x = torch.nn.Parameter(x, requires_grad=t["rg"])
            if t["g"] and dev == "cpu":
                x.grad = torch.full_like(x, t["g"])
        made.append(x)
    ms = [u.add(m) for m in p["mods"]]
    for m, s in zip(ms, p["mods"]):
        for nm, k, kind in s["own"]:
            if kind == "p":
                m.register_parameter(nm, made[k])
            else:
                m.register_buffer(nm, made[k], persistent=kind == "b")
        # Parameters come first.
        m.slots = [(n, "p") for n, _, k in s["own"] if k == "p"] + [(n, k) for n, _, k in s["own"] if k != "p"]
        if s["none"]:
            m.register_parameter("nothing", None)
            m.register_buffer("nil", None)
        for nm, c in s["kids"]:
            m.register_module(nm, None if c is None else ms[c])
    return ms


def path(s):
    return s.split(".") if s else []


def dotted(n):
    return ".".join(n)


def play(c):
    import torch
    from fairseq2.models.utils.checkpoint import set_model_state
    from fairseq2.nn.utils import module as mu
    from fairseq2.utils.progress import NOOP_PROGRESS_REPORTER

    rng = random.Random(c["seed"])
    u = Universe()
    build(u, c["plan"])
    split = len(u.mods)
    if c["twin"]:
        build(u, c["twin"])
    evs = [{"op": "start", "after": u.snap()}]
    for _ in range(c["steps"]):
        roots = [1, 1, 1, rng.randrange(1, len(u.mods) + 1)]
        if c["twin"]:
            roots += [split + 1, split + 1]
        r = rng.choice(roots)
        m = u.mods[r - 1]
        op = rng.choice(["visit", "device", "device", "device", "empty", "reset", "resetnp", "infer", "share", "share", "freeze", "state", "ckpt", "grad"])
        ev = {"op": op, "root": r, "err": ""}
        try:
            if op == "visit":
                ev |= {"recurse": rng.random() < 0.8, "post": rng.random() < 0.5, "memo": rng.sample(range(1, len(u.mods) + 1), rng.choice([0, 0, 1])), "res": []}
                if not ev["recurse"]:
                    ev["memo"] = []
                memo = {u.mods[i - 1] for i in ev["memo"]} or rng.choice([None, set()])
                mu.visit_module(m, lambda n, x: ev["res"].append({"n": path(n), "m": u.index(x)}), recurse=ev["recurse"], post_order=ev["post"],
                                **({} if memo is None or not ev["recurse"] else {"memo": memo}))
            elif op == "device":
                ev["dev"] = rng.choice(["cpu", "cpu", "meta"])
                mu.to_device(m, torch.device(ev["dev"]))
            elif op == "empty":
                ev |= {"dev": rng.choice(["cpu", "meta"]), "recurse": rng.random() < 0.7}
                mu.to_empty(m, torch.device(ev["dev"]), recurse=ev["recurse"])
            elif op == "reset":
                ev["recurse"] = rng.random() < 0.7
                mu.reset_parameters(m, recurse=ev["recurse"])
            elif op == "resetnp":
                ev["recurse"] = rng.random() < 0.7
                mu.reset_non_persistent_buffers(m, recurse=ev["recurse"])
            elif op == "infer":
                ev["recurse"] = rng.random() < 0.7
                d = mu.maybe_infer_device(m, recurse=ev["recurse"])
                ev["res"] = "none" if d is None else d.type
            elif op == "share":
                if not c["twin"]:
                    continue
                a, b = rng.choice([(1, split + 1), (split + 1, 1), (1, r)])
                kinds = [[[n for n, _ in u.mods[i - 1].named_parameters()], [n for n, _ in u.mods[i - 1].named_buffers()]] for i in (a, b)]
                if sum(kinds[0], []) == sum(kinds[1], []) and kinds[0] != kinds[1]:
                    continue  # a parameter here, a buffer there
                ev |= {"src": a, "root": b}
                mu.share_parameters(u.mods[a - 1], u.mods[b - 1])
            elif op == "freeze":
                ev["value"] = rng.random() < 0.5
                mu.freeze_parameters(m, ev["value"])
            elif op == "grad":
                ev["op"] = "take"  # not an operation of the library: the heap is taken as it is
                for p in m.parameters():
                    if rng.random() < 0.5:
                        p.grad = None if rng.random() < 0.7 or p.device.type == "meta" else torch.full_like(p.detach(), rng.randrange(200))
            else:
                sd = {k: v for k, v in m.state_dict().items()}
                given = []
                for k, v in sd.items():
                    if rng.random() < (0.03 if op == "state" else 0.1):
                        continue
                    fits = op == "state" or rng.random() < 0.98
                    given.append({"n": path(k), "v": rng.randrange(400, 600), "fits": fits, "shape": list(v.shape) if fits else [5]})
                if rng.random() < 0.12:
                    where = [dotted([x for x in path(n) + [k]]) for n, x in m.named_modules(remove_duplicate=False) for k, y in x._modules.items() if y is None]
                    n = rng.choice([w + "." + rng.choice(["w", "x.w"]) for w in where] or ["q"]) if rng.random() < 0.7 else rng.choice(["q", "a.w", "x.q"])
                    if n not in sd:
                        given.append({"n": path(n), "v": 1, "fits": True, "shape": [1]})
                if op == "ckpt":
                    rng.shuffle(given)
                    if given and rng.random() < 0.03:
                        given.append(dict(rng.choice(given)))
                full = [(dotted(g["n"]), torch.full(g["shape"], float(g["v"]))) for g in given]
                ev["st"] = [{"n": g["n"], "v": g["v"], "fits": g["fits"]} for g in given]
                if op == "state":
                    ev["strict"] = rng.random() < 0.8
                    mu.load_state_dict(m, dict(full), ev["strict"])
                else:
                    set_model_state(m, iter(full), NOOP_PROGRESS_REPORTER)
        except Exception as ex:  # noqa: BLE001
            ev["err"] = type(ex).__name__
            ev["_text"] = str(ex)[:300]
        ev["after"] = u.snap()
        evs.append(ev)
    return {"cfg": {}, "ev": evs, "_info": {"ops": [e["op"] for e in evs]}}


def case(rng):
    n = rng.randrange(1, 5)
    p = plan(rng, n, rng.random() < 0.06)
    return {"plan": p, "twin": twin(rng, p) if rng.random() < 0.5 else None, "steps": rng.choice([2, 4, 6]), "seed": rng.randrange(1 << 30)}


# --- Several ranks -------------------------------------------------------------------


def sync_body(root, cases):
    from fairseq2.gang import create_parallel_gangs
    from fairseq2.nn.utils.module import broadcast_module

    gangs = create_parallel_gangs(root, tp_size=2) if root.size == 4 else None
    out = []
    for c in cases:
        gang = root if c["gang"] == "root" else getattr(gangs, c["gang"])
        src = c["src"] % gang.size
        u = Universe()
        build(u, c["plan"], bump=0 if c["alike"] else 3 * root.rank, meta=c["meta"][root.rank])
        before = u.snap()
        skip = {u.mods[i - 1] for i in c["skip"]}
        err = ""
        try:
            broadcast_module(u.mods[0], gang, source_rank=src, non_persistent_buffers=c["np"], **({"skip_modules": skip} if skip else {}))
        except Exception as ex:  # noqa: BLE001
            err = f"{type(ex).__name__}: {str(ex)[:200]} {str(ex.__cause__)[:200]}"
        out.append({"src": src, "members": None if c["gang"] == "root" else c["gang"], "before": before, "after": u.snap(), "err": err})
    return out


def toy(meta_ok, tied):
    import torch
    from fairseq2.nn.utils.module import to_empty  # noqa: F401

    rank = toy.rank

    class Leaf(torch.nn.Module):
        def __init__(self, w=None):
            super().__init__()
            self.w = torch.nn.Parameter(torch.empty(2, 3)) if w is None else w
            self.register_buffer("s", torch.empty(2))
            self.register_buffer("f", torch.empty(3), persistent=False)
            self.reset_parameters()

        def reset_parameters(self):
            with torch.no_grad():
                self.w.fill_(rank + 1)
                self.s.fill_(rank + 1)
            self.reset_non_persistent_buffers()

        def reset_non_persistent_buffers(self):
            self.f.fill_(rank + 1)

    class Toy(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.one = Leaf()
            self.two = torch.nn.ModuleList([Leaf(self.one.w if tied else None), Leaf()])
            self.frozen = torch.nn.Parameter(torch.empty(()), requires_grad=False)
            self.reset_parameters()

        def reset_parameters(self):
            with torch.no_grad():
                self.frozen.fill_(rank + 1)

    return Toy


toy.rank = 0

KIND = {"w": "p", "frozen": "p", "s": "b", "f": "n"}


def family(c):
    import torch
    from fairseq2.assets import AssetConfigLoader, AssetDownloadManager
    from fairseq2.file_system import FileSystem
    from fairseq2.model_checkpoint import ModelCheckpointLoader
    from fairseq2.models.family import StandardModelFamily
    from fairseq2.runtime.dependency import get_dependency_resolver
    from fairseq2.runtime.lookup import Lookup
    from fairseq2.sharder import ModelSharder
    from fairseq2.utils.progress import ProgressReporter
    from fairseq2.utils.validation import ObjectValidator

    kls = toy(c["sm"], c["tied"])

    class Cfg:
        pass

    class Configs(Lookup):
        def maybe_get(self, key):
            return None

        def iter_keys(self):
            return iter(())

        @property
        def kls(self):
            return Cfg

    r = get_dependency_resolver()
    conv = None
    if c["convert"] or c["fmt"] == "model":
        def conv(sd, config):
            return {k.replace("ein.", "one."): v for k, v in sd.get("model", sd).items()}
    f = StandardModelFamily(
        "toy", kls, Configs(), lambda config: kls(), r.resolve(FileSystem), r.resolve(ObjectValidator), r.resolve(AssetDownloadManager), r.resolve(AssetConfigLoader),
        r.resolve(ModelCheckpointLoader), c["sm"], True, r.resolve(ModelSharder), conv, None, None, None, None, r.resolve(ProgressReporter),
    )
    return f, Cfg()


def contents(model):
    import torch

    slots = []
    for it in (model.named_parameters(remove_duplicate=False), model.named_buffers()):
        for n, t in it:
            slots.append({"n": n, "k": KIND[n.rsplit(".", 1)[-1]], "c": val(t)})
    return {
        "slots": slots, "dtypes": sorted({str(t.dtype).removeprefix("torch.") for t in model.state_dict().values()}),
    }


def write_checkpoint(dir, c):
    import torch

    sd = {"one.w": (2, 3), "one.s": (2,), "two.0.s": (2,), "two.1.w": (2, 3), "two.1.s": (2,), "frozen": ()}
    if not c["tied"] or c["twice"]:
        sd["two.0.w"] = (2, 3)
    sd = {k: torch.full(v, 100.0) for k, v in sd.items()}
    if c["bad"] == "missing":
        del sd["two.1.s"]
    if c["bad"] == "shape":
        sd["two.1.w"] = torch.zeros(3, 3)
    if c["bad"] == "extra":
        sd["two.1.f"] = torch.zeros(3)
    if c["convert"]:
        sd = {k.replace("one.", "ein."): v for k, v in sd.items()}
    f = Path(dir) / "model.pt"
    if c["bad"] == "damaged":
        f.write_bytes(b"PK\x03\x04 no")
    elif c["bad"] != "absent":
        if c["fmt"] == "dir":
            f = Path(dir) / "ckpt"
            d = f / "pp_00" / "tp_00"
            d.mkdir(parents=True)
            torch.save(sd, d / "sdp_00.pt")
        else:
            torch.save(sd if c["fmt"] == "flat" else {"model": sd, "other": 1}, f)
    return f


def load_body(root, cases, dirs):
    import torch
    from fairseq2.device import set_device  # noqa: F401
    from fairseq2.gang import create_parallel_gangs

    tp = 2 if root.size == 4 else 1
    gangs = create_parallel_gangs(root, tp_size=tp)
    out = []
    for c, f in zip(cases, dirs):
        out.append(load_one(c, f, gangs, root))
    return out


def load_one(c, f, gangs, root):
    import torch

    toy.rank = root.rank
    err, got = "", {"slots": [], "dtypes": [c["dtype"]]}
    tied = True
    try:
        fam, cfg = family(c)
        dt = getattr(torch, c["dtype"])
        if c["op"] == "new":
            m = fam.create_new_model(cfg, gangs, dt, c["meta"], c["first"])
        else:
            m = fam.load_custom_model(f, cfg, gangs, dt, c["first"], c["mmap"], None)
        got = contents(m)
        tied = (m.one.w is m.two[0].w) == c["tied"] and m.two[1].w is not m.one.w and m.one.w.requires_grad and not m.frozen.requires_grad
    except Exception as ex:  # noqa: BLE001
        import traceback

        err = type(ex).__name__ if c["bad"] else f"{type(ex).__name__}: {ex} {traceback.format_exc()[-400:]}"
    return {"rank": root.rank, "dp": gangs.dp.rank, **got, "tied": tied, "err": err}


def load_case(rng, n):
    op = rng.choice(["new", "load"])
    sm = rng.random() < 0.7
    return {"op": op, "sm": sm, "meta": op == "new" and sm and rng.random() < 0.25, "first": rng.random() < 0.35, "tied": rng.random() < 0.5, "twice": rng.random() < 0.4,
            "dtype": rng.choice(["float32", "float64", "bfloat16"]), "mmap": rng.random() < 0.5, "fmt": rng.choice(["flat", "model", "dir"]), "convert": rng.random() < 0.3,
            "bad": "" if n > 1 or op == "new" or rng.random() < 0.4 else rng.choice(["missing", "shape", "extra", "damaged", "absent"])}


BAD = {"missing": "CorruptModelCheckpointError", "shape": "CorruptModelCheckpointError", "extra": "CorruptModelCheckpointError", "damaged": "CorruptModelCheckpointError",
       "absent": "FileNotFoundError"}


def load_event(c, ranks, tp):
    return {"cfg": {}, "ev": [{"o": {"op": c["op"], "meta": c["meta"], "first": c["first"], "sm": c["sm"]}, "tp": tp, "dtype": c["dtype"], "bad": BAD.get(c["bad"], ""),
                               "err": ranks[0]["err"], "errs": [r["err"] for r in ranks], "ranks": ranks}], "_info": c}


def single(c):
    import torch
    from fairseq2.gang import FakeGang, create_parallel_gangs

    g = FakeGang(torch.device("cpu"))
    with tempfile.TemporaryDirectory() as d:
        f = write_checkpoint(d, c)
        r = load_one(c, f, create_parallel_gangs(g), g)
    return load_event(c, [r], 1)


def sync_traces(ctx, n, count):
    rng = ctx.rng
    cases = []
    for _ in range(count):
        p = plan(rng, rng.randrange(1, 5), False)
        for t in p["tens"]:
            t["g"] = 0 if rng.random() < 0.9 else t["g"]
        gang = "root" if n != 4 else rng.choice(["root", "dp", "dp", "tp"])
        src = rng.randrange(n)
        meta = [rng.random() < 0.3 for _ in range(n)]
        if rng.random() < 0.6:
            meta = [False] * n
        elif rng.random() < 0.5:
            meta = [True] * n
        # What has no content and cannot be reset has nothing to be compared.
        if any(meta):
            for m in p["mods"]:
                m["rs"] = True
        cases.append({"plan": p, "gang": gang, "src": src, "alike": False, "meta": meta, "np": rng.random() < 0.4,
                      "skip": [rng.randrange(1, len(p["mods"]) + 1)] if rng.random() < 0.3 else []})
    res = gloo.world(n, sync_body, cases, timeout=150)
    for r, (st, x) in enumerate(res):
        if st != "ok":
            ctx.violation(f"syncing modules on {n} ranks: rank {r} {st}: {x}")
            return []
    out = []
    for i, c in enumerate(cases):
        groups = [list(range(n))]
        if c["gang"] == "dp":
            groups = [[0, 2], [1, 3]]
        elif c["gang"] == "tp":
            groups = [[0, 1], [2, 3]]
        for g in groups:
            x = [res[r][1][i] for r in g]
            errs = {y["err"] for y in x}
            out.append({"cfg": {}, "ev": [{"op": "sync", "root": 1, "src": x[0]["src"], "skip": c["skip"], "np": c["np"], "err": ";".join(sorted(errs - {""})),
                                           "before": [y["before"] for y in x], "after": [y["after"] for y in x]}], "_info": {"gang": c["gang"], "meta": c["meta"]}})
    return out


def load_traces(ctx, n, count):
    cases = [load_case(ctx.rng, n) for _ in range(count)]
    with tempfile.TemporaryDirectory(dir=ctx.scratch) as d:
        dirs = []
        for i, c in enumerate(cases):
            x = Path(d) / str(i)
            x.mkdir()
            dirs.append(write_checkpoint(x, c))
        res = gloo.world(n, load_body, cases, dirs, timeout=150)
    for r, (st, x) in enumerate(res):
        if st != "ok":
            ctx.violation(f"models on {n} ranks: rank {r} {st}: {x}")
            return []
    return [load_event(c, [res[r][1][i] for r in range(n)], 2 if n == 4 else 1) for i, c in enumerate(cases)]


def run(ctx):
    tlc.model_check(ctx, "ModuleHeapDesign", overrides=ctx.pick({"Most": "2"}, {"Most": "3", "Depth": "3"}))
    tlc.model_check(ctx, "ModelLoadDesign", overrides=ctx.pick({}, {"Dp": "3", "Tp": "3"}))
    from fairseq2 import init_fairseq2

    init_fairseq2(no_progress=True)
    rng = ctx.rng
    traces = pmap(ctx, play, [case(rng) for _ in range(ctx.pick(1500, 20000))], 25)
    ctx.count("operations", sum(len(t["ev"]) - 1 for t in traces))
    ctx.count("refused operations", sum(1 for t in traces for e in t["ev"] if e.get("err")))
    tlc.validate(ctx, "ModuleHeapTrace", traces)
    syncs = []
    for _ in range(ctx.pick(1, 8)):
        syncs += sync_traces(ctx, 3, ctx.pick(60, 200)) + sync_traces(ctx, 4, ctx.pick(80, 200))
    ctx.count("modules synced", len(syncs))
    if syncs:
        tlc.validate(ctx, "ModuleHeapTrace", syncs)
    loads = pmap(ctx, single, [load_case(rng, 1) for _ in range(ctx.pick(150, 1000))], 10)
    for _ in range(ctx.pick(1, 6)):
        loads += load_traces(ctx, 2, ctx.pick(30, 60)) + load_traces(ctx, 4, ctx.pick(60, 120))
    ctx.count("models made or loaded", len(loads))
    tlc.validate(ctx, "ModelLoadTrace", loads)

    def corrupt(t, rng):
        if len(t["ev"]) < 2:
            return None
        e = rng.choice(t["ev"][1:])
        ten = [x for x in e["after"]["ten"] if x["dev"] == "cpu"]
        if e["op"] == "take" or e["err"] or not ten or e["op"] == "empty":
            return None
        own = [s for m in e["after"]["mods"] for s in m["own"]]
        if rng.random() < 0.5 and len({s["t"] for s in own}) > 1:
            s = rng.choice(own)
            s["t"] = rng.choice([x["t"] for x in own if x["t"] != s["t"]])
        else:
            rng.choice(ten)["rg"] ^= True
        return t

    def corrupt_load(t, rng):
        r = rng.choice(t["ev"][0]["ranks"])
        if t["ev"][0]["bad"]:
            t["ev"][0]["err"] = "KeyError"
        elif not r["slots"]:
            return None
        else:
            rng.choice(r["slots"])["c"] += 1
        return t

    tlc.selftest(ctx, "ModuleHeapTrace", traces, corrupt)
    tlc.selftest(ctx, "ModelLoadTrace", loads, corrupt_load)
