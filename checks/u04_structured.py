"""U04: typed configurations survive being written and read; other data is refused."""

from __future__ import annotations

import collections.abc as cabc
import copy
import dataclasses
import io
import json
import random
import typing
from enum import Enum
from pathlib import Path

from vlib import core, tlc
from vlib.pool import pmap

E1 = Enum("E1", ["A", "B"])
E2 = Enum("E2", ["B", "C", "1"])
ENUMS = {"E1": E1, "E2": E2}


def T(k, s="", c=(), f=(), d=()):
    return {"k": k, "s": s, "c": list(c), "f": list(f), "d": list(d)}


def V(t, n=0, s="", c=()):
    return {"t": t, "n": n, "s": s, "c": list(c)}


SCAL = [T(k) for k in ("int", "float", "bool", "str", "none", "path", "dtype", "device")] + [T("enum", "E1"), T("enum", "E2"), T("lit", f=["A", "2"])]
WORDS = ["A", "B", "1", "2", " 3 ", "-1", "2.5", "1e3", "3.0", "inf", "nan", "", "float16", "torch.float16", "float", "half", "nn", "cpu", "cuda:0", "cuda:x", "a//b/", "./A",
         "none", "null", "true", "yes", "~", "- x", "a: b", "#", "é", "x\ny", "'", '"', "1_000", "0x1f", "1:30", "2020-01-01", "=", "<<", "*a", "&a", "!x", "%", "@", "{}", "[]", "on", " lead", "trail ", "\t", "NaN", ".inf", "1e-3"]
SPOILED = {"0x1f", "1_000", "1:30", "NaN", ".inf", "1e-3"}  # (only as values of text types: the specification's table of numbers has not all of them)


class Types:
    """The Python type of a type expression; dataclasses are built once."""

    def __init__(self):
        self.dc, self.back = {}, {}

    def of(self, t, rng):
        import torch

        k, a = t["k"], t["c"]
        if k in ("int", "float", "bool", "str"):
            return {"int": int, "float": float, "bool": bool, "str": str}[k]
        if k == "none":
            return type(None)
        if k == "object":
            return rng.choice([object, typing.Any])
        if k == "path":
            return Path
        if k == "dtype":
            return torch.dtype
        if k == "device":
            return torch.device
        if k == "enum":
            return ENUMS[t["s"]]
        if k == "lit":
            return typing.Literal[tuple(t["f"])]
        if k == "list":
            return rng.choice([list, cabc.Sequence])[self.of(a[0], rng)]
        if k == "set":
            return rng.choice([set, cabc.Set])[self.of(a[0], rng)]
        if k == "vtup":
            return tuple[self.of(a[0], rng), ...]
        if k == "tup":
            return tuple[tuple(self.of(x, rng) for x in a)]
        if k == "dict":
            return rng.choice([dict, cabc.Mapping])[self.of(a[0], rng), self.of(a[1], rng)]
        if k == "union":
            ts = [self.of(x, rng) for x in a]
            if rng.random() < 0.5:
                return typing.Union[tuple(ts)]
            out = ts[0]
            for x in ts[1:]:
                out = typing.Union[out, x] if out is None else out | x
            return out
        if t["s"] not in self.dc:
            fs = []
            for n, x, d in zip(t["f"], a, t["d"]):
                ann = self.of(x, rng)
                if d:
                    v = self.value(d[0])
                    try:
                        hash(v)
                        fld = dataclasses.field(default=v)
                    except TypeError:
                        fld = dataclasses.field(default_factory=lambda v=v: copy.deepcopy(v))
                    fld.kw_only = True
                    fs.append((n, ann, fld))
                else:
                    fs.append((n, ann, dataclasses.field(kw_only=True)))
            kls = dataclasses.make_dataclass(t["s"], fs)
            self.dc[t["s"]] = kls
            self.back[kls] = t
        return self.dc[t["s"]]

    def value(self, v):
        """The Python value."""
        import torch

        t, n, s, c = v["t"], v["n"], v["s"], v["c"]
        if t == "int":
            return int(s) if s else n // 1000
        if t == "float":
            return float(s) if s else n / 1000
        if t == "bool":
            return n != 0
        if t == "none":
            return None
        if t == "str":
            return s
        if t == "path":
            return Path(s)
        if t == "dtype":
            return getattr(torch, s)
        if t == "device":
            return torch.device(s)
        if t.startswith("enum:"):
            return ENUMS[t[5:]][s]
        if t in ("list", "tuple", "set"):
            return {"list": list, "tuple": tuple, "set": set}[t](self.value(x) for x in c)
        if t == "dict":
            return {self.value(x["c"][0]): self.value(x["c"][1]) for x in c}
        kls = self.dc[t[3:]]
        return kls(**dict(zip([f.name for f in dataclasses.fields(kls)], [self.value(x) for x in c])))

    def enc(self, x):
        """The value of the specification."""
        import torch

        if isinstance(x, bool):
            return V("bool", 1000 if x else 0)
        if isinstance(x, Enum):
            return V("enum:" + type(x).__name__, s=x.name)
        if isinstance(x, int):
            return V("int", x * 1000) if abs(x) < 2**20 else V("int", 0, repr(x))
        if isinstance(x, float):
            if abs(x) < 2**20 and round(x * 1000) / 1000 == x and repr(x) != "-0.0":
                return V("float", round(x * 1000))
            return V("float", 0, repr(x))
        if x is None:
            return V("none")
        if isinstance(x, str):
            return V("str", s=x)
        if isinstance(x, Path):
            return V("path", s=str(x))
        if isinstance(x, torch.dtype):
            return V("dtype", s=str(x)[6:])
        if isinstance(x, torch.device):
            return V("device", s=str(x))
        if isinstance(x, (list, tuple)):
            return V("list" if isinstance(x, list) else "tuple", c=[self.enc(e) for e in x])
        if isinstance(x, (set, frozenset)):
            return V("set", c=sorted((self.enc(e) for e in x), key=json.dumps))
        if isinstance(x, cabc.Mapping):
            return V("dict", c=[V("kv", c=[self.enc(k), self.enc(v)]) for k, v in x.items()])
        if type(x) in self.back:
            return V("dc:" + type(x).__name__, c=[self.enc(getattr(x, f.name)) for f in dataclasses.fields(x)])
        return V("unknown:" + type(x).__name__, s=repr(x))


def rtype(rng, depth, names, hashable=False):
    r = rng.random()
    if depth == 0 or r < 0.3:
        return rng.choice(SCAL)
    if r < 0.55:
        n = rng.choice([2, 2, 2, 3])
        alts = []
        for _ in range(n):
            a = rtype(rng, depth - 1, names, hashable)
            if a["k"] not in ("union", "object") and a not in alts:
                alts.append(a)
        if rng.random() < 0.4 and T("none") not in alts:
            alts.insert(rng.randrange(len(alts) + 1), T("none"))
        if len(alts) > 1:
            return T("union", c=alts)
        return alts[0] if alts else rng.choice(SCAL)
    ks = ["tup", "vtup"] if hashable else ["list", "list", "set", "vtup", "tup", "dict", "dict", "dc", "dc"]
    k = rng.choice(ks)
    if k in ("list", "vtup"):
        return T(k, c=[rtype(rng, depth - 1, names, hashable)])
    if k == "set":
        return T(k, c=[rtype(rng, min(depth - 1, 1), names, True)])
    if k == "tup":
        return T(k, c=[rtype(rng, depth - 1, names, hashable) for _ in range(rng.randrange(1, 4))])
    if k == "dict":
        return T(k, c=[rng.choice([T("str"), T("str"), T("int"), T("path"), T("enum", "E1"), T("union", c=[T("int"), T("str")])]), rtype(rng, depth - 1, names)])
    names[0] += 1
    name = f"D{names[0]}"
    fs = rng.sample(["a", "b", "c", "name", "lr"], rng.randrange(0, 4))
    cs = [rtype(rng, depth - 1, names) for _ in fs]
    ds = [[rvalue(rng, c)] if rng.random() < 0.6 else [] for c in cs]
    ds = [d if d and d[0] is not None else [] for d in ds]
    return T("dc", name, cs, fs, ds)


def key(v):
    return json.dumps(v if v["t"] not in ("bool", "int", "float") or v["s"] else ["num", v["n"]])


def rvalue(rng, t):
    """A value of the type."""
    k, c = t["k"], t["c"]
    if k == "int":
        return rng.choice([V("int", 1000 * rng.choice([0, 1, 2, -1, 7])), V("int", 0, str(2**40)), V("bool", 1000)] if rng.random() < 0.15 else [V("int", 1000 * rng.choice([0, 1, 2, -1, 7]))])
    if k == "float":
        return rng.choice([V("float", rng.choice([0, 1, 1000, 2500, -1000, 3000])), V("float", 0, rng.choice(["1e-05", "1e+22", "inf", "-inf", "3.14159", "1e-300", "123456789.125"]))])
    if k == "bool":
        return V("bool", rng.choice([0, 1000]))
    if k == "none":
        return V("none")
    if k == "str":
        return V("str", s=rng.choice(WORDS))
    if k == "path":
        return V("path", s=rng.choice(["A", "2", "/x/y", ".", "float16", "a b", "1.5"]))
    if k == "dtype":
        return V("dtype", s=rng.choice(["float16", "float32", "bfloat16", "int64", "bool"]))
    if k == "device":
        return V("device", s=rng.choice(["cpu", "cuda:0", "cuda", "meta", "cuda:1"]))
    if k == "enum":
        return V("enum:" + t["s"], s=rng.choice([e.name for e in ENUMS[t["s"]]]))
    if k == "lit":
        return V("str", s=rng.choice(t["f"]))
    if k == "object":
        return rng.choice([V("int", 1000), V("str", s="A"), V("none")])
    if k in ("list", "vtup"):
        return V("list" if k == "list" else "tuple", c=[rvalue(rng, c[0]) for _ in range(rng.randrange(0, 4))])
    if k == "tup":
        return V("tuple", c=[rvalue(rng, x) for x in c])
    if k in ("set", "dict"):
        out, seen = [], set()
        for _ in range(rng.randrange(0, 4)):
            x = rvalue(rng, c[0])
            if key(x) not in seen:
                seen.add(key(x))
                out.append(x)
        if k == "set":
            return V("set", c=sorted(out, key=json.dumps))
        return V("dict", c=[V("kv", c=[x, rvalue(rng, c[1])]) for x in out])
    if k == "dc":
        return V("dc:" + t["s"], c=[rvalue(rng, x) for x in c])
    return rvalue(rng, rng.choice(c))


def rdata(rng, t):
    """Data that is of the type, nearly of the type, or anything."""
    k, c = t["k"], t["c"]
    r = rng.random()
    if r < 0.08:
        return rvalue(rng, rtype(rng, 1, [10**6], False)) if False else rng.choice([V("int", 1000), V("str", s="A"), V("str", s="2"), V("none"), V("list"), V("dict"), V("list", c=[V("int", 1000)]), V("float", 1500), V("bool", 1000)])
    if k == "union":
        return rdata(rng, rng.choice(c))
    if k == "int":
        return rng.choice([V("int", 2000), V("str", s=rng.choice(["2", " 3 ", "-1", "2.5", "A", "", "inf"])), V("float", rng.choice([1000, 2500])), V("float", 0, rng.choice(["inf", "nan", "-inf"])), V("bool", 1000)])
    if k == "float":
        return rng.choice([V("int", 2000), V("float", 2500), V("str", s=rng.choice(["2", "2.5", "1e3", "inf", "nan", "A", "-inf"])), V("bool", 1000), V("float", 0, "inf")])
    if k in ("path", "dtype", "device", "enum", "str", "lit"):
        w = V("str", s=rng.choice([x for x in WORDS if x not in SPOILED]))
        if k == "dtype":
            w = V("str", s=rng.choice(["float16", "torch.float16", "half", "float", "bool", "nn", "torch.torch.float16", "Tensor", ""]))
        if k == "device":
            w = V("str", s=rng.choice(["cpu", "cuda:0", "cuda:x", "A", "", "cuda:1"]))
        return rng.choice([w, rvalue(rng, t)])
    if k in ("bool", "none", "object"):
        return rng.choice([rvalue(rng, t), V("int", 1000), V("str", s="true")])
    if k in ("list", "vtup", "set"):
        kind = rng.choice(["list", "list", "tuple"] + (["set"] if k == "set" else []))
        xs = [rdata(rng, c[0]) for _ in range(rng.randrange(0, 4))]
        if k == "set" and rng.random() < 0.2 and xs:
            xs.append(copy.deepcopy(xs[0]))
        if kind == "set":
            u, xs2 = set(), []
            for x in xs:
                if key(x) in u or any(w in json.dumps(x) for w in ('"kv"', '"list"', '"dict"', '"set"', '"dc:')):
                    continue
                u.add(key(x))
                xs2.append(x)
            xs = sorted(xs2, key=json.dumps)
        return V(kind, c=xs)
    if k == "tup":
        xs = [rdata(rng, x) for x in c]
        if rng.random() < 0.15:
            xs = xs[1:] if rng.random() < 0.5 else xs + [V("int", 1000)]
        return V(rng.choice(["list", "tuple"]), c=xs)
    if k == "dict":
        out, seen = [], set()
        for _ in range(rng.randrange(0, 4)):
            x = rdata(rng, c[0])
            if x["t"] in ("list", "dict", "set") or key(x) in seen:
                continue
            seen.add(key(x))
            out.append(V("kv", c=[x, rdata(rng, c[1])]))
        return V("dict", c=out)
    if rng.random() < 0.1:
        return rvalue(rng, t)
    kvs = []
    for n, x, d in zip(t["f"], c, t["d"]):
        if rng.random() < (0.6 if d else 0.92):
            kvs.append(V("kv", c=[V("str", s=n), rdata(rng, x)]))
    if rng.random() < 0.08:
        kvs.append(V("kv", c=[rng.choice([V("str", s="zz"), V("int", 1000)]), V("int", 1000)]))
    rng.shuffle(kvs)
    return V("dict", c=kvs)


def canon(T_, x):
    """As the value is encoded after having been built (a bool for 1 and the like excluded by the generators)."""
    return T_.enc(T_.value(x))


def take(conv, ts, t, typ, d, err_kls):
    from fairseq2.utils.structured import StructureError

    x = ts.value(d)
    x0 = ts.enc(x)
    e = {"op": "take", "ty": t, "d": x0, "err": "", "out": V("none"), "again": V("none"), "inputs": "unchanged"}
    try:
        out = conv.structure(x, typ)
    except StructureError:
        e["err"] = "refused"
    except Exception as ex:  # noqa: BLE001
        e["err"] = repr(ex)
    else:
        e["out"] = ts.enc(out)
        try:
            e["again"] = ts.enc(conv.structure(out, typ))
        except Exception as ex:  # noqa: BLE001
            e["again"] = V("error", s=repr(ex)[:80])
    if ts.enc(x) != x0:
        e["inputs"] = "changed"
    return e


def trip(conv, io_, ts, t, typ, v):
    from fairseq2.utils.structured import StructureError

    x = ts.value(v)
    x0 = ts.enc(x)
    fields = {"dc:" + k: [f.name for f in dataclasses.fields(c)] for k, c in ts.dc.items()} | {"dc:_": ["_"]}
    e = {"op": "trip", "ty": t, "x": x0, "fields": fields, "err1": "", "err": "", "flat": V("none"), "yaml": V("none"), "out": V("none"), "inputs": "unchanged"}
    try:
        flat = conv.unstructure(x)
        e["flat"] = ts.enc(flat)
    except Exception as ex:  # noqa: BLE001
        e["err1"] = repr(ex)
        return e
    if ts.enc(x) != x0:
        e["inputs"] = "changed"
    try:
        dumper, loader = io_
        s = io.StringIO()
        dumper.dump({"config": flat}, s)
        s.seek(0)
        back = loader.load(s)[0]["config"]
        e["yaml"] = ts.enc(back)
        e["out"] = ts.enc(conv.structure(back, typ))
    except StructureError:
        e["err"] = "refused"
    except Exception as ex:  # noqa: BLE001
        e["err"] = repr(ex)[:200]
    return e


def play(a):
    kind, arg, seed = a
    core.setup_fairseq2()
    from fairseq2.file_system import NativeLocalFileSystem
    from fairseq2.utils.structured import StandardValueConverter
    from fairseq2.utils.yaml import RuamelYamlDumper, RuamelYamlLoader

    rng = random.Random(seed)
    fs = NativeLocalFileSystem()
    io_ = (RuamelYamlDumper(fs), RuamelYamlLoader(fs))
    conv = StandardValueConverter()
    ev = []
    if kind == "small":
        ts = Types()
        t = arg["ty"]
        ts.of(DC1, rng)
        typ = ts.of(t, rng)
        ev.append(take(conv, ts, t, typ, arg["d"], None))
    else:
        for _ in range(6):
            ts, names = Types(), [0]
            t = rtype(rng, 3, names)
            typ = ts.of(t, rng)
            if kind == "take":
                for _ in range(3):
                    ev.append(take(conv, ts, t, typ, rdata(rng, t), None))
            else:
                for _ in range(3):
                    ev.append(trip(conv, io_, ts, t, typ, rvalue(rng, t)))
    return {"cfg": {}, "ev": ev, "_info": {"kind": kind}}


DC1 = T("dc", "P", [T("int"), T("union", c=[T("none"), T("float")])], ["x", "y"], [[], [V("none")]])


def run(ctx):
    tlc.model_check(ctx, "StructuredDesign", timeout=850, coverage=False)
    if not ctx.quick:
        tlc.model_check(ctx, "StructuredDesign", overrides={"Wide": "TRUE"}, timeout=850, coverage=False, workers=8)
    small = tlc.generate(ctx, "StructuredDesign", overrides={"Emitting": "TRUE", "Thin": str(ctx.pick(50, 5))}, num=1, depth=2)
    cases = [("small", s, i) for i, s in enumerate(small)]
    for kind, q, th in (("take", 700, 8000), ("trip", 700, 8000)):
        cases += [(kind, None, ctx.rng.random()) for _ in range(ctx.pick(q, th))]
    traces = pmap(ctx, play, cases, 100)
    ctx.count("refused", sum(e["err"] == "refused" for t in traces for e in t["ev"]))
    ctx.count("structured", sum(e["err"] == "" and e["op"] == "take" for t in traces for e in t["ev"]))
    ctx.sample(traces[-1]["ev"][0])
    tlc.validate(ctx, "StructuredTrace", traces)

    def corrupt(t, rng):
        c = [e for e in t["ev"] if e["op"] == "trip" and e["out"]["t"] in ("int", "str", "list", "bool", "dict")]
        if not c:
            return None
        rng.choice(c)["out"]["c"].append(V("int", 1000))
        return t

    tlc.selftest(ctx, "StructuredTrace", traces, corrupt)
