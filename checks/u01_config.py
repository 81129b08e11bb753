"""U01: configuration overrides change exactly the named settings."""

from __future__ import annotations

import argparse
import copy
import json
import os
import random
import re
from collections import OrderedDict, UserDict
from collections.abc import Mapping
from pathlib import Path

from vlib import tlc
from vlib.pool import pmap

KEYS = ["a", "b", "c", "lr", "_x"]
LEAVES = [1, 2, 2.5, "s", "", None, True, False, 0, [1, 2], [], [{"a": 1}, {"b": [2]}], ["_del_"], (1, 2)]


def leaf(x):
    return {"k": "leaf", "v": json.dumps(x, sort_keys=True) + ("t" if isinstance(x, tuple) else ""), "c": []}


def node(x):
    """A Python value as a node of the specification."""
    if isinstance(x, Mapping):
        return {"k": "map", "v": "", "c": [[str(k), node(v)] for k, v in x.items()]}
    return leaf(x)


def onode(x):
    """A Python value as an override of the specification."""
    n = {"d": [], "s": [], "m": []}
    if not isinstance(x, Mapping):
        return leaf(x) | n
    n |= {"k": "map", "v": "", "c": [[k, onode(v)] for k, v in x.items() if k not in ("_del_", "_set_")]}
    d, s = x.get("_del_"), x.get("_set_")
    if d is not None:
        if not isinstance(d, list) or not all(isinstance(e, str) for e in d):
            n["m"].append("_del_")
        else:
            n["d"] = d
    if s is not None:
        if not isinstance(s, Mapping) or not all(isinstance(e, str) for e in s):
            n["m"].append("_set_")
        else:
            n["s"] = [[k, node(v)] for k, v in s.items()]
    return n


def shape(rng, d, exotic):
    """The mapping as one of several kinds of mappings."""
    if not exotic:
        return d
    return rng.choice([dict, dict, OrderedDict, UserDict])(d)


def tree(rng, depth, exotic=False):
    if depth == 0 or rng.random() < 0.35:
        return copy.deepcopy(rng.choice(LEAVES))
    ks = rng.sample(KEYS, rng.randrange(0, 4))
    return shape(rng, {k: tree(rng, depth - 1, exotic) for k in ks}, exotic)


def override(rng, depth, bad, exotic=False):
    if depth == 0 or rng.random() < 0.25:
        return copy.deepcopy(rng.choice(LEAVES))
    items = [(k, override(rng, depth - 1, bad, exotic)) for k in rng.sample(KEYS, rng.randrange(0, 4))]
    if rng.random() < 0.4:
        d = rng.sample(KEYS, rng.randrange(0, 3)) + rng.choice([[], [], ["nope"], KEYS[:1]])
        if rng.random() < bad:
            d = rng.choice([("a",), "a", {"a": 1}, 1, ["a", 1], [None], {"a"} and ["b", ["a"]], False, 0, ""])
        elif rng.random() < 0.1:
            d = None
        items.append(("_del_", d))
    if rng.random() < 0.4:
        s = {k: tree(rng, 2) for k in rng.sample(KEYS, rng.randrange(0, 3))}
        if rng.random() < 0.1:
            s["b"] = {"_del_": ["a"], "_set_": {"a": 1}}  # raw, as it is set
        if rng.random() < bad:
            s = rng.choice([["a"], "a", 1, {1: 2}, {"a": 1, None: 2}, [("a", 1)], False, 0, ""])
        elif rng.random() < 0.1:
            s = None
        items.append(("_set_", s))
    rng.shuffle(items)
    return shape(rng, dict(items), exotic)


def spoil(x):
    """Changes everything that can be changed in place."""
    if isinstance(x, Mapping):
        for v in list(x.values()):
            spoil(v)
        x["spoiled"] = 1
    elif isinstance(x, list):
        for v in x:
            spoil(v)
        x.append("spoiled")


def concrete(n):
    if n["k"] == "leaf":
        return int(n["v"])
    return {k: concrete(v) for k, v in n["c"]}


def pyover(n):
    if n["k"] == "leaf":
        return int(n["v"])
    d = {k: pyover(v) for k, v in n["c"]}
    if n["d"]:
        d["_del_"] = list(n["d"])
    if n["s"]:
        d["_set_"] = {k: concrete(v) for k, v in n["s"]}
    return d


def merge(merger, t, s, mutable=True):
    t0, s0 = repr(t), repr(s)
    e = {"op": "merge", "s": onode(s), "err": "", "out": leaf(None), "inputs": "unchanged", "apart": "unchanged"}
    out = None
    try:
        out = merger.merge(t, s)
    except TypeError as ex:
        m = re.search(r"([\w.]*_(?:del|set)_)", str(ex))
        e["err"] = m[1] if m else f"no path: {ex}"
    except Exception as ex:  # noqa: BLE001
        e["err"] = repr(ex)
    else:
        e["out"] = node(out)
    if (repr(t), repr(s)) != (t0, s0):
        e["inputs"] = "changed"
    if out is not None and isinstance(s, Mapping):
        keep = copy.deepcopy(out)
        spoil(out)
        if (repr(t), repr(s)) != (t0, s0):
            e["apart"] = "changed"
        out = keep
    return out, e


def items_of(rng):
    """Command line items which do not overlap."""
    used, out = [], []
    for _ in range(rng.randrange(1, 5)):
        path = [rng.choice(KEYS) for _ in range(rng.randrange(1, 4))]
        if any(u[: len(path)] == path or path[: len(u)] == u for u in used):
            continue
        used.append(path)
        out.append({"del": rng.random() < 0.35, "path": path, "val": rng.choice([1, 2.5, "s", None, True, [1, 2], {"a": 1, "b": {"c": 2}}, {}, "x=y"])})
    return out


TOK = {"txt": "", "dir": "", "env": "", "envd": ""}


def tokens(rng, deep=True):
    q = []
    for _ in range(rng.randrange(0, 4)):
        k = rng.choice(["txt", "txt", "dir", "env", "envd"])
        x = rng.choice(["", "a", "/b", "$", "{}", "${", "${di}", "${env}", "${env:}", "${env:1a}", "${env:a-b}", " ", ":", "\\1", "\\g<0>"]) if k == "txt" else rng.choice(["HOME_", "_V1", "x", "EMPTY", "NONE", "NO_2"])
        q.append({"k": k, "x": "" if k == "dir" else x, "d": rng.choice(["", "d", ":", "a:b", "/x y"]) if k == "envd" else ""})
    return q


def text(q):
    return "".join({"txt": t["x"], "dir": "${dir}", "env": "${env:" + t["x"] + "}", "envd": "${env:" + t["x"] + ":" + t["d"] + "}"}[t["k"]] for t in q)


def unambiguous(q):
    """Whether the text is read back as these tokens (no directive across tokens)."""
    s = text(q)
    found = re.findall(r"\$\{dir\}|\$\{env:[A-Za-z_][A-Za-z0-9_]*(?::[^}]*)?\}", s)
    return found == [text([t]) for t in q if t["k"] != "txt"]


def pnode(rng, depth):
    r = rng.random()
    if depth == 0 or r < 0.45:
        while True:
            q = tokens(rng)
            if unambiguous(q):
                return text(q), {"k": "str", "v": "", "c": [], "q": q}
    if r < 0.55:
        x = rng.choice([1, None, 2.5, True])
        return x, leaf(x)
    if r < 0.75:
        kids = [pnode(rng, depth - 1) for _ in range(rng.randrange(0, 4))]
        return [k[0] for k in kids], {"k": "list", "v": "", "c": [[str(i), k[1]] for i, k in enumerate(kids)]}
    ks = rng.sample(KEYS + ["${dir}"], rng.randrange(0, 4))
    kids = [pnode(rng, depth - 1) for _ in ks]
    return dict(zip(ks, [k[0] for k in kids])), {"k": "map", "v": "", "c": [[k, v[1]] for k, v in zip(ks, kids)]}


def qnode(x):
    if isinstance(x, str):
        return {"k": "leaf", "v": '"' + x + '"', "c": []}
    if isinstance(x, list):
        return {"k": "list", "v": "", "c": [[str(i), qnode(e)] for i, e in enumerate(x)]}
    if isinstance(x, dict):
        return {"k": "map", "v": "", "c": [[k, qnode(e)] for k, e in x.items()]}
    return leaf(x)


def play(a):
    kind, arg, seed = a
    from fairseq2.utils.argparse import ConfigAction
    from fairseq2.utils.config import (
        ReplaceEnvDirective,
        ReplacePathDirective,
        StandardConfigMerger,
        StandardConfigProcessor,
    )
    from fairseq2.utils.env import StandardEnvironment

    rng = random.Random(seed)
    merger = StandardConfigMerger()
    ev = []
    if kind == "small":
        t, s = concrete(arg["t"]), pyover(arg["s"])
        ev.append({"op": "start", "t": node(t)})
        ev.append(merge(merger, t, s)[1])
    elif kind == "chain":
        exotic = rng.random() < 0.2
        bad = rng.choice([0, 0, 0.4])
        t = tree(rng, 3, exotic)
        ev.append({"op": "start", "t": node(t)})
        for _ in range(rng.randrange(1, 4)):
            out, e = merge(merger, t, override(rng, 3, bad, exotic))
            ev.append(e)
            if e["err"] == "":
                t = out
    elif kind == "items":
        t = tree(rng, 3)
        if not isinstance(t, dict):
            t = {"a": t}
        ev.append({"op": "start", "t": node(t)})
        parser = argparse.ArgumentParser(exit_on_error=False)
        parser.add_argument("--config", action=ConfigAction, dest="config")
        args, want = [], []
        for _ in range(rng.randrange(1, 3)):
            its = items_of(rng)
            want.append(its)
            args.append("--config")
            for i in its:
                path = ".".join(i["path"])
                args.append(f"del:{path}" if i["del"] else rng.choice(["", "set:"]) + path + rng.choice(["=", " = "]) + json.dumps(i["val"]))
        for its, o in zip(want, parser.parse_args(args).config, strict=True):
            t = merger.merge(t, o)
            ev.append({"op": "items", "items": [{"del": i["del"], "path": i["path"], "val": node(i["val"])} for i in its], "out": node(t)})
    else:
        env = []
        for n in ("HOME_", "_V1", "x"):
            while True:
                q = tokens(rng)
                if unambiguous(q):
                    break
            env.append({"n": n, "v": q})
        env.append({"n": "EMPTY", "v": []})
        os.environ.update({e["n"]: text(e["v"]) for e in env})
        real = StandardEnvironment()
        ev.append({"op": "start", "t": leaf(1)})
        for _ in range(3):
            ds = [rng.choice(["env", "/cfg", "/o ther"]) for _ in range(rng.randrange(0, 4))]
            objs = [ReplaceEnvDirective(real) if d == "env" else ReplacePathDirective(Path(d)) for d in ds]
            cut = rng.randrange(0, len(ds) + 1)
            x, n = pnode(rng, 3)
            if ds.count("env") > 1:
                ds = [d for d in ds if d != "env"] + ["env"]
                objs = [ReplaceEnvDirective(real) if d == "env" else ReplacePathDirective(Path(d)) for d in ds]
                cut = len(ds)
            x0 = repr(x)
            proc = StandardConfigProcessor(objs[:cut])
            out = proc.process(x, objs[cut:] if cut < len(ds) or rng.random() < 0.5 else None)
            ev.append({"op": "process", "n": n, "ds": ds, "env": env, "out": qnode(out), "inputs": "unchanged" if repr(x) == x0 else "changed"})
    return {"cfg": {}, "ev": ev, "_info": {"kind": kind}}


def run(ctx):
    wide = {"Wide": "TRUE"} if not ctx.quick else {}
    tlc.model_check(ctx, "ConfigDesign", overrides=wide, timeout=850, coverage=False)
    small = tlc.generate(ctx, "ConfigDesign", overrides={"Emitting": "TRUE"} | wide, num=ctx.pick(2500, 30000), depth=3)
    cases = [("small", s, 0) for s in small]
    for kind, q, th in (("chain", 2500, 40000), ("items", 800, 8000), ("process", 800, 10000)):
        cases += [(kind, None, ctx.rng.random()) for _ in range(ctx.pick(q, th))]
    traces = pmap(ctx, play, cases, 100)
    ctx.count("malformed", sum(e.get("err", "") != "" for t in traces for e in t["ev"]))
    ctx.sample(traces[-1]["ev"])
    tlc.validate(ctx, "ConfigTrace", traces)

    def corrupt(t, rng):
        c = [e for e in t["ev"] if "out" in e and e["out"]["c"]]
        if not c:
            return None
        rng.choice(c)["out"]["c"].pop()
        return t

    tlc.selftest(ctx, "ConfigTrace", traces, corrupt)
