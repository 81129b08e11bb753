"""U05: the tag of a run's output directory tells configurations apart."""

from __future__ import annotations

import copy
import json
import os
import random
import re
import subprocess
import sys

from vlib import core, tlc
from vlib.pool import pmap

WORDS = ["a", "b", "A", "aB", "ab", "a_b", "abc", "x1", "1", "none", "t", "", "averyverylongname1", "averyverylongname2", "é"]
PUNCT = ["a.b", "a/b", "ab.", "...", "a b", "en-de", "encoder.*", "encoder", "averyverylong.name1", "[1, 2]"]


def tag_of(config, world, fmt=None):
    from fairseq2.recipe.config import CommonSection
    from fairseq2.recipe.internal.config import _RecipeConfigHolder
    from fairseq2.recipe.internal.sweep_tag import _StandardSweepTagGenerator
    from fairseq2.utils.structured import StandardValueConverter
    from fairseq2.world_info import WorldInfo

    section = CommonSection() if fmt is None else CommonSection(sweep_format=fmt)
    return _StandardSweepTagGenerator(section, WorldInfo(0, world, 0, 1), _RecipeConfigHolder(config), StandardValueConverter()).maybe_generate()


def node(x):
    if isinstance(x, dict):
        return {"k": "map", "v": "", "c": [[k, node(v)] for k, v in x.items()]}
    if isinstance(x, (list, tuple)):
        return {"k": "list", "v": "", "c": [[str(i), node(v)] for i, v in enumerate(x)]}
    if isinstance(x, (set, frozenset)):
        return node(sorted(x, key=repr))
    return {"k": "leaf", "v": written(x), "c": []}


def written(x):
    """A value as it is written in a tag: the specification does not tell 1 from "1"."""
    if x is None or isinstance(x, bool):
        return {None: "none", True: "t", False: "f"}[x]
    return str(x)


def leaf(rng, punct):
    return rng.choice([1, 2, 10, 0, True, False, None, 0.5, 1.0, 1e-5, 2.5] + WORDS + (PUNCT if punct else []))


def config(rng, depth, punct):
    r = rng.random()
    if depth == 0 or r < 0.4:
        return leaf(rng, punct)
    if r < 0.6:
        return [config(rng, depth - 1, punct) for _ in range(rng.randrange(0, 4))]
    if r < 0.7:
        xs = rng.sample([0, 8, 16, 24, 1, 9, 17], rng.randrange(0, 4))
        return set(xs)
    ks = rng.sample(["a", "b", "lr", "model", "max_len"], rng.randrange(0, 4))
    return {k: config(rng, depth - 1, punct) for k in ks}


def shuffled(rng, x):
    """The same configuration, built in another order."""
    if isinstance(x, dict):
        ks = list(x)
        rng.shuffle(ks)
        return {k: shuffled(rng, x[k]) for k in ks}
    if isinstance(x, list):
        return [shuffled(rng, v) for v in x]
    if isinstance(x, set):
        xs = list(x)
        rng.shuffle(xs)
        return set(xs)
    return x


def spots(x, path=()):
    yield path
    if isinstance(x, dict):
        for k, v in x.items():
            yield from spots(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from spots(v, path + (i,))


def mutate(rng, x, punct):
    """The configuration with one setting changed."""
    x = copy.deepcopy(x)
    path = rng.choice([p for p in spots(x) if p] or [()])
    if not path:
        return x | {"new": leaf(rng, punct)}
    at = x
    for k in path[:-1]:
        at = at[k]
    v, k = at[path[-1]], path[-1]
    r = rng.random()
    if isinstance(v, list) and r < 0.7:
        if r < 0.3 and len(v) > 1:
            rng.shuffle(v)
        elif r < 0.5:
            v.append(leaf(rng, punct))
        elif v:
            v.pop(rng.randrange(len(v)))
    elif isinstance(v, set) and r < 0.7:
        v ^= {rng.choice([0, 8, 5])}
    elif isinstance(v, dict) and r < 0.7:
        v[rng.choice(["a", "zz"])] = leaf(rng, punct)
    elif isinstance(v, str) and punct and r < 0.6:
        at[k] = v + rng.choice([".", "/", " ", "*"])
    elif isinstance(v, (int, float)) and not isinstance(v, bool) and r < 0.6:
        at[k] = v + rng.choice([1, 0.25, -1])
    elif isinstance(at, dict) and r < 0.1 and len(path) > 1:
        del at[k]
    else:
        at[k] = leaf(rng, punct)
    return x


def how(a, b):
    """In what the configurations differ, from the smallest difference on."""

    def leaves(x, strip, types, empty, path=""):
        if isinstance(x, dict):
            out = {} if x or not empty else {path: "{}"}
            for k, v in x.items():
                out |= leaves(v, strip, types, empty, f"{path}.{k}")
            return out
        if isinstance(x, set):
            x = sorted(x, key=repr)
        if isinstance(x, list):
            out = {} if x or not empty else {path: "[]"}
            for i, v in enumerate(x):
                out |= leaves(v, strip, types, empty, f"{path}[{i}]")
            return out
        s = written(x)
        if strip and isinstance(x, str):
            s = re.sub(r"[^-_\w]", "", x)
        return {path: (type(x).__name__ if types else "") + s}

    for name, args in (("nothing", (False, True, True)), ("characters that are left out of tags", (True, True, True)), ("empty lists and mappings", (True, False, False))):
        if leaves(a, *args) == leaves(b, *args):
            return "differing in " + name if name != "nothing" else "the same"
    return "differing in settings"


def pair(a, b, wa, wb, ta, tb, err=""):
    return {"op": "pair", "a": node(a), "b": node(b), "wa": wa, "wb": wb, "same": ta == tb, "how": how(a, b), "err": err}


def play(a):
    kind, arg, seed = a
    core.setup_fairseq2()
    rng = random.Random(seed)
    ev = []
    if kind == "pairs":
        for _ in range(20):
            punct = rng.random() < 0.3
            x = {k: config(rng, 3, punct) for k in rng.sample(["a", "b", "lr", "model", "c"], rng.randrange(1, 5))}
            y, wx, wy = x, 2, 2
            r = rng.random()
            if r < 0.3:
                y = shuffled(rng, x)
            elif r < 0.4:
                y, wy = shuffled(rng, x), rng.choice([1, 2, 3, 22])
            elif r < 0.9:
                y = shuffled(rng, mutate(rng, x, punct))
            else:
                y = {k: config(rng, 2, punct) for k in x}
            x0 = repr(x)
            try:
                tx, ty = tag_of(x, wx), tag_of(y, wy)
                ev.append(pair(x, y, wx, wy, tx, ty, "" if repr(x) == x0 else "configuration changed"))
            except Exception as ex:  # noqa: BLE001
                ev.append(pair(x, y, wx, wy, 0, 1, repr(ex)))
    elif kind == "other":
        xs = [{k: config(rng, 3, True) for k in ("a", "b")} | {"s": set(rng.sample(WORDS, rng.randrange(2, 6)))} for _ in range(30)]
        code = ("import sys, json; from vlib import core; core.setup_fairseq2(); from checks.u05_sweep_tag import tag_of; "
                "print('TAGS' + json.dumps([tag_of(eval(x), 2) for x in json.load(sys.stdin)]))")
        env = os.environ | {"PYTHONHASHSEED": str(rng.randrange(1, 10**6))}
        out = subprocess.run([sys.executable, "-c", code], input=json.dumps([repr(x) for x in xs]), env=env, capture_output=True, text=True, timeout=140)
        got = re.search(r"^TAGS(.*)$", out.stdout, re.M)
        if got is None:
            raise RuntimeError("no tags from another process: " + out.stderr[-800:])
        for x, t in zip(xs, json.loads(got[1])):
            ev.append(pair(x, x, 2, 2, tag_of(x, 2), t) | {"how": "in another process"})
    else:
        from fairseq2.utils.validation import ValidationError

        conf, keys = {"x": "v1", "xy": "w", "p": {"q": 2.5}, "l": [1, True]}, [["x", "v1"], ["xy", "w"], ["p.q", "2.5"], ["l[0]", "1"], ["l[1]", "t"], ["world_size", "2"]]
        for s in arg:
            if not "".join(s).strip():
                continue
            e = {"op": "format", "s": list("".join(s).strip()), "keys": [[list(k), list(v)] for k, v in keys], "out": "ok", "q": []}
            try:
                e["q"] = list(tag_of(conf, 2, "".join(s)))
            except ValidationError:
                e["out"] = "refused"
            except Exception as ex:  # noqa: BLE001
                e["out"] = repr(ex)
            ev.append(e)
    return {"cfg": {}, "ev": ev, "_info": {"kind": kind}}


def run(ctx):
    tlc.model_check(ctx, "SweepTagDesign", overrides={"Size": ctx.pick("6", "8")}, timeout=850, coverage=False)
    small = [g["s"] for g in tlc.generate(ctx, "SweepTagDesign", overrides={"Emitting": "TRUE", "Size": ctx.pick("6", "7")}, num=1, depth=1)]
    toks = ["{x}", "{xy}", "{p.q}", "{l[0]}", "{l[1]}", "{world_size}", "{{", "}}", "{", "}", "a", ".", "/", "{no}", "{}", "é"]
    fmts = small + [list("".join(ctx.rng.choice(toks) for _ in range(ctx.rng.randrange(1, 7)))) for _ in range(ctx.pick(1500, 20000))]
    cases = [("format", fmts[i:i + 50], 0) for i in range(0, len(fmts), 50)]
    cases += [("pairs", None, ctx.rng.random()) for _ in range(ctx.pick(400, 6000))]
    cases += [("other", None, ctx.rng.random()) for _ in range(ctx.pick(2, 20))]
    traces = pmap(ctx, play, cases, 10)
    evs = [e for t in traces for e in t["ev"]]
    ctx.count("pairs", sum(e["op"] == "pair" for e in evs))
    ctx.count("different configurations", sum(e["op"] == "pair" and e["how"] not in ("the same", "in another process") for e in evs))
    ctx.count("refused formats", sum(e.get("out") == "refused" for e in evs))
    ctx.sample(traces[0]["ev"][0])
    # one case per trace for pairs, so that one finding does not hide what follows it
    one = [t for t in traces if t["_info"]["kind"] == "format"]
    one += [{"cfg": {}, "ev": [e], "_info": t["_info"]} for t in traces if t["_info"]["kind"] != "format" for e in t["ev"]]
    tlc.validate(ctx, "SweepTagTrace", one)

    def corrupt(t, rng):
        e = rng.choice(t["ev"])
        if e["op"] == "pair":
            e["same"] = not e["same"]
        elif e["out"] == "ok":
            e["q"] = e["q"] + ["!"]
        else:
            e["out"] = "ok"
        return t

    tlc.selftest(ctx, "SweepTagTrace", one[:40] + [t for t in one[-400:] if t["ev"][0]["how"] in ("the same", "differing in settings", "in another process")][:60], corrupt)
