"""A01: asset names resolve by fixed precedence and inherit from their bases."""

from __future__ import annotations

import copy
import json
import random
import shutil
import tempfile
from dataclasses import asdict, dataclass
from pathlib import Path

from vlib import tlc
from vlib.pool import pmap

FIELDS = ("x", "y", "p")
BAD = ("name", "name_type", "two_tags", "no_name", "empty_base", "base_type", "base_tag")


@dataclass
class Conf:
    lr: int = 1
    wd: int = 2
    k: int = 3


def entry(n, e="", b="", hasb=None, f=(), cfg=None, bad=""):
    return {"n": n, "e": e, "b": b, "hasb": b != "" if hasb is None else hasb, "f": [list(p) for p in f], "cfg": [list(p) for p in (cfg or [])],
            "hascfg": cfg is not None, "dir": "", "bad": bad}


def world(rng):
    """A random set of entries, in sources; mostly sound."""
    names = ["a", "b", "c-1", "d/x", "long name"][: rng.randrange(2, 6)]
    envs = ["user", "e1", "e2"]
    es = []
    sound = rng.random() < 0.7
    for i, n in enumerate(names):
        later = names[i + 1 :]
        for e in [""] + rng.sample(envs, rng.randrange(0, 3)):
            if e == "" and rng.random() < 0.08:
                continue
            f = [(k, rng.choice(["1", "2", f"{n}{e}"])) for k in ("x", "y") if rng.random() < 0.45]
            if rng.random() < 0.5:
                f.append(("p", rng.choice(["sub/f.pt", "sp ace/ü%20.pt", "/abs/f.pt", "/abs/a b", "http://h/f.pt", "hg://org/m"])))
            b, hasb = "", False
            if rng.random() < 0.55:
                cand = later if sound else names + ["missing"]
                if cand:
                    b, hasb = rng.choice(cand), True
            elif e and rng.random() < 0.3:
                hasb = True  # explicitly without a base
            cfg = [(k, str(rng.randrange(10, 99))) for k in ("lr", "wd", "k") if rng.random() < 0.4] if rng.random() < 0.5 else None
            es.append(entry(n, e, b, hasb, f, cfg))
    if rng.random() < 0.12 and es:
        es.append(copy.deepcopy(rng.choice(es)))  # a duplicate
    if rng.random() < 0.12:
        es.append(entry("bad", bad=rng.choice(BAD)))
    rng.shuffle(es)
    return es


def spaces(rng, s):
    return rng.choice(["", " ", "  "]) + s + rng.choice(["", " "]) if rng.random() < 0.2 else s


def document(rng, x):
    """The entry as it is written down."""
    name = spaces(rng, x["n"]) + ("@" + spaces(rng, x["e"]) if x["e"] else rng.choice(["", "", "@", "@ "]))
    d = {"name": name}
    if x["hasb"]:
        d["base"] = spaces(rng, x["b"]) if x["b"] else None
    for k, v in x["f"]:
        d[k] = v
    if x["hascfg"]:
        d["model_config"] = {k: int(v) for k, v in x["cfg"]}
    match x["bad"]:
        case "name":
            d["name"] = rng.choice(["@e", " @", "@"])
        case "name_type":
            d["name"] = 3
        case "two_tags":
            d["name"] = "a@b@c"
        case "no_name":
            d = rng.choice([{"x": 1}, {"name": ""}, {"name": None}])
        case "empty_base":
            d["base"] = rng.choice(["", " "])
        case "base_type":
            d["base"] = 3
        case "base_tag":
            d["base"] = "a@user"
    return d


def distribute(rng, es, root):
    """Puts the entries into sources; returns the sources and how to open them."""
    n = rng.randrange(1, 4)
    groups = [[] for _ in range(n)]
    for x in es:
        rng.choice(groups).append(x)
    kinds = []
    for i, g in enumerate(groups):
        kind = rng.choice(["dir", "dir", "file", "memory"])
        if kind == "memory":
            kinds.append(("memory", [document(rng, x) for x in g]))
            continue
        base = root / f"s {i}%"
        base.mkdir()
        dirs = [base] if kind == "file" else [base, base / "deep", base / "deep" / "er"]
        docs = {}
        for x in g:
            d = rng.choice(dirs)
            d.mkdir(parents=True, exist_ok=True)
            f = d / ("one.yaml" if kind == "file" else rng.choice(["one.yaml", "two.yml"]))
            x["dir"] = str(d)
            docs.setdefault(f, []).append(document(rng, x))
        for f, ds in docs.items():
            f.write_text("\n---\n".join(json.dumps(d) for d in ds) + "\n")
        if kind == "dir":
            (base / "notes.txt").write_text("name: nothing\n")
        kinds.append(("file" if kind == "file" and g else "dir", base / "one.yaml" if kind == "file" and g else base))
    return groups, kinds


def play(a):
    es, queries, env, seed = a
    from fairseq2.assets.card import AssetCardError, StandardAssetConfigLoader
    from fairseq2.assets.metadata_provider import (
        AssetMetadataError,
        FileAssetMetadataSource,
        InMemoryAssetMetadataSource,
        StandardFileAssetMetadataLoader,
        YamlAssetMetadataFileLoader,
    )
    from fairseq2.assets.store import AssetNotFoundError, StandardAssetStore
    from fairseq2.file_system import LocalFileSystem
    from fairseq2.utils.config import StandardConfigMerger, StandardConfigProcessor
    from fairseq2.utils.structured import StandardValueConverter
    from fairseq2.utils.yaml import RuamelYamlLoader

    rng = random.Random(seed)
    root = Path(tempfile.mkdtemp(prefix="verif-a01-"))
    try:
        es = copy.deepcopy(world(rng) if es is None else es)
        groups, kinds = distribute(rng, es, root)
        fs = LocalFileSystem()
        loader = StandardFileAssetMetadataLoader(fs, YamlAssetMetadataFileLoader(RuamelYamlLoader(fs)))
        sources = [InMemoryAssetMetadataSource(f"m{i}", x) if k == "memory" else FileAssetMetadataSource(x, loader, False) for i, (k, x) in enumerate(kinds)]
        ev = []
        store = None
        try:
            store = StandardAssetStore((p for s in sources for p in s.load()), default_env=spaces(rng, env) if env or rng.random() < 0.5 else None)
            res = "ok"
        except AssetMetadataError:
            res = "AssetMetadataError"
        ev.append({"op": "open", "res": res})
        if store is not None:
            ev.append({"op": "names", "names": sorted(store.asset_names)})
        else:
            queries = []

        def ask(q):
            text = spaces(rng, q["n"]) + ("@" + spaces(rng, q["env"]) if q["tagged"] else "")
            r = {"s": "card", "n": "", "names": [], "f": [], "p": ""}
            try:
                if rng.random() < 0.5:
                    card = store.retrieve_card(text)
                else:
                    card = store.maybe_retrieve_card(text)
            except AssetNotFoundError:
                card = None
            except AssetCardError:
                return text, None, r | {"s": "error"}
            except RecursionError:
                return text, None, r | {"s": "RecursionError"}
            if card is None:
                return text, None, r | {"s": "none"}
            r["n"] = card.name
            c = card
            while c is not None:
                r["names"].append(c.name)
                c = c.base
            for f in FIELDS:
                v = card.maybe_get_field(f)
                if (v is not None) != card.has_field(f):
                    r["f"].append("has_field disagrees")
                elif v is None:
                    r["f"].append("-")
                else:
                    r["f"].append(card.field(f).as_(str))
            v = card.maybe_get_field("p")
            if v is None:
                r["p"] = "-"
            else:
                try:
                    u = v.as_uri()
                    r["p"] = str(u.to_path()) if u.scheme == "file" else str(u)
                except AssetCardError:
                    r["p"] = "AssetCardError"
            return text, card, r

        configs = StandardAssetConfigLoader(StandardValueConverter(), StandardConfigMerger(), StandardConfigProcessor([]))
        for q in queries:
            text, card, r = ask(q)
            ev.append({"op": "get", "text": text, "q": q, "res": r})
            if card is not None and rng.random() < 0.5:
                given = Conf(lr=rng.randrange(5))
                out = configs.load(card, given, "model_config")
                ev.append({"op": "config", "text": text, "q": q, "given": [[k, str(v)] for k, v in asdict(given).items()],
                           "out": [[k, str(v)] for k, v in asdict(out).items()]})
        if store is not None and rng.random() < 0.6:
            f, v = rng.choice(FIELDS[:2]), rng.choice(["1", "2", "a", "buser"])
            e = {"op": "find", "f": f, "v": v, "names": [], "res": "ok"}
            try:
                e["names"] = [c.name for c in store.find_cards(f, v)]
            except AssetCardError:
                e["res"] = "AssetCardError"
            except RecursionError:
                e["res"] = "RecursionError"
            ev.append(e)
        rels = ["sub/f.pt", "sp ace/ü%20.pt"]
        return {"cfg": {"sources": groups, "env": env, "rels": rels}, "ev": ev, "_info": {"sources": [k for k, _ in kinds]}}
    finally:
        shutil.rmtree(root, ignore_errors=True)


def queries(rng, es, n):
    names = sorted({x["n"] for x in es}) + ["missing", "bad", ""]
    out = []
    for _ in range(n):
        t = rng.random() < 0.55
        out.append({"n": rng.choice(names), "tagged": t, "env": rng.choice(["", "user", "e", "e1", "e2", "nope", "e1@e2"]) if t else ""})
    return out


def job(a):
    kind, arg, seed = a
    rng = random.Random(seed)
    if kind == "small":
        es = [entry(x["n"], x["e"], x["b"], x["hasb"], x["f"]) for x in arg["es"]]
        return play((es, [arg["q"]] + queries(rng, es, 2), arg["default"], rng.random()))
    s = rng.random()
    # play() draws the same world from the same seed
    es = world(random.Random(s))
    return play((None, queries(rng, es, 8), rng.choice(["", "", "e1", "e2", "user"]), s))


def run(ctx):
    over = {} if ctx.quick else {"Small": "FALSE"}
    tlc.model_check(ctx, "AssetsDesign", overrides=over, timeout=800, coverage=False)
    small = tlc.generate(ctx, "AssetsDesign", overrides={"Emitting": "TRUE"} | over, num=ctx.pick(1500, 20000), depth=3)
    cases = [("small", s, ctx.rng.random()) for s in small] + [("world", None, ctx.rng.random()) for _ in range(ctx.pick(2500, 40000))]
    traces = pmap(ctx, job, cases, 50)
    for s in ("card", "none", "error"):
        ctx.count("lookups_" + s, sum(e["op"] == "get" and e["res"]["s"] == s for t in traces for e in t["ev"]))
    ctx.sample(traces[-1])
    tlc.validate(ctx, "AssetsTrace", traces)

    def corrupt(t, rng):
        c = [e for e in t["ev"] if e["op"] == "get"]
        if not c:
            return None
        r = rng.choice(c)["res"]
        r["n"] += "x"
        return t

    tlc.selftest(ctx, "AssetsTrace", traces, corrupt)
