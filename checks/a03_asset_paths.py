"""A03: a card's sub-path leads to a part of its asset, never elsewhere, however the asset is reached."""

from __future__ import annotations

import random
import shutil
from pathlib import Path

from vlib import core, tlc
from vlib.pool import pmap

TOP = ["o"] * 8  # keeps ".." within the scratch directory


def tree(rng, root):
    """Directories, files and links below `root`; what the specification sees of them."""
    nodes = []
    for _ in range(rng.randrange(2, 9)):
        p = [rng.choice("abc") for _ in range(rng.randrange(1, 4))]
        f = root.joinpath(*p)
        if f.is_symlink() or f.exists() or any(x.is_symlink() or x.is_file() for x in f.parents if root in x.parents):
            continue
        f.parent.mkdir(parents=True, exist_ok=True)
        kind = rng.choice(["dir", "file", "link", "link"])
        to, is_abs = [], False
        if kind == "dir":
            f.mkdir()
        elif kind == "file":
            f.write_text("x")
        else:
            is_abs = rng.random() < 0.4
            to = [rng.choice(["a", "b", "c", "..", "..", "."]) for _ in range(rng.randrange(1, 4))]
            if sum(x == ".." for x in to) > (0 if is_abs else 1):
                to = [x for x in to if x != ".."] or ["a"]
            f.symlink_to(root.joinpath(*to) if is_abs else Path(*to))
        nodes.append({"p": TOP + p, "link": kind == "link", "abs": is_abs, "to": (TOP if is_abs else []) + to})
    return nodes


def play(case):
    core.setup_fairseq2()
    import torch
    from fairseq2.assets import AssetCard, AssetCardError, AssetConfigLoader
    from fairseq2.data.tokenizers.family import StandardTokenizerFamily
    from fairseq2.device import CPU
    from fairseq2.file_system import FileSystem
    from fairseq2.gang import GangContext, create_fake_gangs
    from fairseq2.models.family import StandardModelFamily
    from fairseq2.runtime.dependency import get_dependency_resolver
    from fairseq2.runtime.lookup import Lookup
    from fairseq2.sharder import ModelSharder
    from fairseq2.utils.progress import ProgressReporter
    from fairseq2.utils.validation import ObjectValidator

    seed, scratch = case
    rng = random.Random(seed)
    base = (Path(scratch) / f"t{seed}").resolve()
    root = base.joinpath(*TOP)
    root.mkdir(parents=True)
    nodes = tree(rng, root)
    gangs = create_fake_gangs(CPU)
    r = get_dependency_resolver()

    class Found(Exception):
        pass

    class Manager:
        supported_schemes = {"file", "https"}
        where = None

        def download_model(self, uri, **kw):
            return self.where

        download_tokenizer = download_model

    class Loader:
        def lazy_load(self, path, *args, **kwargs):
            raise Found(path)
            yield

        def supports_path(self, path):
            return True

    class Cfg:
        pass

    class Configs(Lookup):
        kls = Cfg

        def maybe_get(self, key):
            return None

        def iter_keys(self):
            return iter(())

    def load(path, config):
        raise Found(path)

    manager = Manager()
    tokenizers = StandardTokenizerFamily("toy", object, Cfg, load, r.resolve(FileSystem), r.resolve(ObjectValidator), manager, r.resolve(AssetConfigLoader), r.resolve(GangContext))
    models = StandardModelFamily(
        "toy", torch.nn.Linear, Configs(), lambda config: torch.nn.Linear(1, 1), r.resolve(FileSystem), r.resolve(ObjectValidator), manager, r.resolve(AssetConfigLoader),
        Loader(), False, True, r.resolve(ModelSharder), None, None, None, None, None, r.resolve(ProgressReporter),
    )

    def sees(p):
        """The names of a location below the scratch directory; None if it cannot be told."""
        try:
            q = Path(p).resolve()
        except (RuntimeError, OSError):
            return None
        return list(q.relative_to(base).parts) if q == base or base in q.parents else ["elsewhere", str(q)]

    evs = []
    for _ in range(12):
        asset = [rng.choice("abc") for _ in range(rng.randrange(1, 4))]
        part = rng.random() < 0.9
        is_abs = rng.random() < 0.15
        sub = [rng.choice(["a", "b", "c", "a", "b", "..", "."]) for _ in range(rng.randrange(1, 4))]
        loc = root.joinpath(*asset)
        sp = str(root.joinpath(*sub)) if is_abs else "/".join(sub)
        if sees(loc) is None or sees(loc / sp) is None:
            continue  # links in a circle
        who = rng.choice(["tokenizer", "model"])
        if part and not (loc / sp).exists() or not part and not loc.exists():
            who = "tokenizer"  # models look whether there is a file first
        key = {"tokenizer": "tokenizer", "model": "checkpoint"}[who]
        if rng.random() < 0.5:
            uri = f"file://{loc}"
        else:
            uri, manager.where = "https://nowhere/x", loc
        card = AssetCard("toy", {"name": "toy", key: uri} | ({key + "_path": sp} if part else {}))
        at = []
        try:
            if who == "tokenizer":
                tokenizers.load_tokenizer(card, gangs, Cfg())
            else:
                models.load_model(card, gangs, torch.float32, Cfg(), False, False)
            got = "nothing loaded"
        except Found as ex:
            got, at = "loaded", sees(ex.args[0])
        except AssetCardError as ex:
            got = "refused" if "not relative" in str(ex) or "points to" in str(ex) else f"AssetCardError: {ex}"
        except Exception as ex:  # noqa: BLE001
            got = f"{type(ex).__name__}: {ex}"
        evs.append({"tree": nodes, "asset": TOP + asset, "part": part, "sub": {"abs": is_abs, "to": (TOP if is_abs else []) + sub}, "who": who, "got": got, "at": at})
    shutil.rmtree(base)
    return {"cfg": {"seed": seed}, "ev": evs} if evs else None


def run(ctx):
    tlc.model_check(ctx, "AssetPathDesign", overrides={"Links": "1", "Deep": "2"})
    tlc.model_check(ctx, "AssetPathDesign", overrides={"Links": ctx.pick("2", "3"), "Deep": "1"}, timeout=850)
    traces = [t for t in pmap(ctx, play, [(ctx.rng.randrange(2**31), str(ctx.scratch)) for _ in range(ctx.pick(160, 4000))], 20) if t]
    evs = [e for t in traces for e in t["ev"]]
    ctx.count("loads", len(evs))
    ctx.count("refused", sum(e["got"] == "refused" for e in evs))
    ctx.count("through links", sum(any(n["link"] for n in e["tree"]) and e["got"] == "loaded" for e in evs))
    ctx.sample(evs[0])
    ctx.assumptions.append("Links that lead in a circle are left out: what becomes of them is Python's to say, and differs between its versions.")
    tlc.validate(ctx, "AssetPathTrace", traces)

    def corrupt(t, rng):
        e = rng.choice(t["ev"])
        if e["got"] == "loaded" and rng.random() < 0.5:
            e["at"] = e["at"] + ["z"]
        else:
            e["got"] = "refused" if e["got"] == "loaded" else "loaded"
        return t

    tlc.selftest(ctx, "AssetPathTrace", traces, corrupt)
