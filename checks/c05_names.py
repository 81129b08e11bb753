"""C05: a checkpoint directory names its models."""

from __future__ import annotations

import os
import random
import re
import shutil
from dataclasses import dataclass, field
from pathlib import Path

from vlib import tlc
from vlib.ckptlib import SCORES, TOPOLOGIES, Job, random_chooser
from vlib.pool import pmap


@dataclass
class Inner:
    x: float = 0.5
    tags: list[str] = field(default_factory=list)


@dataclass
class Config:
    dim: int = 0
    name: str = ""
    inner: Inner = field(default_factory=Inner)
    opt: int | None = None


def config_of(f: int) -> Config:
    return Config(dim=f * 16, name=f"arch-{f} \u00e9: yes", inner=Inner(x=f / 3, tags=[str(f), "on", "1e3"]), opt=None if f % 2 else f)


class Dir:
    def __init__(self, d: Path, fs) -> None:
        from fairseq2.assets import YamlAssetMetadataFileLoader
        from fairseq2.checkpoint import (
            StandardModelMetadataDumper,
            StandardModelMetadataLoader,
        )
        from fairseq2.utils.structured import StandardValueConverter
        from fairseq2.utils.yaml import RuamelYamlDumper, RuamelYamlLoader

        self.d = d
        self.vc = StandardValueConverter()
        self.dumper = StandardModelMetadataDumper(fs, RuamelYamlDumper(fs), self.vc)
        self.loader = StandardModelMetadataLoader(fs, YamlAssetMetadataFileLoader(RuamelYamlLoader(fs)))

    def dump(self, f: int) -> dict:
        self.dumper.dump(self.d, f"family{f}", config_of(f))
        return {"op": "dump", "f": f}

    def names(self) -> dict:
        from fairseq2.assets import (
            AssetMetadataError,
            StandardAssetConfigLoader,
            StandardAssetStore,
        )
        from fairseq2.checkpoint import ModelMetadataSource
        from fairseq2.utils.config import StandardConfigMerger, StandardConfigProcessor

        ev = {"op": "names", "res": "ok", "names": [], "fams": [], "broken": []}
        try:
            providers = list(ModelMetadataSource(self.d, self.loader).load())
        except (AssetMetadataError, FileNotFoundError):
            ev["res"] = "error"
            return ev
        except Exception as ex:  # noqa: BLE001
            if "OperationalError" not in type(ex).__name__:
                raise
            ev["res"] = "error"
            return ev
        store = StandardAssetStore(providers)
        cfg_loader = StandardAssetConfigLoader(self.vc, StandardConfigMerger(), StandardConfigProcessor([]))
        for full in sorted(store.asset_names):
            name = full.removesuffix("@")
            if name == "checkpoint":
                continue
            card = store.retrieve_card(name)
            m = re.fullmatch(r"(?:checkpoint_(step)_(\d+))|(last)_checkpoint|(best)_checkpoint(?:_(\d+))?", name)
            if m is None or "@" in name:
                ev["names"].append(["other", 0, -1])
                continue
            path = Path(card.field("checkpoint").as_uri().to_path())
            root = Path(os.path.realpath(self.d))
            q = re.fullmatch(r"step_(\d+)/model", str(path.relative_to(root)) if path.is_relative_to(root) else "")
            if q is None or not path.is_dir():
                ev["broken"].append(f"{name} -> {path}")
                tgt = -1
            else:
                tgt = int(q[1])
            if m[1]:
                ev["names"].append(["step", int(m[2]), tgt])
            elif m[3]:
                ev["names"].append(["last", 0, tgt])
            else:
                ev["names"].append(["best", -1 if m[5] is None else int(m[5]), tgt])
            fam = -1
            for f in range(1, 6):
                if card.field("model_family").as_(str) == f"family{f}":
                    if cfg_loader.load(card, Config(), "model_config") == config_of(f):
                        fam = f
            ev["fams"].append(fam)
        return ev


def one(args):
    topo, ops, seed, base, fsname = args
    from fairseq2.file_system import GlobalFileSystem, NativeLocalFileSystem

    fs = GlobalFileSystem() if fsname == "global" else NativeLocalFileSystem()
    # Directories may be listed in any order.
    order, listing = random.Random(seed + 1), fs.glob

    def glob(*a, **k):
        paths = list(listing(*a, **k))
        order.shuffle(paths)
        return iter(paths)

    fs.glob = glob
    d = Path(base) / f"{os.getpid()}-{seed}"
    d.mkdir()
    evs: list = []
    try:
        job = Job(topo, d, fs, random_chooser(random.Random(seed)), v=0)
        dr = Dir(d / "checkpoints", fs)
        d = d / "checkpoints"
        d.mkdir(exist_ok=True)
        try:
            for op in ops:
                k = op[0]
                if k == "save":
                    evs.append(job.save(op[1], op[2], True))
                elif k == "start":
                    evs.append(job.save(op[1], op[2], False))
                elif k == "wait":
                    evs.append(job.poll(True))
                elif k == "score":
                    evs.append(job.score(op[1], op[2]))
                elif k == "delete":
                    evs.append(job.delete(op[1], op[2]))
                elif k == "dump":
                    evs.append(dr.dump(op[1]))
                elif k == "damage":
                    sc = d / "scores"
                    sc.mkdir(exist_ok=True)
                    (sc / f"step_{op[1]}.txt").write_text(op[2])
                    evs.append({"op": "damage", "s": op[1]})
                elif k == "litter":
                    if op[1] == "tmp":
                        (d / f"step_{op[2]}.tmp" / "model").mkdir(parents=True, exist_ok=True)
                    elif op[1] == "file":
                        (d / f"step_{op[2] + 50}").write_text("")
                    elif op[1] == "word":
                        (d / "step_last").mkdir(exist_ok=True)
                    elif op[1] == "score":
                        (d / "scores").mkdir(exist_ok=True)
                        (d / "scores" / f"step_{op[2]}.txt.tmp").write_text("1")
                        (d / "scores" / f"step_{op[2] + 70}.txt").write_text("99")
                    evs.append({"op": "litter"})
                elif k == "names":
                    evs.append(dr.names())
        except Exception as ex:  # noqa: BLE001
            evs.append({"op": "error", "what": f"{type(ex).__name__}: {ex}"})
        job.close()
    finally:
        shutil.rmtree(Path(base) / f"{os.getpid()}-{seed}", ignore_errors=True)
    return {"cfg": {"n": TOPOLOGIES[topo][0]}, "ev": evs, "_info": {"ops": ops, "fs": fsname}}


def history(rng):
    steps = rng.choice([[1, 2, 3], [9, 10, 11, 100], [2, 20, 200, 1000], [0, 1, 2]])
    ops = []
    if rng.random() < 0.9:
        ops.append(("dump", 1))
    if rng.random() < 0.4:
        # Some steps with scores, many of them equal.
        few = rng.sample(range(len(SCORES)), 2)
        for s in rng.sample(steps, len(steps)):
            ops += [("save", s, rng.choice(["full", "model"])), ("score", s, rng.choice(few))]
        ops.append(("names",))
    flight = False
    for _ in range(rng.randrange(3, 13)):
        k = rng.choice(["save", "save", "save", "score", "score", "score", "delete", "start", "wait", "litter", "names", "dump", "damage"])
        s = rng.choice(steps)
        if k in ("save", "start"):
            ops.append((k, s, rng.choice(["full", "full", "model"])))
            flight = k == "start"
        elif k == "wait":
            ops.append(("wait",))
            flight = False
        elif k == "score":
            ops.append(("score", s, rng.choice([3, 4, 4, 8, 9]) if rng.random() < 0.7 else rng.randrange(len(SCORES))))
        elif k == "delete":
            # Deleting the step in flight is left to C01.
            if not flight:
                ops.append(("delete", s, rng.random() < 0.4))
        elif k == "litter":
            if not flight:
                ops.append(("litter", rng.choice(["tmp", "file", "word", "score"]), s))
        elif k == "dump":
            ops.append(("dump", rng.randrange(1, 5)))
        elif k == "damage":
            if rng.random() < 0.25:
                ops.append(("damage", s, rng.choice(["", "x", "1.5 2", "\n3"])))
        else:
            ops.append(("names",))
    ops.append(("names",))
    return ops


def run(ctx):
    for a, b, c in ctx.pick([(0, 2, 0), (2, 2, 3)], [(i, j, k) for i in (0, 2) for j in (0, 1, 3) for k in (0, 3)]):
        tlc.model_check(ctx, "CheckpointRetention", overrides={"KLast": a, "KBest": b, "KEvery": c})
    plans = [("one" if i % 8 else "fsdp2", history(ctx.rng), i, str(ctx.scratch), ["global", "local"][i % 2])
             for i in range(ctx.pick(1200, 12000))]
    traces = pmap(ctx, one, plans, 8)
    ctx.count("listings", sum(1 for t in traces for e in t["ev"] if e["op"] == "names"))
    ctx.sample(traces[-1]["ev"])
    tlc.validate(ctx, "CheckpointNames", traces)

    def corrupt(t, rng):
        c = [e for e in t["ev"] if e["op"] == "names" and e["names"]]
        if not c:
            return None
        e = rng.choice(c)
        if rng.random() < 0.5:
            rng.choice(e["names"])[2] += 1
        else:
            e["names"].append(["best", 40, 1])
            e["fams"].append(e["fams"][0])
        return t

    tlc.selftest(ctx, "CheckpointNames", traces, corrupt)
