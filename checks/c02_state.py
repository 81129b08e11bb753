"""C02: every rank gets back exactly its own saved state, in every topology."""

from __future__ import annotations

import random

from vlib import tlc
from vlib.ckptlib import TOPOLOGIES, Job, random_chooser
from vlib.pool import pmap
from vlib.simgang import SimStuck

# Topologies in which every rank writes a part of the model.
ALL_WRITE = ("one", "fsdp2", "fsdp3", "tp2", "tp2fsdp2")


def script(rng, refuse):
    """A history of saves of both kinds, model-only shrinking, damage and refusal."""
    ops = []
    steps = [1, 2, 5, 10, 21]
    listed = {}
    for _ in range(rng.randrange(3, 7)):
        k = rng.choice(["save", "save", "asave", "asave", "keep", "refuse"])
        s = rng.choice(steps)
        if k == "keep":
            full = [x for x in listed if listed[x] == "full"]
            if not full:
                continue
            s = rng.choice(full)
            listed[s] = "model"
            ops.append(("delete", s, True))
        elif k == "refuse":
            if not refuse:
                continue
            listed.pop(s, None)
            ops.append(("refuse", s))
        else:
            kind = rng.choice(["full", "full", "model"])
            listed[s] = kind
            ops.append((k, s, kind))
        ops.append(("obs",))
    if not ops:
        ops = [('save', 1, 'full'), ('obs',)]
        listed[1] = 'full'
    if listed:
        s = rng.choice(sorted(listed))
        ops.append(("hurt", s, rng.choice(["remove", "empty", "half", "tail"])))
    return ops


def one(args):
    topo, ops, seed, base, fsname = args
    import os
    import shutil
    from pathlib import Path

    from fairseq2.file_system import GlobalFileSystem, NativeLocalFileSystem

    rng = random.Random(seed)
    fs = GlobalFileSystem() if fsname == "global" else NativeLocalFileSystem()
    d = Path(base) / f"{os.getpid()}-{seed}-{topo}"
    d.mkdir()
    evs: list = []
    info = {"topology": topo, "ops": ops, "seed": seed, "fs": fsname}
    try:
        job = Job(topo, d, fs, random_chooser(rng), v=0)
        v = 0
        try:
            for op in ops:
                k = op[0]
                if k in ("save", "asave"):
                    v += 1
                    job.advance(v)
                    evs.append(job.save(op[1], op[2], k == "save"))
                    if k == "asave":
                        job.advance(v + 1)
                        v += 1
                        evs.append(job.poll(True))
                elif k == "delete":
                    evs.append(job.delete(op[1], op[2]))
                elif k == "refuse":
                    evs.append(job.refuse(op[1]))
                elif k == "obs":
                    evs.append(job.obs())
                elif k == "hurt":
                    evs.append(job.hurt(op[1], op[2], rng))
        except SimStuck as ex:
            evs.append({"op": "error", "what": str(ex)})
        except Exception as ex:  # noqa: BLE001
            evs.append({"op": "error", "what": f"{type(ex).__name__}: {ex}"})
        job.close()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {"cfg": {"n": TOPOLOGIES[topo][0]}, "ev": evs, "_info": info}


def run(ctx):
    tlc.model_check(ctx, "CheckpointLayout", overrides={"MaxSize": ctx.pick("16", "64")})

    fixed = []
    for k in ("save", "asave"):
        for kind in ("full", "model"):
            fixed.append([(k, 1, kind), ("obs",)])
    fixed.append([("save", 1, "full"), ("delete", 1, True), ("obs",), ("save", 1, "full"), ("obs",)])
    fixed.append([("save", 2, "full"), ("save", 1, "model"), ("obs",), ("hurt", 2, "remove")])
    fixed.append([("save", 1, "full"), ("save", 2, "full"), ("refuse", 1), ("obs",)])
    plans = []
    for topo in TOPOLOGIES:
        for i, ops in enumerate(fixed):
            # A rank without a replica of its own never looks at the model state.
            ops = [o for o in ops if o[0] != "refuse" or topo in ALL_WRITE]
            plans.append((topo, ops, 1000 + i, str(ctx.scratch), "global"))
        for how in ("remove", "empty", "half", "tail"):
            for i in range(ctx.pick(3, 20)):
                plans.append((topo, [("save", 1, ["full", "model"][i % 3 == 2]), ("hurt", 1, how)], ctx.rng.randrange(10**9), str(ctx.scratch), "global"))
        for i in range(ctx.pick(20, 150)):
            plans.append((topo, script(ctx.rng, topo in ALL_WRITE), ctx.rng.randrange(10**9), str(ctx.scratch), ["global", "local"][i % 2]))
    traces = pmap(ctx, one, plans, 4)
    ctx.count("topologies", len(TOPOLOGIES))
    ctx.sample(traces[5]["ev"])
    tlc.validate(ctx, "CheckpointTrace", traces)

    def corrupt(t, rng):
        for e in reversed(t["ev"]):
            if e["op"] == "obs" and e["content"]:
                r = rng.randrange(t["cfg"]["n"])
                e["content"][0][r][1] = rng.choice([-1, -2, -3])
                return t
        return None

    tlc.selftest(ctx, "CheckpointTrace", traces, corrupt)
