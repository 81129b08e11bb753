"""C04: retention keeps exactly what was asked for, and always the last."""

from __future__ import annotations

import itertools
import os
import random
import shutil
from pathlib import Path

from vlib import tlc
from vlib.ckptlib import SCORES, TOPOLOGIES, Job, random_chooser
from vlib.pool import pmap
from vlib.simgang import SimStuck


def one(args):
    topo, ops, seed, base, fsname = args
    from fairseq2.file_system import GlobalFileSystem, NativeLocalFileSystem

    rng = random.Random(seed)
    fs = GlobalFileSystem() if fsname == "global" else NativeLocalFileSystem()
    d = Path(base) / f"{os.getpid()}-{seed}-{topo}"
    d.mkdir()
    evs: list = []
    try:
        job = Job(topo, d, fs, random_chooser(rng), v=0)
        try:
            for op in ops:
                k = op[0]
                if k == "save":
                    evs.append(job.save(op[1], op[2], True))
                elif k == "score":
                    evs.append(job.score(op[1], op[2]))
                elif k == "delete":
                    evs.append(job.delete(op[1], op[2]))
                elif k == "stale":
                    evs.append(job.stale(*op[1]))
                elif k == "tidy":
                    # What the trainer does: ask, then delete.
                    e = job.stale(*op[1])
                    evs.append(e)
                    for s in e["res"][0]:
                        evs.append(job.delete(s, op[2]))
                    evs.append(job.stale(*op[1]))
                else:
                    evs.append(job.obs())
        except SimStuck as ex:
            evs.append({"op": "error", "what": str(ex)})
        except Exception as ex:  # noqa: BLE001
            evs.append({"op": "error", "what": f"{type(ex).__name__}: {ex}"})
        job.close()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {"cfg": {"n": TOPOLOGIES[topo][0]}, "ev": evs, "_info": {"topology": topo, "ops": ops, "fs": fsname}}


OPTS = [(a, b, c) for a in (None, 1, 2, 3, 5) for b in (None, 1, 2, 3, 5) for c in (None, 1, 2, 3, 4)]


def history(rng):
    ops = []
    n = 0
    steps = rng.choice([[1, 2, 3, 4, 5, 6], [2, 4, 6, 9, 10, 11, 100], [3, 6, 7, 9, 12]])
    opt = rng.choice(OPTS)
    for _ in range(rng.randrange(4, 14)):
        k = rng.choice(["save", "save", "save", "score", "score", "delete", "keep", "tidy", "obs", "stale"])
        s = rng.choice(steps)
        if k == "save":
            ops.append(("save", s, rng.choice(["full", "full", "full", "model"])))
        elif k == "score":
            # Few distinct scores, so that ties happen.
            ops.append(("score", s, rng.choice([3, 4, 4, 8, 9]) if rng.random() < 0.6 else rng.randrange(len(SCORES))))
        elif k in ("delete", "keep"):
            ops.append(("delete", s, k == "keep"))
        elif k == "tidy":
            ops.append(("tidy", opt if rng.random() < 0.7 else rng.choice(OPTS), rng.random() < 0.4))
        elif k == "stale":
            ops.append(("stale", rng.choice(OPTS)))
        else:
            ops.append(("obs",))
        n += 1
    ops.append(("obs",))
    return ops


def run(ctx):
    opts = [(0, 0, 0), (1, 0, 0), (2, 2, 3), (0, 1, 0), (0, 3, 2), (3, 0, 0), (0, 0, 2)]
    if not ctx.quick:
        opts = list(itertools.product((0, 1, 2, 3), (0, 1, 2, 3), (0, 2, 3)))
    for a, b, c in opts:
        tlc.model_check(ctx, "CheckpointRetention", overrides={
            "KLast": a, "KBest": b, "KEvery": c, "Steps": "{1, 2, 3, 4, 5, 6}"})

    plans = []
    base = str(ctx.scratch)
    # All contents of four steps: absent, unscored, or scored with a low, middle or high score.
    for i, content in enumerate(itertools.product(range(5), repeat=4)):
        steps = [[1, 2, 3, 4], [2, 9, 10, 12]][i % 2]
        ops = []
        order = list(zip(steps, content))
        ctx.rng.shuffle(order)
        for s, c in order:
            if c:
                ops.append(("save", s, "model" if ctx.rng.random() < 0.2 else "full"))
        for s, c in order:
            if c > 1:
                ops.append(("score", s, [3, 4, 8][c - 2]))
        ops.append(("obs",))
        k = ctx.pick(12, len(OPTS))
        ops += [("stale", o) for o in (OPTS if k >= len(OPTS) else ctx.rng.sample(OPTS, k))]
        ops.append(("tidy", ctx.rng.choice(OPTS), ctx.rng.random() < 0.5))
        ops.append(("obs",))
        plans.append(("one", ops, i, base, ["global", "local"][i // 2 % 2]))
    for i in range(ctx.pick(400, 6000)):
        topo = "one" if i % 4 else ctx.rng.choice(["ddp2", "fsdp2", "tp2", "tp2dp2", "hsdp2x2"])
        plans.append((topo, history(ctx.rng), 10**6 + i, base, ["global", "local"][i % 2]))
    # A score for a checkpoint that is not there has to survive until the checkpoint is.
    traces = pmap(ctx, one, plans, 8)
    ctx.count("retention_queries", sum(1 for t in traces for e in t["ev"] if e["op"] == "stale"))
    ctx.sample(traces[-1]["ev"])
    tlc.validate(ctx, "CheckpointTrace", traces)

    def corrupt(t, rng):
        c = [e for e in t["ev"] if e["op"] == "stale" and e["res"][0]]
        if not c:
            return None
        e = rng.choice(c)
        for r in e["res"]:
            r.pop()
        return t

    tlc.selftest(ctx, "CheckpointTrace", traces, corrupt)
