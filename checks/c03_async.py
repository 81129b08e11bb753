"""C03: an asynchronous save is a snapshot, published once, only when all ranks are done."""

from __future__ import annotations

import os
import random
import shutil
from pathlib import Path

from vlib import tlc
from vlib.ckptlib import TOPOLOGIES, Job, random_chooser
from vlib.pool import pmap
from vlib.simgang import SimStuck

MAP = {2: ["ddp2", "fsdp2", "tp2"]}


def one(args):
    topo, hist, seed, base, kinds = args
    from fairseq2.file_system import GlobalFileSystem

    rng = random.Random(seed)
    d = Path(base) / f"{os.getpid()}-{seed}-{topo}"
    d.mkdir()
    evs: list = []
    info = {"topology": topo, "schedule": hist, "seed": seed}
    try:
        # File operations of the background writers are scheduling points.
        job = Job(topo, d, (GlobalFileSystem(),), random_chooser(rng), v=0, max_v=30)
        v = 0
        try:
            for i, a in enumerate(hist):
                k, s = a["a"], a["s"]
                if k in ("asave", "save"):
                    v += 1
                    job.advance(v)
                    evs.append(job.save(s, kinds[i % len(kinds)], k == "save", quiet=rng.random() < 0.7))
                elif k == "part":
                    job.part(s - 1, rng.randrange(1, 12))
                elif k == "done":
                    job.run_jobs(s - 1)
                elif k == "poll":
                    evs.append(job.poll(False))
                elif k == "wait":
                    evs.append(job.poll(True))
                else:
                    evs.append(job.obs())
                # Training goes on: every tensor and container is changed in place.
                v += 1
                job.advance(v)
            job.advance(v + 1)
            evs.append(job.poll(True))
            evs.append(job.obs())
        except SimStuck as ex:
            evs.append({"op": "error", "what": str(ex)})
        except Exception as ex:  # noqa: BLE001
            evs.append({"op": "error", "what": f"{type(ex).__name__}: {ex}"})
        job.close()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {"cfg": {"n": TOPOLOGIES[topo][0]}, "ev": evs, "_info": info}


def run(ctx):
    tlc.model_check(ctx, "Checkpoint")

    hists = tlc.generate(ctx, "CheckpointGen", overrides={"Depth": ctx.pick("4", "5")})
    hists = [h for h in hists if any(a["a"] == "asave" for a in h)]
    three = tlc.generate(ctx, "CheckpointGen", overrides={"NR": "3", "Depth": ctx.pick("6", "8")}, num=ctx.pick(150, 1500), depth=10)
    three = [h for h in three if any(a["a"] == "asave" for a in h)]
    four = tlc.generate(ctx, "CheckpointGen", overrides={"NR": "4", "Depth": ctx.pick("7", "9")}, num=ctx.pick(150, 1500), depth=11)
    four = [h for h in four if any(a["a"] == "asave" for a in h)]
    plans = []
    b = str(ctx.scratch)
    cap = ctx.pick(1400, 8000)
    if len(hists) > cap:
        hists = ctx.rng.sample(hists, cap)
    for i, h in enumerate(hists):
        kinds = [["full"], ["full"], ["model", "full"], ["model"]][i % 4]
        plans.append((["ddp2", "fsdp2", "tp2"][ctx.rng.randrange(3)], h, ctx.rng.randrange(10**9), b, kinds))
    for h in three[: ctx.pick(150, 1500)]:
        plans.append((ctx.rng.choice(["ddp3", "fsdp3"]), h, ctx.rng.randrange(10**9), b, ["full"]))
    for h in four[: ctx.pick(150, 1500)]:
        plans.append((ctx.rng.choice(["tp2dp2", "tp2fsdp2", "hsdp2x2"]), h, ctx.rng.randrange(10**9), b, ["full"]))
    traces = pmap(ctx, one, plans, 8)
    pub = sum(1 for t in traces for e in t["ev"] if e["op"] == "poll" and "true" in e["res"])
    ctx.count("polls", sum(1 for t in traces for e in t["ev"] if e["op"] == "poll"))
    ctx.count("completing_polls", pub)
    ctx.sample(traces[0]["ev"])
    tlc.validate(ctx, "CheckpointTrace", traces)

    def corrupt(t, rng):
        cands = [e for e in t["ev"] if e["op"] == "poll" or (e["op"] == "obs" and e["content"])]
        if not cands:
            return None
        e = rng.choice(cands)
        if e["op"] == "poll":
            r = rng.randrange(t["cfg"]["n"])
            e["res"][r] = {"true": "false", "false": "true", "none": "true"}[e["res"][r]]
        else:
            e["content"][0][0][1] += 1
        return t

    tlc.selftest(ctx, "CheckpointTrace", traces, corrupt)
