"""C01: a crash anywhere in a checkpoint operation leaves every listed checkpoint whole."""

from __future__ import annotations

import os
import random
import shutil
from pathlib import Path

from vlib import tlc
from vlib.ckptlib import Job, random_chooser
from vlib.crashfs import CrashPoint, in_child, torn_file_system
from vlib.pool import pmap

# (operation, arguments); "asave" = asynchronous save, then jobs, then a blocking poll
CONTEXTS = {
    "empty": [],
    "one": [("save", 1, "full")],
    "scored": [("save", 1, "full"), ("score", 1, 3), ("save", 2, "full"), ("score", 2, 5)],
    "model": [("save", 1, "model"), ("save", 2, "full")],
    "pending": [("save", 1, "full"), ("start", 2, "full")],
    "gone": [("save", 1, "full"), ("save", 2, "full"), ("delete", 1, False), ("delete", 2, True)],
    "same": [("save", 3, "full"), ("score", 3, 2), ("save", 1, "full")],
}
FINALS = [
    ("save", 3, "full"),
    ("asave", 3, "full"),
    ("save", 3, "model"),
    ("save", 1, "full"),
    ("delete", 1, False),
    ("delete", 2, False),
    ("delete", 1, True),
    ("delete", 2, True),
    ("score", 2, 2),
    ("score", 1, 11),
]


def apply(job: Job, op, evs, v):
    k = op[0]
    if k == "save":
        job.advance(v)
        evs.append(job.save(op[1], op[2], True))
    elif k == "start":
        job.advance(v)
        evs.append(job.save(op[1], op[2], False))
    elif k == "asave":
        job.advance(v)
        evs.append(job.save(op[1], op[2], False))
        job.advance(v + 1)
        evs.append(job.poll(True))
    elif k == "delete":
        evs.append(job.delete(op[1], op[2]))
    elif k == "score":
        evs.append(job.score(op[1], op[2]))


def of_event(op, v):
    if op[0] in ("save", "asave"):
        return {"op": "save", "s": op[1], "v": v, "kind": op[2]}
    if op[0] == "delete":
        return {"op": "delete", "s": op[1], "keep": op[2]}
    return {"op": "score", "s": op[1], "x": op[2]}


def scenario(topo, fsname, ctxops, final, seed, dir: Path, at, raises):
    """Runs in the child. Returns (events of the prefix, events after, crash point names)."""
    from fairseq2.file_system import GlobalFileSystem, NativeLocalFileSystem

    inner = GlobalFileSystem() if fsname == "global" else NativeLocalFileSystem()
    cp = CrashPoint(str(dir), at, raises=raises)
    cp.install()
    job = Job(topo, dir, torn_file_system(inner, cp), random_chooser(random.Random(seed)), v=0)
    evs: list = []
    v = 0
    for op in ctxops:
        v += 1
        apply(job, op, evs, v)
    if not any(o[0] == "start" for o in ctxops):
        evs.append(job.obs())
    n0 = len(evs)
    v += 1
    cp.armed = True
    failed = False
    try:
        apply(job, final, evs, v)
    except Exception:
        if not raises:
            raise
        failed = True
    cp.armed = False
    if failed:
        return {"pre": evs[:n0], "post": [], "names": cp.names, "failed": True}
    evs.append(job.obs())
    job.close()
    return {"pre": evs[:n0], "post": evs[n0:], "names": cp.names, "failed": False}


def after(topo, fsname, dir: Path, step: int, vv: int):
    """A new job over what the crash left behind: observe, save again, observe."""
    from fairseq2.file_system import GlobalFileSystem, NativeLocalFileSystem

    fs = GlobalFileSystem() if fsname == "global" else NativeLocalFileSystem()
    job = Job(topo, dir, fs, None, v=vv)
    evs = [job.obs()]
    evs.append(job.save(step, "full", True))
    evs.append(job.obs())
    evs.append(job.stale(1, 1, None))
    job.close()
    return evs


def case(topo, fsname, cname, final, seed, at, raises, base: Path, n):
    """Returns (status, trace or message)."""
    d = base / f"{os.getpid()}-{n}"
    d.mkdir()
    out = d / "out"
    out.mkdir()
    ctxops = CONTEXTS[cname]
    v = len(ctxops) + 1
    info = {"topology": topo, "fs": fsname, "context": cname, "final": final, "seed": seed, "crash_at": at, "io_error": raises}
    try:
        st, res = in_child(lambda: scenario(topo, fsname, ctxops, final, seed, out, at, raises))
        if st == "ok" and not res["failed"]:
            return "done", res, info
        if st == "error":
            return "error", res, info
        st2, aft = in_child(lambda: after(topo, fsname, out, 9, v + 1))
        if st2 != "ok":
            return "error-after", aft, info
        return ("fail" if raises else "crash"), aft, info
    finally:
        shutil.rmtree(d, ignore_errors=True)


_counter = iter(range(10**9))


def one(plan, base, quick):
    from vlib.ckptlib import TOPOLOGIES

    out = []
    topo, fsname, cname, final, seed = plan
    st, res, info = case(topo, fsname, cname, final, seed, None, False, base, next(_counter))
    n = TOPOLOGIES[topo][0]
    if st != "done":
        return [("bad", st, res, info)]
    out.append(("trace", {"cfg": {"n": n}, "ev": res["pre"] + res["post"], "_info": info}))
    names = res["names"]
    pre = res["pre"]
    v = len(CONTEXTS[cname]) + 1
    ks = list(range(1, len(names) + 1))
    rng = random.Random(f"{plan}")
    cap = 26 if quick else 400
    if len(ks) > cap:
        # Every operation other than a plain write, then a sample of the writes.
        hard = [k for k in ks if names[k - 1] != "write"]
        soft = [k for k in ks if names[k - 1] == "write"]
        rng.shuffle(hard)
        rng.shuffle(soft)
        ks = sorted((hard + soft)[:cap])
    jobs = [(k, False) for k in ks]
    if topo == "one":
        jobs += [(k, True) for k in (ks if not quick else ks[:: 3])]
    for k, raises in jobs:
        st, res, info = case(topo, fsname, cname, final, seed, k, raises, base, next(_counter))
        info["point"] = names[k - 1]
        if st == "done":
            # An I/O error that the operation survives has to leave what no error leaves.
            out.append(("trace", {"cfg": {"n": n}, "ev": res["pre"] + res["post"], "_info": info}))
            continue
        if st.startswith("error"):
            out.append(("bad", st, res, info))
            continue
        ev = {"op": st, "of": of_event(final, v)}
        out.append(("trace", {"cfg": {"n": n}, "ev": pre + [ev] + res, "_info": info}))
        out.append(("count", st, names[k - 1].split(" ")[0]))
    return out


def _call(a):
    return one(*a)


def run(ctx):
    tlc.model_check(ctx, "Checkpoint")
    if not ctx.quick:
        tlc.model_check(ctx, "Checkpoint", overrides={"NRanks": "3", "MaxCrash": "2"}, timeout=800, workers=8, heap="12g")

    base = ctx.scratch
    plans = []
    for fsname in ("global", "local"):
        for cname in CONTEXTS:
            for final in FINALS:
                plans.append(("one", fsname, cname, final, 1))
    multi = ctx.pick(["ddp2", "tp2"], ["ddp2", "fsdp2", "tp2", "tp2fsdp2", "hsdp2x2"])
    for topo in multi:
        for cname in CONTEXTS:
            for final in FINALS:
                plans.append((topo, "global", cname, final, ctx.rng.randrange(1000)))
    if ctx.quick:
        keep = [p for p in plans if p[0] == "one" and p[1] == "global"]
        rest = [p for p in plans if not (p[0] == "one" and p[1] == "global")]
        ctx.rng.shuffle(rest)
        plans = keep + rest[:40]

    traces = []
    # The children fork from this process: threads here only wait for them.

    results = pmap(ctx, _call, [(p, base, ctx.quick) for p in plans], 1)
    points = {}
    for res in results:
        for r in res:
            if r[0] == "trace":
                traces.append(r[1])
            elif r[0] == "count":
                points[f"{r[1]}:{r[2]}"] = points.get(f"{r[1]}:{r[2]}", 0) + 1
            else:
                what = "an operation raised or hung without a fault" if r[1] == "error" else \
                    "the checkpoint directory a crash left behind cannot be used"
                ctx.violation(f"{what}: {r[3]}", {"error": r[2]})
    ctx.extra["crash_points"] = points
    ctx.sample(traces[0]["ev"])
    ctx.sample(traces[-1]["ev"])
    tlc.validate(ctx, "CheckpointTrace", traces)

    def corrupt(t, rng):
        for e in reversed(t["ev"]):
            if e["op"] == "obs" and e["content"]:
                i = rng.randrange(len(e["content"]))
                e["content"][i][0][0] = rng.choice([-1, -2, -3])
                return t
        return None

    tlc.selftest(ctx, "CheckpointTrace", traces, corrupt)
    ctx.assumptions += [
        "a crash is the death of the whole job; file operations that returned are durable (no power-loss reordering)",
        "the rename of a directory is atomic (POSIX)",
    ]
