"""E01: exports run one at a time, by one rank, and are reported once to all."""

from __future__ import annotations

import random
import shlex
import shutil
import sys
from pathlib import Path

from vlib import tlc
from vlib.pool import pmap


def one(case):
    """All ranks make the same calls; processes are stand-ins that end when the schedule says so."""
    from subprocess import CompletedProcess

    from fairseq2.checkpoint.hg import HuggingFaceExportOptions, OutOfProcHuggingFaceExporter
    from fairseq2.file_system import LocalFileSystem
    from fairseq2.gang import create_parallel_gangs
    from fairseq2.utils.process import ProcessRunner

    from vlib.ckptlib import make_gangs  # noqa: F401
    from vlib.simgang import SimGang, SimStuck, SimThreadPool, World, raise_first

    n, tp, plan, seed, base = case
    plan = list(plan) + ["pb"]
    rng = random.Random(seed)
    d = Path(base) / f"x{seed}"
    root = d / "out"
    own = rng.random() < 0.3
    cks = d / "elsewhere" if own else root / "checkpoints"
    nrs = rng.sample([1, 2, 3, 10, 11, 12, 20, 21, 100, 101, 110, 111, 1000, 1001, 1100, 2000], len(plan))
    steps = {i + 1: nrs[i] for i, c in enumerate(plan) if c in ("xa", "xb")}
    for s in steps.values():
        (cks / f"step_{s}").mkdir(parents=True)
    of = {s: i for i, s in steps.items()}
    local = rng.random() < 0.7
    evs: list = []
    # Ranks favoured by the scheduler, so that some run far ahead.
    bias = [rng.choice([1, 1, 1, 6]) for _ in range(n)]

    def choose(names, world):
        ws = [bias[x] if isinstance(x, int) else slow for x in names]
        return rng.choices(range(len(names)), ws)[0]

    slow = rng.choice([0.2, 1, 4])
    world = World(n, choose)
    seen: dict = {}

    def want(s):
        return [sys.executable, "-m", "fairseq2.models.utils.hg_export", "--no-rich", "--checkpoint-dir", str(cks), f"checkpoint_step_{s}",
                str(cks / f"step_{s}" / "hg")]

    class Fs:
        def __init__(self):
            self.inner = LocalFileSystem()

        def __getattr__(self, k):
            return getattr(self.inner, k)

        def is_local_path(self, path):
            return local

    class Runner(ProcessRunner):
        def __init__(self, r):
            self.r = r

        def run(self, *a, **k):
            raise AssertionError("not text")

        def run_text(self, args, stdout=None, stderr=None, capture_output=False, cwd=None, env=None):
            i = next((i for i, s in steps.items() if f"checkpoint_step_{s}" in args), 0)
            evs.append({"op": "start", "r": self.r + 1, "i": i, "cmd": list(args) == want(steps.get(i))})
            for _ in range(rng.choice([0, 0, 1, 3, 8, 20])):
                world.yield_point("process")
            code = rng.choice([0, 0, 0, 1, 2, -9])
            out = f"out {i}\n", f"err {i}\n"
            if capture_output:
                res = CompletedProcess(args, code, *out)
            else:
                stdout.write(out[0])
                stderr.write(out[1])
                res = CompletedProcess(args, code)
            evs.append({"op": "end", "i": i, "how": "ok" if code == 0 else "bad"})
            seen[i] = out
            world.yield_point("process over")
            return res

    gangs: list = [None] * n
    xs = []

    def mk(r):
        def f():
            gangs[r] = create_parallel_gangs(SimGang(world, range(n), r), tp_size=tp)

        return f

    raise_first(world.run([mk(r) for r in range(n)]), world)

    class Pool(SimThreadPool):
        def queue(self, callback, *a, **k):
            i = self.now

            def job():
                res = callback(*a, **k)
                evs.append({"op": "job", "r": self.tag + 1, "i": i})
                return res

            return super().queue(job)

    for r in range(n):
        pool = Pool(world, r)
        x = OutOfProcHuggingFaceExporter(root, gangs[r], Fs(), Runner(r), pool, *([cks] if own else []))
        xs.append((x, pool))

    def rank(r):
        def f():
            x, pool = xs[r]
            for i, c in enumerate(plan, 1):
                for _ in range(rng.choice([0, 0, 1, 3])):
                    world.yield_point("training")
                evs.append({"op": "call", "r": r + 1, "i": i})
                if c in ("xa", "xb"):
                    pool.now = i

                    def cb(args):
                        evs.append({"op": "cb", "r": r + 1, "i": of.get(args.step_nr, 0)})

                    got = x.export(steps[i], HuggingFaceExportOptions(export_callback=cb, blocking=c == "xb"))
                else:
                    got = x.maybe_complete_operation(blocking=c == "pb")
                evs.append({"op": "ret", "r": r + 1, "i": i, "busy": bool(x.is_exporting),
                            "res": {None: "none", True: "true", False: "false"}.get(got, "other")})

        return f

    try:
        raise_first(world.run([rank(r) for r in range(n)]), world)
        good = 0
        for i, s in steps.items():
            at = cks / f"step_{s}"
            try:
                text = [(at / f"hg.{k}").read_text() for k in ("run", "stdout", "stderr")]
            except OSError:
                continue
            good += text == [shlex.join(want(s)), *seen.get(i, (None, None))]
        evs.append({"op": "quit", "files": good})
    except SimStuck as ex:
        evs.append({"op": "error", "what": str(ex)[:200]})
    except Exception as ex:  # noqa: BLE001
        evs.append({"op": "error", "what": f"{type(ex).__name__}: {ex}"[:200]})
    world.abort()
    try:
        world.loop()
    except Exception:  # noqa: BLE001
        pass
    shutil.rmtree(d, ignore_errors=True)
    return {"cfg": {"n": n, "plan": plan}, "ev": evs, "_info": {"n": n, "tp": tp, "plan": plan, "seed": seed}}


def life(case):
    """A training run whose checkpoints are exported as they are saved."""
    from subprocess import CompletedProcess

    from fairseq2.checkpoint.hg import OutOfProcHuggingFaceExporter
    from fairseq2.file_system import LocalFileSystem
    from fairseq2.utils.process import ProcessRunner

    from vlib import trainlib

    seed, base = case
    rng = random.Random(seed)
    cfg = trainlib.config(rng, fp16=rng.random() < 0.15)
    p = cfg["p"]
    p["maxS"], p["maxE"] = rng.choice([(7, 0), (9, 0), (12, 0), (0, 3)])
    cfg["mode"], cfg["keep"], cfg["best"] = rng.choice([(0, 0, 0), (0, 1, 0), (0, 2, 0), (0, 0, 1), (0, 0, 2), (1, 1, 0), (2, 0, 0), (3, 1, 0)])
    k, m = rng.choice([1, 1, 2]), rng.choice([1, 2])
    p["save"], p["pub"] = [0, k * m, 0, rng.choice([0, 1])], [0, 1, 0, 0]
    if cfg["best"]:
        p["val"], p["hasVal"], p["scored"] = [0, k, 0, 0], True, True
        p["save"][3] = 0
    d = Path(base) / f"l{seed}"
    evs: list = []
    stops = set()
    if rng.random() < 0.3:
        stops = {rng.randrange(1, 25)}

    class Runner(ProcessRunner):
        def run(self, *a, **k):
            raise AssertionError("not text")

        def run_text(self, args, **k):
            at = d / "checkpoints" / args[-2].removeprefix("checkpoint_")
            s = int(args[-2].removeprefix("checkpoint_step_"))
            evs.append({"op": "run", "s": s, "there": any(f.suffix == ".pt" for f in at.rglob("*"))})
            code = rng.choice([0, 0, 0, 1])
            evs.append({"op": "end", "s": s, "ok": code == 0})
            return CompletedProcess(args, code)

    def make(gangs, dir, rec, rng):
        rec.trainer_hooks = True
        return OutOfProcHuggingFaceExporter(Path(dir), gangs, LocalFileSystem(), Runner(), trainlib.LazyPool(rng))

    build = trainlib.build

    def built(*a, **k):
        t = build(*a, **k)
        t.register_checkpoint_save_hook(lambda args: evs.append({"op": "pub", "s": args.step_nr}))
        t.register_hg_export_hook(lambda args: evs.append({"op": "hook", "s": args.step_nr}))
        return t

    trainlib.EXPORTER, trainlib.build = make, built
    try:
        got = trainlib.life(cfg, trainlib.fake(), d, stops, seed)
    finally:
        trainlib.EXPORTER, trainlib.build = None, build
    work = [e for e in got if e["a"] in ("work", "broke")]
    then = (work[-1].get("then") or work[-1].get("what")) if work else "nothing"
    evs.append({"op": "quit", "then": then if then in ("done", "stopped", "MinimumLossScaleReachedError") else "broke: " + str(then)[-300:]})
    shutil.rmtree(d, ignore_errors=True)
    return {"cfg": {}, "ev": evs, "_info": {"seed": seed, "cfg": cfg, "stops": sorted(stops)}}


def bend(t, rng):
    i = rng.randrange(len(t["ev"]) - 1) if len(t["ev"]) > 1 else 0
    e = t["ev"][i]
    if e["op"] == "quit" or t["ev"][-1]["then"] == "broke":
        return None
    if rng.random() < 0.5:
        e["s"] += 1
    elif e["op"] == "end":
        e["ok"] = not e["ok"]
    else:
        del t["ev"][i]
    return t


def corrupt(t, rng):
    if t["ev"][-1]["op"] != "quit":
        return None
    k = rng.randrange(4)
    if k == 0:  # a callback is missing, or comes twice
        cs = [i for i, e in enumerate(t["ev"]) if e["op"] == "cb"]
        if not cs:
            return None
        i = rng.choice(cs)
        if rng.random() < 0.5:
            del t["ev"][i]
        else:
            t["ev"].insert(i, dict(t["ev"][i]))
    elif k == 1:
        e = rng.choice([e for e in t["ev"] if e["op"] == "ret"])
        e["res"] = {"none": "true", "true": "false", "false": "true"}[e["res"]]
    elif k == 2:
        cs = [e for e in t["ev"] if e["op"] == "end"]
        if not cs:
            return None
        e = rng.choice(cs)
        e["how"] = "bad" if e["how"] == "ok" else "ok"
    else:
        e = rng.choice([e for e in t["ev"] if e["op"] == "ret"])
        e["busy"] = not e["busy"]
    return t


def run(ctx):
    import fairseq2.recipe  # noqa: F401
    import fairseq2.trainer  # noqa: F401

    tlc.model_check(ctx, "ExportDesign", timeout=600)
    if not ctx.quick:
        tlc.model_check(ctx, "ExportDesign", overrides={"NR": 3}, timeout=850)
        tlc.model_check(ctx, "ExportDesign", overrides={"Depth": 5}, timeout=850)
        tlc.model_check(ctx, "ExportDesign", overrides={"NR": 4, "Depth": 3}, timeout=850)
    plans = tlc.generate(ctx, "ExportDesign", overrides={"Emitting": "TRUE", "NR": 1})
    plans += [tuple(ctx.rng.choice(["xa", "xb", "pn", "pn", "pb"]) for _ in range(ctx.rng.randrange(5, 12))) for _ in range(ctx.pick(200, 3000))]
    cases = []
    for p in plans:
        for _ in range(ctx.pick(3, 20)):
            n, tp = ctx.rng.choice([(1, 1), (2, 1), (2, 2), (3, 1), (4, 2), (4, 1)])
            cases.append((n, tp, p, len(cases) * 1000 + ctx.seed, str(ctx.scratch)))
    traces = pmap(ctx, one, cases, 16)
    ctx.sample(traces[0]["ev"])
    tlc.validate(ctx, "ExportTrace", traces)
    tlc.selftest(ctx, "ExportTrace", traces, corrupt)
    lives = pmap(ctx, life, [(ctx.seed * 10**6 + i, str(ctx.scratch)) for i in range(ctx.pick(500, 3000))], 8)
    ctx.count("exports_of_training_runs", sum(1 for t in lives for e in t["ev"] if e["op"] == "run"))
    tlc.validate(ctx, "ExportLifeTrace", lives)
    tlc.selftest(ctx, "ExportLifeTrace", [t for t in lives if t["ev"][-1]["then"] == "done"], bend)
