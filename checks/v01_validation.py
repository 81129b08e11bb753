"""V01: validations and evaluations see every batch once, report it, and leave training as it was."""

from __future__ import annotations

import logging
import random
import shutil
from pathlib import Path

from vlib import gloo, readers, tlc
from vlib.pool import pmap


class Boom(Exception):
    pass


class Item:
    def __init__(self, v, w):
        self.v, self.w = v, w

    def to(self, device, *, non_blocking=False):
        pass


def play(cfg, root, tp):
    """One rank's part of a history."""
    import torch
    from fairseq2.checkpoint import NOOP_HG_EXPORTER, CheckpointManager
    from fairseq2.datasets.data_reader import DataPipelineReader
    from fairseq2.error import InternalError, InvalidOperationError
    from fairseq2.evaluator import EvalUnit, Evaluator
    from fairseq2.gang import create_parallel_gangs
    from fairseq2.generator import Generator, GeneratorUnit
    from fairseq2.metrics import Mean, Sum, format_as_float
    from fairseq2.metrics.recorders import NOOP_METRIC_DESCRIPTOR, MetricDescriptor, MetricRecorder
    from fairseq2.profilers import NOOP_PROFILER
    from fairseq2.task import TaskStopException
    from fairseq2.utils.device_stat import NOOP_DEVICE_STAT_TRACKER
    from fairseq2.utils.progress import NOOP_PROGRESS_REPORTER
    from fairseq2.utils.stopwatch import Stopwatch
    from fairseq2.validator import StandardValidator

    gangs = create_parallel_gangs(root, tp_size=tp)
    d, rank = gangs.dp.rank, root.rank
    kind = cfg["kind"]
    model = torch.nn.Dropout(0.5)
    now: dict = {}

    def begin(brk=0, stop=0, step=0):
        now.update(op="run", step=step, brk=brk, stop=stop, res="ok", score=[], seen=[], draws=[], modes=set(), steps=[], pubs=[])

    def mode():
        now["modes"].add((torch.is_inference_mode_enabled(), torch.is_autocast_enabled("cpu"), model.training))

    base = GeneratorUnit if kind == "gen" else EvalUnit

    class Unit(base):
        def __init__(self, i):
            self.i, self.cfg = i, cfg["units"][i]
            self.n = 0

        name = property(lambda self: self.cfg["name"] or None)

        def prepare_metric_bag(self, bag):
            self.n = 0
            for k in ("sum", "num_examples", "fin", "total_v"):
                bag.add(k, Sum())
            bag.add("mean", Mean())
            if self.cfg["rare"]:
                bag.add("rare", Sum())

        def set_train_step_nr(self, step_nr):
            now["steps"].append(step_nr)

        def process_batch(self, batch, bag):
            now["seen"].append([self.i + 1, batch.v, batch.w])
            now["draws"].append(int(torch.rand(()) * 2**24))
            mode()
            self.n += 1
            bag.get("sum", Sum).update(batch.v)
            bag.get("total_v", Sum).update(batch.v)
            bag.get("num_examples", Sum).update(batch.w)
            bag.get("mean", Mean).update(batch.v, weight=batch.w)
            if self.cfg["rare"]:
                bag.get("rare", Sum).update(batch.v + 3)
            if len(now["seen"]) == now["brk"]:
                raise Boom()
            if len(now["seen"]) == now["stop"]:
                task.request_stop()

        def finalize(self, bag):
            mode()
            bag.get("fin", Sum).update(self.n)

        def process_metric_values(self, values):
            values["double"] = values["sum"] * 2

    class Metrics(MetricRecorder):
        def record_metric_values(self, category, values, step_nr=None):
            bad = [k for k in values if k.startswith("total_")] + [k for k in ("data_time", "compute_time", "lapse_time", "wall_time") if k not in values]
            now["pubs"].append({"cat": category, "step": [] if step_nr is None else [step_nr], "sum": int(values["sum"]), "num": int(values["num_examples"]),
                                "double": int(values["double"]), "fin": int(values["fin"]), "mean": round(float(values["mean"]) * 1000),
                                "rare": [int(values["rare"])] if "rare" in values else [], "bs": int(values["batch_size"]), "keys": " ".join(bad) or "ok"})

        def close(self):
            pass

    class Pipe(readers.Pipeline):
        def __init__(self, items):
            super().__init__(len(items))
            self.items = items

        def _next(self):
            return Item(*self.items[super()._next() - 1])

    def reader(u):
        items = [(b["v"], b["w"]) for read in u["data"][d] for b in read]
        return DataPipelineReader(Pipe(items), gangs, num_accumulate=cfg["k"], drop_remainder=False, sync=False)

    class Manager:
        def load_scores(self):
            return cfg["scores"]

        def maybe_complete_save_operation(self):
            return None

    CheckpointManager.register(Manager)

    units = [Unit(i) for i in range(len(cfg["units"]))]
    rds = [reader(u) for u in cfg["units"]]
    common = dict(gangs=gangs, amp=cfg["amp"], amp_dtype=torch.bfloat16, metric_recorder=Metrics(), profiler=NOOP_PROFILER,
                  device_stat_tracker=NOOP_DEVICE_STAT_TRACKER, wall_watch=Stopwatch(), progress_reporter=NOOP_PROGRESS_REPORTER, seed=cfg["seed"])
    s = cfg["score"]
    torch.manual_seed(cfg["outer"])
    begin()
    if kind == "valid":
        desc = NOOP_METRIC_DESCRIPTOR if s["name"] == "none" else MetricDescriptor(s["name"], s["name"], 1, format_as_float, higher_better=s["higher"])
        task = StandardValidator(units=units, data_readers=rds, score_metric_descriptor=desc, checkpoint_manager=Manager(),
                                 hg_exporter=NOOP_HG_EXPORTER, **common)
    elif kind == "eval":
        task = Evaluator(model=model, units=units, data_readers=rds, **common)
    else:
        task = Generator(model=model, unit=units[0], data_reader=rds[0], **common)
    evs = []
    for h in cfg["hist"]:
        if h["op"] == "train":
            evs.append({"op": "train", "draw": int(torch.rand(()) * 2**24)})
        elif h["op"] == "reset":
            task.reset()
            evs.append({"op": "reset"})
        else:
            begin(h["brk"][d], h["stop"], h["step"])
            got = None
            try:
                got = task.run(h["step"]) if kind == "valid" else task.run()
            except Boom:
                now["res"] = "broken"
            except TaskStopException:
                now["res"] = "stopped"
            except (InternalError, InvalidOperationError) as ex:
                now["res"] = type(ex).__name__
            except Exception as ex:  # noqa: BLE001
                now["res"] = f"{type(ex).__name__}: {ex}"[:300]
            if got is not None:
                now["score"] = ["-", int(-got)] if rank == 0 and not s["higher"] else ["", int(got)]
            evs.append({**now, "modes": sorted(now["modes"])})
    if kind != "valid":
        task.close()
    c = {k: cfg[k] for k in ("units", "kind", "score", "amp", "stream")}
    return {"cfg": {**c, "d": d + 1, "root": rank == 0}, "ev": evs, "_info": {"cfg": cfg, "rank": rank, "tp": tp}}


def streams(cases):
    import torch

    for c in cases:
        g = torch.Generator().manual_seed(c["outer"])
        c["stream"] = [int(torch.rand((), generator=g) * 2**24) for _ in c["hist"]]
    return cases


def case(rng, dp, kinds, hist=None):
    kind = rng.choice(kinds)
    k = rng.choice([1, 1, 2, 3])
    nu = 1 if kind == "gen" else rng.choice([1, 1, 2, 3])
    names = rng.sample(["a", "b", "c/d", "valid"], nu)
    if rng.random() < 0.4:
        names[rng.randrange(nu)] = ""
    if kind == "gen":
        names = [""]

    def data():
        out = []
        for _ in range(dp):
            bs = [{"v": rng.randrange(0, 50), "w": rng.randrange(0, 9)} for _ in range(rng.choice([0, 1, 2, 3, 4, 7]))]
            out.append([bs[i:i + k] for i in range(0, len(bs), k)])
        return out

    units = [{"name": n, "data": data(), "rare": rng.random() < 0.5} for n in names]
    score = {"name": rng.choice(["none", "sum", "sum", "rare", "double", "absent"]), "higher": rng.random() < 0.5}
    flat = [sum(len(r) for u in units for r in u["data"][d]) for d in range(dp)]
    first = [sum(len(r) for r in units[0]["data"][d]) for d in range(dp)]
    hist = hist or [rng.choice(["train", "run", "run", "reset", "broken"]) for _ in range(rng.randrange(3, 9))]
    out, step = [], 0
    for h in hist:
        if h in ("train", "reset"):
            if h == "train" or kind == "valid":
                out.append({"op": h})
            step += 1
            continue
        e = {"op": "run", "step": step, "brk": [0] * dp, "stop": 0}
        if h == "broken":
            # Several ranks break in their first unit, as they do not meet then.
            if dp == 1 and flat[0]:
                e["brk"] = [rng.randrange(1, flat[0] + 1)]
            elif all(first):
                e["brk"] = [rng.randrange(1, n + 1) for n in first]
        elif kind != "valid" and dp == 1 and flat[0] and rng.random() < 0.5:
            e["stop"] = rng.randrange(1, flat[0] + 1)
        out.append(e)
    if not out:
        return case(rng, dp, kinds)
    amp = rng.random() < 0.3
    return {"kind": kind, "k": k, "units": units, "score": score, "amp": amp, "hist": out, "seed": rng.randrange(10**6), "outer": rng.randrange(10**6),
            "scores": rng.choice([[], [[float(rng.randrange(-40, 40)), rng.randrange(9)]]])}


def single(c):
    import torch
    from fairseq2.gang import FakeGang

    return play(c, FakeGang(torch.device("cpu")), 1)


def member(root, cases, tp):
    return [play(c, root, tp) for c in cases]


# -- as part of training ------------------------------------------------------


def life(case):
    """Training, with and without validation: the steps must be the same."""
    import torch

    from vlib import trainlib

    seed, base = case
    rng = random.Random(seed)
    while True:
        cfg = trainlib.config(rng, fp16=False, early=False)
        if cfg["p"]["hasVal"] and (cfg["p"]["val"][1] or cfg["p"]["val"][3]):
            break
    cfg["p"]["scored"] = False
    counts: list = []

    def validator(gangs, model, net, rec):
        from fairseq2.checkpoint import NOOP_HG_EXPORTER, CheckpointManager
        from fairseq2.datasets.data_reader import DataPipelineReader
        from fairseq2.evaluator import EvalUnit
        from fairseq2.metrics import Sum
        from fairseq2.metrics.recorders import NOOP_METRIC_DESCRIPTOR, NOOP_METRIC_RECORDER
        from fairseq2.profilers import NOOP_PROFILER
        from fairseq2.utils.device_stat import NOOP_DEVICE_STAT_TRACKER
        from fairseq2.utils.progress import NOOP_PROGRESS_REPORTER
        from fairseq2.utils.stopwatch import Stopwatch
        from fairseq2.validator import StandardValidator

        class Unit(EvalUnit):
            def prepare_metric_bag(self, bag):
                bag.add("cnt", Sum())

            def process_batch(self, batch, bag):
                counts.append(batch.id)
                x = torch.rand(5) * batch.id
                bag.get("cnt", Sum).update(float(model(x)))

        class Pipe(readers.Pipeline):
            def _next(self):
                return trainlib.Batch(super()._next())

        class Manager:
            def maybe_complete_save_operation(self):
                return None

        CheckpointManager.register(Manager)
        return StandardValidator(
            units=[Unit()], data_readers=[DataPipelineReader(Pipe(3), gangs, num_accumulate=2, drop_remainder=False, sync=False)], gangs=gangs, amp=False,
            amp_dtype=torch.float32, score_metric_descriptor=NOOP_METRIC_DESCRIPTOR, checkpoint_manager=Manager(),
            hg_exporter=NOOP_HG_EXPORTER, metric_recorder=NOOP_METRIC_RECORDER, profiler=NOOP_PROFILER,
            device_stat_tracker=NOOP_DEVICE_STAT_TRACKER, wall_watch=Stopwatch(), progress_reporter=NOOP_PROGRESS_REPORTER, seed=seed)

    runs = []
    for hook in (None, validator):
        d = Path(base) / f"v{seed}"
        trainlib.VALIDATOR = hook
        try:
            c = cfg if hook else {**cfg, "p": {**cfg["p"], "hasVal": False, "val": [0, 0, 0, 0], "atStart": False}}
            runs.append(trainlib.attempts(trainlib.life(c, trainlib.fake(), d, (), seed, last=False)))
        finally:
            trainlib.VALIDATOR = None
        shutil.rmtree(d, ignore_errors=True)
    evs = [{"op": "with", "step": e} for e in runs[1]] + [{"op": "end", "n": len(counts) // 3, "rest": len(counts) % 3}]
    return {"cfg": {"ref": runs[0]}, "ev": evs, "_info": {"seed": seed, "cfg": cfg}}


def bend(t, rng):
    if len(t["ev"]) < 2:
        return None
    rng.choice(t["ev"][:-1])["step"]["p"] += "x"
    return t


def corrupt(t, rng):
    e = rng.choice(t["ev"])
    if e["op"] == "reset":
        return None
    if e["op"] == "train":
        e["draw"] += 1
        return t
    k = rng.randrange(4)
    if k == 0 and e["seen"]:
        e["seen"].pop(rng.randrange(len(e["seen"])))
    elif k == 1 and e["pubs"]:
        e["pubs"][-1][rng.choice(["sum", "num", "double", "fin"])] += 1
    elif k == 2 and e["score"]:
        e["score"][1] += 1
    elif k == 3 and e["seen"]:
        e["modes"] = [[False, *e["modes"][0][1:]]]
    else:
        return None
    return t


def run(ctx):
    import fairseq2.recipe  # noqa: F401
    import fairseq2.trainer  # noqa: F401

    # torcheval warns of metrics without updates.
    logging.disable(logging.WARNING)
    tlc.model_check(ctx, "ValidationDesign", timeout=600)
    if not ctx.quick:
        tlc.model_check(ctx, "ValidationDesign", overrides={"Depth": 7}, timeout=850)
        tlc.model_check(ctx, "ValidationDesign", overrides={"NR": 3, "Depth": 3, "Lens": "{0, 1, 2}"}, timeout=850)
        tlc.model_check(ctx, "ValidationDesign", overrides={"NR": 1, "Lens": "{0, 1, 2, 3, 4}", "Depth": 5}, timeout=850)
    hists = tlc.generate(ctx, "ValidationDesign", overrides={"Emitting": "TRUE", "NR": 1, "Depth": 5, "Lens": "{2}"})
    hists = sorted({tuple(h) for h in map(tuple, hists)})
    rng = ctx.rng
    cases = [case(rng, 1, ["valid"], list(h)) for h in hists for _ in range(ctx.pick(1, 12))]
    cases += [case(rng, 1, ["valid", "eval", "eval", "gen"]) for _ in range(ctx.pick(300, 6000))]
    traces = pmap(ctx, single, streams(cases), 32)
    ctx.count("histories_of_one_rank", len(traces))
    for n, tp, times in ctx.pick([(2, 1, 1), (2, 2, 1), (4, 2, 1)], [(2, 1, 6), (2, 2, 3), (3, 1, 4), (4, 2, 6), (4, 1, 3), (4, 4, 1)]):
        for _ in range(times):
            cs = streams([case(rng, n // tp, ["valid"]) for _ in range(ctx.pick(25, 120))] + [case(rng, n // tp, ["eval", "gen"])])
            # A score no unit has fails one rank only.
            for c in cs:
                if c["score"]["name"] == "absent" or (c["score"]["name"] == "rare" and not any(u["rare"] for u in c["units"])):
                    c["score"]["name"] = "sum"
            for kind, res in gloo.world(n, member, cs, tp, timeout=300):
                if kind != "ok":
                    ctx.violation(f"validation over {n} ranks: {kind} {str(res)[-600:]}", {"n": n, "tp": tp})
                    break
                traces += res
    ctx.sample(traces[-1]["ev"])
    tlc.validate(ctx, "ValidationTrace", traces)
    tlc.selftest(ctx, "ValidationTrace", traces, corrupt)
    lives = pmap(ctx, life, [(ctx.seed * 10**6 + i, str(ctx.scratch)) for i in range(ctx.pick(80, 1500))], 4)
    ctx.count("validations_within_training", sum(t["ev"][-1]["n"] for t in lives))
    tlc.validate(ctx, "ValidationLifeTrace", lives)
    tlc.selftest(ctx, "ValidationLifeTrace", lives, bend)
