"""Runs the real trainer over stub collaborators and records what they see.

One life is one Trainer.run() over a checkpoint directory; its events, per rank:
  read{got,stop}                the batches the data reader gave (-1: end)
  attempt{n,e,b,lr,p,u,tr,stop} a step: its number, epoch, batches, learning rate, parameters after it, ...
  work{saves,pubs,vals,scores,stop,then}   what happened at the boundary after a step or at an end of data
"""

from __future__ import annotations

import hashlib
import random
import shutil
import time
from concurrent.futures import Future
from pathlib import Path

from vlib import readers
from vlib.fp16 import patch_torch
from vlib.pool import pmap

BIG = 9

# Makes the exporter of the next trainer, if set.
EXPORTER = None

# Makes its validator, if set.
VALIDATOR = None


def lr_of(n: int) -> int:
    """Learning rate of step n, in units of 1/1024."""
    return 1 + (n * 5) % 7


def score_of(n: int) -> int:
    return (n * 7) % 5


class LazyPool:
    """Runs a job when its result is asked for, or some time before."""

    def __init__(self, rng):
        self.rng = rng

    def queue(self, callback, *args, **kwargs):
        rng = self.rng

        class F(Future):
            ran = False

            def run(self):
                if not self.ran:
                    self.ran = True
                    try:
                        self.set_result(callback(*args, **kwargs))
                    except BaseException as ex:  # noqa: BLE001
                        self.set_exception(ex)

            def done(self):
                if rng.random() < 0.4:
                    self.run()
                return super().done()

            def result(self, timeout=None):
                self.run()
                return super().result(timeout)

        return F()


class Batch:
    def __init__(self, id):
        self.id = id

    def to(self, device, *, non_blocking=False):
        pass


class Recorder:
    def __init__(self, stops):
        self.ev = []
        self.group = None
        self.att = None
        self.epoch = 0
        self.read_ev = None
        self.seen = {}
        self.stops = stops  # {(hook, ordinal)}
        self.trainer = None
        self.digest = None
        self.last_p = None
        self.n_saves = 0

    def settle(self):
        """The attempt under way is over."""
        if self.att is not None:
            p = self.digest()
            self.att["p"], self.att["u"] = p, p != self.last_p
            self.last_p = p
            self.att = None

    def at(self, hook):
        """Passes a point where a stop may be requested."""
        self.seen[hook] = self.seen.get(hook, 0) + 1
        if (hook, self.seen[hook]) in self.stops:
            self.trainer.request_stop()
            if self.att is not None:
                self.att["stop"] = True
            elif self.group is not None:
                self.group["stop"] = True
            elif self.read_ev is not None:
                self.read_ev["stop"] = True

    def open(self):
        self.group = {"a": "work", "saves": [], "pubs": [], "vals": [], "scores": [], "stop": False}

    def close(self, then):
        self.settle()
        if self.group is not None:
            self.group["then"] = then
            self.ev.append(self.group)
            self.group = None
            return True
        return False

    def in_group(self, k, v):
        self.settle()
        if self.group is None:
            self.open()
            self.ev.append({"a": "stray", "what": k})
        self.group[k].append(v)


def preload():
    import fairseq2.recipe  # noqa: F401  (breaks an import cycle)
    import fairseq2.trainer  # noqa: F401


def build(cfg, gangs, dir, rec, rng, restart_copy=None):
    preload()
    import torch
    from fairseq2.checkpoint import NOOP_HG_EXPORTER, StandardCheckpointManager
    from fairseq2.checkpoint.manager import CheckpointManager
    from fairseq2.data_type import DataType  # noqa: F401
    from fairseq2.datasets.data_reader import DataPipelineReader, DataReader, SyncMode
    from fairseq2.early_stopper import NOOP_EARLY_STOPPER, EarlyStopper
    from fairseq2.file_system import LocalFileSystem
    from fairseq2.io import _TorchTensorFileDumper, _TorchTensorFileLoader
    from fairseq2.metrics import Sum
    from fairseq2.metrics.recorders import MetricRecorder
    from fairseq2.optim.fp16_loss_scaler import (
        NOOP_FP16_LOSS_SCALER,
        StandardFloat16LossScaler,
    )
    from fairseq2.profilers import NOOP_PROFILER
    from fairseq2.trainer import Trainer, TrainUnit
    from fairseq2.utils.device_stat import NOOP_DEVICE_STAT_TRACKER
    from fairseq2.utils.gc import NOOP_GARBAGE_COLLECTOR
    from fairseq2.utils.progress import NOOP_PROGRESS_REPORTER
    from fairseq2.utils.stopwatch import Stopwatch
    from fairseq2.validator import NOOP_VALIDATOR, Validator
    from torch import nn

    p = cfg["p"]
    r = gangs.dp.rank
    bad = set(p["bad"][r])

    class Net(nn.Module):
        def __init__(self):
            super().__init__()
            self.w = nn.Parameter(torch.arange(1.0, 4.0))
            self.v = nn.Parameter(torch.tensor([0.5, -0.25]))
            self.drop = nn.Dropout(0.5)

        def forward(self, x):
            return (self.w * x[:3]).sum() + (self.drop(self.v) * x[3:]).sum() * (1 + 0.1 * torch.rand(()))

    model = Net()
    net = model
    if gangs.dp.size > 1:
        from fairseq2.nn.ddp import to_ddp

        model = to_ddp(model, gangs)

    def digest():
        h = hashlib.sha1()
        for q in net.parameters():
            h.update(q.detach().numpy().tobytes())
        return h.hexdigest()[:10]

    rec.digest = digest
    if cfg["opt"] == "sgd":
        optim = torch.optim.SGD(net.parameters(), lr=1 / 1024, momentum=0.9)
    else:
        optim = torch.optim.AdamW(net.parameters(), lr=1 / 1024)
    sched = torch.optim.lr_scheduler.LambdaLR(optim, lambda i: float(lr_of(i + 1)))
    if p["fp16"]:
        patch_torch()
        scaler = StandardFloat16LossScaler(gangs, init_scale=2.0 ** p["sc"], scale_factor=2.0, scale_window=1000,
                                           min_scale=2.0 ** p["minSc"])
    else:
        scaler = NOOP_FP16_LOSS_SCALER

    class Unit(TrainUnit):
        def prepare_metric_bag(self, metric_bag):
            metric_bag.add("cnt", Sum())
            metric_bag.add("total_cnt", Sum())

        def set_step_nr(self, step_nr):
            rec.settle()
            before = digest()
            if rec.last_p not in (None, before):
                rec.ev.append({"a": "stray", "what": "parameters change between steps"})
            rec.last_p = before
            rec.att = {"a": "attempt", "n": step_nr, "e": rec.epoch, "b": [], "lr": 0, "p": "", "u": False, "tr": True, "stop": False}
            rec.ev.append(rec.att)
            rec.read_ev = None
            rec.open()
            rec.at("attempt")

        def set_data_epoch_nr(self, data_epoch_nr):
            rec.epoch = data_epoch_nr

        def process_batch(self, batch, metric_bag):
            a = rec.att
            a["b"].append(batch.id)
            a["lr"] = round(optim.param_groups[0]["lr"] * 1024 * 1000) / 1000
            a["lr"] = int(a["lr"]) if a["lr"] == int(a["lr"]) else str(a["lr"])
            a["tr"] = a["tr"] and model.training and net.drop.training
            metric_bag.get("cnt", Sum).update(batch.id)
            metric_bag.get("total_cnt", Sum).update(batch.id)
            x = torch.arange(1.0, 6.0) * batch.id * (r + 1)
            if batch.id in bad:
                x[rng.randrange(5)] = float("inf")
            rec.at("batch")
            return model(x), (1 if cfg["targets"] else None)

        def process_metric_values(self, values):
            pass

    class Pipe(readers.Pipeline):
        def _next(self):
            return Batch(super()._next())

    inner = DataPipelineReader(Pipe(p["len"][r]), gangs, num_accumulate=p["k"], drop_remainder=p["drop"], sync=p["sync"],
                               sync_mode=SyncMode.UNTIL_LAST if p["last"] else SyncMode.UNTIL_FIRST)

    class Reader(DataReader):
        def __iter__(self):
            return self

        def __next__(self):
            rec.close("go")
            e = {"a": "read", "got": [-1], "stop": False}
            rec.ev.append(e)
            rec.read_ev = e
            try:
                b = next(inner)
            except StopIteration:
                rec.at("read")
                rec.at("end")
                rec.open()
                raise
            e["got"] = [x.id for x in b]
            rec.at("read")
            return b

        def reset(self):
            inner.reset()

        def state_dict(self):
            return inner.state_dict()

        def load_state_dict(self, sd):
            inner.load_state_dict(sd)

        @property
        def num_accumulate(self):
            return inner.num_accumulate

    fs = LocalFileSystem()
    real = StandardCheckpointManager(Path(dir), gangs, fs, _TorchTensorFileLoader(fs), _TorchTensorFileDumper(fs), LazyPool(rng))

    class Manager(CheckpointManager):
        pass

    def delegate(name):
        if isinstance(getattr(type(real), name), property):
            return property(lambda self: getattr(real, name))

        def f(self, *a, **k):
            if gangs.root.size > 1 and rng.random() < 0.3:
                time.sleep(rng.random() * 0.02)  # ranks drift apart
            return getattr(real, name)(*a, **k)

        return f

    def saver(name):
        def f(self, step_nr, *a, **k):
            rec.in_group("saves", step_nr)
            rec.n_saves += 1
            rec.at("save")
            return getattr(real, name)(step_nr, *a, **k)

        return f

    def save_score(self, step_nr, score):
        rec.in_group("scores", [step_nr, int(score)])
        real.save_score(step_nr, score)

    body = {n: delegate(n) for n in CheckpointManager.__abstractmethods__}
    body.update(save_checkpoint=saver("save_checkpoint"), save_model_only=saver("save_model_only"), save_score=save_score)
    Manager = type("Manager", (CheckpointManager,), body)

    class Val(Validator):
        def run(self, train_step_nr):
            rec.in_group("vals", [train_step_nr, not model.training and not net.drop.training])
            rec.at("val")
            return float(score_of(train_step_nr)) if p["scored"] else None

        def reset(self):
            pass

    class Early(EarlyStopper):
        def should_stop(self, step_nr, score):
            return step_nr in p["early"]

    class Metrics(MetricRecorder):
        def record_metric_values(self, category, values, step_nr=None):
            lr = values["lr"] * 1024
            rec.in_group("pubs", {"n": step_nr, "e": values["data_epoch"], "m": int(values["cnt"]), "tot": int(values["total_cnt"]),
                                  "lr": round(float(lr)), "cat": category})
            rec.at("pub")

        def close(self):
            pass

    def z(x):
        return x or None

    sv, pb, vl = p["save"], p["pub"], p["val"]
    trainer = Trainer(
        model=model, unit=Unit(), data_reader=Reader(), gangs=gangs, amp=False, amp_dtype=torch.float32, optimizer=optim,
        lr_scheduler=sched, fp16_loss_scaler=scaler, validator=NOOP_VALIDATOR if not p["hasVal"] else VALIDATOR(gangs, model, net, rec) if VALIDATOR else Val(),
        early_stopper=Early() if p["early"] else NOOP_EARLY_STOPPER, checkpoint_manager=Manager(), hg_exporter=EXPORTER(gangs, dir, rec, rng) if EXPORTER else NOOP_HG_EXPORTER,
        metric_recorder=Metrics(), garbage_collector=NOOP_GARBAGE_COLLECTOR, profiler=NOOP_PROFILER,
        device_stat_tracker=NOOP_DEVICE_STAT_TRACKER, wall_watch=Stopwatch(), progress_reporter=NOOP_PROGRESS_REPORTER,
        seed=cfg["seed"], no_sync_grad_accumulation=cfg["nosync"], max_num_steps=z(p["maxS"]), max_num_data_epochs=z(p["maxE"]),
        validate_at_start=p["atStart"],
        validate_after_n_steps=vl[0], validate_every_n_steps=z(vl[1]), validate_after_n_data_epochs=vl[2], validate_every_n_data_epochs=z(vl[3]),
        checkpoint_after_n_steps=sv[0], checkpoint_every_n_steps=z(sv[1]), checkpoint_after_n_data_epochs=sv[2], checkpoint_every_n_data_epochs=z(sv[3]),
        publish_metrics_after_n_steps=pb[0], publish_metrics_every_n_steps=z(pb[1]), publish_metrics_after_n_data_epochs=pb[2], publish_metrics_every_n_data_epochs=z(pb[3]),
        save_model_only={0: False, 1: True, 2: "all_but_last", 3: "all"}[cfg["mode"]], keep_last_n_checkpoints=z(cfg["keep"]),
        keep_best_n_checkpoints=z(cfg.get("best", 0)),
    )
    rec.trainer = trainer

    def saved(args):
        rec.settle()
        rec.at("saved")
        if restart_copy is not None:
            restart_copy(rec.n_saves, args.step_nr)

    trainer.register_checkpoint_save_hook(saved)
    return trainer


def left(gangs, dir):
    from fairseq2.checkpoint import StandardCheckpointManager
    from fairseq2.file_system import LocalFileSystem
    from fairseq2.io import _TorchTensorFileDumper, _TorchTensorFileLoader

    fs = LocalFileSystem()
    m = StandardCheckpointManager(Path(dir), gangs, fs, _TorchTensorFileLoader(fs), _TorchTensorFileDumper(fs), LazyPool(random.Random(0)))
    # Anything else a directory might hold, in flight or half deleted.
    root = Path(dir) / "checkpoints"
    extra = sorted(x.name for x in root.iterdir() if x.name.endswith(".tmp")) if root.exists() else []
    return {"a": "left", "steps": sorted(m.get_step_numbers()), "full": sorted(m.get_step_numbers(exclude_model_only=True)),
            "scores": sorted([n, int(s)] for s, n in m.load_scores()), "extra": extra}


def life(cfg, gangs, dir, stops=(), seed=0, restart_copy=None, last=True):
    """One run; returns the events and what each rank's clock was at each save."""
    import torch
    from fairseq2.task import TaskStopException

    rng = random.Random(seed)
    rec = Recorder(set(stops))
    outer = torch.get_rng_state()
    tr = None
    try:
        tr = build(cfg, gangs, dir, rec, rng, restart_copy)
        rec.ev.append({"a": "begin"})
        rec.open()
        tr.run()
        then = "done"
    except TaskStopException:
        then = "stopped"
    except Exception as ex:  # noqa: BLE001
        then = type(ex).__name__
        if then != "MinimumLossScaleReachedError":
            import traceback

            then += ": " + str(ex)[:200] + traceback.format_exc()[-600:]
    if not rec.close(then):
        rec.ev.append({"a": "broke", "what": then})
    elif then in ("done", "stopped"):
        rec.ev.append({"a": "rng", "same": torch.equal(outer, torch.get_rng_state())})
    if last:
        rec.ev.append(left(gangs, dir))
    return rec.ev


def scores_in(dir):
    d = Path(dir) / "checkpoints" / "scores"
    return sorted(int(f.stem[5:]) for f in d.glob("step_*.txt")) if d.exists() else []


# -- cases ------------------------------------------------------------------


def intervals(rng, pub=False):
    return [rng.choice([0, 0, 1, 2, 3]), rng.choice([0, 1, 2, 3]), rng.choice([0, 0, 1]), rng.choice([0, 0, 1, 2])]


def config(rng, n=1, *, fp16=None, early=None, modes=True):
    k = rng.choice([1, 1, 2, 3])
    ln = [rng.randrange(1, 7) for _ in range(n)] if n > 1 else [rng.randrange(0 if rng.random() < 0.1 else 1, 8)]
    fp16 = rng.random() < 0.3 if fp16 is None else fp16
    early = rng.random() < 0.2 if early is None else early
    while True:
        sv, pb, vl = intervals(rng), intervals(rng), intervals(rng)
        if pb[1] and (sv[1] % pb[1] or vl[1] % pb[1]):
            continue
        if pb[3] and (sv[3] % pb[3] or vl[3] % pb[3]):
            continue
        break
    hv = rng.random() < 0.75
    maxS, maxE = rng.choice([(0, 1), (0, 2), (0, 3), (1, 0), (3, 0), (5, 0), (6, 2), (4, 3), (7, 0)])
    if not early and not maxS and not maxE:
        maxS = 4
    bad = [sorted(rng.sample(range(1, 8), rng.choice([0, 1, 2]) if n == 1 else rng.choice([0, 0, 1]))) if fp16 else [] for _ in range(n)]
    if fp16 and rng.random() < 0.1:
        bad[0] = list(range(1, 9))
    p = {"n": n, "len": ln, "k": k, "drop": rng.random() < 0.4, "sync": True, "last": False, "maxS": maxS, "maxE": maxE,
         "save": sv, "pub": pb, "val": vl, "hasVal": hv, "atStart": rng.random() < 0.3, "scored": hv and rng.random() < 0.75,
         "early": sorted(rng.sample(range(1, 6), rng.randrange(1, 4))) if early and hv else [], "bad": bad, "sc": 10,
         "minSc": rng.choice([0, 7, 8]) if fp16 else 0, "fp16": fp16}
    return {"p": p, "opt": rng.choice(["sgd", "adam"]), "targets": rng.random() < 0.7, "nosync": rng.random() < 0.5,
            "mode": rng.choice([0, 0, 0, 0, 1, 2, 3]) if modes else 0, "keep": rng.choice([0, 0, 1, 2]) if modes else 0, "seed": rng.randrange(1000)}


def failed(evs):
    return any(e["a"] == "work" and e["then"] not in ("go", "done", "stopped") for e in evs) or any(e["a"] == "broke" for e in evs)


def finish(evs):
    for e in evs:
        if e["a"] == "left":
            e["failed"] = failed(evs)
    return evs


def trace(cfg, r, evs, ref=(), info=None):
    return {"cfg": {"p": cfg["p"], "r": r + 1, "ref": list(ref), "mode": cfg["mode"], "keep": cfg["keep"]}, "ev": evs,
            "_info": {"cfg": cfg, "rank": r, **(info or {})}}


def attempts(evs):
    return [{k: e[k] for k in ("n", "e", "b", "p")} for e in evs if e["a"] == "attempt"]


def fake():
    import torch
    from fairseq2.gang import create_fake_gangs

    return create_fake_gangs(torch.device("cpu"))


def single(cfg, dir, stops=(), seed=0):
    evs = finish(life(cfg, fake(), dir, stops, seed))
    return trace(cfg, 0, evs, info={"stops": list(stops)})


# -- one process ------------------------------------------------------------


def points(evs, hooks=("attempt", "batch", "read", "end", "save", "val", "saved", "pub")):
    """Points of a run at which a stop may be requested."""
    n = {"attempt": 0, "batch": 0, "read": 0, "end": 0, "save": 0, "val": 0, "saved": 0, "pub": 0}
    for e in evs:
        if e["a"] == "attempt":
            n["attempt"] += 1
            n["batch"] += len(e["b"])
        elif e["a"] == "read":
            n["read"] += 1
            n["end"] += e["got"] == [-1]
        elif e["a"] == "work":
            n["save"] += len(e["saves"])
            n["saved"] += len(e["saves"])
            n["val"] += len(e["vals"])
            n["pub"] += len(e["pubs"])
    return [(h, i + 1) for h in hooks for i in range(n[h])]


def job_plain(a):
    import tempfile

    cfg, seed = a
    with tempfile.TemporaryDirectory(dir=a_scratch()) as d:
        return [single(cfg, d, seed=seed)]


def job_stops(a):
    """A run, and runs stopped at points of it."""
    import tempfile

    cfg, seed, limit = a
    rng = random.Random(seed)
    with tempfile.TemporaryDirectory(dir=a_scratch()) as d:
        first = single(cfg, Path(d) / "0", seed=seed)
        pts = points(first["ev"])
        rng.shuffle(pts)
        out = [first]
        for i, pt in enumerate(pts[:limit]):
            pts2 = [pt] if rng.random() < 0.8 else [pt, rng.choice(pts)]
            out.append(single(cfg, Path(d) / str(i + 1), stops=pts2, seed=rng.random()))
    return out


def job_resumes(a):
    """A run, and runs that are interrupted once or several times."""
    import tempfile

    cfg, seed, limit = a
    rng = random.Random(seed)
    out = []
    with tempfile.TemporaryDirectory(dir=a_scratch()) as d:
        d = Path(d)
        copies = {}

        def copier(tag):
            def f(k, n):
                if len(copies) < 30:
                    t = d / f"copy-{tag}-{k}"
                    shutil.copytree(d / str(tag), t)
                    copies[tag, k] = (t, scores_in(t))

            return f

        ref = finish(life(cfg, fake(), d / "0", seed=seed, restart_copy=copier(0)))
        at = attempts(ref)
        out.append(trace(cfg, 0, ref, at))
        if failed(ref) and not any(e["a"] == "attempt" for e in ref):
            return out
        saves = sum(len(e["saves"]) for e in ref if e["a"] == "work")
        # Killed right after a checkpoint, maybe once more in the next life.
        ks = [k for (tag, k) in copies if tag == 0]
        rng.shuffle(ks)
        for k in ks[:limit]:
            if cfg["mode"] in (1, 3):
                break
            src, sc = copies[0, k]
            tag = f"k{k}"
            shutil.copytree(src, d / tag)
            copies2 = {}

            def f(k2, n, tag=tag, copies2=copies2):
                t = d / f"copy-{tag}-{k2}"
                shutil.copytree(d / tag, t)
                copies2[k2] = (t, scores_in(t))

            evs = finish(life(cfg, fake(), d / tag, seed=rng.random(), restart_copy=f))
            head = ref + [{"a": "restart", "k": k, "crash": True, "scores": sc}]
            out.append(trace(cfg, 0, head + evs, at, info={"killed after checkpoint": k}))
            if copies2 and rng.random() < 0.5:
                k2 = rng.choice(list(copies2))
                src2, sc2 = copies2[k2]
                ev2 = finish(life(cfg, fake(), src2, seed=rng.random()))
                out.append(trace(cfg, 0, head + evs + [{"a": "restart", "k": saves + k2, "crash": True, "scores": sc2}] + ev2, at,
                                 info={"killed after checkpoints": [k, k2]}))
        # Stopped by request, again and again.
        pts = points(ref)
        rng.shuffle(pts)
        for i, pt in enumerate(pts[:limit]):
            tag = f"s{i}"
            evs, stops, n = [], [pt], 0
            for _ in range(4):
                ev = finish(life(cfg, fake(), d / tag, stops=stops, seed=rng.random()))
                evs += ev
                n += sum(len(e["saves"]) for e in ev if e["a"] == "work")
                stopped = any(e["a"] == "work" and e["then"] == "stopped" for e in ev)
                if not stopped:
                    break
                if cfg["mode"] in (1, 3) and n:
                    break  # nothing to go on from
                evs.append({"a": "restart", "k": n, "crash": False, "scores": scores_in(d / tag)})
                stops = [rng.choice(pts)] if rng.random() < 0.5 else []
            if evs and evs[-1]["a"] == "restart":
                evs += finish(life(cfg, fake(), d / tag, seed=rng.random()))
            out.append(trace(cfg, 0, evs, at, info={"stopped at": str(pt)}))
        # Started once more after it is complete.
        if saves and not failed(ref) and cfg["mode"] not in (1, 3):
            evs = finish(life(cfg, fake(), d / "0", seed=rng.random()))
            out.append(trace(cfg, 0, ref + [{"a": "restart", "k": saves, "crash": False, "scores": scores_in(d / "0")}] + evs, at,
                             info={"started again": True}))
    return out


_scratch = None


def a_scratch():
    return _scratch


def pooled(ctx, fn, cases, chunk=4):
    import logging

    global _scratch
    _scratch = str(ctx.scratch)
    logging.disable(logging.WARNING)
    preload()
    res = pmap(ctx, fn, cases, chunk)
    return [t for r in res for t in r]


# -- several processes ------------------------------------------------------


def gangs_for(root, kind):
    from fairseq2.gang import create_parallel_gangs

    return create_parallel_gangs(root)


def group(root, cases, dir):
    """Lives of several ranks, one case after the other; per case (ref, [lives])."""
    import logging

    logging.disable(logging.WARNING)
    preload()
    gangs = gangs_for(root, None)

    class Open:
        """Training closes its gangs in the end; these are used again."""

    close = type(root).close
    type(root).close = lambda self: None
    out, now = [], [""]
    try:
        for i, (cfg, kind, seed) in enumerate(cases):
            d = Path(dir) / f"case{i}"
            rng = random.Random(seed)  # the same on all ranks
            copies = {}

            def f(k, n):
                root.barrier()
                if root.rank == 0:
                    shutil.copytree(d / "0", d / f"copy-{k}")
                root.barrier()
                copies[k] = scores_in(d / f"copy-{k}")

            now[0] = f"case {i} ({kind}): {cfg}"
            ref = life(cfg, gangs, d / "0", seed=seed + root.rank, restart_copy=f if kind == "resume" else None)
            root.barrier()
            lives = []
            if kind == "resume" and cfg["mode"] not in (1, 3):
                for k in sorted(copies):
                    lives.append((k, copies[k], life(cfg, gangs, d / f"copy-{k}", seed=seed + 7 + root.rank)))
                    root.barrier()
            elif kind == "stop":
                pts = [x for x in points(ref, ("attempt", "read", "end", "save", "val", "batch"))]
                if root.rank == 0:
                    ch = rng.sample(pts, min(len(pts), 4))
                else:
                    ch = None
                l = [ch]
                root.broadcast_objects(l, 0)
                for j, pt in enumerate(l[0]):
                    lives.append((pt, [], life(cfg, gangs, d / f"s{j}", stops=[tuple(pt)], seed=seed + 7 + root.rank)))
                    root.barrier()
            out.append((ref, lives))
    except Exception as ex:
        raise RuntimeError(now[0]) from ex
    finally:
        type(root).close = close
    return out


def worlds(ctx, n, cases, timeout=200):
    """Traces of all ranks."""
    from vlib import gloo

    dir = ctx.scratch / f"world{n}-{ctx.rng.random()}"
    res = gloo.world(n, group, cases, str(dir), timeout=timeout)
    bad = [f"rank {i}: {st} {v[:900]} ... {v[-500:]}" for i, (st, v) in enumerate(res) if st != "ok"]
    shutil.rmtree(dir, ignore_errors=True)
    if bad:
        return [trace(cases[0][0], 0, [{"a": "broke", "what": "; ".join(bad)}], info={"ranks": n})]
    out = []
    for i, (cfg, kind, seed) in enumerate(cases):
        for r in range(n):
            ref, lives = res[r][1][i]
            ref = finish(ref)
            at = attempts(ref)
            if kind == "plain":
                out.append(trace(cfg, r, ref))
            if kind == "resume":
                out.append(trace(cfg, r, ref, at))
                for k, sc, evs in lives:
                    out.append(trace(cfg, r, ref + [{"a": "restart", "k": k, "crash": True, "scores": sc}] + finish(evs), at,
                                     info={"killed after checkpoint": k}))
            if kind == "stop":
                out.append(trace(cfg, r, ref))
                for pt, _, evs in lives:
                    out.append(trace(cfg, r, finish(evs), info={"stop at": str(pt)}))
    return out


def corrupt(t, rng):
    """A history the specification must reject."""
    c = [e for e in t["ev"] if e["a"] in ("attempt", "work", "read")]
    if not c:
        return None
    e = rng.choice(c)
    if e["a"] == "attempt":
        k = rng.choice(["n", "e", "b", "lr", "u"])
        e[k] = {"n": lambda x: x + 1, "e": lambda x: x + 1, "b": lambda x: x + [9], "lr": lambda x: x + 1, "u": lambda x: not x}[k](e[k])
    elif e["a"] == "read":
        e["got"] = [1, 1, 1, 1]
    elif e["saves"]:
        e["saves"] = []
    elif e["vals"]:
        e["vals"] = []
    elif e["pubs"]:
        e["pubs"][0]["m"] += 1
    else:
        e["then"] = "done" if e["then"] != "done" else "go"
    return t
