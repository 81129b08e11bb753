"""T04: gradient accumulation and distribution do not change the gradient."""

from __future__ import annotations

from vlib import gloo, tlc, trainlib
from vlib.fp16 import patch_torch

U, V = 1000, 50


def case(rng, ranks, steps=None, X=None, T=None):
    n_ex = 6
    X = X or [[rng.randrange(-2, 4) for _ in range(4)] for _ in range(n_ex)]
    T = T or [rng.choice([0, 1, 1, 2, 3]) for _ in range(len(X))]
    if steps is None:
        steps = []
        for _ in range(rng.randrange(3, 7)):
            k = rng.choice([1, 2, 3])
            if rng.random() < 0.15:
                deal = [[[] for _ in range(k)] for _ in range(ranks)]
            else:
                # Some ranks, and some micro-batches, have nothing to contribute.
                deal = [[[rng.randrange(1, n_ex + 1) for _ in range(rng.randrange(0, 4))] for _ in range(k)] for _ in range(ranks)]
                for r in range(ranks):
                    if rng.random() < 0.15:
                        deal[r] = [[] for _ in range(k)]
            steps.append(deal)
    return {"ranks": ranks, "X": X, "T": T, "steps": steps, "counted": rng.random() < 0.7, "nosync": rng.random() < 0.6,
            "max": rng.choice([0, 0, 1, 2]), "fp16": rng.random() < 0.3, "check": rng.random() < 0.5, "wrap": "ddp"}


def sharded(rng, c, sizes):
    """The same case under a sharded wrapper."""
    return c | {"wrap": rng.choice(["fsdp1", "fsdp2"]), "sdp": rng.choice(sizes), "fp16": False, "early": rng.random() < 0.5}


def train(gangs, c):
    """Events of one run of the real trainer."""
    trainlib.preload()
    import torch
    from fairseq2.checkpoint import NOOP_HG_EXPORTER
    from fairseq2.checkpoint.manager import CheckpointManager
    from fairseq2.datasets.data_reader import DataReader
    from fairseq2.early_stopper import NOOP_EARLY_STOPPER
    from fairseq2.metrics.recorders import MetricRecorder
    from fairseq2.nn.data_parallel import get_data_parallel_facade
    from fairseq2.optim.fp16_loss_scaler import (
        NOOP_FP16_LOSS_SCALER,
        StandardFloat16LossScaler,
    )
    from fairseq2.profilers import NOOP_PROFILER
    from fairseq2.trainer import Trainer, TrainUnit
    from fairseq2.utils.device_stat import NOOP_DEVICE_STAT_TRACKER
    from fairseq2.utils.gc import NOOP_GARBAGE_COLLECTOR
    from fairseq2.utils.progress import NOOP_PROGRESS_REPORTER
    from fairseq2.utils.stopwatch import Stopwatch
    from fairseq2.validator import NOOP_VALIDATOR
    from torch import nn

    r = gangs.dp.rank

    class Net(nn.Module):
        def __init__(self):
            super().__init__()
            self.w = nn.Parameter(torch.tensor([1.0, -2.0, 3.0]))
            self.v = nn.Parameter(torch.tensor([0.5]))

        def forward(self, x):
            return (torch.cat([self.w, self.v]) * x).sum()

    net = model = Net()
    syncs = []
    if c["wrap"] != "ddp":
        from fairseq2.gang import create_fsdp_gangs
        from fairseq2.nn.fsdp import to_fsdp1, to_fsdp2

        gangs = create_fsdp_gangs(gangs, c["sdp"])
        model = (to_fsdp1 if c["wrap"] == "fsdp1" else to_fsdp2)(net, gangs, lambda m, w: m, reshard_after_forward=c["early"])
    elif c["ranks"] > 1:
        from fairseq2.nn.ddp import to_ddp
        from torch.distributed.algorithms.ddp_comm_hooks import default_hooks

        with torch.no_grad():
            for q in net.parameters():
                q.add_(r)  # the first rank's parameters are to win
        model = to_ddp(net, gangs)

        def hook(state, bucket):
            if syncs:
                syncs[-1] = 1
            return default_hooks.allreduce_hook(gangs.dp.as_process_group(), bucket)

        model.register_comm_hook(None, hook)
    ev = []

    class Recorded(torch.optim.SGD):
        def step(self, *a, **k):
            g = whole(gangs, c["wrap"], [q.grad for q in model.parameters()], [3, 1])
            ev.append({"a": "step", "n": len(ev) + 1, "g": [round(x * U) if x == x and abs(x) < 1e5 else 99999 for x in g], "syncs": list(syncs), "norm": -1})
            return super().step(*a, **k)

    optim = Recorded(model.parameters(), lr=0.125)
    if c["fp16"]:
        patch_torch()
        scaler = StandardFloat16LossScaler(gangs, init_scale=2.0**6, scale_factor=2.0, scale_window=2, min_scale=1.0)
    else:
        scaler = NOOP_FP16_LOSS_SCALER

    class B:
        def __init__(self, ids):
            self.ids = ids

        def to(self, device, *, non_blocking=False):
            pass

    class Unit(TrainUnit):
        def prepare_metric_bag(self, bag):
            pass

        def set_step_nr(self, n):
            syncs.clear()

        def process_batch(self, batch, bag):
            syncs.append(0)
            x = torch.zeros(4)
            for i in batch.ids:
                x += torch.tensor(c["X"][i - 1], dtype=torch.float32)
            return model(x), (sum(c["T"][i - 1] for i in batch.ids) if c["counted"] else None)

        def process_metric_values(self, values):
            pass

    class Reader(DataReader):
        def __init__(self):
            self.i = 0

        def __iter__(self):
            return self

        def __next__(self):
            if self.i == len(c["steps"]):
                raise StopIteration
            self.i += 1
            return [B(ids) for ids in c["steps"][self.i - 1][r]]

        def reset(self):
            self.i = 0

        def state_dict(self):
            return {}

        def load_state_dict(self, sd):
            pass

        @property
        def num_accumulate(self):
            return 1

    class Metrics(MetricRecorder):
        def record_metric_values(self, category, values, step_nr=None):
            v = float(values["grad_norm"])
            ev[-1]["norm"] = round(v * V) if v == v and v < 1e4 else 9999

        def close(self):
            pass

    body = {n: (lambda self, *a, **k: None) for n in CheckpointManager.__abstractmethods__}
    body.update({n: (lambda self, *a, **k: []) for n in ("get_step_numbers", "get_stale_step_numbers", "load_scores")},
                is_saving=property(lambda self: False))
    NoCheckpoints = type("NoCheckpoints", (CheckpointManager,), body)

    trainer = Trainer(
        model=model, unit=Unit(), data_reader=Reader(), gangs=gangs, amp=False, amp_dtype=torch.float32, optimizer=optim,
        lr_scheduler=torch.optim.lr_scheduler.LambdaLR(optim, lambda i: 1.0), fp16_loss_scaler=scaler, validator=NOOP_VALIDATOR,
        early_stopper=NOOP_EARLY_STOPPER, checkpoint_manager=NoCheckpoints(), hg_exporter=NOOP_HG_EXPORTER,
        metric_recorder=Metrics(), garbage_collector=NOOP_GARBAGE_COLLECTOR, profiler=NOOP_PROFILER,
        device_stat_tracker=NOOP_DEVICE_STAT_TRACKER, wall_watch=Stopwatch(), progress_reporter=NOOP_PROGRESS_REPORTER,
        seed=1, max_num_data_epochs=1, no_sync_grad_accumulation=c["nosync"], max_grad_norm=float(c["max"]) or None, grad_check=c["check"],
        publish_metrics_every_n_steps=1,
    )
    trainer.run()
    with get_data_parallel_facade(model).summon_full_parameters():
        w = [x for q in model.parameters() for x in q.detach().flatten().tolist()]
    return ev, w


def whole(gangs, wrap, gs, sizes):
    """All values of the gradients, wherever they are."""
    import torch.distributed as dist

    out = []
    for g, n in zip(gs, sizes):
        if wrap == "fsdp1":
            parts = [None] * gangs.sdp.size
            dist.all_gather_object(parts, [] if g is None else g.flatten().tolist(), group=gangs.sdp.as_process_group())
            g = [x for p in parts for x in p]
        elif wrap == "fsdp2":
            g = g.full_tensor().flatten().tolist() if g is not None else [0.0] * n
        else:
            g = g.flatten().tolist() if g is not None else [0.0] * n
        out += g if len(g) == n else [99.0] * n
    return out


def group(root, cases):
    import logging

    logging.disable(logging.WARNING)
    from fairseq2.gang import create_parallel_gangs

    trainlib.preload()
    gangs = create_parallel_gangs(root)
    close = type(root).close
    type(root).close = lambda self: None
    out = []
    try:
        for c in cases:
            ev, w = train(gangs, c)
            ws = [None] * root.size
            import torch

            t = torch.tensor(w)
            o = [torch.empty_like(t) for _ in range(root.size)]
            root.all_gather_to_list(o, t)
            ev.append({"a": "end", "all": [[round(float(x) * 100000) for x in y] for y in o]})
            # Only rank 0 reports metrics.
            norms = [[e.get("norm") for e in ev]]
            root.broadcast_objects(norms, 0)
            for e, x in zip(ev, norms[0]):
                if e["a"] == "step":
                    e["norm"] = x
            out.append(ev)
    except Exception as ex:
        raise RuntimeError(str(c)) from ex
    finally:
        type(root).close = close
    return out


def trace(c, r, ev):
    return {"cfg": {k: c[k] for k in ("ranks", "X", "T", "steps", "counted", "nosync", "max", "wrap")} | {"r": r + 1}, "ev": ev, "_info": {"case": c, "rank": r}}


def job(cases):
    import torch
    from fairseq2.gang import create_fake_gangs

    out = []
    for c in cases:
        ev, w = train(create_fake_gangs(torch.device("cpu")), c)
        ev.append({"a": "end", "all": [[round(x * 100000) for x in w]]})
        out.append(trace(c, 0, ev))
    return out


def run(ctx):
    rng = ctx.rng
    for ns in ("TRUE", "FALSE"):
        for co in ("TRUE", "FALSE"):
            tlc.model_check(ctx, "GradientDesign", overrides={"NoSync": ns, "Counted": co, **({} if ctx.quick else {"Ranks": "3", "Micro": "2", "Examples": "4"})},
                            allow_uncovered=() if ns == "TRUE" else ("Local",), timeout=800)
    deals = {2: tlc.generate(ctx, "GradientDesign", overrides={"Emitting": "TRUE"})}
    deals[3] = tlc.generate(ctx, "GradientDesign", overrides={"Emitting": "TRUE", "Ranks": "3", "Micro": "1" if ctx.quick else "2"})
    deals[1] = tlc.generate(ctx, "GradientDesign", overrides={"Emitting": "TRUE", "Ranks": "1", "Micro": "3"})
    X = [[i, i * i % 5 - 2, 1, 3 - i] for i in range(1, 4)]
    T = [i % 3 for i in range(1, 4)]
    traces = []
    for n in (1, 2, 3, 4):
        cases = []
        for counted in (True, False):
            for ns in (True, False):
                for mx in (0, 1):
                    if n in deals and (mx == 0 or n == 2):
                        cases.append(case(rng, n, deals[n], X, T) | {"counted": counted, "nosync": ns, "max": mx})
        cases += [case(rng, n) for _ in range(ctx.pick({1: 200, 4: 10}.get(n, 30), 600))]
        if n > 1:
            sizes = {2: [2], 3: [3], 4: [2, 4]}[n]
            cases += [sharded(rng, c, sizes) for c in cases[:8:2]] + [sharded(rng, case(rng, n), sizes) for _ in range(ctx.pick(20, 200))]
        if n == 1:
            traces += trainlib.pooled(ctx, job, [[c] for c in cases])
            continue
        res = gloo.world(n, group, cases, timeout=ctx.pick(200, 700))
        bad = [f"rank {i}: {st} {v[:900]} ... {v[-500:]}" for i, (st, v) in enumerate(res) if st != "ok"]
        if bad:
            traces.append(trace(cases[0], 0, [{"a": "broke", "what": "; ".join(bad)}]))
            continue
        for i, c in enumerate(cases):
            for r in range(n):
                traces.append(trace(c, r, res[r][1][i]))
    ctx.count("steps", sum(len(t["ev"]) - 1 for t in traces))
    ctx.sample(traces[-1])
    tlc.validate(ctx, "GradientTrace", traces)

    def corrupt(t, rng):
        c = [e for e in t["ev"] if e["a"] == "step" and any(e["g"])]
        if not c:
            return None
        e = rng.choice(c)
        e["g"] = [3 * x for x in e["g"]]
        return t

    tlc.selftest(ctx, "GradientTrace", traces, corrupt)
