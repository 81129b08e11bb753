"""Drives the real checkpoint manager over simulated ranks and records what a user
of its public interface observes."""

from __future__ import annotations

import copy
from pathlib import Path

import torch
from fairseq2.checkpoint import StandardCheckpointManager
from fairseq2.checkpoint.manager import CheckpointError, CheckpointNotFoundError
from fairseq2.gang import create_fsdp_gangs, create_parallel_gangs

from vlib.simgang import SimGang, SimThreadPool, World, raise_first

# name -> (world size, tensor parallel size, intra-node size or None or "ddp")
TOPOLOGIES = {
    "one": (1, 1, "ddp"),
    "ddp2": (2, 1, "ddp"),
    "ddp3": (3, 1, "ddp"),
    "fsdp2": (2, 1, None),
    "fsdp3": (3, 1, None),
    "tp2": (2, 2, "ddp"),
    "tp2dp2": (4, 2, "ddp"),
    "tp2fsdp2": (4, 2, None),
    "hsdp2x2": (4, 1, 2),
    "tp2hsdp2x2": (8, 2, 2),
}

MISSING, CORRUPT, FOREIGN = -1, -2, -3


def make_gangs(world: World, topo: str):
    size, tp, intra = TOPOLOGIES[topo]
    res = [None] * size

    def mk(r):
        def f():
            root = SimGang(world, range(size), r)
            g = create_parallel_gangs(root, tp_size=tp)
            if intra != "ddp":
                g = create_fsdp_gangs(g, intra)
            res[r] = g

        return f

    ts = world.run([mk(r) for r in range(size)])
    raise_first(ts, world)
    return res


def payload(kind: str, owner, v: int) -> dict:
    """The state `kind` of `owner` at version v: distinguishable from every other."""
    o = list(owner) if isinstance(owner, tuple) else [owner]
    h = sum((i + 1) * 13 * x for i, x in enumerate(o))
    base = torch.arange(4, dtype=torch.float32) * 0.5 + v * 1000 + h
    # Tensors that share memory, and empty ones, are told apart by shape only.
    w = base.clone()
    alias = {"z.tied": w, "z.head": w[:2], "z.square": w.view(2, 2), "z.tail": w[1:], "z.empty1": torch.empty(0)}
    if kind == "model":
        return {
            "w": w,
            **alias,
            "b": torch.tensor([v, h], dtype=torch.int64),
            "e": torch.full((2, 3), float(v * 7 + h)),
            "z.bf16": (torch.arange(6) % 7 + v).to(torch.bfloat16).view(2, 3).t(),
            "z.bool": torch.tensor([v % 2 == 0, h % 2 == 0]),
            "z.scalar": torch.tensor(v * 31 + h, dtype=torch.int32),
            "z.empty": torch.empty((0, 3), dtype=torch.float16),
        }
    tag = {"trainer": 1, "optimizer": 2, "data_reader": 3}[kind]
    return {
        "w": w,
        "alias": alias,
        "tag": tag,
        "v": v,
        "owner": o,
        "nested": {"t": base + tag, "l": [v, {"x": torch.tensor([v * 3 + h + tag])}], "n": None},
        "s": f"{kind}-{v}-{o} \u00e9",
        "tuple": (v, "x", (None, h)),
        "big": 2**70 + v,
        "flag": v % 2 == 0,
        7: [1.5 * v, -0.0],
        "f64": torch.arange(3, dtype=torch.float64).mul(v + 0.1).t() if kind == "optimizer" else torch.arange(3, dtype=torch.uint8),
    }


def same(a, b) -> bool:
    if isinstance(a, torch.Tensor) or isinstance(b, torch.Tensor):
        return (
            isinstance(a, torch.Tensor)
            and isinstance(b, torch.Tensor)
            and a.dtype == b.dtype
            and a.shape == b.shape
            and torch.equal(a, b)
        )
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


# Scores are recorded by index into this increasing list; reading one back has to give
# the very same number.
INF = float("inf")
SCORES = [-INF, -1e30, -3.5, -1 / 3, 0.0, 1e-300, 1e-12, 0.1, 0.1 + 0.2, 1 / 3, 1.0, 12345678.9, INF]


def score_index(x: float) -> int:
    return SCORES.index(x) if x in SCORES else -999


class Holder:
    """A stateful whose state is live: it is mutated in place by training."""

    def __init__(self, kind, owner, v):
        self.kind, self.owner = kind, owner
        self.state = payload(kind, owner, v)
        self.loaded = None

    def advance(self, v: int) -> None:
        """Moves to version v by mutating every container and tensor in place."""

        def upd(cur, new):
            if isinstance(cur, dict):
                for k in list(cur):
                    if isinstance(cur[k], torch.Tensor):
                        cur[k].copy_(new[k])
                    elif isinstance(cur[k], (dict, list)):
                        upd(cur[k], new[k])
                    else:
                        cur[k] = new[k]
            else:
                for i in range(len(cur)):
                    if isinstance(cur[i], torch.Tensor):
                        cur[i].copy_(new[i])
                    elif isinstance(cur[i], (dict, list)):
                        upd(cur[i], new[i])
                    else:
                        cur[i] = new[i]

        upd(self.state, payload(self.kind, self.owner, v))

    def state_dict(self):
        return self.state

    def load_state_dict(self, sd):
        self.loaded = sd


def owner_of(kind: str, g):
    if kind == "trainer":
        return g.root.rank
    if kind == "data_reader":
        return (g.dp.rank,)
    return (g.tp.rank, g.sdp.rank)


KINDS = ("trainer", "model", "optimizer", "data_reader")


class Job:
    """All ranks of one training job over one checkpoint directory."""

    def __init__(self, topo: str, dir: Path, fs, chooser=None, v: int = 0, real_pool: bool = False, max_v: int = 12):
        from fairseq2.io import _TorchTensorFileDumper, _TorchTensorFileLoader

        self.world = World(TOPOLOGIES[topo][0], chooser)
        self.gangs = make_gangs(self.world, topo)
        if isinstance(fs, tuple):
            # File operations of (inner, ) are scheduling points of this job's world.
            from vlib.crashfs import YieldPoint, torn_file_system

            fs = torn_file_system(fs[0], YieldPoint(self.world))
        self.fs = fs
        self.size = len(self.gangs)
        self.dir = dir
        self.max_v = max_v
        self.v = v
        self.pools = [SimThreadPool(self.world, r) for r in range(self.size)]
        self.mgrs = [
            StandardCheckpointManager(
                dir, g, fs, _TorchTensorFileLoader(fs), _TorchTensorFileDumper(fs), self.pools[r]
            )
            for r, g in enumerate(self.gangs)
        ]
        self.hold = [{k: Holder(k, owner_of(k, g), v) for k in KINDS} for g in self.gangs]
        self.cb: list[list] = [[] for _ in range(self.size)]

    def each(self, fn, quiet_jobs=False):
        """Runs fn(rank) on all ranks in lock-step; returns the results."""
        self.world.hold_jobs = quiet_jobs
        ts = self.world.run([lambda r=r: fn(r) for r in range(self.size)])
        self.world.hold_jobs = False
        raise_first(ts, self.world)
        return [t.result for t in ts]

    def advance(self, v):
        self.v = v
        for h in self.hold:
            for x in h.values():
                x.advance(v)

    # -- operations, each returning its event ------------------------------
    def save(self, s: int, kind: str, block: bool, quiet=True) -> dict:
        for c in self.cb:
            c.clear()

        def f(r):
            m, h = self.mgrs[r], self.hold[r]

            def ready(step_nr, blocking):
                self.cb[r].append(["ready", step_nr, bool(blocking), True])

            def saved(step_nr, blocking):
                self.cb[r].append(["saved", step_nr, bool(blocking), step_nr in m.get_step_numbers()])

            if kind == "full":
                m.save_checkpoint(
                    s, h["trainer"], h["model"], h["optimizer"], h["data_reader"],
                    ready_callback=ready, saved_callback=saved, blocking=block,
                )
            else:
                m.save_model_only(s, h["model"], ready_callback=ready, saved_callback=saved, blocking=block)
            return bool(m.is_saving)

        saving = self.each(f, quiet_jobs=quiet)
        return {"op": "save", "s": s, "v": self.v, "kind": kind, "block": block, "saving": saving,
                "cb": [copy.deepcopy(c) for c in self.cb]}

    def run_jobs(self, r: int) -> None:
        self.world.step_job(f"job{r}.")

    def jobs_done(self) -> int:
        return sum(
            1 for r in range(self.size)
            if not any(str(t.name).startswith(f"job{r}.") and not t.done for t in self.world.tasks)
        )

    def poll(self, block: bool) -> dict:
        for c in self.cb:
            c.clear()
        done = self.jobs_done()
        res = self.each(lambda r: self.mgrs[r].maybe_complete_save_operation(blocking=block), quiet_jobs=True)
        return {"op": "poll", "block": block, "done": done, "n": self.size,
                "res": [{True: "true", False: "false", None: "none"}.get(x, "other") for x in res],
                "saving": [bool(m.is_saving) for m in self.mgrs],
                "cb": [copy.deepcopy(c) for c in self.cb]}

    def delete(self, s: int, keep: bool) -> dict:
        self.each(lambda r: self.mgrs[r].delete_checkpoint(s, keep_model=keep), quiet_jobs=True)
        return {"op": "delete", "s": s, "keep": keep}

    def score(self, s: int, x: int) -> dict:
        self.each(lambda r: self.mgrs[r].save_score(s, SCORES[x]), quiet_jobs=True)
        return {"op": "score", "s": s, "x": x}

    def stale(self, last, best, every) -> dict:
        res = self.each(lambda r: self.mgrs[r].get_stale_step_numbers(last, best, every), quiet_jobs=True)
        return {"op": "stale", "last": last or 0, "best": best or 0, "every": every or 0,
                "res": [[int(x) for x in r] for r in res]}

    def code(self, r: int, kind: str, s: int) -> int:
        m = self.mgrs[r]
        h = Holder(kind, (0,), 0)
        try:
            getattr(m, f"load_{kind}_state")(s, h)
        except CheckpointNotFoundError:
            return MISSING
        except CheckpointError:
            return CORRUPT
        own = owner_of(kind, self.gangs[r])
        for v in range(self.max_v + 1):
            if same(h.loaded, payload(kind, own, v)):
                return v
        return FOREIGN

    def obs(self) -> dict:
        m = self.mgrs[0]
        lists = self.each(lambda r: [
            self.mgrs[r].get_step_numbers(),
            self.mgrs[r].get_step_numbers(exclude_model_only=True),
            [self.mgrs[r].has_checkpoint(), self.mgrs[r].has_checkpoint(exclude_model_only=True)],
            [-1 if x is None else x for x in (
                self.mgrs[r].maybe_get_last_step_number(),
                self.mgrs[r].maybe_get_last_step_number(exclude_model_only=True))],
        ], quiet_jobs=True)
        agree = all(x == lists[0] for x in lists)
        steps, full, has, last = lists[0]
        content = []
        for s in steps:
            codes = self.each(lambda r, s=s: [self.code(r, k, s) for k in KINDS], quiet_jobs=True)
            content.append(codes)
        scores = self.each(lambda r: [[score_index(a), int(b)] for a, b in self.mgrs[r].load_scores()], quiet_jobs=True)
        return {"op": "obs", "agree": agree and all(x == scores[0] for x in scores), "list": steps, "full": full, "has": has,
                "last": last, "content": content, "scores": scores[0]}

    def tick(self, n: int) -> None:
        """Lets the background writers make n steps."""
        self.world.job_steps(n)

    def part(self, r: int, n: int) -> None:
        """Lets the background writer of one rank make n steps."""
        self.world.job_steps(n, f"job{r}.")

    def hurt(self, s: int, how: str, rng) -> dict:
        """Damages one file of a listed checkpoint and has every rank load it."""
        files = sorted(p for p in self.dir.rglob("*.pt") if p.is_file() and f"step_{s}" in p.relative_to(self.dir).parts)
        f = files[rng.randrange(len(files))]
        n = f.stat().st_size
        if how == "remove":
            f.unlink()
        else:
            with open(f, "r+b") as fp:
                fp.truncate({"empty": 0, "half": n // 2, "tail": n - 1}[how])
        codes = self.each(lambda r: [self.code(r, k, s) for k in KINDS], quiet_jobs=True)
        return {"op": "hurt", "s": s, "bad": MISSING if how == "remove" else CORRUPT, "codes": codes}

    def refuse(self, s: int) -> dict:
        """A model state that holds anything but tensors has to be refused."""
        from fairseq2.checkpoint.manager import CheckpointStateNotValidError

        def f(r):
            h = self.hold[r]
            bad = Holder("model", (0,), 0)
            bad.state["w"] = [1, 2]
            try:
                self.mgrs[r].save_checkpoint(s, h["trainer"], bad, h["optimizer"], h["data_reader"], blocking=True)
            except CheckpointStateNotValidError:
                return "refused"
            return "accepted"

        return {"op": "refuse", "s": s, "res": self.each(f, quiet_jobs=True)}

    def close(self):
        self.world.aborted = True
        self.world.loop()


def random_chooser(rng):
    return lambda names, world: rng.randrange(len(names))


def list_chooser(seq):
    it = iter(seq)
    return lambda names, world: next(it, 0)
