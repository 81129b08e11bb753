"""A deterministic in-process simulation of a distributed job: every rank is a
thread, only one runs at a time, and a chooser decides who runs next at every
yield point (collectives, file operations).  Collectives that do not line up
across the ranks of a gang (wrong operation, missing participant) are detected."""

from __future__ import annotations

import threading
from concurrent.futures import Future
from typing import Callable

import torch
from fairseq2.error import NotSupportedError
from fairseq2.gang import Gang, ReduceOperation
from fairseq2.utils.threading import ThreadPool


class SimAbort(BaseException):
    """Unwinds the rank threads of an aborted world."""


class SimStuck(Exception):
    """No rank can make progress, or the ranks disagree on a collective."""


class _Task:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn
        self.go = threading.Event()
        self.done = False
        self.blocked: Callable[[], bool] | None = None
        self.result = None
        self.error: BaseException | None = None
        self.thread = None
        self.where = "start"


class World:
    def __init__(self, size: int, chooser=None, max_steps: int = 200000) -> None:
        self.size = size
        self.chooser = chooser or (lambda names, world: 0)
        self.tasks: list[_Task] = []
        self.back = threading.Event()
        self.aborted = False
        self.stuck: str | None = None
        self.tls = threading.local()
        self.slots: dict = {}
        self.log: list = []
        self.steps = 0
        self.max_steps = max_steps
        self.hold_jobs = False
        self.on_yield: Callable[[str, object], None] | None = None

    # -- tasks ---------------------------------------------------------------
    def spawn(self, name, fn) -> _Task:
        t = _Task(name, fn)

        def body():
            self.tls.task = t
            t.go.wait()
            t.go.clear()
            try:
                if self.aborted:
                    raise SimAbort()
                t.result = fn()
            except SimAbort as ex:
                t.error = ex
            except BaseException as ex:  # noqa: BLE001
                t.error = ex
            finally:
                t.done = True
                self.back.set()

        t.thread = threading.Thread(target=body, daemon=True)
        t.thread.start()
        self.tasks.append(t)
        return t

    def run(self, fns) -> list[_Task]:
        """Runs one function per rank until all of them returned; background jobs
        they queued may still be pending afterwards."""
        ranks = [self.spawn(i, f) for i, f in enumerate(fns)]
        self.loop(ranks)
        self.tasks = [t for t in self.tasks if not t.done]
        return ranks

    def step_job(self, name_prefix: str) -> bool:
        """Runs the pending background jobs of that name to completion."""
        js = [t for t in self.tasks if str(t.name).startswith(name_prefix) and not t.done]
        if not js:
            return False
        self.loop(js, only=js)
        self.tasks = [t for t in self.tasks if not t.done]
        return True

    def job_steps(self, n: int, prefix: str = "job") -> None:
        for _ in range(n):
            js = [t for t in self.tasks if str(t.name).startswith(prefix) and not t.done and (t.blocked is None or t.blocked())]
            if not js:
                break
            t = js[self.chooser([t.name for t in js], self) % len(js)]
            t.blocked = None
            self._switch(t)
        self.tasks = [t for t in self.tasks if not t.done]

    def loop(self, targets=None, only=None) -> None:
        while True:
            live = [t for t in self.tasks if not t.done]
            if only is not None:
                live = [t for t in live if t in only]
            if not live or (targets is not None and all(t.done for t in targets)):
                if self.aborted and any(not t.done for t in self.tasks):
                    live = [t for t in self.tasks if not t.done]
                else:
                    return
            if self.aborted:
                for t in live:
                    t.blocked = None
                    self._switch(t)
                continue
            ready = [t for t in live if t.blocked is None or t.blocked()]
            if self.hold_jobs:
                ready = [t for t in ready if not str(t.name).startswith("job")] or ready
            self.steps += 1
            if not ready:
                self.stuck = "no rank can make progress: " + ", ".join(
                    f"{t.name} waits at {t.where}" for t in live
                )
                self.aborted = True
                continue
            if self.steps > self.max_steps:
                self.stuck = "the ranks never finish"
                self.aborted = True
                continue
            t = ready[self.chooser([t.name for t in ready], self) % len(ready)]
            t.blocked = None
            self._switch(t)
            # A rank that died with an error never reaches its next collective.
            if t.done and t.error is not None and not isinstance(t.error, SimAbort):
                pass

    def _switch(self, t: _Task) -> None:
        self.back.clear()
        t.go.set()
        if not self.back.wait(timeout=300):
            raise SimStuck(f"{t.name} does not return to the scheduler")

    def current(self) -> _Task:
        return self.tls.task

    def in_task(self) -> bool:
        return getattr(self.tls, "task", None) is not None

    def yield_point(self, what: str, info=None, until: Callable[[], bool] | None = None) -> None:
        if not self.in_task():
            if self.on_yield is not None:
                self.on_yield(what, info)
            return
        t = self.current()
        if self.aborted:
            raise SimAbort()
        if self.on_yield is not None:
            self.on_yield(what, info)
        t.where = f"{what} {info if info is not None else ''}".strip()
        t.blocked = until
        self.back.set()
        t.go.wait()
        t.go.clear()
        if self.aborted:
            raise SimAbort()

    def abort(self) -> None:
        self.aborted = True

    # -- collectives ---------------------------------------------------------
    def collective(self, gkey, ranks, idx, seq, op, payload, compute):
        key = (gkey, seq)
        slot = self.slots.setdefault(key, {"op": op, "in": {}, "out": None})
        if slot["op"] != op:
            self.stuck = f"ranks {list(ranks)} disagree on a collective: {slot['op']} and {op}"
            self.aborted = True
            raise SimAbort()
        slot["in"][idx] = payload
        if len(slot["in"]) == len(ranks):
            slot["out"] = compute([slot["in"][i] for i in range(len(ranks))])
            self.log.append((tuple(ranks), op))
        self.yield_point(op, list(ranks), until=lambda: slot["out"] is not None)
        return slot["out"][idx]


class SimGang(Gang):
    """One rank's handle on a simulated gang."""

    def __init__(self, world: World, ranks, idx: int, device=torch.device("cpu"), gkey=("root",)) -> None:
        self.world = world
        self.ranks = tuple(ranks)
        self.idx = idx
        self._device = device
        self.gkey = gkey
        self.seq = 0
        self.sub = 0
        self.closed = False

    def _coll(self, op, payload, compute):
        self.seq += 1
        return self.world.collective(self.gkey, self.ranks, self.idx, self.seq, op, payload, compute)

    def close(self) -> None:
        self.closed = True

    def create_gang(self, ranks):
        ranks = [int(r) for r in ranks]
        if len(set(ranks)) != len(ranks) or any(r < 0 or r >= self.size for r in ranks):
            raise ValueError(f"invalid ranks: {ranks}")
        self.sub += 1
        key = (*self.gkey, self.sub, tuple(ranks))
        if self.idx not in ranks:
            return None
        return SimGang(self.world, [self.ranks[r] for r in ranks], ranks.index(self.idx), self._device, key)

    def as_process_group(self):
        raise NotSupportedError("simulated gang")

    def barrier(self) -> None:
        self._coll("barrier", None, lambda ins: [True] * len(ins))

    def all_reduce(self, tensor, op) -> None:
        def compute(ins):
            st = torch.stack([t.to(torch.float64) if not t.is_floating_point() else t for t in ins])
            if op == ReduceOperation.SUM:
                r = st.sum(0)
            elif op == ReduceOperation.MEAN:
                r = st.mean(0)
            elif op == ReduceOperation.PRODUCT:
                r = st.prod(0)
            elif op == ReduceOperation.MIN:
                r = st.amin(0)
            else:
                r = st.amax(0)
            return [r] * len(ins)

        out = self._coll(f"all_reduce:{op.name}", tensor.detach().clone(), compute)
        with torch.no_grad():
            tensor.copy_(out.to(tensor.dtype))

    def all_gather(self, output_tensor, input_tensor) -> None:
        out = self._coll("all_gather", input_tensor.detach().clone(), lambda ins: [torch.stack(ins)] * len(ins))
        with torch.no_grad():
            output_tensor.copy_(out.view(output_tensor.shape))

    def all_gather_to_list(self, output_tensors, input_tensor) -> None:
        out = self._coll("all_gather_to_list", input_tensor.detach().clone(), lambda ins: [list(ins)] * len(ins))
        with torch.no_grad():
            for o, i in zip(output_tensors, out):
                o.copy_(i)

    def broadcast(self, tensor, source_rank: int = 0) -> None:
        out = self._coll(f"broadcast:{source_rank}", tensor.detach().clone(), lambda ins: [ins[source_rank]] * len(ins))
        with torch.no_grad():
            tensor.copy_(out)

    def broadcast_objects(self, objects, source_rank: int = 0) -> None:
        import copy

        out = self._coll(
            f"broadcast_objects:{source_rank}", list(objects), lambda ins: [ins[source_rank]] * len(ins)
        )
        if self.idx != source_rank:
            objects[:] = copy.deepcopy(out)

    @property
    def rank(self) -> int:
        return self.idx

    @property
    def size(self) -> int:
        return len(self.ranks)

    @property
    def device(self):
        return self._device

    @property
    def supports_process_group(self) -> bool:
        return False


class SimThreadPool(ThreadPool):
    """Runs queued jobs as tasks of the world, so the chooser decides when."""

    def __init__(self, world: World, tag) -> None:
        self.world = world
        self.tag = tag
        self.n = 0

    def queue(self, callback, *args, **kwargs) -> Future:
        fut: Future = Future()
        self.n += 1

        def body():
            try:
                r = callback(*args, **kwargs)
            except SimAbort:
                raise
            except BaseException as ex:  # noqa: BLE001
                fut.set_exception(ex)
            else:
                fut.set_result(r)

        t = self.world.spawn(f"job{self.tag}.{self.n}", body)
        t.blocked = None

        class _F:
            """A future whose blocking result() yields to the simulated scheduler."""

            def result(self, timeout=None):
                self_w = pool.world
                if self_w.in_task():
                    self_w.yield_point("future.result", None, until=fut.done)
                return fut.result(timeout=60)

            def done(self):
                return fut.done()

            def __getattr__(self, k):
                return getattr(fut, k)

        pool = self
        return _F()  # type: ignore[return-value]


def raise_first(tasks: list[_Task], world: World) -> None:
    for t in tasks:
        if t.error is not None and not isinstance(t.error, SimAbort):
            raise t.error
    if world.stuck:
        raise SimStuck(world.stuck)
