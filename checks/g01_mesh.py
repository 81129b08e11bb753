"""G01: parallel gangs partition the job consistently on every rank."""

from __future__ import annotations

import itertools
from unittest import mock

import torch

from vlib import tlc
from vlib.simgang import SimGang, World

KINDS = ("root", "tp", "dp", "sdp", "rdp", "pp")


class RecGang(SimGang):
    """Notes every sub-gang that is asked for, as (size of the asking gang, ranks)."""

    log: list

    def create_gang(self, ranks):
        self.log.append([self.size, [int(x) for x in ranks]])
        g = super().create_gang(ranks)
        if g is None:
            return None
        r = RecGang(self.world, g.ranks, g.idx, self._device, g.gkey)
        r.log = self.log
        return r


class PG:
    """Stands in for a CUDA process group (which cannot be made here)."""

    def __init__(self, ranks, me) -> None:
        self.ranks, self.me = ranks, me


class CudaRoot(RecGang):
    @property
    def supports_process_group(self):
        return True

    def as_process_group(self):
        return PG(list(self.ranks), self.idx)


def members(g, world_rank):
    if isinstance(g, SimGang):
        return list(g.ranks)
    try:
        pg = g.as_process_group()
    except Exception:
        return [world_rank] if g.size == 1 else []
    return list(pg.ranks) if isinstance(pg, PG) else []


def place(n, tp, intra, r, mode):
    """The gangs of process r, made as the recipes make them."""
    from fairseq2.gang import FakeGang, create_fsdp_gangs, create_parallel_gangs

    log: list = []
    if mode == "fake":
        root = FakeGang(torch.device("cpu"), rank=r, size=n)
    else:
        cls = CudaRoot if mode == "cuda" else RecGang
        root = cls(World(n), range(n), r, torch.device("cuda:0" if mode == "cuda" else "cpu"))
        root.log = log
    splits: list = []

    def split_group(parent_pg=None, split_ranks=None, **kw):
        splits.append([[len(parent_pg.ranks), [int(x) for x in s]] for s in split_ranks])
        for s in split_ranks:
            if parent_pg.me in s:
                return PG([parent_pg.ranks[i] for i in s], list(s).index(parent_pg.me))
        return None

    ev = {"op": "place", "n": n, "tp": tp, "intra": intra, "r": r, "res": "ok", "gangs": {}, "calls": []}
    with mock.patch("torch.distributed.distributed_c10d.split_group", split_group), \
         mock.patch("torch.distributed.get_rank", lambda pg=None: pg.me), \
         mock.patch("torch.distributed.get_world_size", lambda pg=None: len(pg.ranks)):
        g = create_parallel_gangs(root, tp_size=tp)
        if intra != 1:
            g = create_fsdp_gangs(g, None if intra == 0 else intra)
        for k in KINDS:
            x = getattr(g, k)
            ev["gangs"][k] = {"rank": x.rank, "size": x.size, "members": members(x, r)}
    ev["calls"] = [log] + splits
    return ev


def run(ctx):
    from fairseq2.gang import FakeGang, Gangs, create_fsdp_gangs, create_parallel_gangs

    tlc.model_check(ctx, "GangMeshDesign", overrides={"MaxSize": ctx.pick("16", "48")})
    traces = []
    cpu = torch.device("cpu")
    top = ctx.pick(16, 64)
    for n in range(1, top + 1):
        for tp in range(1, n + 1):
            if n % tp:
                continue
            dp = n // tp
            for intra in [1, 0] + [i for i in range(2, dp + 1) if dp % i == 0]:
                for mode in ("sim", "cuda", "fake"):
                    ranks = range(n) if n <= 16 else sorted(ctx.rng.sample(range(n), 12))
                    evs = []
                    for r in ranks:
                        try:
                            evs.append(place(n, tp, intra, r, mode))
                        except Exception as ex:  # noqa: BLE001
                            evs.append({"op": "place", "n": n, "tp": tp, "intra": intra, "r": r, "gangs": {}, "calls": [],
                                        "res": f"{type(ex).__name__}: {ex}"})
                    traces.append({"cfg": {}, "ev": evs, "_info": {"n": n, "tp": tp, "intra": intra, "mode": mode}})
    # Sizes: valid and invalid ones, on every process.
    for n in range(1, ctx.pick(9, 17)):
        evs = []
        for tp in range(-1, n + 2):
            for intra in [0] + ([-1, *range(1, n + 2)] if tp >= 1 and n % tp == 0 else []):
                for r in range(n):
                    root = SimGang(World(n), range(n), r)
                    try:
                        g = create_parallel_gangs(root, tp_size=tp)
                        if intra:
                            create_fsdp_gangs(g, intra)
                        res = "ok"
                    except ValueError:
                        res = "refused"
                    evs.append({"op": "sizes", "n": n, "tp": tp, "intra": intra, "r": r, "res": res})
        traces.append({"cfg": {}, "ev": evs, "_info": {"sizes of": n}})
    # Sub-gangs: all short rank lists.
    for n in range(1, ctx.pick(5, 6)):
        for r in range(n):
            evs = []
            for k in range(1, 4):
                for ranks in itertools.product(range(-1, n + 2), repeat=k):
                    g = FakeGang(cpu, rank=r, size=n)
                    try:
                        s = g.create_gang(list(ranks))
                        res = "none" if s is None else [s.rank, s.size]
                    except ValueError:
                        res = "refused"
                    evs.append({"op": "sub", "n": n, "r": r, "ranks": list(ranks), "res": res})
            traces.append({"cfg": {}, "ev": evs, "_info": {"sub-gangs of": n, "rank": r}})
    evs = []
    for root, dp, rdp, sdp, tp, pp in itertools.product((0, 1), (0, 1), (0,), (0,), (0, 1), (0, 1)):
        f = {k: FakeGang(cpu, rank=v, size=2) for k, v in
             {"root": root, "dp": dp, "rdp": rdp, "sdp": sdp, "tp": tp, "pp": pp}.items()}
        try:
            Gangs(**f)
            res = "ok"
        except ValueError:
            res = "refused"
        evs.append({"op": "bundle", "root": root, "dp": dp, "tp": tp, "pp": pp, "res": res})
    traces.append({"cfg": {}, "ev": evs, "_info": "bundles"})

    ctx.count("topologies", sum(1 for t in traces if t["ev"][0]["op"] == "place"))
    ctx.sample(traces[30]["ev"][0])
    tlc.validate(ctx, "GangMeshTrace", traces, chunk=150, jobs=6)

    def corrupt(t, rng):
        e = t["ev"][-1]
        if e["op"] != "place" or e["n"] < 2:
            return None
        g = e["gangs"][rng.choice(KINDS)]
        if rng.random() < 0.5:
            g["rank"] += 1
        else:
            g["members"] = g["members"][1:] + [40]
        return t

    tlc.selftest(ctx, "GangMeshTrace", traces, corrupt)
    ctx.assumptions.append("CUDA process groups are stood in for at torch.distributed's split_group/get_rank/get_world_size")
