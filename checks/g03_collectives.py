"""G03: collectives on a gang and its sub-gangs deliver what they promise to each member."""

from __future__ import annotations

import itertools
import multiprocessing as mp
import random

from vlib import gloo, tlc
from vlib.core import Machinery

RED = ["SUM", "PRODUCT", "MIN", "MAX", "MEAN"]
SHAPES = [(2,), (1,), (2, 3), (), (3, 1, 2)]
DTYPES = ["int64", "float32", "float64", "int32"]


def plan(n, gangs, seed, per):
    """A list of collectives; the inputs of every member are fixed by the plan."""
    rng = random.Random(seed)
    ops = []
    for gi, g in enumerate(gangs):
        m = len(g)
        kinds = [("reduce", op, 0) for op in RED] + [("gather", "", 0), ("gather_list", "", 0), ("sum", "", 0), ("barrier", "", 0)]
        kinds += [(k, "", s) for k in ("broadcast", "objects", "flag") for s in range(m)]
        # Sources outside of the gang, among them ranks that exist in the job.
        kinds += [(k, "", s) for k in ("broadcast", "objects", "flag") for s in (m, n, -1)]
        for _ in range(per):
            rng.shuffle(kinds)
            for kind, op, src in kinds:
                shape = rng.choice(SHAPES)
                numel = 1
                for x in shape:
                    numel *= x
                dtype = rng.choice(DTYPES)
                if kind == "flag":
                    ins = [[rng.randrange(2)] for _ in g]
                elif kind == "sum" and dtype.startswith("int"):
                    # Counts of a long training run are beyond what a single precision number holds.
                    ins = [[rng.choice([rng.randrange(-5, 9), (1 << 25) + rng.randrange(99)])] for _ in g]
                elif kind in ("sum", "barrier"):
                    ins = [[rng.randrange(-5, 9)] for _ in g]
                else:
                    ins = [[rng.randrange(-3, 7) for _ in range(numel)] for _ in g]
                ops.append({"gi": gi, "kind": kind, "op": op, "src": src, "ins": ins, "shape": shape, "dtype": dtype})
    return ops


def perform(gang, e, me):
    """One member's part in a collective; (outcome, what it holds afterwards)."""
    import torch
    from fairseq2.error import NotSupportedError
    from fairseq2.gang import GangError, ReduceOperation, all_sum, broadcast_flag

    dt = getattr(torch, e["dtype"])
    mine = e["ins"][me]
    m = gang.size
    try:
        k = e["kind"]
        if k == "reduce":
            t = torch.tensor(mine, dtype=dt).view(e["shape"])
            gang.all_reduce(t, ReduceOperation[e["op"]])
            if t.dtype != dt or tuple(t.shape) != tuple(e["shape"]):
                return "changed type or shape", []
            if e["op"] == "MEAN":
                t = t.to(torch.float64) * m
            return "ok", [round(float(x), 4) if float(x) % 1 else int(x) for x in t.flatten().tolist()]
        if k == "gather":
            t = torch.tensor(mine, dtype=dt).view(e["shape"])
            o = torch.full((m, *e["shape"]), 77, dtype=dt)
            gang.all_gather(o, t)
            if not torch.equal(t.flatten(), torch.tensor(mine, dtype=dt)):
                return "input changed", []
            return "ok", [[int(x) for x in o[i].flatten().tolist()] for i in range(m)]
        if k == "gather_list":
            t = torch.tensor(mine, dtype=dt).view(e["shape"])
            o = [torch.full(tuple(e["shape"]), 77, dtype=dt) for _ in range(m)]
            gang.all_gather_to_list(o, t)
            return "ok", [[int(x) for x in y.flatten().tolist()] for y in o]
        if k == "broadcast":
            t = torch.tensor(mine, dtype=dt).view(e["shape"])
            gang.broadcast(t, e["src"])
            return "ok", [int(x) for x in t.flatten().tolist()]
        if k == "objects":
            objs = [x if i % 2 else {"v": x, "s": "\u00e9" * (x + 5)} for i, x in enumerate(mine)]
            gang.broadcast_objects(objs, e["src"])
            return "ok", [x if i % 2 else x["v"] for i, x in enumerate(objs)]
        if k == "flag":
            return "ok", [int(broadcast_flag(gang, bool(mine[0]), e["src"]))]
        if k == "sum":
            v = all_sum(gang, mine[0] if e["dtype"].startswith("int") else float(mine[0]))
            return "ok", [int(v)]
        raise AssertionError(k)
    except (NotSupportedError, GangError) as ex:
        return ("unsupported" if isinstance(ex, NotSupportedError) or "collective operation failed" in str(ex) else repr(ex)), []
    except ValueError:
        return "ValueError", []


def body(root, n, gangs, ops, parallel, counter):
    """Runs in every process of a real job."""
    from fairseq2.gang import create_fsdp_gangs, create_parallel_gangs

    handles, who = [], []
    if parallel is not None:
        tp, intra = parallel
        g = create_parallel_gangs(root, tp_size=tp)
        if intra is not None:
            g = create_fsdp_gangs(g, intra)
        byname = {"root": g.root, "tp": g.tp, "dp": g.dp, "sdp": g.sdp, "rdp": g.rdp}
        return_names = {k: (x.rank, x.size, type(x).__name__) for k, x in byname.items()}
        sums = {}
        import torch
        from fairseq2.gang import ReduceOperation

        for k, x in byname.items():
            o = torch.full((x.size,), -1, dtype=torch.int64)
            ins = torch.tensor([root.rank])
            try:
                oo = torch.full((x.size, 1), -1, dtype=torch.int64)
                x.all_gather(oo, ins)
                o = oo.flatten()
                t = torch.tensor([2 ** root.rank])
                x.all_reduce(t, ReduceOperation.SUM)
                b = torch.tensor([100 + root.rank])
                if x.size == len(set(o.tolist())):
                    x.broadcast(b, x.size - 1)
            except Exception as ex:  # noqa: BLE001
                sums[k] = ["error", repr(ex)]
                continue
            sums[k] = [o.tolist(), int(t), int(b)]
        return return_names, sums
    bads = []
    for bad in ([0, 0], [n], [-1], [0, n], list(range(n)) + [0]):
        try:
            root.create_gang(bad)
            bads.append("accepted")
        except ValueError:
            bads.append("ValueError")
        except Exception as ex:  # noqa: BLE001
            bads.append(repr(ex))
    for g in gangs:
        h = root if g == list(range(n)) and root is not None and not handles else root.create_gang(g)
        handles.append(h)
        who.append(None if h is None else [h.rank, h.size])
    out = []
    for i, e in enumerate(ops):
        h = handles[e["gi"]]
        if h is None:
            out.append(None)
            continue
        if e["kind"] == "barrier":
            import random as _r
            import time

            # Nobody leaves a barrier before all members have arrived.
            if _r.random() < 0.3:
                time.sleep(0.003)
            with counter[e["gi"]].get_lock():
                counter[e["gi"]].value += 1
            h.barrier()
            seen = counter[e["gi"]].value
            h.barrier()
            if h.rank == 0:
                counter[e["gi"]].value = 0
            h.barrier()
            out.append(("ok", [seen]))
            continue
        out.append(perform(h, e, h.rank))
    return bads, who, out


def job(args):
    n, gangs, seed, per = args
    ops = plan(n, gangs, seed, per)
    counter = [mp.get_context("fork").Value("i", 0) for _ in gangs]
    res = gloo.world(n, body, n, gangs, ops, None, counter, timeout=200)
    evs = []
    info = {"processes": n, "gangs": gangs}
    for r, (st, v) in enumerate(res):
        if st != "ok":
            return {"cfg": {}, "ev": [{"kind": "refuse", "res": [f"process {r}: {st} {v[:300]}"]}], "_info": info}
    evs.append({"kind": "refuse", "res": [b for st, v in res for b in v[0]]})
    for gi, g in enumerate(gangs):
        evs.append({"kind": "member", "gang": g, "who": [[] if v[1][gi] is None else v[1][gi] for st, v in res]})
    for i, e in enumerate(ops):
        g = gangs[e["gi"]]
        got = [res[p][1][2][i] for p in g]
        evs.append({"kind": e["kind"], "op": e["op"], "src": e["src"], "gang": g, "ins": e["ins"], "dtype": e["dtype"],
                    "res": [x[0] for x in got], "outs": [x[1] for x in got]})
    return {"cfg": {}, "ev": evs, "_info": info}


def fake_job(args):
    """FakeGang: as if every member contributed the same."""
    import torch
    from fairseq2.gang import FakeGang

    size, rank, seed = args
    rng = random.Random(seed)
    g = FakeGang(torch.device("cpu"), rank=rank, size=size)
    evs = []
    for e in plan(size, [list(range(size))], rng.random(), 2):
        if e["kind"] == "barrier":
            continue
        if e["kind"] in ("broadcast", "objects", "flag") and e["src"] != rank:
            # Only the source can know what is broadcast; anything else is refused.
            st, out = perform(g, e, rank if rank < size else 0)
            evs.append({"kind": "refuse", "res": [st]})
            continue
        e["ins"] = [e["ins"][0]] * size
        st, out = perform(g, e, rank)
        evs.append({"kind": e["kind"], "op": e["op"], "src": e["src"], "gang": list(range(size)), "ins": e["ins"],
                    "dtype": e["dtype"], "res": [st] * size, "outs": [out] * size})
    for ranks in itertools.chain.from_iterable(itertools.permutations(range(size), k) for k in range(1, min(size, 3) + 1)):
        s = g.create_gang(list(ranks))
        who = [[] for _ in range(size)]
        if s is not None:
            who[rank] = [s.rank, s.size]
        evs.append({"kind": "member", "gang": [p if p == rank else 1000 + p for p in ranks], "who": who})
    return {"cfg": {}, "ev": evs, "_info": {"fake": [size, rank]}}


def run(ctx):
    tlc.model_check(ctx, "CollectivesDesign", overrides={"Depth": ctx.pick("2", "3"), "Vals": ctx.pick("{0, 1, 2}", "{0, 1}")})
    plans = []
    for n in ctx.pick((2, 3, 4), (1, 2, 3, 4, 5)):
        subs = [list(range(n))]
        subs += [list(c) for k in range(1, n + 1) for c in itertools.combinations(range(n), k)]
        plans.append((n, subs, ctx.rng.randrange(10**9), ctx.pick(1, 4)))
    traces = []
    for p in plans:
        traces.append(job(p))
        ctx.log(f"job of {p[0]} processes: {len(traces[-1]['ev'])} collectives")
    for size in (1, 2, 3, 4):
        for rank in range(size):
            traces.append(fake_job((size, rank, ctx.rng.randrange(10**9))))
    # Gangs of the parallel meshes, made of real process groups.
    for n, tp, intra in [(4, 2, None), (4, 1, 2), (2, 2, None), (4, 4, None)] + ctx.pick([], [(6, 3, None), (6, 1, 3), (6, 2, None)]):
        res = gloo.world(n, body, n, None, None, (tp, intra), None)
        if any(st != "ok" for st, _ in res):
            ctx.violation(f"parallel gangs of {n} processes (tp {tp}, node {intra}) fail: {[v for st, v in res if st != 'ok'][0]}")
            continue
        evs = []
        for k in ("root", "tp", "dp", "sdp", "rdp"):
            done = set()
            for r in range(n):
                if res[r][1][0][k][2] == "FakeGang":
                    continue
                members = res[r][1][1][k][0]
                if members == "error":
                    ctx.violation(f"collectives on the {k} gang of {n} processes (tp {tp}, node {intra}) fail: {res[r][1][1][k][1]}")
                    break
                key = str(members)
                if key in done:
                    continue
                done.add(key)
                evs.append({"kind": "member", "gang": members,
                            "who": [list(res[p][1][0][k][:2]) if p in members else [] for p in range(n)]})
                outs = [res[p][1][1][k] for p in members]
                evs.append({"kind": "gather", "op": "", "src": 0, "gang": members, "ins": [[p] for p in members], "dtype": "int64",
                            "res": ["ok"] * len(members), "outs": [[[x] for x in o[0]] for o in outs]})
                evs.append({"kind": "reduce", "op": "SUM", "src": 0, "gang": members, "ins": [[2**p] for p in members],
                            "dtype": "int64", "res": ["ok"] * len(members), "outs": [[o[1]] for o in outs]})
                evs.append({"kind": "broadcast", "op": "", "src": len(members) - 1, "gang": members, "ins": [[100 + p] for p in members],
                            "dtype": "int64", "res": ["ok"] * len(members), "outs": [[o[2]] for o in outs]})
        traces.append({"cfg": {}, "ev": evs, "_info": {"mesh": [n, tp, intra]}})
    ctx.count("collectives", sum(len(t["ev"]) for t in traces))
    ctx.sample(traces[0]["ev"][5])
    ctx.assumptions.append("gloo on the loopback interface stands for every process-group backend; it cannot average, "
                           "so a MEAN reduction is only accepted or refused alike by all members")
    if not any(t["ev"][0]["kind"] == "refuse" for t in traces):
        raise Machinery("no refusals tried")
    tlc.validate(ctx, "CollectivesTrace", traces, chunk=4)

    def corrupt(t, rng):
        c = [e for e in t["ev"] if e["kind"] in ("reduce", "broadcast", "gather") and e["res"][0] == "ok" and e["outs"][0]]
        if not c:
            return None
        e = rng.choice(c)
        o = rng.choice(e["outs"])
        if e["kind"] == "gather":
            if not o[0]:
                return None
            o[0][0] += 1
        else:
            o[0] += 1
        return t

    tlc.selftest(ctx, "CollectivesTrace", traces, corrupt, want=4)
