"""D01: data-parallel ranks read in lock-step and end together."""

from __future__ import annotations

from vlib import gloo, readers, tlc
from vlib.pool import pmap


def job(a):
    return readers.simulated(*a)


def run(ctx):
    tlc.model_check(ctx, "DataReaderGen", allow_uncovered=["RReset", "RSave", "RLoad"],
                    overrides={} if ctx.quick else {"MaxLen": "6", "MaxK": "4", "Depth": "8"})
    cases = tlc.generate(ctx, "DataReaderGen", overrides={"Emitting": "TRUE", "Depth": "5", "MaxLen": "3", "MaxN": "2"})
    cases += tlc.generate(ctx, "DataReaderGen", overrides={"Emitting": "TRUE", "Depth": "6", "MaxLen": "9", "MaxK": "4", "Ops": '{"reset"}'},
                          num=ctx.pick(1500, 20000), depth=8, limit=ctx.pick(1500, 20000))
    cases += tlc.generate(ctx, "DataReaderGen", overrides={"Emitting": "TRUE", "Depth": "5", "MaxLen": "5", "MaxK": "4", "MaxN": "4"},
                          num=ctx.pick(400, 5000), depth=7, limit=ctx.pick(400, 5000))
    traces = pmap(ctx, job, [(c, ctx.rng.random()) for c in cases], 20)
    # Real process groups.
    for n in (2, 3, 4):
        mine = [c for c in cases if c["p"]["n"] == n and c["p"]["sync"]]
        ctx.rng.shuffle(mine)
        mine = mine[: ctx.pick(60, 600)]
        res = gloo.world(n, readers.members, mine, timeout=200)
        bad = [r for r in res if r[0] != "ok"]
        if bad:
            traces.append({"cfg": {"p": mine[0]["p"], "strict": True}, "ev": [{"a": "stuck", "what": str(bad[0])[:400]}], "_info": n})
        else:
            traces += [readers.assemble(c["p"], c["h"], True, [res[r][1][i] for r in range(n)]) for i, c in enumerate(mine)]
        ctx.count("histories_in_process_groups", len(mine))
    for k in (1, 2, 3):
        for at in range(5):
            p = {"n": 1, "len": [6], "k": k, "drop": at % 2 == 0, "sync": True, "last": k == 2}
            traces.append(readers.failing(p, 0, at))
    ctx.sample(traces[len(traces) // 2])
    tlc.validate(ctx, "DataReaderTrace", traces)

    def corrupt(t, rng):
        c = [e for e in t["ev"] if e["a"] == "read"]
        if not c:
            return None
        g = rng.choice(rng.choice(c)["got"])
        if g:
            g.pop()
        else:
            g.append(1)
        return t

    tlc.selftest(ctx, "DataReaderTrace", traces, corrupt)
