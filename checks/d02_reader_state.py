"""D02: a data reader can be saved, restored and reset at any point."""

from __future__ import annotations

from vlib import readers, tlc
from vlib.pool import pmap


def job(a):
    return readers.simulated(*a)


def run(ctx):
    ops = '{"reset", "save"}'
    tlc.model_check(ctx, "DataReaderGen", overrides={"Ops": ops, "MaxN": "2", "MaxLen": "3", "MaxK": "2", "Depth": ctx.pick("5", "6")})
    base = {"Emitting": "TRUE", "Ops": ops}
    cases = tlc.generate(ctx, "DataReaderGen", overrides={**base, "MaxN": "1", "MaxLen": "3", "MaxK": "2", "Depth": ctx.pick("5", "6")})
    ctx.rng.shuffle(cases)
    cases = cases[: ctx.pick(2500, 40000)]
    for n, ln, d in ((1, 7, 10), (2, 6, 10), (3, 5, 14)):
        num = ctx.pick(500, 6000)
        cases += tlc.generate(ctx, "DataReaderGen", overrides={**base, "MaxN": str(n), "MaxLen": str(ln), "Depth": str(d)}, num=num, depth=d + 2, limit=num)
    traces = pmap(ctx, job, [(c, ctx.rng.random()) for c in cases], 20)
    ctx.sample(traces[-1])
    tlc.validate(ctx, "DataReaderTrace", traces)

    def corrupt(t, rng):
        c = [e for e in t["ev"] if e["a"] == "read"]
        if not c:
            return None
        g = rng.choice(rng.choice(c)["got"])
        g[:] = [-1] if g != [-1] else [1]
        return t

    tlc.selftest(ctx, "DataReaderTrace", traces, corrupt)
