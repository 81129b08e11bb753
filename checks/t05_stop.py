"""T05: a stop request or early stop ends training promptly and saves the last step once."""

from __future__ import annotations

from vlib import tlc, trainlib


def run(ctx):
    tlc.model_check(ctx, "TrainerDesign", overrides={} if ctx.quick else {"MaxLen": "4", "MaxLives": "3"}, timeout=880)
    rng = ctx.rng
    cases = [(trainlib.config(rng), rng.random(), ctx.pick(8, 40)) for _ in range(ctx.pick(250, 2500))]
    traces = trainlib.pooled(ctx, trainlib.job_stops, cases)
    cases = [(trainlib.config(rng, early=True), rng.random()) for _ in range(ctx.pick(500, 8000))]
    traces += trainlib.pooled(ctx, trainlib.job_plain, cases, 10)
    for n in (2, 3):
        cs = [(trainlib.config(rng, n), "stop", rng.randrange(10**6)) for _ in range(ctx.pick(8, 100))]
        traces += trainlib.worlds(ctx, n, cs)
    ctx.count("stopped", sum(e["a"] == "work" and e["then"] == "stopped" for t in traces for e in t["ev"]))
    ctx.sample(traces[1]["ev"][-6:])
    tlc.validate(ctx, "TrainerTrace", traces)
    tlc.selftest(ctx, "TrainerTrace", traces, trainlib.corrupt)
