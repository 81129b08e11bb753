"""T01: training does its periodic work at exactly the due steps and ends in time."""

from __future__ import annotations

from vlib import tlc, trainlib


def run(ctx):
    tlc.model_check(ctx, "TrainerDesign", overrides={} if ctx.quick else {"MaxLen": "4", "MaxSteps": "{0, 1, 3, 5}", "MaxLives": "3"}, timeout=880)
    rng = ctx.rng
    cases = [(trainlib.config(rng), rng.random()) for _ in range(ctx.pick(2500, 40000))]
    traces = trainlib.pooled(ctx, trainlib.job_plain, cases, 10)
    for n in (2, 3):
        cs = [(trainlib.config(rng, n), "plain", rng.randrange(10**6)) for _ in range(ctx.pick(25, 250))]
        traces += trainlib.worlds(ctx, n, cs)
    ctx.count("attempts", sum(e["a"] == "attempt" for t in traces for e in t["ev"]))
    ctx.count("saves", sum(len(e["saves"]) for t in traces for e in t["ev"] if e["a"] == "work"))
    ctx.sample(traces[1]["ev"][:6])
    tlc.validate(ctx, "TrainerTrace", traces)
    tlc.selftest(ctx, "TrainerTrace", traces, trainlib.corrupt)
