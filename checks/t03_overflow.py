"""T03: a step whose gradients overflow leaves no trace."""

from __future__ import annotations

from vlib import tlc, trainlib


def run(ctx):
    tlc.model_check(ctx, "TrainerDesign", overrides={"Bad": "{1, 2, 3}", "MaxLen": "2"} if ctx.quick else {"Bad": "{1, 2, 3}", "MaxLen": "4"}, timeout=880)
    rng = ctx.rng
    cases = [(trainlib.config(rng, fp16=True), rng.random()) for _ in range(ctx.pick(1500, 25000))]
    traces = trainlib.pooled(ctx, trainlib.job_plain, cases, 10)
    cases = [(trainlib.config(rng, fp16=True, early=False), rng.random(), 2) for _ in range(ctx.pick(60, 1000))]
    traces += trainlib.pooled(ctx, trainlib.job_resumes, cases)
    for n in (2, 3, 4):
        cs = [(trainlib.config(rng, n, fp16=True), "plain", rng.randrange(10**6)) for _ in range(ctx.pick(20, 200))]
        traces += trainlib.worlds(ctx, n, cs)
    ctx.count("attempts", sum(e["a"] == "attempt" for t in traces for e in t["ev"]))
    ctx.count("overflows", sum(e["a"] == "attempt" and not e["u"] for t in traces for e in t["ev"]))
    ctx.count("explosions", sum(e["a"] == "work" and e["then"].startswith("Minimum") for t in traces for e in t["ev"]))
    ctx.sample(traces[1]["ev"][:6])
    ctx.assumptions.append("torch's gradient scaler is made to run on the CPU, by constructing it for that device")
    tlc.validate(ctx, "TrainerTrace", traces)
    tlc.selftest(ctx, "TrainerTrace", traces, trainlib.corrupt)
