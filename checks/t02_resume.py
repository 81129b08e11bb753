"""T02: a resumed run continues exactly where the interrupted run stood."""

from __future__ import annotations

from vlib import tlc, trainlib


def run(ctx):
    tlc.model_check(ctx, "TrainerDesign", overrides={} if ctx.quick else {"MaxLen": "4", "MaxSteps": "{0, 2, 4}", "MaxLives": "4"}, timeout=880)
    rng = ctx.rng
    cases = [(trainlib.config(rng, early=False), rng.random(), ctx.pick(3, 8)) for _ in range(ctx.pick(300, 4000))]
    traces = trainlib.pooled(ctx, trainlib.job_resumes, cases)
    for n in (2, 3):
        cs = []
        for _ in range(ctx.pick(8, 100)):
            c = trainlib.config(rng, n, early=False)
            cs.append((c, "resume", rng.randrange(10**6)))
        traces += trainlib.worlds(ctx, n, cs)
    ctx.count("resumed_runs", sum(e["a"] == "restart" for t in traces for e in t["ev"]))
    ctx.sample(traces[1]["ev"][-6:])
    tlc.validate(ctx, "TrainerTrace", traces)

    def corrupt(t, rng):
        c = [e for e in t["ev"] if e["a"] == "attempt"]
        if not c:
            return None
        rng.choice(c)["p"] = "x"
        return t

    tlc.selftest(ctx, "TrainerTrace", traces, corrupt)
