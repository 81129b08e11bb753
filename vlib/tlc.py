"""Runs TLC: exhaustive checks of the specification, behaviour generation, and
validation of recorded traces of the real code against the specification."""

from __future__ import annotations

import json
import os
import re
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

from vlib.core import SPEC, Ctx, Machinery

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def _java(args: list[str], *, env: dict | None = None, timeout: int, heap: str = "3g", fast: bool = False):
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m"]
    if fast:
        cmd += ["-XX:TieredStopAtLevel=4"]
    cmd += ["-cp", JAR, "tlc2.TLC", *args]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    try:
        r = subprocess.run(cmd, env=e, capture_output=True, text=True, timeout=timeout, cwd=str(SPEC))
    except subprocess.TimeoutExpired as ex:
        raise Machinery(f"TLC timed out: {args}") from ex
    return r.returncode, r.stdout + "\n" + r.stderr


_STATS = re.compile(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found")


def _stats(out: str) -> tuple[int, int]:
    m = None
    for m in _STATS.finditer(out):
        pass
    if m is None:
        return 0, 0
    return int(m[1].replace(",", "")), int(m[2].replace(",", ""))


def model_check(ctx: Ctx, module: str, cfg: str | None = None, *, workers: int = 4, timeout: int = 600,
                overrides: dict | None = None, heap: str = "6g", allow_uncovered: tuple = (),
                coverage: bool = True) -> str:
    """Exhaustively checks spec/<module>.tla with spec/<cfg>.cfg. A violated
    invariant here is a defect of the specification, so it is a machinery error.
    Also rejects vacuity: every action of Next has to be taken (coverage; it is
    out of reach for deeply recursive operators, whose cost model explodes)."""
    cfg = cfg or module
    cfg_path = SPEC / f"{cfg}.cfg"
    meta = tempfile.mkdtemp(dir=ctx.scratch)
    if overrides:
        txt = cfg_path.read_text()
        for k, v in overrides.items():
            txt, n = re.subn(rf"(?m)^(\s*(?:CONSTANTS?\s+)?{re.escape(k)}\s*=\s*).*$", rf"\g<1>{v}", txt)
            if n != 1:
                raise Machinery(f"constant {k} not found in {cfg_path}")
        cfg_path = Path(meta) / f"{cfg}.cfg"
        cfg_path.write_text(txt)
    rc, out = _java(
        ["-workers", str(workers), "-config", str(cfg_path), "-metadir", meta, *(["-coverage", "1"] if coverage else []),
         "-noGenerateSpecTE", f"{module}.tla"],
        timeout=timeout, heap=heap,
    )
    if rc != 0 or "Model checking completed. No error has been found." not in out:
        raise Machinery(f"TLC on {module}/{cfg} failed (rc={rc}):\n{out[-4000:]}")
    gen, dist = _stats(out)
    if dist == 0:
        raise Machinery(f"TLC on {module}/{cfg}: no states")
    # Vacuity: "<Action line ... of module M>: distinct:generated"
    acts = {}
    for m in re.finditer(r"<(\w+) line \d+, col \d+ to line \d+, col \d+ of module \w+(?: \([^)]*\))?>: (\d+):(\d+)", out):
        acts[m[1]] = acts.get(m[1], 0) + int(m[3])
    dead = [a for a, n in acts.items() if n == 0 and a not in allow_uncovered]
    if dead:
        raise Machinery(f"TLC on {module}/{cfg}: actions never taken (vacuous): {dead}")
    ctx.states += dist
    ctx.transitions += gen
    ctx.extra.setdefault("model_runs", []).append(
        {"module": module, "cfg": cfg, "distinct": dist, "generated": gen, "actions": acts,
         **({"constants": overrides} if overrides else {})}
    )
    ctx.log(f"TLC {module}/{cfg}: {dist} distinct states, {gen} generated")
    return out


def generate(ctx: Ctx, module: str, cfg: str | None = None, *, num: int | None = None, depth: int | None = None,
             timeout: int = 600, workers: int = 1, marker: str = "GEN", overrides: dict | None = None,
             limit: int | None = None) -> list:
    """Runs a generator specification, which prints "GEN|json" per behaviour."""
    cfg = cfg or module
    cfg_path = SPEC / f"{cfg}.cfg"
    meta = tempfile.mkdtemp(dir=ctx.scratch)
    if overrides:
        txt = cfg_path.read_text()
        for k, v in overrides.items():
            txt, n = re.subn(rf"(?m)^(\s*(?:CONSTANTS?\s+)?{re.escape(k)}\s*=\s*).*$", rf"\g<1>{v}", txt)
            if n != 1:
                raise Machinery(f"constant {k} not found in {cfg_path}")
        cfg_path = Path(meta) / f"{cfg}.cfg"
        cfg_path.write_text(txt)
    args = ["-workers", str(workers), "-config", str(cfg_path), "-metadir", meta, "-noGenerateSpecTE"]
    if num is not None:
        args += ["-simulate", f"num={num}", "-seed", str(ctx.seed)]
        if depth is not None:
            args += ["-depth", str(depth)]
    rc, out = _java(args + [f"{module}.tla"], timeout=timeout)
    res, seen = [], set()
    for m in re.finditer(rf'^"{marker}\|(.*)"$', out, re.M):
        s = m[1].replace('\\"', '"').replace("\\\\", "\\")
        if s in seen:
            continue
        seen.add(s)
        res.append(json.loads(s))
        if limit is not None and len(res) >= limit:
            break
    if not res:
        raise Machinery(f"generator {module}/{cfg} produced nothing (rc={rc}):\n{out[-3000:]}")
    gen, dist = _stats(out)
    ctx.states += dist
    ctx.transitions += gen
    ctx.log(f"TLC {module}/{cfg}: generated {len(res)} behaviours")
    return res


_REJ = re.compile(r'^"REJECT\|(\d+)\|(\d+)\|(.*)"$', re.M)


def _validate_chunk(ctx: Ctx, module: str, cfg: str, traces: list, timeout: int) -> tuple[list[int], dict, int, int]:
    d = Path(tempfile.mkdtemp(dir=ctx.scratch))
    fin, fout = d / "in.json", d / "out.json"
    with open(fin, "w") as fp:
        json.dump(traces, fp)
    rc, out = _java(
        ["-workers", "1", "-config", str(SPEC / f"{cfg}.cfg"), "-metadir", str(d / "m"), "-noGenerateSpecTE",
         "-deadlock", f"{module}.tla"],
        env={"VT_IN": str(fin), "VT_OUT": str(fout)}, timeout=timeout, heap="3g",
    )
    if not fout.exists() or re.search(r"^Error:", out, re.M):
        i = max(out.find("\nError:"), 0)
        raise Machinery(f"trace validation with {module} failed (rc={rc}):\n{out[i:i + 1500]}\n...\n{out[-500:]}")
    prog = json.loads(fout.read_text())
    if len(prog) != len(traces):
        raise Machinery(f"{module}: {len(prog)} verdicts for {len(traces)} traces")
    why: dict[int, list] = {}
    for m in _REJ.finditer(out):
        why.setdefault(int(m[1]), []).append((int(m[2]), m[3].replace('\\"', '"')))
    gen, dist = _stats(out)
    return prog, why, gen, dist


def validate(ctx: Ctx, module: str, traces: list[dict], *, cfg: str | None = None, timeout: int = 800,
             jobs: int = 4, chunk: int = 400, describe=None) -> list[int]:
    """Validates recorded traces ({"cfg": .., "ev": [..], "_info": ..}) against the
    trace specification; a trace TLC cannot explain is a violation of ctx.prop.
    Returns the indices of the rejected traces."""
    if not traces:
        raise Machinery("no traces to validate")
    cfg = cfg or module
    clean = []
    for t in traces:
        c = {k: v for k, v in t.items() if not k.startswith("_")}
        if not c["ev"]:
            raise Machinery("empty trace")
        clean.append(c)
    chunks = [(i, clean[i : i + chunk]) for i in range(0, len(clean), chunk)]
    bad = []
    with ThreadPoolExecutor(jobs) as ex:
        futs = [(i, c, ex.submit(_validate_chunk, ctx, module, cfg, c, timeout)) for i, c in chunks]
        for base, c, f in futs:
            prog, why, gen, dist = f.result()
            ctx.states += dist
            ctx.transitions += gen
            for j, p in enumerate(prog):
                t = traces[base + j]
                if p == len(t["ev"]):
                    continue
                bad.append(base + j)
                clauses = [w for (l, w) in why.get(j + 1, []) if l == p + 1]
                evs = t["ev"]
                ev = evs[p]
                info = t.get("_info", t.get("cfg"))
                what = f"{module}: event {p + 1}/{len(evs)} {_short(ev)} is not allowed by the specification"
                if clauses:
                    what += f"; failing clause(s): {sorted(set(clauses))[:4]}"
                if describe is not None:
                    what = f"{describe(t, p)} [{what}]"
                else:
                    what += f"; case {_short(info)}"
                ctx.violation(what, {"trace": t, "accepted_prefix": p, "clauses": clauses})
    ctx.traces += len(traces)
    ctx.log(f"TLC {module}: validated {len(traces)} traces, {len(bad)} rejected")
    return bad


def _short(o, n: int = 300) -> str:
    s = json.dumps(o, default=str)
    return s if len(s) <= n else s[: n - 3] + "..."


def selftest(ctx: Ctx, module: str, traces: list[dict], corrupt, *, cfg: str | None = None, want: int = 8) -> None:
    """Binding check: corrupted copies of accepted traces have to be rejected.
    `corrupt(trace, rng)` returns a changed deep copy or None."""
    import copy

    out = []
    order = list(range(len(traces)))
    ctx.rng.shuffle(order)
    for i in order:
        c = corrupt(copy.deepcopy({k: v for k, v in traces[i].items() if not k.startswith("_")}), ctx.rng)
        if c is not None:
            out.append(c)
        if len(out) >= want:
            break
    if not out:
        raise Machinery(f"{module}: no corrupted trace could be made")
    prog, why, gen, dist = _validate_chunk(ctx, module, cfg or module, out, 300)
    missed = [out[j] for j, p in enumerate(prog) if p == len(out[j]["ev"])]
    if missed and not ctx.violations:
        raise Machinery(f"{module}: corrupted traces were accepted: {json.dumps(missed[0])[:2000]}")
    ctx.extra["corrupted_traces_rejected"] = ctx.extra.get("corrupted_traces_rejected", 0) + len(out) - len(missed)
