"""Shared machinery of the checks: context, evidence, violations, known findings."""

from __future__ import annotations

import json
import os
import random
import shutil
import sys
import tempfile
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
SPEC = VERIF / "spec"


class Machinery(Exception):
    """The check itself could not do its work (never a verdict)."""


def setup_fairseq2():
    """Puts /repo's working tree on the path and imports fairseq2."""
    for p in (REPO / "native/python/src", REPO / "src"):
        s = str(p)
        if s in sys.path:
            sys.path.remove(s)
        sys.path.insert(0, s)

    if not (REPO / "native/python/src/fairseq2n/config.py").exists():
        import types

        m = types.ModuleType("fairseq2n.config")
        m._CUDA_VERSION = None
        m._SUPPORTS_CUDA = False
        m._SUPPORTS_IMAGE = False
        import torch

        m._TORCH_VARIANT = f"CUDA {torch.version.cuda}" if torch.version.cuda else "cpu"
        m._TORCH_VERSION = torch.__version__
        sys.modules["fairseq2n.config"] = m

    import warnings

    warnings.filterwarnings("ignore")

    import fairseq2n

    fairseq2n.DOC_MODE = True

    import torch

    torch.set_num_threads(1)

    import fairseq2

    f = Path(fairseq2.__file__).resolve()
    if not str(f).startswith(str(REPO.resolve())):
        raise Machinery(f"fairseq2 imported from {f}, not from {REPO}")

    import logging

    logging.getLogger("fairseq2").setLevel(logging.CRITICAL)


class Ctx:
    def __init__(self, prop: str, tier: str, seed: int) -> None:
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.quick = tier != "thorough"
        self.rng = random.Random(f"{prop}/{seed}")
        self.t0 = time.time()
        self.scratch = Path(tempfile.mkdtemp(prefix=f"verif-{prop}-", dir="/tmp"))
        self.replay_dir = VERIF / "evidence" / "replay"
        self.replay_dir.mkdir(parents=True, exist_ok=True)
        for old in self.replay_dir.glob(f"{prop}-*.json"):
            old.unlink()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples: list = []
        self.violations: list = []
        self.known_hits: list = []
        self.extra: dict = {}
        self.assumptions: list[str] = []
        self.known = load_known(prop)

    # -- bookkeeping -----------------------------------------------------
    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def count(self, key: str, n: int = 1) -> None:
        self.extra[key] = self.extra.get(key, 0) + n

    def sample(self, obj) -> None:
        if len(self.samples) < 4:
            self.samples.append(obj)

    def log(self, *a) -> None:
        print(f"[{self.prop} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    def violation(self, what: str, detail: dict | None = None) -> None:
        """Records a violation; `what` names the failing clause and input."""
        for k in self.known:
            if k["match"] in what:
                if k["id"] not in [h["id"] for h in self.known_hits]:
                    self.known_hits.append(k)
                return

        n = len(self.violations)
        path = self.replay_dir / f"{self.prop}-{n}.json"
        if n < 25:
            with open(path, "w") as fp:
                json.dump(
                    {
                        "property": self.prop,
                        "what": what,
                        "tier": self.tier,
                        "seed": self.seed,
                        "detail": detail or {},
                        "rerun": f"VERIF_SEED={self.seed} ./check {self.prop} {self.tier}",
                    },
                    fp,
                    indent=1,
                    default=str,
                )
        self.violations.append((what, path))

    def finish(self, level: str) -> int:
        shutil.rmtree(self.scratch, ignore_errors=True)
        cov = dict(self.extra)
        cov.update(
            states=self.states,
            transitions=self.transitions,
            traces_validated_against_impl=self.traces,
            samples=self.samples,
        )
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        out = VERIF / "evidence" / f"{self.prop}.json"
        with open(out, "w") as fp:
            json.dump(ev, fp, indent=1, default=str)

        for k in self.known_hits:
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}", flush=True)

        for what, path in self.violations[:10]:
            print(f"  violated: {what}", flush=True)
        if self.violations:
            path = self.violations[0][1]
            print(f"VIOLATION property={self.prop} replay={path}", flush=True)
            return 1

        self.log(
            f"ok: states={self.states} transitions={self.transitions} "
            f"traces={self.traces} extra={self.extra}"
        )
        return 0


def blames_repo(ex: BaseException) -> bool:
    """Whether the deepest frame of ours or the system's on the stack is the system's."""
    last = None
    for fs in traceback.extract_tb(ex.__traceback__):
        if fs.filename.startswith(str(REPO)):
            last = "repo"
        elif fs.filename.startswith(str(VERIF)):
            last = "verif"
    return last == "repo"


def load_known(prop: str) -> list[dict]:
    """known_findings.json: {"findings": [...], "fixed": [...]}; only findings suppress."""
    f = VERIF / "known_findings.json"
    if not f.exists():
        return []
    with open(f) as fp:
        data = json.load(fp)
    return [k for k in data.get("findings", []) if k["property"] == prop]


def run_check(prop: str, tier: str) -> int:
    import importlib

    seed = int(os.environ.get("VERIF_SEED", "1") or "1")

    mods = sorted((VERIF / "checks").glob(f"{prop.lower()}_*.py"))
    if len(mods) != 1:
        print(f"no check for {prop}")
        return 2

    ctx = Ctx(prop, tier, seed)
    level = "model_checking"
    try:
        try:
            setup_fairseq2()
        except Machinery:
            raise
        except Exception as ex:
            # The tree cannot even be imported: nothing the property promises holds.
            ctx.violation(f"fairseq2 cannot be imported: {ex!r}", {"tb": traceback.format_exc()})
            return ctx.finish(level)

        mod = importlib.import_module(f"checks.{mods[0].stem}")
        level = getattr(mod, "LEVEL", level)
        mod.run(ctx)
        return ctx.finish(level)
    except BaseException as ex:
        traceback.print_exc()
        from vlib.pool import environment

        if not environment(ex) and isinstance(ex, Exception):
            who = "the system raised" if blames_repo(ex) else "driving the system raised"
            ctx.violation(
                f"{who} an error no behaviour of the specification allows: {ex!r}",
                {"tb": traceback.format_exc()},
            )
        if ctx.violations:
            # Something real was already found; report it rather than die.
            return ctx.finish(level)
        return 3
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
