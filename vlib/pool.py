"""Runs cases of a check in worker processes; whatever the code under test does
to them (errors that cannot be pickled, dying processes, endless loops) becomes
a verdict."""

from __future__ import annotations

import errno
import multiprocessing as mp
import signal
import traceback
from concurrent.futures import ProcessPoolExecutor
from concurrent.futures.process import BrokenProcessPool

from vlib.core import Machinery

_fn = None
_limit = 0


class Endless(BaseException):
    """A case does not come to an end."""


def _expired(signum, frame):
    raise Endless()


def environment(ex: BaseException) -> bool:
    """Whether it is the sandbox that has failed."""
    if isinstance(ex, (Machinery, MemoryError, KeyboardInterrupt)):
        return True
    return isinstance(ex, OSError) and ex.errno in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.EAGAIN)


def _chunk(cases):
    out = []
    signal.signal(signal.SIGALRM, _expired)
    for c in cases:
        try:
            signal.alarm(_limit)
            try:
                out.append(("ok", _fn(c)))
            finally:
                signal.alarm(0)
        except Endless:
            out.append(("fail", "does not come to an end", traceback.format_exc()))
        except BaseException as ex:  # noqa: BLE001
            try:
                what = repr(ex)
            except Exception:  # noqa: BLE001
                what = type(ex).__name__
            out.append(("env" if environment(ex) else "fail", f"raises {what[:500]}", traceback.format_exc()[-6000:]))
    return out


def pmap(ctx, fn, cases, chunk: int = 1, *, limit: int = 150, workers: int = 8) -> list:
    """The results of fn over the cases, without those of cases that failed, which are violations."""
    global _fn, _limit
    _fn, _limit = fn, limit
    cases = list(cases)
    chunks = [cases[i : i + chunk] for i in range(0, len(cases), chunk)]
    results, failed = [], 0
    with ProcessPoolExecutor(workers, mp_context=mp.get_context("fork")) as ex:
        futures = [ex.submit(_chunk, c) for c in chunks]
        for c, f in zip(chunks, futures):
            try:
                res = f.result()
            except BrokenProcessPool:
                ctx.violation(f"a process died during one of the cases {str(c)[:600]}")
                break
            for case, r in zip(c, res):
                if r[0] == "ok":
                    results.append(r[1])
                    continue
                if r[0] == "env":
                    raise Machinery(f"{r[1]}\n{r[2]}")
                failed += 1
                ctx.violation(f"a case {r[1]}: {str(case)[:400]}", {"case": case, "trace": r[2]})
            if failed > 40:
                for g in futures:
                    g.cancel()
                break
    return results
