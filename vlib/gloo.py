"""Real process-group gangs (gloo over the loopback interface) in forked processes."""

from __future__ import annotations

import multiprocessing as mp
import os
import socket
import time
import traceback
from datetime import timedelta


def _child(conn, rank, n, port, fn, args, coll_timeout):
    try:
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
        os.environ.update(MASTER_ADDR="127.0.0.1", MASTER_PORT=str(port), RANK=str(rank), WORLD_SIZE=str(n),
                          LOCAL_RANK=str(rank), LOCAL_WORLD_SIZE=str(n), GLOO_SOCKET_IFNAME="lo")
        import torch

        torch.set_num_threads(1)
        from fairseq2.gang import ProcessGroupGang

        gang = ProcessGroupGang.create_default_process_group(torch.device("cpu"), timeout=timedelta(seconds=coll_timeout))
        out = ("ok", fn(gang, *args))
    except BaseException as ex:  # noqa: BLE001
        out = ("err", f"{type(ex).__name__}: {ex}\n{traceback.format_exc()[-1500:]}")
    try:
        conn.send(out)
    except BaseException as ex:  # noqa: BLE001
        conn.send(("err", f"cannot send the result: {ex}"))
    # Nobody leaves before all are done: rank 0 hosts the store the others rely on.
    try:
        conn.poll(coll_timeout)
    except BaseException:  # noqa: BLE001
        pass
    os._exit(0)


def world(n: int, fn, *args, timeout: float = 120, coll_timeout: float = 40) -> list:
    """Runs fn(root_gang, *args) in n processes; per rank ("ok", result), ("err", text)
    or ("hang", "")."""
    ctx = mp.get_context("fork")
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    port = s.getsockname()[1]
    s.close()
    ps, cs = [], []
    for r in range(n):
        a, b = ctx.Pipe(True)
        p = ctx.Process(target=_child, args=(b, r, n, port, fn, args, coll_timeout), daemon=True)
        p.start()
        b.close()
        ps.append(p)
        cs.append(a)
    out = []
    end = time.time() + timeout
    for c in cs:
        try:
            if c.poll(max(0.1, end - time.time())):
                out.append(c.recv())
            else:
                out.append(("hang", ""))
        except EOFError:
            out.append(("err", "process died"))
    for c in cs:
        try:
            c.send(0)
        except OSError:
            pass
    for p in ps:
        p.join(2)
        if p.is_alive():
            p.kill()
    return out
