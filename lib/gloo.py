"""Runs a function on the ranks of a real gloo process group (one forked
process per rank)."""
from __future__ import annotations

import os
import pickle
import select
import signal
import socket
import time
import traceback
from datetime import timedelta


def _free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


def run(size, fn, *, timeout=40.0, coll_timeout=15.0, retries=2):
    """fn(root_gang, rank) on every rank; returns a list of ("ok", value),
    ("error", "Type", traceback), ("hang", None) or ("died", status)."""
    for attempt in range(retries + 1):
        out = _run(size, fn, timeout, coll_timeout)
        if any(o[0] == "init-failed" for o in out) and attempt < retries:
            continue
        return out


def _run(size, fn, timeout, coll_timeout):
    port = _free_port()
    kids = []
    for rank in range(size):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                os.dup2(os.open(os.environ.get("VERIF_GLOO_STDERR", os.devnull), os.O_WRONLY | os.O_CREAT | os.O_APPEND), 2)
                os.environ.update(RANK=str(rank), WORLD_SIZE=str(size), LOCAL_RANK=str(rank), LOCAL_WORLD_SIZE=str(size), MASTER_ADDR="127.0.0.1", MASTER_PORT=str(port), GLOO_SOCKET_IFNAME="lo")
                res = _child(fn, rank, coll_timeout)
                data = pickle.dumps(res)
                while data:
                    n = os.write(w, data)
                    data = data[n:]
                code = 0
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    end = time.time() + timeout
    bufs = [b""] * size
    open_ = {r: i for i, (_, r) in enumerate(kids)}
    while open_:
        left = end - time.time()
        if left <= 0:
            break
        ready, _, _ = select.select(list(open_), [], [], left)
        for r in ready:
            d = os.read(r, 1 << 16)
            if d:
                bufs[open_[r]] += d
            else:
                del open_[r]
    out = []
    for i, (pid, r) in enumerate(kids):
        hang = r in open_
        if hang:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        _, st = os.waitpid(pid, 0)
        os.close(r)
        if hang:
            out.append(("hang", None))
        elif bufs[i]:
            out.append(pickle.loads(bufs[i]))
        else:
            out.append(("died", st))
    return out


def _child(fn, rank, coll_timeout):
    import torch
    from fairseq2.gang import ProcessGroupGang

    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    try:
        root = ProcessGroupGang.create_default_process_group(torch.device("cpu"), timeout=timedelta(seconds=coll_timeout))
    except Exception:  # noqa: BLE001
        return ("init-failed", "init", traceback.format_exc()[-1500:])
    try:
        v = fn(root, rank)
        return ("ok", v)
    except BaseException as ex:  # noqa: BLE001
        return ("error", type(ex).__name__, traceback.format_exc()[-1800:])
