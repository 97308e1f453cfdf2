"""Crash/fault/delay injection at file system calls (see native/fsshim.c).

`require()` must be called first thing in a check's __main__: it re-executes
the process with the shim preloaded."""
import ctypes
import errno
import hashlib
import os
import signal
import subprocess
import sys
import time

from vlib import VERIF, Inconclusive

COUNT, DIE_BEFORE, DIE_AFTER, FAIL, DELAY = 1, 2, 3, 4, 5
_lib = None


def require() -> None:
    if os.environ.get("VF_SHIM"):
        return
    src = VERIF / "native/fsshim.c"
    h = hashlib.sha1(src.read_bytes()).hexdigest()[:12]
    d = VERIF / ".build"
    d.mkdir(exist_ok=True)
    so = d / f"fsshim-{h}.so"
    if not so.exists():
        tmp = f"{so}.{os.getpid()}"
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", tmp, str(src), "-ldl", "-lpthread"], check=True)
        os.replace(tmp, so)
    os.environ["VF_SHIM"] = str(so)
    os.environ["LD_PRELOAD"] = str(so)
    os.execv(sys.executable, [sys.executable] + sys.argv)


def lib():
    global _lib
    if _lib is None:
        so = os.environ.get("VF_SHIM")
        if not so:
            raise Inconclusive("the file system shim is not loaded")
        _lib = ctypes.CDLL(so)
        _lib.vf_count.restype = ctypes.c_long
        _lib.vf_ops.restype = ctypes.c_char_p
    return _lib


def arm(path, mode, at=0, err=errno.EIO) -> None:
    lib().vf_arm(os.path.realpath(path).encode(), mode, ctypes.c_long(at), err)


def off() -> str:
    lib().vf_off()
    return lib().vf_ops()[: lib().vf_count()].decode()


def in_child(fn, timeout=60.0):
    """Runs fn() in a forked child; returns (exit code, bytes it returned).

    Exit code 77 is an injected crash, 0 a normal end, 78 an exception (its
    repr is returned), negative a signal, None a timeout."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 78
        try:
            out = fn() or b""
            code = 0
        except BaseException as ex:  # noqa: BLE001
            import traceback

            out = traceback.format_exc()[-1500:].encode()
        lib().vf_off()
        try:
            while out:
                out = out[os.write(w, out):]
        except OSError:
            pass
        os._exit(code)
    os.close(w)
    data = b""
    end = time.time() + timeout
    import select

    while True:
        left = end - time.time()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return None, data
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(st), data
