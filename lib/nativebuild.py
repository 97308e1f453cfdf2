"""Builds fairseq2n's data pipeline from /repo's working tree, offline.

The parts whose third-party dependencies are missing here (libzip, libsndfile,
sentencepiece, libjpeg/libpng, kaldi-fbank) are replaced by the stand-ins in
/verif/native/stubs. Sources are compiled in groups to save header parsing; a
group that does not compile is retried file by file."""

from __future__ import annotations

import hashlib
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
N = REPO / "native"
V = VERIF / "native"


class BuildError(Exception):
    pass


def _torch() -> Path:
    import importlib.util

    spec = importlib.util.find_spec("torch")
    return Path(spec.submodule_search_locations[0])


def _sources():
    src = [
        f
        for f in sorted((N / "src/fairseq2n").rglob("*.cc"))
        if not any(x in str(f) for x in ("/audio/", "/image/", "/sentencepiece/")) and f.name != "zip_file_data_source.cc"
    ]
    py = [
        f
        for f in sorted((N / "python/src/fairseq2n/bindings").rglob("*.cc"))
        if f.name not in ("audio.cc", "image.cc", "sentencepiece.cc")
    ]
    return src, py


def _digest(extra: str) -> str:
    h = hashlib.sha1(extra.encode())
    fs = sorted((N / "src").rglob("*")) + sorted((N / "python/src").rglob("*")) + sorted((N / "third-party/natsort").rglob("*")) + sorted(V.rglob("*"))
    for f in fs:
        if f.is_file() and f.suffix in (".cc", ".h", ".c", ".cpp", ".hpp", ".inl"):
            h.update(str(f.relative_to(f.anchor)).encode() + b"\0" + f.read_bytes())
    h.update(Path(__file__).read_bytes())
    return h.hexdigest()[:16]


def _groups(files, n):
    g = [[] for _ in range(n)]
    for i, f in enumerate(sorted(files, key=lambda f: (-f.stat().st_size, str(f)))):
        g[i % n].append(f)
    return [x for x in g if x]


def _build(kind: str, opt: list[str], tbb: bool, ngroups: int) -> Path:
    T = _torch()
    cache = VERIF / ".build"
    cache.mkdir(exist_ok=True)
    tag = _digest(" ".join([kind, *opt, str(tbb)]))
    out = cache / f"{kind}-{tag}"
    final = out / ("bindings.so" if kind == "ext" else "driver")
    if final.exists():
        return out
    for old in cache.glob("*"):  # keep the cache small
        if old.name.startswith(kind + "-") and time.time() - old.stat().st_mtime > 3600:
            shutil.rmtree(old, ignore_errors=True)
    tmp = cache / f"tmp-{os.getpid()}-{kind}"
    shutil.rmtree(tmp, ignore_errors=True)
    (tmp / "inc").mkdir(parents=True)
    os.symlink("/usr/include/fmt", tmp / "inc/fmt")
    flags = [
        "-std=c++17", "-fPIC", "-w", "-DFMT_HEADER_ONLY", *(["-DFAIRSEQ2N_USE_TBB"] if tbb else []), *opt,
        *([f"-I{V}/tsanstub"] if kind == "drvthread" else []), f"-I{N}/src", f"-I{N}/python/src", f"-I{V}/stubs", f"-I{tmp}/inc", f"-I{N}/third-party/natsort",
        "-isystem", f"{T}/include", "-isystem", f"{T}/include/torch/csrc/api/include", "-isystem", "/usr/include/python3.12",
    ]
    src, py = _sources()
    src = src + [V / "stubs/stubs.cc"]
    groups: list[list[Path]] = []
    if kind == "ext":
        py = py + [V / "stubs/pystubs.cc"]
        big = [f for f in py if f.name == "data_pipeline.cc"]
        groups += [[f] for f in big]
        groups += [[f] for f in py if f not in big and f.parent.name == "type_casters"]
        groups += _groups([f for f in py if f not in big and f.parent.name != "type_casters"], 2)
    elif kind.startswith("drv"):
        groups += [[V / "driver.cc"]]
    groups += _groups(src, ngroups)

    objs: list[str] = []

    def cc(path: Path, obj: Path):
        return subprocess.run(["g++", *flags, "-c", str(path), "-o", str(obj)], capture_output=True, text=True)

    def comp(item):
        i, fs = item
        unit = tmp / f"u{i}.cc"
        obj = tmp / f"u{i}.o"
        if len(fs) == 1:
            r = cc(fs[0], obj)
            if r.returncode:
                raise BuildError(f"{fs[0]}: {r.stderr[:3000]}")
            return [str(obj)]
        unit.write_text("".join(f'#include "{f}"\n' for f in fs))
        r = cc(unit, obj)
        if r.returncode == 0:
            return [str(obj)]
        res = []
        for k, f in enumerate(fs):
            o = tmp / f"u{i}_{k}.o"
            r = cc(f, o)
            if r.returncode:
                raise BuildError(f"{f}: {r.stderr[:3000]}")
            res.append(str(o))
        return res

    def cnat():
        o = tmp / "strnatcmp.o"
        san = [x for x in opt if "sanitize" in x]
        subprocess.run(["gcc", "-O1", "-fPIC", "-w", *san, "-c", str(N / "third-party/natsort/strnatcmp.c"), "-o", str(o)], check=True)
        return str(o)

    with ThreadPoolExecutor(8) as ex:
        fut = ex.submit(cnat)
        for r in ex.map(comp, enumerate(groups)):
            objs += r
        objs.append(fut.result())

    link = [f"-L{T}/lib", "-ltorch", "-ltorch_cpu", "-lc10", f"-Wl,-rpath,{T}/lib", *(["-ltbb"] if tbb and kind == "ext" else []), "-lpthread"]
    san = [x for x in opt if "sanitize" in x]
    if kind == "ext":
        cmd = ["g++", "-shared", *san, "-o", str(tmp / "bindings.so"), *objs, *link, "-ltorch_python"]
    else:
        cmd = ["g++", *san, "-o", str(tmp / "driver"), *objs, *link]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr[:3000])
    for f in tmp.glob("u*"):
        f.unlink()
    shutil.rmtree(out, ignore_errors=True)
    os.rename(tmp, out)
    return out


def build_ext() -> str:
    return str(_build("ext", ["-O0", "-g0"], True, 4))


def build_driver(san: str) -> Path:
    """san: 'address' (with undefined) or 'thread'."""
    if san == "address":
        opt = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fsanitize-recover=undefined", "-fno-omit-frame-pointer"]
    elif san == "thread":
        opt = ["-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer"]
    else:
        opt = ["-O0", "-g1"]
    return _build(f"drv{san}", opt, san == "thread", 7) / "driver"


if __name__ == "__main__":
    t = time.time()
    for what in sys.argv[1:]:
        print(build_ext() if what == "ext" else build_driver(what), f"{time.time() - t:.1f}s")
