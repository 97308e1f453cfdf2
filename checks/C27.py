"""C27: files are written whole and read back equal."""
import errno
import fnmatch
import io
import os
import random
import shutil
import struct
import sys
import threading
import zipfile
from pathlib import Path

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from vlib import Check, main, scratch

NAMES = ["a", "b", "c.txt", "d.txt", "step_1", "step_20", "lr=[0.1]", "x[1]", "q?", "w*", "a b", "été", ".hid", "%41", "a#b", "p::q", "[ab]", "c:d", "{x}", "-r", "'", "e.yaml"]
PATTERNS = ["*", "*.txt", "step_*", "a*", "?", "[ab]", "*/*", "*.yaml", "*[0-9]"]
DIR = None

DTYPES = ["float32", "float64", "float16", "bfloat16", "int64", "int32", "int16", "int8", "uint8", "bool", "complex64", "complex128", "float8_e4m3fn", "float8_e5m2", "uint16", "uint32", "uint64"]


class Model:
    """A file tree: path relative to the root -> content, or None for a directory."""

    def __init__(self):
        self.t = {(): DIR}

    def isdir(self, p):
        return p in self.t and self.t[p] is DIR

    def isfile(self, p):
        return p in self.t and self.t[p] is not DIR

    def under(self, p):
        return [q for q in self.t if q[: len(p)] == p]

    def parent(self, p):
        return self.isdir(p[:-1])


def snapshot(root: Path) -> dict:
    out = {(): DIR}
    for dp, dn, fn in os.walk(root):
        rel = tuple(Path(dp).relative_to(root).parts)
        for n in dn:
            out[rel + (n,)] = DIR
        for n in fn:
            out[rel + (n,)] = Path(dp, n).read_bytes()
    return out


class FailingFile:
    """A file that runs out of space after `room` bytes (or when closed)."""

    def __init__(self, f, room, at_close):
        self.f, self.room, self.at_close, self.closed_, self.failed = f, room, at_close, False, False

    def write(self, b):
        n = memoryview(b).nbytes
        if self.room is not None and n > self.room:
            self.failed = True
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
        if self.room is not None:
            self.room -= n
        return self.f.write(b)

    def close(self):
        self.closed_ = True
        self.f.close()
        if self.at_close:
            self.failed = True
            raise OSError(errno.EIO, os.strerror(errno.EIO))

    def __getattr__(self, k):
        return getattr(self.f, k)


class Evil:
    """Runs code when unpickled."""

    def __init__(self, how, mark):
        self.how, self.mark = how, mark

    def __reduce__(self):
        import builtins
        import subprocess

        code = f"open({self.mark!r}, 'w').close()"
        if self.how == "exec":
            return (builtins.exec, (code,))
        if self.how == "eval":
            return (builtins.eval, (code,))
        if self.how == "open":
            return (open, (self.mark, "w"))
        if self.how == "system":
            return (os.system, (f"touch {self.mark}",))
        if self.how == "popen":
            return (subprocess.Popen, (["touch", self.mark],))
        if self.how == "mkdir":
            return (os.mkdir, (self.mark,))
        if self.how == "touch":
            return (Path.touch, (Path(self.mark),))
        return (getattr, (os, "getcwd"))


class BadReduce:
    def __init__(self, ex):
        self.ex = ex

    def __reduce__(self):
        raise self.ex


class Plain:
    """A class that restricted loading must not create."""

    made = 0

    def __init__(self):
        self.x = 1

    def __setstate__(self, s):
        Plain.made += 1


class C27(Check):
    id = "C27"
    rule = "random operation histories on three file systems compared with a model of the tree after every step; random objects dumped and read back under all options; damaged, hostile and missing files, unpicklable data and failing writes injected"
    required = ("fs_operations", "fs_failures", "special_names", "globs", "walks", "tmp_directories", "round_trips", "aliases", "damaged_files", "damage_reported", "hostile_files", "unpicklable", "write_faults", "safetensors", "missing_files", "mmaps", "map_locations")
    assumptions = (
        "renaming is atomic and the local file system does what the kernel says",
        "a damaged file that torch can still read (e.g. a changed number in a memory-mapped file) is not recognizable as damaged",
        "links and special files are outside of the statement",
    )
    workers = 6
    case_timeout = 60

    def setup_worker(self):
        from vlib import setup_fairseq2

        setup_fairseq2()
        import fairseq2.recipe  # noqa: F401
        import fairseq2

        fairseq2.init_fairseq2()

    def gen(self, rng, tier):
        n = 1500 if tier == "quick" else 15000
        yield {"kind": "uri", "seed": 1, "i": 0}
        kinds = ["fs"] * 8 + ["trip"] * 5 + ["damage"] * 4 + ["evil"] * 2 + ["faults"] * 2 + ["safe"] * 3
        for i in range(n):
            yield {"kind": kinds[i % len(kinds)], "seed": rng.randrange(1 << 40), "i": i // len(kinds)}

    def run(self, case, obs):
        rng = random.Random(case["seed"])
        d = Path(scratch()).resolve()
        cwd = os.getcwd()
        try:
            os.chdir(d)
            getattr(self, "k_" + case["kind"])(rng, d, obs, case)
        finally:
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)

    def file_systems(self):
        import fsspec.implementations.local as fl
        from fairseq2.file_system import FSspecFileSystem, GlobalFileSystem, NativeLocalFileSystem

        return {"global": GlobalFileSystem(), "fsspec": FSspecFileSystem(fl.LocalFileSystem(), ""), "native": NativeLocalFileSystem()}

    # -- file system histories --------------------------------------------
    def k_fs(self, rng, d, obs, case):
        name, fs = list(self.file_systems().items())[case["i"] % 3]
        special = rng.random() < 0.7
        # The root itself may have any name, too.
        root = d / (rng.choice(NAMES) if special else "root")
        root.mkdir()
        other = d / "outside"
        (other / "sub").mkdir(parents=True)
        (other / "sub/file").write_bytes(b"outside")
        (d / "src_file").write_bytes(b"local")
        keep = snapshot(other)
        m = Model()
        pool = rng.sample(NAMES, 7) if special else ["a", "b", "c.txt", "d.txt", "step_1", "step_20", ".hid"]
        log = []
        for _ in range(rng.choice([10, 25, 50])):
            op = rng.choice(["write", "write", "write", "append", "wtext", "rtext", "read", "cat", "query", "query", "move", "move", "remove", "mkdir", "mkdir", "mkdir", "copydir", "fromlocal", "rmdir", "glob", "glob", "walk", "tmp", "resolve"])
            self.step(rng, op, name, fs, root, d, m, pool, obs, log)
            real = snapshot(root)
            obs.check(real == m.t, "tree", lambda: f"{name}: after {log[-6:]}: {self.diff(real, m.t)}")
            m.t = real
            obs.count("fs_operations")
        obs.check(snapshot(other) == keep and sorted(p.name for p in d.iterdir()) == sorted([root.name, "outside", "src_file"]), "outside-touched", lambda: f"{name}: files outside of the operated ones changed: {list(d.iterdir())}, {log}")
        if special:
            obs.count("special_names")

    def diff(self, a, b):
        return {"/".join(k): (a.get(k, "absent"), "expected", b.get(k, "absent")) for k in set(a) | set(b) if a.get(k, "absent") != b.get(k, "absent")}

    def some(self, rng, m, pool, want=None):
        t = rng.random()
        have = [p for p in m.t if p and (want is None or (m.t[p] is DIR) == (want == "dir"))]
        if have and t < 0.65:
            return rng.choice(have)
        dirs = [p for p in m.t if m.t[p] is DIR and len(p) < 3]
        p = rng.choice(dirs) + (rng.choice(pool),)
        if t > 0.93:
            p = p + (rng.choice(pool),)
        return p

    def attempt(self, obs, what, f, ok, errors=(OSError,)):
        """Runs `f`, which must succeed iff `ok`."""
        try:
            r = f()
        except errors as ex:
            obs.check(not ok, "operation-failed", lambda: f"{what}: {type(ex).__name__}: {ex}")
            obs.count("fs_failures")
            if ok is False and isinstance(errors, tuple) and errors[0] is FileNotFoundError:
                pass
            return None, ex
        except Exception as ex:
            obs.violate("undocumented-error", f"{what}: {type(ex).__name__}: {ex}")
            return None, ex
        obs.check(ok, "error-not-reported", lambda: f"{what}: no error is reported")
        return r, None

    def step(self, rng, op, name, fs, root, d, m, pool, obs, log):
        from fairseq2.file_system import FileMode

        P = lambda p: root.joinpath(*p)  # noqa: E731
        obs.state((name, op))
        if op in ("write", "append", "wtext"):
            p = self.some(rng, m, pool, rng.choice(["file", "file", "dir"]))
            data = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 10, 300])))
            if op == "wtext":
                data = rng.choice(["", "x", "été\n漢字\n", "a\n" * 20]).encode()
            mode = FileMode.APPEND if op == "append" else FileMode.WRITE
            log.append((op, p, len(data)))

            def f():
                with fs.open_text(P(p), mode) if op == "wtext" else fs.open(P(p), mode) as fp:
                    fp.write(data.decode() if op == "wtext" else data)

            ok = m.parent(p) and not m.isdir(p)
            self.attempt(obs, f"{name}: {log[-1]}", f, ok)
            if ok:
                m.t[p] = (m.t.get(p) or b"") + data if op == "append" else data
        elif op in ("read", "cat", "rtext"):
            p = self.some(rng, m, pool, rng.choice(["file", "file", "dir"]))
            log.append((op, p))
            want = m.t.get(p)
            if op == "rtext" and want is not None:
                try:
                    want.decode()
                except UnicodeDecodeError:
                    return
                if b"\r" in want:
                    return

            def f():
                if op == "cat":
                    return fs.cat(P(p))
                with fs.open_text(P(p)) if op == "rtext" else fs.open(P(p)) as fp:
                    return fp.read()

            got, ex = self.attempt(obs, f"{name}: {log[-1]}", f, m.isfile(p))
            if m.isfile(p) and ex is None:
                obs.check(got == (want.decode() if op == "rtext" else want), "content", lambda: f"{name}: {log[-4:]}: read {got!r}, expected {want!r}")
            if p not in m.t and m.parent(p):
                obs.check(isinstance(ex, FileNotFoundError), "missing-not-reported", lambda: f"{name}: {log[-1]}: {ex!r} instead of FileNotFoundError")
                obs.count("missing_files")
        elif op == "query":
            p = self.some(rng, m, pool)
            got = (fs.exists(P(p)), fs.is_file(P(p)), fs.is_dir(P(p)))
            want = (p in m.t, m.isfile(p), m.isdir(p))
            obs.check(got == want, "query", lambda: f"{name}: exists, is_file, is_dir of {p}: {got}, expected {want}; {log[-4:]}")
            obs.check(fs.is_local_path(P(p)), "query", lambda: f"{name}: {P(p)} is not local")
        elif op == "move":
            a, b = self.some(rng, m, pool), self.some(rng, m, pool)
            if a == b or b[: len(a)] == a:
                return
            log.append((op, a, b))
            ok = a in m.t and m.parent(b)
            if ok and b in m.t:
                if m.isdir(b):
                    ok = m.isdir(a) and len(m.under(b)) == 1
                else:
                    ok = m.isfile(a)
            _, ex = self.attempt(obs, f"{name}: {log[-1]}", lambda: fs.move(P(a), P(b)), ok)
            if ok:
                for q in m.under(b):
                    del m.t[q]
                for q in m.under(a):
                    m.t[b + q[len(a) :]] = m.t.pop(q)
            elif a not in m.t and m.parent(a) and m.parent(b):
                obs.check(isinstance(ex, FileNotFoundError), "missing-not-reported", lambda: f"{name}: {log[-1]}: {ex!r} instead of FileNotFoundError")
        elif op == "remove":
            p = self.some(rng, m, pool, rng.choice(["file", "file", "dir"]))
            log.append((op, p))
            ok = m.isfile(p)
            _, ex = self.attempt(obs, f"{name}: {log[-1]}", lambda: fs.remove(P(p)), ok)
            if ok:
                del m.t[p]
            elif p not in m.t and m.parent(p):
                obs.check(isinstance(ex, FileNotFoundError), "missing-not-reported", lambda: f"{name}: {log[-1]}: {ex!r} instead of FileNotFoundError")
        elif op == "mkdir":
            p = self.some(rng, m, pool)
            log.append((op, p))
            ok = not any(m.isfile(p[:k]) for k in range(1, len(p) + 1))
            self.attempt(obs, f"{name}: {log[-1]}", lambda: fs.make_directory(P(p)), ok)
            if ok:
                for k in range(1, len(p) + 1):
                    m.t.setdefault(p[:k], DIR)
        elif op == "rmdir":
            p = self.some(rng, m, pool, rng.choice(["file", "dir", "dir", "dir"]))
            if rng.random() < 0.5 and len(m.under(p)) > 3:
                return
            log.append((op, p))
            ok = m.isdir(p)
            _, ex = self.attempt(obs, f"{name}: {log[-1]}", lambda: fs.remove_directory(P(p)), ok)
            if ok:
                for q in m.under(p):
                    del m.t[q]
            elif p not in m.t and m.parent(p):
                obs.check(isinstance(ex, FileNotFoundError), "missing-not-reported", lambda: f"{name}: {log[-1]}: {ex!r} instead of FileNotFoundError")
        elif op == "copydir":
            a, b = self.some(rng, m, pool, rng.choice(["dir", "dir", "dir", "file"])), self.some(rng, m, pool)
            if a[: len(b)] == b or b[: len(a)] == a:
                return
            src = m.under(a)
            # Parents are made as necessary.
            ok = m.isdir(a) and not any(m.isfile(b[:k]) for k in range(1, len(b) + 1))
            if ok and any(b + q[len(a) :] in m.t and (m.t[q] is DIR) != (m.t[b + q[len(a) :]] is DIR) for q in src):
                return  # Files in the place of directories.
            log.append((op, a, b))
            self.attempt(obs, f"{name}: {log[-1]}", lambda: fs.copy_directory(P(a), P(b)), ok)
            if ok:
                for k in range(1, len(b)):
                    m.t.setdefault(b[:k], DIR)
                for q in src:
                    m.t[b + q[len(a) :]] = m.t[q]
        elif op == "fromlocal":
            b = self.some(rng, m, pool)
            if rng.random() < 0.5:
                if m.isdir(b):
                    return
                log.append((op, "file", b))
                ok = m.parent(b)
                self.attempt(obs, f"{name}: {log[-1]}", lambda: fs.copy_from_local(d / "src_file", rng.choice([P(b), str(P(b))])), ok)
                if ok:
                    m.t[b] = b"local"
            else:
                log.append((op, "dir", b))
                ok = not any(m.isfile(b[:k]) for k in range(1, len(b) + 1))
                if ok and (m.isfile(b + ("sub",)) or m.isdir(b + ("sub", "file"))):
                    return
                self.attempt(obs, f"{name}: {log[-1]}", lambda: fs.copy_from_local(d / "outside", rng.choice([P(b), str(P(b))])), ok)
                if ok:
                    for k in range(1, len(b) + 1):
                        m.t.setdefault(b[:k], DIR)
                    m.t[b + ("sub",)] = DIR
                    m.t[b + ("sub", "file")] = b"outside"
        elif op == "glob":
            p = () if rng.random() < 0.4 else self.some(rng, m, pool, "dir")
            pat = rng.choice(PATTERNS)
            if m.isfile(p):
                return
            log.append((op, p, pat))
            parts = pat.split("/")
            want = {q for q in m.t if q[: len(p)] == p and len(q) == len(p) + len(parts) and all(fnmatch.fnmatchcase(x, y) for x, y in zip(q[len(p) :], parts))}
            got, _ = self.attempt(obs, f"{name}: {log[-1]}", lambda: list(fs.glob(P(p), pat)), True)
            if got is not None:
                obs.count("globs")
                obs.check(len(set(got)) == len(got) and {Path(g) for g in got} == {P(q) for q in want}, "glob", lambda: f"{name}: glob({P(p)}, {pat!r}): {got}, expected {sorted(want)}")
        elif op == "walk":
            p = () if rng.random() < 0.5 else self.some(rng, m, pool, "dir")
            if m.isfile(p):
                return
            log.append((op, p))
            errors = []
            got, _ = self.attempt(obs, f"{name}: {log[-1]}", lambda: list(fs.walk_directory(P(p), on_error=errors.append)), True)
            if got is not None:
                obs.count("walks")
                seen = {}
                for dp, files in got:
                    rel = tuple(Path(dp).relative_to(root).parts)
                    obs.check(rel not in seen, "walk", lambda: f"{name}: {rel} is visited twice")
                    seen[rel] = sorted(files)
                want = {q: sorted(r[-1] for r in m.t if r[:-1] == q and r and m.t[r] is not DIR) for q in m.under(p) if m.t[q] is DIR}
                obs.check(seen == want, "walk", lambda: f"{name}: walk_directory({P(p)}): {seen}, expected {want}")
                if p not in m.t:
                    obs.check(len(errors) == 1 and isinstance(errors[0], FileNotFoundError if m.parent(p) else OSError), "walk-errors", lambda: f"{name}: walking a missing directory reported {errors}")
                else:
                    obs.check(not errors, "walk-errors", lambda: f"{name}: {errors}")
        elif op == "tmp":
            p = rng.choice([q for q in m.t if m.t[q] is DIR])
            boom = rng.random() < 0.5
            log.append((op, p, boom))
            try:
                with fs.tmp_directory(P(p)) as t:
                    obs.count("tmp_directories")
                    obs.check(t.parent == P(p) and t.is_dir() and not list(t.iterdir()) and t.name not in {q[-1] for q in m.t if q}, "tmp-directory", lambda: f"{name}: {t}")
                    (t / "x").mkdir()
                    (t / "x/y").write_bytes(b"1")
                    if boom:
                        raise KeyError("boom")
            except KeyError:
                obs.check(boom, "tmp-directory", "KeyError")
            else:
                obs.check(not boom, "tmp-directory", f"{name}: an error inside of tmp_directory() is lost")
        elif op == "resolve":
            p = self.some(rng, m, pool)
            q = P(p).parent / "." / ".." / P(p).parent.name / p[-1]
            got = fs.resolve(q)
            obs.check(got == P(p), "resolve", lambda: f"{name}: {q} resolves to {got}")

    def k_uri(self, rng, d, obs, case):
        from fairseq2.file_system import GlobalFileSystem

        # URIs are absolute: the working directory is a place of its own.
        (d / "cwd").mkdir()
        (d / "there").mkdir()
        os.chdir(d / "cwd")
        fs = GlobalFileSystem()
        for form in ("file://", "local://"):
            try:
                fs.make_directory(Path(f"{form}{d}/there/{form[:4]}"))
            except OSError:
                pass
            obs.check(fs.is_dir(d / "there" / form[:4]), "file-uri", f"make_directory() of a {form} URI did not make its directory; the working directory has {[str(p) for p in (d / 'cwd').rglob('*')][:1]}")

    # -- tensor files ------------------------------------------------------
    def tensor(self, rng):
        import torch

        dt = getattr(torch, rng.choice(DTYPES))
        shape = tuple(rng.choice([0, 1, 2, 3, 7]) for _ in range(rng.choice([0, 1, 2, 3])))
        n = 1
        for s in shape:
            n *= s
        itemsize = torch.empty(0, dtype=dt).element_size()
        raw = bytearray(rng.randrange(256) for _ in range(max(1, n) * itemsize))
        if dt == torch.bool:
            raw = bytearray(x & 1 for x in raw)
        t = torch.frombuffer(raw, dtype=dt)[:n].reshape(shape).clone()
        if t.ndim >= 2 and rng.random() < 0.3:
            t = t.transpose(0, -1)
        if t.ndim >= 1 and t.shape[0] > 1 and rng.random() < 0.3:
            t = t[::2] if rng.random() < 0.5 else t[1:]
        if t.ndim == 1 and rng.random() < 0.1:
            t = t.expand(3, -1) if t.numel() else t
        if t.is_floating_point() and rng.random() < 0.2:
            t = torch.nn.Parameter(t, requires_grad=rng.random() < 0.5)
        return t

    def tree(self, rng, depth, tensors, rich):
        t = rng.random()
        if t < 0.4:
            if tensors and rng.random() < 0.3:
                return rng.choice(tensors)
            x = self.tensor(rng)
            tensors.append(x)
            if x.ndim and x.shape[0] > 1 and rng.random() < 0.2:
                y = x.detach()[1:]
                tensors.append(y)
            return x
        if depth and t < 0.6:
            return {self.key(rng): self.tree(rng, depth - 1, tensors, rich) for _ in range(rng.randrange(4))}
        if depth and t < 0.75:
            r = [self.tree(rng, depth - 1, tensors, rich) for _ in range(rng.randrange(4))]
            return tuple(r) if rng.random() < 0.4 else r
        opts = [None, True, False, 0, -1, 1 << 80, -(1 << 40), 0.1, float("inf"), float("-inf"), -0.0, 1e-320, "", "été\x00", "x" * 300, b"\x00\xff", 3 + 4j, "nan"]
        v = rng.choice(opts)
        return float("nan") if v == "nan" else v

    def key(self, rng):
        return rng.choice(["model", "a.b.weight", "", "été", 0, 7, True, "k%d" % rng.randrange(50)])

    def raw(self, t):
        import torch

        return bytes(t.reshape(-1).clone(memory_format=torch.contiguous_format).as_strided((t.numel(),), (1,)).view(torch.uint8).tolist())

    def same(self, a, b, where="data"):
        """None, or how `b` differs from `a`."""
        import torch

        if isinstance(a, torch.Tensor):
            if not isinstance(b, torch.Tensor) or type(a) is not type(b):
                return f"{where}: {type(b)} instead of {type(a)}"
            if a.dtype != b.dtype or a.shape != b.shape or a.requires_grad != b.requires_grad:
                return f"{where}: {b.dtype} {tuple(b.shape)} {b.requires_grad} instead of {a.dtype} {tuple(a.shape)} {a.requires_grad}"
            if a.numel() and any(n > 1 and x != y for n, x, y in zip(a.shape, a.stride(), b.stride())):
                return f"{where}: strides {b.stride()} instead of {a.stride()}"
            if b.device.type != "meta":
                x, y = a.detach().contiguous(), b.detach().cpu().contiguous()
                if x.numel() and self.raw(x) != self.raw(y):
                    return f"{where}: {b} instead of {a}"
            return None
        if type(a) is not type(b):
            return f"{where}: {type(b)} instead of {type(a)}"
        if isinstance(a, dict):
            if list(a) != list(b) or [type(k) for k in a] != [type(k) for k in b]:
                return f"{where}: keys {list(b)} instead of {list(a)}"
            for k in a:
                r = self.same(a[k], b[k], f"{where}[{k!r}]")
                if r:
                    return r
            return None
        if isinstance(a, (list, tuple)):
            if len(a) != len(b):
                return f"{where}: {len(b)} elements instead of {len(a)}"
            for i, (x, y) in enumerate(zip(a, b)):
                r = self.same(x, y, f"{where}[{i}]")
                if r:
                    return r
            return None
        if isinstance(a, float):
            return None if struct.pack("d", a) == struct.pack("d", b) else f"{where}: {b} instead of {a}"
        return None if a == b else f"{where}: {b!r} instead of {a!r}"

    def flat(self, x, out):
        import torch

        if isinstance(x, torch.Tensor):
            out.append(x)
        elif isinstance(x, dict):
            for v in x.values():
                self.flat(v, out)
        elif isinstance(x, (list, tuple)):
            for v in x:
                self.flat(v, out)
        return out

    def storage(self, t):
        return t.untyped_storage().data_ptr() if t.numel() else None

    def io(self, fs):
        from fairseq2 import io as fio
        from fairseq2.io import SafetensorsLoader, TensorFileDumper, TensorFileLoader  # noqa: F401

        impl = {}
        for c in (TensorFileLoader, TensorFileDumper, SafetensorsLoader):
            (sub,) = [s for s in c.__subclasses__() if s.__module__ == fio.__name__]
            impl[c.__name__] = sub(fs)
        return impl["TensorFileLoader"], impl["TensorFileDumper"], impl["SafetensorsLoader"]

    def k_trip(self, rng, d, obs, case):
        import torch
        from fairseq2.io import TensorFileDumpOptions, TensorFileLoadOptions

        name, fs = list(self.file_systems().items())[case["i"] % 3]
        loader, dumper, _ = self.io(fs)
        tensors = []
        data = {self.key(rng): self.tree(rng, 3, tensors, True) for _ in range(rng.randrange(1, 6))}
        d = d / rng.choice(NAMES)
        d.mkdir()
        path = d / rng.choice(["m.pt", "lr=[0.1].pt", "w*.pt", "été.pt", "rank_0.pt"])
        if rng.random() < 0.3:
            # Whatever was there before is replaced as a whole.
            path.write_bytes(os.urandom(rng.choice([10, 100000])))
        opts = rng.choice([None, TensorFileDumpOptions(), TensorFileDumpOptions(pickle_protocol=rng.choice([2, 3, 4, 5]))])
        dumper.dump(data, path, opts)
        flat = self.flat(data, [])
        for mmap in (False, True):
            for loc in (None, "cpu", torch.device("cpu"), "meta", torch.device("meta"), {"cpu": "meta"}, lambda s, l: s):
                for restrict in (True, False) if opts is None or opts.pickle_protocol == 2 else (False,):  # torch restricts only those
                    obs.count("round_trips")
                    lo = None if (not mmap and loc is None and restrict and rng.random() < 0.5) else TensorFileLoadOptions(map_location=loc, mmap=mmap, restrict=restrict)
                    got = loader.load(path, lo)
                    r = self.same(data, got)
                    obs.check(r is None, "round-trip", lambda: f"{name} mmap={mmap} map_location={loc} restrict={restrict}: {r}")
                    if r:
                        continue
                    new = self.flat(got, [])
                    meta = loc in ("meta", torch.device("meta")) or isinstance(loc, dict)
                    obs.check(all(t.device.type == ("meta" if meta else "cpu") for t in new), "map-location", lambda: f"{name}: map_location={loc}: {[t.device for t in new]}")
                    obs.count("map_locations" if loc is not None else "assertions")
                    if mmap:
                        obs.count("mmaps")
                    if meta:
                        continue
                    for i in range(len(flat)):
                        for j in range(i):
                            if self.storage(flat[i]) is None or self.storage(flat[j]) is None:
                                continue
                            was, now = self.storage(flat[i]) == self.storage(flat[j]), self.storage(new[i]) == self.storage(new[j])
                            if was:
                                obs.count("aliases")
                            obs.check(was == now, "aliasing", lambda: f"{name}: tensors {j} and {i} shared memory: {was}; after loading: {now}")
        obs.state(("trip", name, len(flat) > 3))
        # Loaded tensors are the caller's own: the file does not change with them.
        before = path.read_bytes()
        for mmap in (False, True):
            for t in self.flat(loader.load(path, TensorFileLoadOptions(mmap=mmap, restrict=False)), []):
                if t.numel() and not (0 in t.stride()):
                    t.detach().zero_()
            obs.check(path.read_bytes() == before, "file-changed", f"{name}: the file changed with the loaded tensors (mmap={mmap})")

    def k_damage(self, rng, d, obs, case):
        import pickle

        import torch
        from fairseq2.io import CorruptFileError, TensorFileLoadOptions

        name, fs = list(self.file_systems().items())[case["i"] % 3]
        loader, dumper, _ = self.io(fs)
        path = d / "m.pt"
        tensors = []
        legacy = rng.random() < 0.3
        data = {"a": torch.arange(10.0), "b": self.tree(rng, 2, tensors, False), "c": {"d": torch.ones(3, 3)}}
        if legacy:
            torch.save(data, path, _use_new_zipfile_serialization=False)
        else:
            dumper.dump(data, path)
        good = path.read_bytes()
        for _ in range(12):
            b = bytearray(good)
            how = rng.choice(["cut", "cut", "flip", "flip", "zero", "dup", "drop", "garbage", "empty", "text", "list", "zip", "tail"])
            sure = how in ("empty", "text", "list", "zip", "garbage")
            if how == "cut":
                b = b[: rng.randrange(len(b))]
                sure = True
            elif how == "flip":
                for _ in range(rng.choice([1, 1, 3, 20])):
                    b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            elif how == "zero":
                i = rng.randrange(len(b))
                n = rng.randrange(1, 200)
                b[i : i + n] = bytes(len(b[i : i + n]))
            elif how == "dup":
                i = rng.randrange(len(b))
                b[i:i] = b[i : i + rng.randrange(1, 100)]
            elif how == "drop":
                i = rng.randrange(len(b))
                del b[i : i + rng.randrange(1, 100)]
            elif how == "garbage":
                b = bytearray(os.urandom(rng.choice([1, 50, 5000])))
            elif how == "empty":
                b = bytearray()
            elif how == "text":
                b = bytearray(rng.choice([b"version https://git-lfs.github.com/spec/v1\noid sha256:1\nsize 1\n", b"<html>404</html>", b"\n", b"PK", b"PK\x03\x04", b"\x80\x02"]))
            elif how == "list":
                s = io.BytesIO()
                torch.save(rng.choice([[1, 2], torch.ones(2), None, "x", 7]), s)
                b = bytearray(s.getvalue())
            elif how == "zip":
                s = io.BytesIO()
                with zipfile.ZipFile(s, "w") as z:
                    z.writestr("x/data.pkl", rng.choice([b"", pickle.dumps([1]), pickle.dumps(5), b"\x80\x02}."[:2]]))
                b = bytearray(s.getvalue())
            elif how == "tail":
                b += os.urandom(rng.randrange(1, 100))
            path.write_bytes(b)
            for mmap in (False, True):
                obs.count("damaged_files")
                obs.state(("damage", how, legacy, mmap))
                try:
                    got = loader.load(path, TensorFileLoadOptions(mmap=mmap))
                except CorruptFileError as ex:
                    obs.count("damage_reported")
                    obs.check(ex.file == path, "damaged-file", lambda: f"the error names {ex.file}")
                    continue
                except MemoryError:
                    continue
                except Exception as ex:
                    obs.violate("damaged-file", f"{name}: {how} (legacy={legacy}, mmap={mmap}): {type(ex).__name__}: {str(ex)[:300]}")
                    continue
                obs.check(isinstance(got, dict), "damaged-file", lambda: f"{name}: {how}: loaded a {type(got)}")
                if sure and how != "garbage":
                    obs.violate("damaged-file", f"{name}: a file damaged by {how} (legacy={legacy}, mmap={mmap}, {len(b)} of {len(good)} bytes) was loaded")
        for mmap in (False, True):
            obs.count("missing_files")
            try:
                loader.load(d / "absent.pt", TensorFileLoadOptions(mmap=mmap))
                obs.violate("missing-not-reported", f"{name}: a missing file was loaded")
            except FileNotFoundError:
                obs.count("assertions")
            try:
                loader.load(d, TensorFileLoadOptions(mmap=mmap))
                obs.violate("missing-not-reported", f"{name}: a directory was loaded")
            except OSError:
                obs.count("assertions")

    def k_evil(self, rng, d, obs, case):
        import pickle

        import torch
        from fairseq2.io import CorruptFileError, TensorFileLoadOptions

        name, fs = list(self.file_systems().items())[case["i"] % 3]
        loader, _, _ = self.io(fs)
        mark = str(d / "mark")
        for how in ("exec", "eval", "open", "system", "popen", "mkdir", "touch", "plain"):
            bad = Plain() if how == "plain" else Evil(how, mark)
            for form in ("torch", "legacy", "pickle", "nested", "zip"):
                data = {"model": {"w": torch.ones(3)}, "x": bad}
                if form == "nested":
                    data = {"model": [({"deep": [bad]},)], "w": torch.ones(2)}
                p = d / "evil.pt"
                if form in ("torch", "nested"):
                    torch.save(data, p)
                elif form == "legacy":
                    torch.save(data, p, _use_new_zipfile_serialization=False)
                elif form == "pickle":
                    p.write_bytes(pickle.dumps({"x": bad}, protocol=rng.choice([0, 2, 4, 5])))
                else:
                    s = io.BytesIO()
                    torch.save({"a": 1}, s)
                    src = zipfile.ZipFile(s)
                    with zipfile.ZipFile(p, "w") as z:
                        for n in src.namelist():
                            z.writestr(n, pickle.dumps({"x": bad}, protocol=2) if n.endswith("data.pkl") else src.read(n))
                for mmap in (False, True):
                    for opts in (TensorFileLoadOptions(mmap=mmap), None if not mmap else TensorFileLoadOptions(mmap=True, map_location="cpu")):
                        obs.count("hostile_files")
                        obs.state(("evil", how, form, mmap))
                        Plain.made = 0
                        try:
                            loader.load(p, opts)
                            obs.violate("hostile-file", f"{name}: a file with code to run ({how}, {form}, mmap={mmap}) was loaded")
                        except CorruptFileError:
                            obs.count("assertions")
                        except Exception as ex:
                            obs.violate("damaged-file", f"{name}: {how} in {form}: {type(ex).__name__}: {str(ex)[:200]}")
                        obs.check(not os.path.exists(mark) and not Plain.made, "code-executed", lambda: f"{name}: loading ran code of the file ({how}, {form}, mmap={mmap})")
                        if os.path.isdir(mark):
                            os.rmdir(mark)
                        elif os.path.exists(mark):
                            os.remove(mark)

    def k_faults(self, rng, d, obs, case):
        import pickle

        import torch
        from fairseq2.file_system import FileMode, NativeLocalFileSystem
        from fairseq2.io import DataNotPicklableError

        name, fs = list(self.file_systems().items())[case["i"] % 3]
        _, dumper, _ = self.io(fs)
        bads = {
            "lambda": lambda: 1, "lock": threading.Lock(), "generator": (i for i in ()), "module": os, "file": open(os.devnull),
            "recursion": None, "pickle error": BadReduce(pickle.PicklingError("x")), "type error": BadReduce(TypeError("x")),
            "value error": BadReduce(ValueError("x")), "runtime error": BadReduce(RuntimeError("x")), "local class": type("Local", (), {})(),
        }
        deep = []
        for _ in range(100000):
            deep = [deep]
        bads["recursion"] = deep
        for what, bad in bads.items():
            obs.count("unpicklable")
            try:
                dumper.dump({"w": torch.ones(3), "x": [bad]}, d / "z.pt")
                obs.violate("unpicklable", f"{name}: a {what} was dumped")
            except DataNotPicklableError:
                obs.count("assertions")
            except Exception as ex:
                obs.violate("unpicklable", f"{name}: dumping a {what}: {type(ex).__name__}: {str(ex)[:200]}")
        bads["file"].close()
        while deep:
            deep = deep[0]
        # Writes that fail at any byte.
        data = {"a": torch.arange(100.0), "b": {"c": torch.ones(20, 20), "d": "x" * 100}}
        dumper.dump(data, d / "whole.pt")
        size = (d / "whole.pt").stat().st_size
        files = []

        class FS(NativeLocalFileSystem.__mro__[1]):
            def __getattribute__(self, k):
                if k in ("room", "at_close", "__class__"):
                    return object.__getattribute__(self, k)
                if k == "open":

                    def op(path, mode=FileMode.READ):
                        f = FailingFile(fs.open(path, mode), self.room, self.at_close)
                        files.append(f)
                        return f

                    return op
                return getattr(fs, k)

        FS.__abstractmethods__ = frozenset()
        failing = FS()
        _, dumper, _ = self.io(failing)
        for room in [0, 1, size - 1] + [rng.randrange(size) for _ in range(12)] + ["close"]:
            failing.room, failing.at_close = (None, True) if room == "close" else (room, False)
            obs.count("write_faults")
            obs.state(("fault", room if isinstance(room, str) else room * 8 // size))
            try:
                dumper.dump(data, d / "y.pt")
                obs.violate("write-fault", f"{name}: the disk filled up after {room} of {size} bytes; no error is reported")
            except OSError as ex:
                obs.check(ex.errno in (errno.ENOSPC, errno.EIO), "write-fault", lambda: f"{name}: after {room} bytes: {ex!r}")
            except Exception as ex:
                obs.violate("write-fault", f"{name}: the disk filled up after {room} of {size} bytes, reported as {type(ex).__name__}: {str(ex)[:200]}")
            obs.check(files[-1].failed and files[-1].closed_, "write-fault", lambda: f"{name}: the file is left open")
        try:
            dumper2 = self.io(fs)[1]
            dumper2.dump(data, d / "no-such-dir/z.pt")
            obs.violate("missing-not-reported", f"{name}: dumped into a missing directory")
        except FileNotFoundError:
            obs.count("missing_files")

    def k_safe(self, rng, d, obs, case):
        import safetensors.torch
        import torch
        from fairseq2.io import CorruptFileError, SafetensorsLoadOptions

        name, fs = list(self.file_systems().items())[case["i"] % 3]
        _, _, loader = self.io(fs)
        d = d / rng.choice(NAMES)
        d.mkdir()
        path = d / rng.choice(["m.safetensors", "m[1].safetensors", "w*.safetensors"])
        data = {}
        for i in range(rng.randrange(6)):
            t = self.tensor(rng).detach().contiguous().clone()
            if "complex128" in str(t.dtype):
                t = torch.ones(2)
            data[rng.choice(["w", "été", "a.b", ""]) + str(i)] = t
        safetensors.torch.save_file(data, path)
        for mmap in (False, True):
            for device in (None, torch.device("cpu")):
                obs.count("safetensors")
                got = loader.load(path, rng.choice([SafetensorsLoadOptions(device=device, mmap=mmap)] + ([None] if not mmap else [])))
                obs.check(set(got) == set(data), "round-trip", lambda: f"{name}: keys {list(got)} instead of {list(data)}")
                for k in data:
                    r = self.same(data[k], got[k], k) if k in got else "missing"
                    obs.check(r is None, "round-trip", lambda: f"{name}: safetensors mmap={mmap}: {r}")
        if data:
            # Mapping of devices.
            got = loader.load(path, SafetensorsLoadOptions(device=torch.device("meta")))
            obs.check(all(t.device.type == "meta" and t.shape == data[k].shape for k, t in got.items()), "map-location", lambda: f"{name}: {got}")
        good = path.read_bytes()
        for _ in range(12):
            b = bytearray(good)
            how = rng.choice(["cut", "flip", "length", "garbage", "empty", "dtype", "json", "tail"])
            sure = how not in ("flip",)
            if how == "cut":
                b = b[: rng.randrange(len(b))]
            elif how == "flip":
                b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            elif how == "length":
                b[:8] = struct.pack("<Q", rng.choice([0, 1, len(b), 1 << 40, (1 << 64) - 1]))
            elif how == "garbage":
                b = bytearray(os.urandom(rng.choice([1, 7, 8, 9, 500])))
            elif how == "empty":
                b = bytearray()
            elif how == "tail":
                b += b"x"
            else:
                h = {"dtype": b'{"a":{"dtype":"%s","shape":[1],"data_offsets":[0,1]}}' % rng.choice([b"F4", b"X", b"F6_E2M3", b"F8_E8M0"]), "json": rng.choice([b"{}x", b"[]", b"{", b'{"a":1}', b'{"a":{"dtype":"F32","shape":[9],"data_offsets":[0,1]}}', b'{"a":{"dtype":"F32","shape":[-1],"data_offsets":[0,4]}}'])}[how]
                b = bytearray(struct.pack("<Q", len(h)) + h + b"\0")
                if how == "dtype" and b"F8" in h:
                    sure = False
            path.write_bytes(b)
            for mmap in (False, True):
                obs.count("damaged_files")
                obs.state(("safe", how, mmap))
                try:
                    loader.load(path, SafetensorsLoadOptions(mmap=mmap))
                except CorruptFileError as ex:
                    obs.count("damage_reported")
                    obs.check(ex.file == path, "damaged-file", lambda: f"the error names {ex.file}")
                    continue
                except Exception as ex:
                    obs.violate("damaged-file", f"{name}: safetensors: {how} (mmap={mmap}, {bytes(b[:80])}): {type(ex).__name__}: {str(ex)[:300]}")
                    continue
                if sure:
                    obs.violate("damaged-file", f"{name}: a safetensors file damaged by {how} (mmap={mmap}, {bytes(b[:80])}) was loaded")
        for mmap in (False, True):
            obs.count("missing_files")
            try:
                loader.load(d / "absent", SafetensorsLoadOptions(mmap=mmap))
                obs.violate("missing-not-reported", f"{name}: a missing file was loaded")
            except FileNotFoundError:
                obs.count("assertions")


if __name__ == "__main__":
    main(C27())
