"""C28: the asset cache never serves partial downloads."""
import io
import json
import os
import random
import shutil
import socket
import socketserver
import struct
import sys
import tarfile
import threading
import time
import zipfile
from pathlib import Path
from urllib.parse import quote, unquote

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import fsfault
from vlib import Check, main, scratch

HITS = []
PLAN = {}  # path -> list of responses; the last one is repeated


class Handler(socketserver.BaseRequestHandler):
    def handle(self):
        s = self.request
        s.settimeout(10)
        try:
            data = b""
            while b"\r\n\r\n" not in data:
                b = s.recv(65536)
                if not b:
                    return
                data += b
            path = data.split(b" ", 2)[1].decode()
            HITS.append(path)
            plan = PLAN.get(path)
            if plan is None:
                s.sendall(b"HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\nConnection: close\r\n\r\n")
                return
            r = plan.pop(0) if len(plan) > 1 else plan[0]
            for c in r["chunks"]:
                s.sendall(c)
                if r.get("slow"):
                    time.sleep(0.002)
            if r.get("rst"):
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        except OSError:
            pass


class Server(socketserver.ThreadingTCPServer):
    daemon_threads = True
    allow_reuse_address = True


def pieces(r, b):
    out = []
    while b:
        n = r.choice([1, 100, 4096, 8192, 20000, len(b)])
        out.append(b[:n])
        b = b[n:]
    return out[:60] + [b"".join(out[60:])]


def respond(r, body, extra=(), framing=None):
    """A complete response with the body."""
    framing = framing or r.choice(["length", "length", "chunked", "close", "badlength"])
    h = [b"HTTP/1.1 200 OK", b"Connection: close", b"Content-Type: application/octet-stream", *extra]
    if framing == "length":
        h.append(b"Content-Length: %d" % len(body))
    elif framing == "badlength":
        h.append(b"Content-Length: abc")
    elif framing == "chunked":
        h.append(b"Transfer-Encoding: chunked")
    head = b"\r\n".join(h) + b"\r\n\r\n"
    if framing == "chunked":
        ps = [b"%x\r\n%s\r\n" % (len(p), p) for p in pieces(r, body) if p] + [b"0\r\n\r\n"]
    else:
        ps = pieces(r, body)
    return {"chunks": [head, *ps], "slow": r.random() < 0.1}


FAULTS = ["status", "close", "rst", "garbage", "partial_header", "short_length", "short_chunked", "bad_chunk", "rst_body", "redirect_loop", "redirect_nowhere", "bad_status_line"]


def fault(r, kind, body, path):
    if kind == "status":
        c = r.choice([400, 401, 403, 404, 410, 429, 500, 502, 503])
        m = b"<html>error</html>"
        return {"chunks": [b"HTTP/1.1 %d Error\r\nContent-Length: %d\r\nConnection: close\r\n\r\n%s" % (c, len(m), m)]}
    if kind == "close":
        return {"chunks": []}
    if kind == "rst":
        return {"chunks": [], "rst": True}
    if kind == "garbage":
        return {"chunks": [r.randbytes(r.randrange(1, 300))]}
    if kind == "bad_status_line":
        return {"chunks": [r.choice([b"HTTP/1.1 abc OK\r\n\r\n", b"HTTP/9.9 200\r\n\r\n", b"\r\n\r\n", b"HTTP/1.1 99999 x\r\n\r\n", b"X" * 70000])]}
    if kind == "partial_header":
        return {"chunks": [b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\nConte" % (len(body) + 10)]}
    if kind in ("short_length", "rst_body"):
        n = r.choice([0, len(body) // 2, max(0, len(body) - 1), min(len(body), 8192)])
        miss = max(1, len(body) - n)
        return {"chunks": [b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\nConnection: close\r\n\r\n" % (n + miss), *pieces(r, body[:n])], "rst": kind == "rst_body"}
    if kind in ("short_chunked", "bad_chunk"):
        full = respond(r, body or b"x", framing="chunked")
        if kind == "short_chunked":
            k = r.randrange(1, len(full["chunks"]))
            cut = full["chunks"][k] if k < len(full["chunks"]) - 1 else b""  # the body is complete at the last chunk
            return {"chunks": full["chunks"][:k] + [cut[: r.randrange(len(cut))] if cut else b""]}
        return {"chunks": full["chunks"][:1] + [b"zz\r\nabc\r\n0\r\n\r\n"]}
    if kind == "redirect_loop":
        return {"chunks": [b"HTTP/1.1 302 Found\r\nLocation: %s\r\nContent-Length: 0\r\nConnection: close\r\n\r\n" % path.encode()], "sticky": True}
    return {"chunks": [b"HTTP/1.1 301 Moved\r\nLocation: http://127.0.0.1:1/x\r\nContent-Length: 0\r\nConnection: close\r\n\r\n"]}


def rand_files(r, small=False):
    out = {}
    n = r.choice([1, 1, 2, 3, 6])
    for i in range(n):
        d = r.choice(["", "", "a/", "a/b/", "c d/"])
        size = r.choice([0, 1, 700, 5000, 8192, 20000] if small else [0, 1, 700, 8191, 8192, 8193, 40000, 150000])
        out[f"{d}f{i}{r.choice(['.bin', '.txt', '', ' é.json'])}"] = b"\x93" + r.randbytes(size)
    return out


KINDS = ["file", "file", "file", "zip", "tar", "tar.gz", "tar.bz2", "tar.xz"]


def pack(r, kind, files):
    if kind == "file":
        return next(iter(files.values()))
    b = io.BytesIO()
    if kind == "zip":
        with zipfile.ZipFile(b, "w", r.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED, zipfile.ZIP_BZIP2, zipfile.ZIP_LZMA])) as z:
            for k, v in files.items():
                z.writestr(k, v)
    else:
        with tarfile.open(fileobj=b, mode="w:" + kind.partition(".")[2], format=r.choice([tarfile.GNU_FORMAT, tarfile.PAX_FORMAT])) as t:
            for k, v in files.items():
                i = tarfile.TarInfo(k)
                i.size = len(v)
                t.addfile(i, io.BytesIO(v))
    return b.getvalue()


def tree(p: Path):
    if p.is_file():
        return p.read_bytes()
    return {str(f.relative_to(p)): f.read_bytes() for f in sorted(p.rglob("*")) if f.is_file()}


def expected(kind, files):
    if kind == "file":
        return next(iter(files.values()))
    if len(files) == 1 and "/" not in next(iter(files)):
        return next(iter(files.values()))
    return files


def brief(t):
    if isinstance(t, dict):
        return {k: len(v) for k, v in t.items()}
    return f"{len(t)} bytes {t[:8]!r}" if isinstance(t, bytes) else t


def outside(root: Path, cache: Path):
    out = {}
    for d, ds, fs in os.walk(root):
        if Path(d) == cache:
            ds[:] = []
            continue
        for f in fs:
            p = Path(d, f)
            out[str(p)] = (os.readlink(p) if p.is_symlink() else p.read_bytes(), p.lstat().st_mode)
        out[d] = sorted(x for x in ds if Path(d, x) != cache)
    return out


class C28(Check):
    id = "C28"
    level = "fault_enumeration"
    rule = (
        "downloads of files and archives from a local HTTP server with response faults (statuses, disconnects, short and malformed bodies, "
        "redirects), crashes before/in and failures of each file system call, forced and local-only calls, hostile names and archives; every "
        "served path is compared with the originals; non-trivial = at least one call judged"
    )
    required = ["calls", "served", "served_archives", "server_faults", "crash_points", "torn_writes", "failed_calls", "double_crashes", "local_only_refused", "cached_serves", "forced", "hostile_names", "hostile_archives", "corrupt_archives", "hub_calls", "delegated"]
    assumptions = ["a process crash loses nothing that the operating system has acknowledged", "one process downloads an asset at a time", "no asset starts with 512 zero bytes (an empty tar archive)"]
    case_timeout = 120

    def setup_worker(self):
        self.srv = Server(("127.0.0.1", 0), Handler)
        threading.Thread(target=self.srv.serve_forever, daemon=True).start()
        self.base = f"http://127.0.0.1:{self.srv.server_address[1]}"
        import fairseq2.recipe  # noqa: F401
        from fairseq2.assets.download_manager import DelegatingAssetDownloadManager  # noqa: F401

    def gen(self, rng, tier):
        n = 40 if tier == "quick" else 400
        for i in range(n):
            yield {"mode": ["faults", "crash", "hostile", "faults", "crash", "hub"][i % 6], "s": rng.randrange(1 << 40), "max_points": 26 if tier == "quick" else 120}

    # --
    def manager(self, cache: Path):
        from fairseq2.assets.download_manager import DelegatingAssetDownloadManager, HuggingFaceHub, LocalAssetDownloadManager, StandardAssetDownloadManager
        from fairseq2.file_system import GlobalFileSystem, LocalFileSystem
        from fairseq2.utils.progress import NOOP_PROGRESS_REPORTER

        fs = LocalFileSystem() if self.local_fs else GlobalFileSystem()
        return DelegatingAssetDownloadManager([StandardAssetDownloadManager(cache, fs, NOOP_PROGRESS_REPORTER, NOOP_PROGRESS_REPORTER), HuggingFaceHub(fs), LocalAssetDownloadManager()])

    def call(self, cache, url, r, **kw):
        """Returns (content | None, path | error, hits)."""
        from fairseq2.assets.download_manager import AssetDownloadError
        from fairseq2.utils.uri import Uri

        m = self.manager(cache)
        fn = getattr(m, r.choice(["download_model", "download_tokenizer", "download_dataset"]))
        h = len(HITS)
        try:
            p = fn(Uri.parse(url), **kw)
        except AssetDownloadError as ex:
            return None, f"{ex} {ex.__cause__!r}", len(HITS) - h
        return tree(p), p, len(HITS) - h

    def contained(self, obs, root, cache, before, url, p=None):
        from hashlib import sha1

        now = outside(root, cache)
        if now != before:
            obs.violate("write-outside-cache", f"{url}: {[k for k in set(now) | set(before) if now.get(k) != before.get(k)]}")
            return False
        h = sha1(url.encode()).hexdigest()[:24]
        names = [n for n in (os.listdir(cache) if cache.exists() else [])]
        ok = obs.check(all(n.startswith(h) for n in names), "foreign-cache-entry", lambda: f"{url}: {names}")
        if p is not None:
            rp = Path(p).resolve()
            ok &= obs.check(rp.is_relative_to(cache.resolve()), "served-from-outside", lambda: f"{url}: {p} -> {rp}")
            for f in rp.rglob("*") if rp.is_dir() else []:
                ok &= obs.check(f.resolve().is_relative_to(cache.resolve()), "link-to-outside", lambda: f"{f} -> {f.resolve()}")
        return ok

    def run(self, case, obs):
        r = random.Random(case["s"])
        root = scratch("c28")
        self.local_fs = r.random() < 0.5
        PLAN.clear()
        try:
            cache = root / "w" / "x" / "y" / "z" / "cache"
            cache.parent.mkdir(parents=True)
            (root / "w" / "keep").write_bytes(b"keep")
            getattr(self, case["mode"])(case, obs, r, root, cache)
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def asset(self, r, small=False):
        kind = r.choice(KINDS)
        files = rand_files(r, small)
        if kind == "file":
            files = dict([next(iter(files.items()))])
        name = f"n{r.randrange(1000)}{r.choice(['', ' x', '%', 'é'])}." + ("bin" if kind == "file" else kind)
        return kind, files, name, pack(r, kind, files)

    def faults(self, case, obs, r, root, cache):
        kind, _, name, _ = self.asset(r)
        path = "/d/" + quote(name) + r.choice(["", "", "?sig=a/b.c&x=1"])
        url = self.base + path
        before = outside(root, cache)
        version, cached, stuck, log = 0, None, False, []
        exp, body = {}, {}

        def publish():
            nonlocal version
            version += 1
            f = rand_files(r)
            if kind == "file":
                f = dict([next(iter(f.items()))])
            exp[version], body[version] = expected(kind, f), pack(r, kind, f)

        publish()
        for _ in range(r.randrange(4, 12)):
            if r.random() < 0.3:
                publish()
            kw = r.choice([{}, {}, {}, {"force": True}, {"local_only": True}, {"local_only": True, "force": True}])
            bad = None
            if r.random() < 0.5:
                bad = r.choice(FAULTS)
                PLAN[path] = [fault(r, bad, body[version], path)]
            else:
                rs = [respond(r, body[version])]
                if r.random() < 0.2:
                    code = r.choice([301, 302, 303, 307])
                    PLAN[path] = [{"chunks": [b"HTTP/1.1 %d Moved\r\nLocation: /cdn%s\r\nContent-Length: 0\r\nConnection: close\r\n\r\n" % (code, path.encode())]}]
                    PLAN["/cdn" + path] = rs
                else:
                    PLAN[path] = rs
            t, p, hits = self.call(cache, url, r, **kw)
            obs.count("calls")
            log.append((kw, bad, version, brief(t) if t is not None else p))
            where = lambda: f"{kind} {log}"  # noqa: E731
            if kw.get("local_only"):
                obs.check(hits == 0, "network-access", where)
                obs.check((t is not None) == (cached is not None), "cached-not-served" if cached else "uncached-served", where)
                if t is None:
                    obs.count("local_only_refused")
                else:
                    obs.check(t == exp[cached], "wrong-content", where)
                    obs.count("cached_serves")
            elif cached is not None and not kw.get("force"):
                obs.check(hits == 0, "network-access", where)
                obs.check(t == exp[cached], "cached-not-served" if t is None else "wrong-content", where)
                obs.count("cached_serves")
            else:
                if kw.get("force"):
                    obs.count("forced")
                    cached = None
                if bad:
                    obs.count("server_faults")
                    obs.check(t is None, "faulty-response-served", where)
                else:
                    if not obs.check(t is not None, "download-failed", where):
                        return
                    obs.check(t == exp[version], "wrong-content", where)
                    if kind == "file":
                        obs.check(p.name == name, "wrong-name", where)
                    cached = version
                    obs.count("served")
                    if kind != "file":
                        obs.count("served_archives")
            obs.state(kind, bad, tuple(kw), t is None)
            self.contained(obs, root, cache, before, url, p if t is not None else None)
            if t is None and not isinstance(p, str):
                return
        obs.sample = {"log": str(log)[:400]}

    def crash(self, case, obs, r, root, cache):
        kind, files, name, b1 = self.asset(r, small=True)
        path = "/c/" + quote(name)
        url = self.base + path
        v1 = expected(kind, files)
        f0 = rand_files(r, small=True)
        if kind == "file":
            f0 = dict([next(iter(f0.items()))])
        v0 = expected(kind, f0)
        prior = r.random() < 0.5
        force = prior or r.random() < 0.3
        if prior:
            PLAN[path] = [respond(r, pack(r, kind, f0))]
            t, p, _ = self.call(cache, url, r)
            if not obs.check(t == v0, "wrong-content", lambda: f"{kind}: {brief(t)} {p}"):
                return
        else:
            cache.mkdir()
        start = root / "start"
        shutil.copytree(cache, start)
        before = outside(root, cache)
        allowed = [v1] + ([v0] if prior else [])
        framing = r.choice(["length", "chunked", "close"])
        PLAN[path] = [respond(r, b1, framing=framing)]

        def attempt(mode, k, err=5, force=force):
            def child():
                fsfault.arm(cache, mode, k, err)
                try:
                    t, p, _ = self.call(cache, url, random.Random(1), **({"force": True} if force else {}))
                finally:
                    ops = fsfault.off()
                return json.dumps([ops, t in allowed if t is not None else None, str(p)]).encode()

            return fsfault.in_child(child, timeout=40)

        def reset():
            shutil.rmtree(cache)
            shutil.copytree(start, cache)

        code, out = attempt(fsfault.COUNT, 0)
        if not obs.check(code == 0, "unexpected-error", lambda: f"{code} {out}"):
            return
        ops, good, msg = json.loads(out)
        if not obs.check(good, "wrong-content", lambda: f"{kind} {msg}"):
            return
        obs.sample = {"ops": ops}
        n = len(ops)
        points = [(fsfault.DIE_BEFORE, k) for k in range(n)] + [(fsfault.DIE_AFTER, k) for k in range(n) if ops[k] == "w"] + [(fsfault.FAIL, k) for k in range(n)]
        must = [x for x in points if ops[x[1]] in "rdum" and x[0] != fsfault.FAIL]
        rest = [x for x in points if x not in must]
        r.shuffle(rest)
        r.shuffle(must)
        for mode, k in (must[: case["max_points"] // 2] + rest)[: case["max_points"]]:
            reset()
            code, out = attempt(mode, k, r.choice([5, 28]))
            where = f"{kind}, {'cached' if prior else 'not cached'}, force={force}: { {2: 'crash before', 3: 'crash in', 4: 'failing'}[mode]} call {k} of {ops}"
            if not obs.check(code in (0, 77), "hang" if code is None else "unexpected-error", lambda: f"{where}: {code} {out.decode()}"):
                return
            obs.count("failed_calls" if mode == fsfault.FAIL else "torn_writes" if mode == fsfault.DIE_AFTER else "crash_points")
            if code == 0:
                g = json.loads(out)
                if not obs.check(g[1] is not False, "partial-served", lambda: f"{where}: {g[2]}"):
                    return
            if r.random() < 0.35:
                k2 = r.randrange(n)
                m2 = r.choice([fsfault.DIE_BEFORE, fsfault.DIE_AFTER, fsfault.FAIL])
                f2 = r.random() < 0.4
                code, out = attempt(m2, k2, 5, force=f2)
                where += f", then again with {m2} at call {k2} (force={f2}): {code}"
                obs.count("double_crashes")
                if not obs.check(code in (0, 77), "unexpected-error", lambda: f"{where} {out.decode()}"):
                    return
                if code == 0:
                    g = json.loads(out)
                    if not obs.check(g[1] is not False, "partial-served", lambda: f"{where}: {g[2]}"):
                        return
            obs.state(mode, ops[k], code, kind)
            if r.random() < 0.7:
                t, p, hits = self.call(cache, url, r, local_only=True)
                obs.check(hits == 0, "network-access", where)
                if t is None:
                    obs.count("local_only_refused")
                if not obs.check(t is None or t in allowed, "partial-served", lambda: f"{where}; local_only gave {brief(t)} instead of {brief(v1)}"):
                    return
                if not self.contained(obs, root, cache, before, url, p if t is not None else None):
                    return
            f3 = r.random() < 0.4
            t, p, hits = self.call(cache, url, r, **({"force": True} if f3 else {}))
            obs.count("calls")
            if not obs.check(t is not None, "retry-failed", lambda: f"{where}; retry (force={f3}): {p}"):
                return
            if not obs.check(t == v1 if f3 else t in allowed, "partial-served", lambda: f"{where}; retry (force={f3}) gave {brief(t)} instead of {brief(v1)}"):
                return
            obs.count("served")
            for kw in ({"local_only": True}, {}):
                t2, p2, hits = self.call(cache, url, r, **kw)
                obs.check(hits == 0, "network-access", where)
                if not obs.check(t2 == t, "cache-changed", lambda: f"{where}; {kw} gave {brief(t2) if t2 is not None else p2}"):
                    return
            if not self.contained(obs, root, cache, before, url, p):
                return

    def hostile(self, case, obs, r, root, cache):
        before = outside(root, cache)
        for _ in range(12):
            shutil.rmtree(cache, ignore_errors=True)
            sub = r.choice(["name", "disposition", "archive", "corrupt"])
            extra, name, kind = [], "ok.bin", "file"
            files = rand_files(r, small=True)
            if sub == "archive":
                kind, b = self.evil_archive(r, root)
                name = f"e.{kind}"
                exp = None
                obs.count("hostile_archives")
            elif sub == "corrupt":
                kind = r.choice(KINDS[3:])
                a = bytearray(pack(r, kind, files))
                for _ in range(r.choice([1, 1, 3, 20])):
                    how = r.random()
                    if how < 0.6:
                        a[r.randrange(len(a))] = r.randrange(256)
                    elif how < 0.8:
                        del a[r.randrange(len(a)):]
                        a += b"x"
                    else:
                        i = r.randrange(len(a))
                        a[i:i + r.randrange(64)] = r.randbytes(r.randrange(64))
                        a += b"x"
                b, name, exp = bytes(a), f"e.{kind}", None
                obs.count("corrupt_archives")
            else:
                kind, files, name, b = self.asset(r, small=True)
                exp = expected(kind, files)
                if sub == "name":
                    name = r.choice(["", "x/", "%2F", "..%2F..%2F..%2Fevil.bin", "%2E%2E", ".", "%2e", "a%00b.bin", "a%2Fb%2Fc.bin", "..%5C..%5Cevil.bin", "%2Fetc%2Fc28-evil", "x" * 200 + ".bin", "%ff%fe.bin", ".hidden", "a%0Ab", "%20", "q;p=1", quote(str(root / "w" / "keep"), safe="")])
                else:
                    v = r.choice(['attachment; filename="../../../evil.bin"', "attachment; filename=../evil.bin", f'attachment; filename="{root}/w/keep"', 'inline; filename=".."', 'filename="."', 'attachment; filename=""', 'attachment; filename="a/b/c.bin"', 'attachment; filename="a\\..\\..\\b.bin"', "attachment", 'attachment; filename="x\x00y"',
                                  'attachment; filename="plain.bin"', "attachment; filename=plain.bin; size=3", "attachment; filename=\"pl;ain.bin\"; filename*=UTF-8''x", "attachment; filename=plain.bin; filename*=UTF-8''plain.bin", "ATTACHMENT; FILENAME=plain.bin", "attachment; filename=\" \""])
                    ext = "bin" if kind == "file" else kind
                    v = v.replace(".bin", "." + ext)
                    extra = [b"Content-Disposition: " + v.encode()]
                    name = "ok." + ext
                obs.count("hostile_names")
            path = "/h/" + (quote(name) if sub in ("archive", "corrupt", "disposition") else name)
            url = self.base + path
            from fairseq2.utils.uri import Uri

            url = str(Uri.parse(url))
            PLAN[path] = [respond(r, b, extra, framing=r.choice(["length", "close"]))]
            t, p, _ = self.call(cache, url, r)
            obs.count("calls")
            what = f"{sub} {kind} {path[:80]} {extra}"
            if not self.contained(obs, root, cache, before, url, p if t is not None else None):
                return
            obs.state(sub, kind, t is None)
            if exp is not None and t is not None:
                zipped_as_file = kind == "zip" and t == b  # extracted only if its name says so
                if not obs.check(t == exp or zipped_as_file, "wrong-content", lambda: f"{what}: {brief(t)} instead of {brief(exp)}"):
                    return
                obs.count("served")
            if exp is not None and sub == "disposition" and "plain" in str(extra):
                if not obs.check(t == exp, "wrong-content", lambda: f"{what}: {brief(t) if t is not None else p} instead of {brief(exp)}"):
                    return
                if kind == "file":
                    obs.check(p.name in ("plain.bin", "ok.bin"), "wrong-name", lambda: f"{what}: {p.name}")
            t2, p2, hits = self.call(cache, url, r, local_only=True)
            if not obs.check((t2 == t) if t is not None else (t2 is None), "cache-changed" if t is not None else "partial-served", lambda: f"{what}: {p} then {p2} {brief(t2) if t2 is not None else ''}"):
                return

    def evil_archive(self, r, root):
        kind = r.choice(["zip", "tar", "tar.gz"])
        out = io.BytesIO()
        target = str(root / "w" / "evil")
        if kind == "zip":
            with zipfile.ZipFile(out, "w") as z:
                z.writestr("good.txt", b"good")
                for n in r.sample(["../../evil.txt", target, "a/../../../evil2", "/w/evil3", "..\\..\\evil4"], 2):
                    z.writestr(n, b"evil")
            return kind, out.getvalue()
        with tarfile.open(fileobj=out, mode="w:" + kind.partition(".")[2]) as t:
            def add(name, type_=tarfile.REGTYPE, link="", data=b"evil", mode=0o644):
                i = tarfile.TarInfo(name)
                i.type, i.linkname, i.mode = type_, link, mode
                i.size = len(data) if type_ == tarfile.REGTYPE else 0
                t.addfile(i, io.BytesIO(data) if i.size else None)

            add("good.txt", data=b"good")
            for e in r.sample(range(7), 2):
                if e == 0:
                    add("../../evil.txt")
                elif e == 1:
                    add(target)
                elif e == 2:
                    add("ln", tarfile.SYMTYPE, str(root / "w"))
                    add("ln/evil.txt")
                elif e == 3:
                    add("ln2", tarfile.SYMTYPE, "../../keep")
                elif e == 4:
                    add("hard", tarfile.LNKTYPE, str(root / "w" / "keep"))
                    add("hard", data=b"overwritten")
                elif e == 5:
                    add("fifo", tarfile.FIFOTYPE)
                else:
                    add("up", tarfile.SYMTYPE, "..")
                    add("up/../../../evil.txt")
        return kind, out.getvalue()

    def hub(self, case, obs, r, root, cache):
        """The Hugging Face Hub manager on a prepared cache, and the dispatch by scheme."""
        from fairseq2.assets import download_manager as dm
        from fairseq2.assets.download_manager import AssetDownloadError, AssetDownloadManager, DelegatingAssetDownloadManager
        from fairseq2.error import NotSupportedError
        from fairseq2.utils.uri import Uri
        from huggingface_hub import constants

        hub = Path(constants.HF_HUB_CACHE)
        assert str(hub).startswith(os.environ["HF_HOME"]), hub
        org, repo = f"o{r.randrange(1000)}", f"r{r.randrange(1000)}"
        m = self.manager(cache)
        uri = Uri.parse(f"hg://{org}/{repo}")
        d = hub / f"models--{org}--{repo}"
        try:
            for fn in (m.download_model, m.download_tokenizer, m.download_dataset):
                for kw in ({"local_only": True}, {}):
                    h = len(HITS)
                    obs.count("hub_calls")
                    try:
                        p = fn(uri, **kw)
                    except AssetDownloadError:
                        pass
                    else:
                        obs.violate("uncached-served", f"{uri} {kw}: {p}")
                    obs.check(len(HITS) == h, "network-access", "")
            sha = f"{r.getrandbits(160):040x}"
            s = d / "snapshots" / sha
            s.mkdir(parents=True)
            (d / "refs").mkdir()
            (d / "refs" / "main").write_text(sha)
            data = r.randbytes(100)
            (s / "model.safetensors").write_bytes(data)
            (s / "tokenizer.json").write_bytes(b"{}")
            for fn in (m.download_model, m.download_tokenizer):
                p = fn(uri, local_only=True)
                obs.count("hub_calls")
                obs.check(p == s and (p / "model.safetensors").read_bytes() == data, "wrong-content", lambda: f"{p}")
        finally:
            shutil.rmtree(d, ignore_errors=True)

        calls = []

        def stub(schemes):
            class Stub(AssetDownloadManager):
                def _rec(self, what, uri, force, local_only):
                    calls.append((what, schemes, str(uri), force, local_only))
                    return Path("/" + what)

                def download_model(self, uri, model_name="", *, force=False, local_only=False, progress=True):
                    return self._rec("model", uri, force, local_only)

                def download_tokenizer(self, uri, tokenizer_name="", *, force=False, local_only=False, progress=True):
                    return self._rec("tokenizer", uri, force, local_only)

                def download_dataset(self, uri, dataset_name="", *, force=False, local_only=False, progress=True):
                    return self._rec("dataset", uri, force, local_only)

                @property
                def supported_schemes(self):
                    return set(schemes)

            return Stub()

        groups = [("aa", "bb"), ("cc",), ("dd", "ee", "ff")]
        dele = DelegatingAssetDownloadManager([stub(g) for g in groups])
        obs.check(dele.supported_schemes == {x for g in groups for x in g}, "wrong-schemes", lambda: f"{dele.supported_schemes}")
        for _ in range(20):
            sc, what = r.choice(["aa", "bb", "cc", "dd", "ee", "ff", "zz"]), r.choice(["model", "tokenizer", "dataset"])
            force, lo = r.random() < 0.5, r.random() < 0.5
            calls.clear()
            u = f"{sc}://h/x"
            obs.count("delegated")
            try:
                p = getattr(dele, "download_" + what)(Uri.parse(u), force=force, local_only=lo)
            except NotSupportedError:
                obs.check(sc == "zz" and not calls, "wrong-dispatch", u)
                continue
            g = next((g for g in groups if sc in g), None)
            obs.check(calls == [(what, g, u, force, lo)] and p == Path("/" + what), "wrong-dispatch", lambda: f"{u} {what} {force} {lo}: {calls}")
        try:
            DelegatingAssetDownloadManager([stub(("aa",)), stub(("bb", "aa"))])
            obs.violate("ambiguous-scheme-accepted", "")
        except ValueError:
            pass
        f = root / "w" / "a b"
        f.write_bytes(b"1")
        p = self.manager(cache).download_model(Uri.maybe_parse(f.as_uri()), force=r.random() < 0.5)
        obs.check(p == f, "wrong-content", lambda: f"{p} != {f}")


if __name__ == "__main__":
    if "VF_C28_HF" not in os.environ:
        os.environ["VF_C28_HF"] = "1"
        os.environ["HF_HOME"] = str(scratch("c28hf"))
        os.environ["HF_HUB_OFFLINE"] = "1"
        for k in ("HF_HUB_CACHE", "HUGGINGFACE_HUB_CACHE", "http_proxy", "https_proxy", "HTTP_PROXY", "ALL_PROXY", "all_proxy"):
            os.environ.pop(k, None)
    fsfault.require()
    import atexit

    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(os.environ["HF_HOME"], ignore_errors=True))
    main(C28())
