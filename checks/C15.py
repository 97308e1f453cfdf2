"""C15: text files and strings are read back byte for byte."""
import os
import pickle
import random
import shutil
import sys
import threading

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from vlib import Check, main, scratch

WS = b" \t\n\v\f\r"
ALPHA = ["a", "Z", "0", " ", "\t", "\v", "\f", "é", "ß", "漢", "😀", "\u0301", "\x00", "\x1f", "\x85", "\xa0", "\u2028", "\ufeff", "\\", '"', ",", ":"]
BLOCKS = [None, None, 1024, 1025, 1031, 1500, 2048, 4096]


def make_text(rng: random.Random, kind: str) -> bytes:
    """Random text; newlines end up at and around block boundaries."""
    ends = {"lf": [b"\n"], "crlf": [b"\r\n"], "mix": [b"\n", b"\r\n", b"\r\r\n", b"\n\r\n"]}[kind]
    out = bytearray()
    n = rng.choice([0, 1, 2, 5, 20, 60])
    aim = rng.choice([1024, 1025, 1031, 1500, 2048])
    for _ in range(n):
        t = rng.random()
        if t < 0.2:
            body = b""
        elif t < 0.3:
            body = bytes(rng.choice(b" \t\v\f") for _ in range(rng.randrange(1, 4)))
        elif t < 0.55:
            # So that the line ending falls on a boundary, or splits there.
            gap = -len(out) % aim + aim * rng.choice([0, 0, 1, 2]) + rng.choice([-2, -1, -1, 0, 1, 2])
            body = filler(rng, max(0, gap))
        elif t < 0.6:
            body = filler(rng, rng.choice([1023, 1024, 5000, 9000]))
        else:
            body = "".join(rng.choice(ALPHA) for _ in range(rng.randrange(0, 40))).encode()
        if rng.random() < 0.15:
            body = b" " * rng.randrange(3) + body + b"\t" * rng.randrange(3)
        if kind != "mix" or rng.random() < 0.7:
            body = body.rstrip(b"\r") if kind == "lf" else body
        if rng.random() < 0.05:
            body += b"\r"
        out += body + rng.choice(ends)
    return bytes(out)


def filler(rng, n) -> bytes:
    s = bytearray()
    while len(s) < n:
        c = rng.choice(ALPHA).encode() if rng.random() < 0.3 else b"x" * rng.randrange(1, 200)
        if len(s) + len(c) > n:
            c = b"y" * (n - len(s))
        s += c
    return bytes(s)


def reference(text: bytes, opts: dict):
    """(lines, the file ends within a line)"""
    ending = opts["line_ending"]
    if ending == "INFER":
        i = text.find(b"\n")
        ending = "CRLF" if i > 0 and text[i - 1 : i] == b"\r" else "LF"
    sep = b"\n" if ending == "LF" else b"\r\n"
    parts = text.split(sep)
    partial = parts.pop()
    out = []
    for p in parts:
        if opts["skip_empty"] and not p:
            continue
        p += sep
        if opts["ltrim"]:
            p = p.lstrip(WS)
        if opts["rtrim"]:
            p = p.rstrip(WS)
        out.append(p)
    return out, bool(partial)


class C15(Check):
    id = "C15"
    native = True
    workers = 8
    rule = (
        "random text files (line endings mixed and split at block boundaries, multi-byte characters, blank, "
        "empty and huge lines, files cut off or with invalid UTF-8) read with random options, over several epochs, "
        "and from saved states in fresh and used pipelines; file mapper slices; string splitting and parsing against "
        "reference definitions, also from several threads; non-trivial = at least one line, slice or string compared"
    )
    required = ["lines", "epochs", "restores_fresh", "restores_used", "boundary_endings", "partial_reported", "bad_utf8_reported", "missing_reported", "splits", "ints", "ints_refused", "tensors", "tensors_refused", "slices", "threads", "memory_mapped", "resets_midway"]
    assumptions = ["files end with the line ending (a file that does not is reported as an error by design)"]

    def gen(self, rng, tier):
        n = 4000 if tier == "quick" else 30000
        yield {"kind": "encoding"}
        for _ in range(n):
            k = rng.choices(["read", "cut", "utf8", "split", "int", "tensor", "slice", "miss"], [10, 2, 2, 3, 3, 3, 2, 0.3])[0]
            yield {"kind": k, "s": rng.randrange(1 << 40)}

    def run(self, case, obs):
        d = scratch("c15")
        try:
            getattr(self, "run_" + case["kind"])(random.Random(case.get("s", 0)), d, obs)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    # ------------------------------------------------------------ text files

    def options(self, rng):
        return {
            "line_ending": rng.choice(["INFER", "INFER", "LF", "CRLF"]),
            "ltrim": rng.random() < 0.3,
            "rtrim": rng.random() < 0.3,
            "skip_empty": rng.random() < 0.3,
            "memory_map": rng.random() < 0.3,
            "block_size": rng.choice(BLOCKS),
            "key": rng.choice([None, None, "text", "é"]),
        }

    def open(self, path, o):
        from fairseq2.data.text import LineEnding, read_text

        o = dict(o, line_ending=getattr(LineEnding, o["line_ending"]))
        return read_text(path, **o).and_return()

    def same(self, obs, got, want, o, mech, what):
        if o["key"] is not None:
            obs.check(all(isinstance(g, dict) and list(g) == [o["key"]] for g in got), mech, lambda: f"{what}: examples are {got[:3]!r}, not dictionaries with the key {o['key']!r}")
            got = [g[o["key"]] for g in got]
        obs.check(all(isinstance(g, str) for g in got), mech, lambda: f"{what}: examples are not strings: {got[:3]!r}")
        got = [str(g).encode() for g in got]
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        obs.check(got == want, mech, lambda: f"{what} with {o}: {len(got)} lines instead of {len(want)}; line {i}: {got[i : i + 1]!r:.200} instead of {want[i : i + 1]!r:.200} (lengths {[len(x) for x in got[i : i + 2]]}, {[len(x) for x in want[i : i + 2]]})")
        obs.count("lines", len(want))

    def run_read(self, rng, d, obs):
        o = self.options(rng)
        while True:
            text = make_text(rng, rng.choice(["lf", "crlf", "mix"]))
            want, partial = reference(text, o)
            if not partial:
                break
        f = d / rng.choice(["t.txt", "é t.txt"])
        f.write_bytes(text)
        bs = o["block_size"]
        if bs and not o["memory_map"] and any(text[i - 1 : i + 1] in (b"\r\n",) or text[i - 1 : i] == b"\n" for i in range(bs, len(text), bs)):
            obs.count("boundary_endings")
        if o["memory_map"]:
            obs.count("memory_mapped")
        obs.state("options", o["line_ending"], o["ltrim"], o["rtrim"], o["skip_empty"], o["memory_map"], bs)
        p = self.open(f, o)
        for e in range(2):
            self.same(obs, list(p), want, o, "lines", f"epoch {e}")
            obs.check(list(p) == [] if rng.random() < 0.2 else True, "lines-after-end", "lines after the end")
            p.reset()
            obs.count("epochs")
        n = len(want)
        k = rng.randrange(n + 1)
        it = iter(p)
        for _ in range(k):
            next(it)
        p.reset()
        self.same(obs, list(p), want, o, "reset", f"after a reset at line {k}")
        obs.count("resets_midway")
        ks = {0, n, n + 1, max(0, n - 1)} | {rng.randrange(n + 1) for _ in range(3)}
        for k in sorted(ks):
            p = self.open(f, o)
            it = iter(p)
            if rng.random() < 0.2:
                list(p)
                p.reset()
                it = iter(p)
            head = [x for _, x in zip(range(k), it)]
            if k > n:
                next(it, None)
            state = pickle.loads(pickle.dumps(p.state_dict()))
            self.same(obs, head, want[:k], o, "lines", f"first {k} lines")
            for used in (False, True):
                q = self.open(f, o)
                if used:
                    m = rng.choice([0, 1, n // 2, n, n + 1])
                    it2 = iter(q)
                    for _ in range(m):
                        next(it2, None)
                q.load_state_dict(state)
                if rng.random() < 0.3:
                    q2 = self.open(f, o)
                    q2.load_state_dict(q.state_dict())
                    q = q2
                self.same(obs, list(q), want[k:], o, "restore", f"restored {'in a used pipeline ' if used else ''}after {k} of {n} lines")
                obs.count("restores_used" if used else "restores_fresh")
                q.reset()
                self.same(obs, list(q), want, o, "restore-epoch", f"the epoch after a restore at line {k}")
            self.same(obs, list(p), want[k:], o, "save-disturbs", f"after saving at line {k}")

    def run_cut(self, rng, d, obs):
        """A file that ends within a line: every line before it, then an error."""
        from fairseq2.data.data_pipeline import DataPipelineError

        o = self.options(rng)
        text = make_text(rng, rng.choice(["lf", "crlf", "mix"]))
        text += filler(rng, rng.choice([1, 5, 1023, 1024, 3000]))
        if rng.random() < 0.3:
            text += b"\r"
        want, partial = reference(text, o)
        assert partial
        f = d / "t.txt"
        f.write_bytes(text)
        p = self.open(f, o)
        got = []
        err = None
        try:
            for x in p:
                got.append(x)
        except DataPipelineError as ex:
            err = ex
        self.same(obs, got, want, o, "lines-before-cut", "before the incomplete line")
        obs.check(err is not None, "partial-line-dropped", f"a file ending with an incomplete line ({text[-20:]!r}) was read without an error with {o}")
        obs.check(str(f) in str(err), "error-without-path", f"the error does not name the file: {err}")
        obs.count("partial_reported")

    def run_utf8(self, rng, d, obs):
        from fairseq2.data.data_pipeline import DataPipelineError

        o = self.options(rng)
        o.update(line_ending="LF", ltrim=False, rtrim=False, skip_empty=False)
        lines = [make_text(rng, "lf").split(b"\n")[0] + b"\n" for _ in range(rng.choice([1, 3, 10]))]
        bad = rng.randrange(len(lines))
        junk = rng.choice([b"\xff", b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\xc0\x80", b"\xf5\x80\x80\x80", b"\x80"])
        i = rng.randrange(len(lines[bad]))
        while (lines[bad][i] & 0xC0) == 0x80:
            i -= 1
        lines[bad] = lines[bad][:i] + junk + lines[bad][i:]
        try:
            lines[bad].decode()
            return  # the junk completed something valid
        except UnicodeDecodeError:
            pass
        f = d / "t.txt"
        f.write_bytes(b"".join(lines))
        p = self.open(f, o)
        it = iter(p)
        self.same(obs, [next(it) for _ in range(bad)], lines[:bad], o, "lines-before-bad", "before the malformed line")
        try:
            x = next(it)
        except (UnicodeDecodeError, DataPipelineError):
            obs.count("bad_utf8_reported")
        else:
            obs.violate("malformed-text-accepted", f"{lines[bad][:80]!r} was read as {x!r}")
        try:
            rest = list(it)
        except Exception:
            obs.count("broken_after_bad_utf8")
        else:
            self.same(obs, rest, lines[bad + 1 :], o, "lines-after-bad", "after the malformed line")

    def run_miss(self, rng, d, obs):
        from fairseq2.data.data_pipeline import DataPipelineError

        o = self.options(rng)
        for f in (d / "nope", d, d / "t" / "u"):
            try:
                x = list(self.open(f, o))
            except DataPipelineError as ex:
                obs.check(str(f) in str(ex), "error-without-path", f"{ex}")
                obs.count("missing_reported")
            else:
                obs.violate("missing-file-read", f"reading {f} gave {x}")

    def run_encoding(self, rng, d, obs):
        """Text in another encoding is decoded, or refused, but not altered."""
        from fairseq2.data.text import read_text

        f = d / "t.txt"
        for enc, text in [("utf-8", "aé\n漢\n"), ("latin-1", "Ã©\n"), ("utf-16-be", "ab\ncd\n"), ("utf-16-le", "ab\ncd\n")]:
            f.write_bytes(text.encode(enc))
            try:
                got = list(read_text(f, encoding=enc).and_return())
            except Exception:
                obs.count("encodings_refused")
                continue
            obs.check("".join(got) == text, "text-encoding-" + enc, f"{text!r} in {enc} was read as {got!r}")

    # ------------------------------------------------------------ file mapper

    def run_slice(self, rng, d, obs):
        from fairseq2.data.data_pipeline import FileMapper, read_sequence

        files = {}
        for i in range(rng.choice([1, 3, 5])):
            name = f"f{i}" + rng.choice(["", ".bin", " é"])
            data = rng.randbytes(rng.choice([0, 1, 100, 4095, 4096, 10000]))
            (d / name).write_bytes(data)
            files[name] = data
        rooted = rng.random() < 0.7
        m = FileMapper(d if rooted else None, cached_fd_count=rng.choice([None, 1, 2, 100]))
        jobs = []
        for _ in range(20):
            name, data = rng.choice(list(files.items()))
            path = name if rooted and rng.random() < 0.8 else str(d / name)
            n = len(data)
            t = rng.random()
            if t < 0.3:
                q, w = path, data
            elif t < 0.5:
                a = rng.randrange(n + 1)
                q, w = f"{path}:{a}", data[a:]
            else:
                a = rng.randrange(n + 1)
                c = rng.randrange(n - a + 1)
                q, w = f"{path}:{a}:{c}", data[a : a + c]
            if rng.random() < 0.1:
                q = " " + q + " "
            jobs.append((q, w, path))
        out = list(read_sequence([q for q, _, _ in jobs]).map(m, num_parallel_calls=rng.choice([1, 1, 4])).and_return())
        for (q, w, path), r in zip(jobs, out):
            obs.check(bytes(r["data"]) == w, "file-slice", lambda: f"{q!r}: {len(bytes(r['data']))} bytes that differ from the {len(w)} wanted")
            obs.check(r["path"] == q, "file-path", lambda: f"{q!r} reported as {r['path']!r}")
            obs.count("slices")
        for q in ("", ":", "f0:", "f0::1", "f0:x", "f0:1:y", "f0:1:2:3", "f0:-1", "f0:99999999999999999999", "f0:1000000", "f0:0:1000000", "missing"):
            try:
                r = m(q if q in ("", ":") else q.replace("f0", next(iter(files))))
            except Exception as ex:
                obs.count("slices_refused")
                if isinstance(ex, (MemoryError, SystemError)):
                    obs.violate("file-slice-error", f"{q!r} raised {ex!r}")
            else:
                obs.violate("file-slice-accepted", f"{q!r} gave {len(bytes(r['data']))} bytes")

    # ------------------------------------------------------------ strings

    def text(self, rng, n=None):
        return "".join(rng.choice(ALPHA + ["\n", "\r"]) for _ in range(rng.randrange(0, 12) if n is None else n))

    def call(self, conv, s, rng, obs):
        """Calls `conv` directly or as a pipeline function."""
        from fairseq2.data.data_pipeline import read_sequence

        t = rng.random()
        if t < 0.4:
            return conv(s)
        if t < 0.7:
            (r,) = read_sequence([s]).map(conv).and_return()
            return r
        if t < 0.9:
            rs = list(read_sequence([s] * 5).map(conv, num_parallel_calls=4).and_return())
        else:
            rs, es = [], []

            def f():
                try:
                    rs.append(conv(s))
                except Exception as ex:
                    es.append(ex)

            ts = [threading.Thread(target=f) for _ in range(4)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            if es:
                raise es[0]
        obs.count("threads")
        obs.check(all(repr(r) == repr(rs[0]) for r in rs), "unstable", lambda: f"different results for {s!r}: {rs}")
        return rs[0]

    def judge(self, obs, conv, s, rng, want, mech, what):
        """`want` is None if the input has to be refused."""
        from fairseq2.data.data_pipeline import DataPipelineError

        try:
            got = self.call(conv, s, rng, obs)
        except (ValueError, RuntimeError, DataPipelineError) as ex:
            obs.check(want is None, mech + "-refused", lambda: f"{what} of {s!r} raised {ex!r} instead of giving {want!r}")
            return None
        obs.check(want is not None, mech + "-accepted", lambda: f"{what} of {s!r} gave {got!r}")
        return got

    def run_split(self, rng, d, obs):
        from fairseq2.data.text import StrSplitter

        sep = rng.choice(["\t", ",", ":", "a", " ", "\n", "\x00", "0"])
        fields = [self.text(rng, rng.randrange(5)).replace(sep, "") for _ in range(rng.randrange(1, 8))]
        s = sep.join(fields)
        n = len(fields)
        t = rng.random()
        kw = {}
        if sep != "\t" or rng.random() < 0.5:
            kw["sep"] = sep
        idx = None
        if t < 0.3:
            keep = fields
        else:
            exclude = rng.random() < 0.4
            if rng.random() < 0.3:
                idx = rng.randrange(n + 1)
                ids = [idx]
            else:
                ids = rng.sample(range(n + 1), rng.randrange(1, n + 1)) if rng.random() < 0.2 else rng.sample(range(n), rng.randrange(1, n + 1))
                idx = list(ids)
                if rng.random() < 0.5:
                    idx.sort()
                    ids = list(idx)
            kw["indices"] = idx
            if exclude:
                kw["exclude"] = True
            if max(ids) >= n:
                keep = None
            elif exclude:
                keep = [f for i, f in enumerate(fields) if i not in ids]
            else:
                # Without names, in the order of the columns.
                keep = [fields[i] for i in sorted(ids)]
        want = keep
        names = None
        if rng.random() < 0.5:
            m = len(keep) if keep is not None else rng.randrange(1, 4)
            wrong = rng.random() < 0.15
            names = [f"n{i}" for i in range(m + (1 if wrong else 0))]
            rng.shuffle(names)
            if not names:
                names = None
            else:
                kw["names"] = names
                if wrong:
                    want = None
                elif keep is not None:
                    if idx is not None and not kw.get("exclude"):
                        want = {k: fields[i] for k, i in zip(names, ids)}
                    else:
                        want = dict(zip(names, keep))
        if names is None and isinstance(idx, int) and not kw.get("exclude") and keep is not None:
            want = keep[0]
        try:
            conv = StrSplitter(**kw)
        except ValueError as ex:
            obs.check(want is None, "split-refused", f"{kw} was refused: {ex}")
            obs.count("splits_refused")
            return
        got = self.judge(obs, conv, s, rng, want, "split", f"{kw}")
        if want is not None:
            obs.check(got == want, "split", lambda: f"{kw} of {s!r} gave {got!r}, not {want!r}")
            obs.count("splits")

    def number(self, rng):
        t = rng.random()
        if t < 0.5:
            v = rng.randrange(-300, 300)
        elif t < 0.7:
            v = rng.choice([0, 127, 128, 255, 256, -128, -129, 32767, 32768, -32768, -32769, 2**31 - 1, 2**31, -(2**31), -(2**31) - 1, 2**63 - 1, 2**63, -(2**63), -(2**63) - 1, 2**64, 10**30])
        else:
            v = rng.randrange(-(2**64), 2**64)
        return v

    JUNK = ["", "-", "+1", " 1", "1 ", "1.0", "1e3", "0x10", "1_0", "٣", "--1", "1-", "abc!", "\x001", "1\x00", "１"]

    def digits(self, v, base):
        ds = "0123456789abcdefghijklmnopqrstuvwxyz"
        a, s = abs(v), ""
        while True:
            a, r = divmod(a, base)
            s = ds[r] + s
            if not a:
                return ("-" if v < 0 else "") + s

    def run_int(self, rng, d, obs):
        from fairseq2.data.text import StrToIntConverter

        base = rng.choice([10, 10, 2, 8, 16, 36, rng.randrange(2, 37)])
        conv = StrToIntConverter(base=base) if base != 10 or rng.random() < 0.5 else StrToIntConverter()
        for _ in range(5):
            if rng.random() < 0.25:
                while True:
                    s = rng.choice(self.JUNK)
                    if not s.isalnum() or not s.isascii() or any(int(c, 36) >= base for c in s):
                        break
                want = None
            else:
                v = self.number(rng)
                s = self.digits(v, base)
                if rng.random() < 0.3:
                    s = s.upper()
                if rng.random() < 0.2:
                    s = ("-" if v < 0 else "") + "00" + s.lstrip("-")
                want = v if -(2**63) <= v < 2**63 else None
                if base < 36 and rng.random() < 0.1:
                    s += self.digits(rng.randrange(base, 36), 36)
                    want = None
            got = self.judge(obs, conv, s, rng, want, "int", f"base {base}")
            if want is not None:
                obs.check(got == want and type(got) is int, "int", f"{s!r} in base {base} gave {got!r}, not {want}")
                obs.count("ints")
            else:
                obs.count("ints_refused")

    def run_tensor(self, rng, d, obs):
        import torch
        from fairseq2.data.text import StrToTensorConverter

        dt = rng.choice([None, "uint8", "int8", "int16", "int32", "int64"])
        dtype = getattr(torch, dt) if dt else torch.int32
        info = torch.iinfo(dtype)
        n = rng.choice([0, 1, 2, 6, 12, 40])
        t = rng.random()
        vs = [rng.choice([rng.randrange(info.min, info.max + 1), info.min, info.max]) for _ in range(n)]
        toks = [str(v) for v in vs]
        ok = True
        if n and t < 0.15:
            toks[rng.randrange(n)] = str(rng.choice([info.max + 1, info.min - 1, 10**25]))
            ok = False
        elif n and t < 0.3:
            toks[rng.randrange(n)] = rng.choice(["x", "1.5", "+1", "1\t2", "٣", "-"])
            ok = False
        s = "".join(" " * rng.randrange(1, 3) + k for k in toks)
        s = s if rng.random() < 0.5 else s.lstrip()
        s += " " * rng.randrange(3)
        size = None
        if n and rng.random() < 0.5:
            a = rng.choice([k for k in range(1, n + 1) if n % k == 0])
            size = rng.choice([[a, n // a], [-1, a], [n], [a, 1, -1]])
            if rng.random() < 0.15:
                size = [n + 1]
                ok = False
        kw = {}
        if dt:
            kw["dtype"] = dtype
        if size:
            kw["size"] = size
        want = torch.tensor(vs, dtype=dtype).view(*(size or [-1])) if ok else None
        got = self.judge(obs, StrToTensorConverter(**kw), s, rng, want, "tensor", f"{kw}")
        if ok:
            obs.check(got.dtype == dtype and got.shape == want.shape and torch.equal(got, want), "tensor", lambda: f"{kw} of {s!r} gave {got!r}")
            obs.count("tensors")
        else:
            obs.count("tensors_refused")


if __name__ == "__main__":
    main(C15())
