"""C14: collating, packing and bucketing conserve every element."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from vlib import Check, main

DTYPES = ["int64", "int32", "uint8", "float32", "float64", "float16", "bool", "int16"]


class Bad(Exception):
    """The reference refuses the input."""


def seq(rng, dt, shape):
    import torch

    g = torch.Generator().manual_seed(rng.randrange(1 << 40))
    t = getattr(torch, dt)
    if dt == "bool":
        return torch.randint(0, 2, shape, generator=g).to(t)
    if dt.startswith("float"):
        return torch.randn(shape, generator=g, dtype=torch.float64).to(t)
    lo, hi = (0, 256) if dt == "uint8" else (-30000, 30000)
    x = torch.randint(lo, hi, shape, generator=g).to(t)
    if dt == "int64" and rng.random() < 0.3:
        x = x + (1 << 55)  # not representable in floating point
    return x


def tree(rng, depth, path=""):
    """Describes the structure of an example."""
    t = rng.random()
    if depth and t < 0.35:
        keys = rng.sample(["a", "b", "c", "foo", "é", "x y"], rng.randrange(1, 4))
        return {"t": "dict", "c": {k: tree(rng, depth - 1, f"{path}.{k}" if path else k) for k in keys}, "path": path}
    if depth and t < 0.6:
        return {"t": "list", "c": [tree(rng, depth - 1, f"{path}[{i}]") for i in range(rng.randrange(1, 4))], "path": path}
    if t < 0.9 or not depth:
        return {"t": "tensor", "dt": rng.choice(DTYPES), "tail": rng.choice([[], [], [3], [2, 2]]), "equal": rng.choice([None, None, rng.randrange(0, 7)]),
                "mixed": rng.random() < 0.05, "path": path}
    return {"t": rng.choice(["int", "float", "str", "bool", "none", "obj"]), "path": path}


def make(rng, s):
    if s["t"] == "dict":
        return {k: make(rng, c) for k, c in s["c"].items()}
    if s["t"] == "list":
        return [make(rng, c) for c in s["c"]]
    if s["t"] == "tensor":
        n = s["equal"] if s["equal"] is not None else rng.randrange(0, 9)
        dt = rng.choice(DTYPES) if s["mixed"] else s["dt"]
        x = seq(rng, dt, [n] + s["tail"])
        if n > 1 and rng.random() < 0.2:
            x = seq(rng, dt, [2 * n] + s["tail"])[::2]  # not contiguous
        return x
    return {"int": lambda: rng.randrange(-(1 << 60), 1 << 60), "float": rng.random, "str": lambda: rng.choice(["", "é", "abc"]), "bool": lambda: rng.random() < 0.5,
            "none": lambda: None, "obj": lambda: (1, rng.random())}[s["t"]]()


def leaves(s):
    if s["t"] == "dict":
        return [x for c in s["c"].values() for x in leaves(c)]
    if s["t"] == "list":
        return [x for c in s["c"] for x in leaves(c)]
    return [s]


class C14(Check):
    id = "C14"
    native = True
    workers = 8
    rule = (
        "random nested examples collated, padded, packed and bucketed with random settings, alone and within data "
        "pipelines, with failing examples in between; every element is compared with a reference in Python, batches "
        "with the configured limits, and inputs with their copies; non-trivial = at least one batch compared"
    )
    required = ["collated", "padded", "stacked", "overrides", "pad_multiples", "refused", "packs", "truncated", "kept_whole", "pack_errors", "length_buckets", "bucket_drops", "skipped", "cost_buckets", "read_through_errors", "size_tables", "layouts", "end_to_end", "mixed_types"]

    def gen(self, rng, tier):
        n = 12000 if tier == "quick" else 60000
        for _ in range(n):
            yield {"kind": rng.choices(["collate", "pack", "length", "sizes", "pad", "cost", "flow"], [8, 6, 5, 1, 2, 2, 3])[0], "s": rng.randrange(1 << 40)}

    def run(self, case, obs):
        getattr(self, "run_" + case["kind"])(random.Random(case["s"]), obs)

    # ---------------------------------------------------------------- collate

    def eq(self, a, b):
        import torch

        if isinstance(b, torch.Tensor):
            return isinstance(a, torch.Tensor) and a.dtype == b.dtype and a.shape == b.shape and torch.equal(a, b)
        if isinstance(b, dict):
            return isinstance(a, dict) and set(a) == set(b) and all(self.eq(a[k], b[k]) for k in b)
        if isinstance(b, list):
            return isinstance(a, list) and len(a) == len(b) and all(map(self.eq, a, b))
        return type(a) is type(b) and a == b

    def ref_collate(self, bucket, pad, mult, overrides, path=""):
        import torch

        x = bucket[0]

        def kind(y):  # Python objects of any other type are all alike to the collater
            return next((t for t in (torch.Tensor, dict, list, bool, int, float, str) if isinstance(y, t)), None)

        if any(kind(y) is not kind(x) for y in bucket):
            raise Bad
        if isinstance(x, dict):
            if any(set(y) != set(x) for y in bucket):
                raise Bad
            return {k: self.ref_collate([y[k] for y in bucket], pad, mult, overrides, f"{path}.{k}" if path else k) for k in x}
        if isinstance(x, list):
            if any(len(y) != len(x) for y in bucket):
                raise Bad
            return [self.ref_collate([y[i] for y in bucket], pad, mult, overrides, f"{path}[{i}]") for i in range(len(x))]
        if not isinstance(x, torch.Tensor):
            return list(bucket)
        for sel, p, m in overrides:
            if path in sel:
                pad, mult = p, m
                break
        if any(y.dim() != x.dim() or y.shape[1:] != x.shape[1:] for y in bucket):
            raise Bad
        dt = x.dtype
        for y in bucket:
            dt = torch.promote_types(dt, y.dtype)
        lens = [len(y) for y in bucket]
        if pad is None:
            if len(set(lens)) > 1:
                raise Bad
            return torch.stack([y.to(dt) for y in bucket])
        w = -(-max(lens) // mult) * mult
        rows = []
        for y in bucket:
            fill = torch.full([w - len(y)] + list(y.shape[1:]), pad, dtype=dt)
            rows.append(torch.cat([y.to(dt), fill]))
        return {"seqs": torch.stack(rows), "seq_lens": lens, "is_ragged": any(n != w for n in lens)}

    def copy(self, x):
        import torch

        if isinstance(x, torch.Tensor):
            return x.clone()
        if isinstance(x, dict):
            return {k: self.copy(v) for k, v in x.items()}
        if isinstance(x, list):
            return [self.copy(v) for v in x]
        return x

    def run_collate(self, rng, obs):
        import torch
        from fairseq2.data.data_pipeline import Collater, CollateOptionsOverride, read_sequence

        s = tree(rng, rng.choice([0, 1, 2, 2, 3]))
        n = rng.choice([1, 2, 3, 5, 9])
        bucket = [make(rng, s) for _ in range(n)]
        t = rng.random()
        if t < 0.12 and n > 1:
            i = rng.randrange(n)
            bucket[i] = make(rng, tree(rng, 2))  # most likely of another structure
        pad = rng.choice([None, 0, 1, 0, 100])
        mult = rng.choice([1, 1, 2, 3, 8]) if pad is not None else 1
        ls = [x for x in leaves(s) if x["t"] == "tensor" and x["path"]]
        overrides = []
        for x in rng.sample(ls, min(len(ls), rng.choice([0, 0, 1, 2]))):
            p = rng.choice([None, 0, 7, 1])
            paths = [x["path"]]
            if len(ls) > 1 and rng.random() < 0.2:
                paths.append(rng.choice(ls)["path"])
            if any(" " in q or "é" in q for q in paths):
                continue
            overrides.append((paths, p, rng.choice([1, 1, 4]) if p is not None else 1))
            obs.count("overrides")
        if mult > 1:
            obs.count("pad_multiples")
        kw = {"pad_value": pad, "pad_to_multiple": mult}
        if overrides or rng.random() < 0.5:
            kw["overrides"] = [CollateOptionsOverride(",".join(ps), pad_value=p, pad_to_multiple=m) for ps, p, m in overrides]
        try:
            want = self.ref_collate(bucket, pad, mult, overrides)
        except Bad:
            want = None
        before = self.copy(bucket)
        what = f"{s} x {n} with pad {pad} multiple {mult} overrides {overrides}"
        mode = rng.choice(["call", "op", "par", "twice"])
        try:
            c = Collater(**kw)
            if mode == "call":
                got = c(bucket)
            elif mode == "twice":
                c(bucket)
                got = c(bucket)
            elif mode == "op":
                (got,) = read_sequence(bucket).bucket(n).collate(**kw).and_return()
            else:
                got, other = read_sequence([bucket, bucket]).map(c, num_parallel_calls=2).and_return()
                obs.check(self.eq(got, other), "collate-unstable", lambda: f"{what}: two collations of the same bucket differ")
        except Exception as ex:
            obs.check(want is None, "collate-refused", lambda: f"{what}: {ex!r}")
            obs.count("refused")
        else:
            obs.check(want is not None, "collate-accepted", lambda: f"{what}: {bucket!r:.300} was accepted")
            obs.check(self.eq(got, want), "collate", lambda: f"{what} ({mode}): got {got!r:.700} instead of {want!r:.700}")
            obs.count("collated")
            if any(x["t"] == "tensor" for x in leaves(s)):
                obs.count("stacked" if pad is None else "padded")
            if any(x.get("mixed") for x in leaves(s)):
                obs.count("mixed_types")
        obs.check(self.eq(bucket, before), "input-modified", lambda: f"{what}: the examples themselves were modified")
        obs.state("collate", s["t"], n, pad, mult, len(overrides), mode)

    def run_pad(self, rng, obs):
        import torch
        from fairseq2.nn.utils.padding import pad_seqs

        dt = rng.choice(DTYPES)
        tail = rng.choice([[], [3]])
        xs = [seq(rng, dt, [rng.randrange(1, 12)] + tail) for _ in range(rng.choice([1, 2, 7]))]
        pad = rng.choice([0, 1, 3])
        m = rng.choice([1, 2, 8])
        out, layout = pad_seqs(xs, pad_value=pad, pad_to_multiple=m)
        want = self.ref_collate(xs, pad, m, [])
        obs.check(self.eq(out, want["seqs"]), "pad-seqs", lambda: f"{xs} gave {out}")
        obs.check(list(layout.seq_lens) == want["seq_lens"] and layout.width == out.size(1) and layout.padded == want["is_ragged"] and not layout.packed, "pad-layout",
                  lambda: f"{[len(x) for x in xs]} multiple {m}: {layout.seq_lens} {layout.width} {layout.padded}")
        mask = layout.position_indices
        if layout.padded:
            w = out.size(1)
            ok = all(mask[i].tolist() == list(range(len(x))) + [-1] * (w - len(x)) for i, x in enumerate(xs))
            obs.check(ok, "pad-positions", lambda: f"{[len(x) for x in xs]}: {mask}")
        obs.count("layouts")

    # ---------------------------------------------------------------- pack

    def ref_pack(self, items, cap, mx, trunc, drop):
        """A list of batches and "error"s, in the order of the reads."""
        out = []
        cur = []  # the sequences of the current batch
        pos = 0
        todo = list(items)
        while todo:
            x = todo.pop(0)
            if x == "bad":
                out.append("error")
                continue
            dt, x = x
            if not x:
                continue
            if cur and cur[0][0] != dt:
                out.append("error")
                continue
            room = min(cap - pos, mx)
            if len(x) > room:
                if not trunc:
                    if pos == 0:
                        out.append("error")
                        continue
                    todo.insert(0, (dt, x))
                    out.append(cur)
                    cur, pos = [], 0
                    continue
                head = x[:room]
                # A batch that is cut repeats its last element in the next one.
                rest = x[room - 1 :] if pos + room == cap and cap > 1 else x[room:]
                todo.insert(0, (dt, rest))
                x = head
            cur.append((dt, x))
            pos += len(x)
            if pos == cap:
                out.append(cur)
                cur, pos = [], 0
        if cur and not (trunc and drop):
            out.append(cur)
        return out

    def run_pack(self, rng, obs):
        import torch
        from fairseq2.data.data_pipeline import DataPipelineError, read_sequence

        cap = rng.choice([1, 2, 3, 4, 7, 16, 50])
        mx = rng.choice([1, 2, 3, 4, 8, 100])
        trunc = rng.random() < 0.6
        drop = rng.random() < 0.5
        pad = rng.choice([0, 0, 7, -1])
        dt = rng.choice(["int64", "int64", "int32", "float32"])
        other = "int16"
        items, xs = [], []
        v = 1
        faults = rng.random() < 0.35
        for _ in range(rng.choice([0, 1, 2, 5, 12, 25])):
            t = rng.random()
            if faults and t < 0.07:
                items.append("bad")
                xs.append(rng.choice([torch.zeros(2, 2), "x", torch.tensor(3)]))
                continue
            k = rng.choice([0, 1, 2, 3, 4, 6, rng.randrange(cap + 3), rng.randrange(3 * cap + 3)])
            d = other if faults and t < 0.14 else dt
            x = list(range(v, v + k))
            v += k
            items.append((d, x))
            tt = torch.tensor(x, dtype=getattr(torch, d))
            if k == 0 and rng.random() < 0.5:
                tt = torch.tensor([])
            xs.append(tt)
        want = self.ref_pack(items, cap, mx, trunc, drop)
        p = read_sequence(xs).pack(cap, mx, pad, truncate=trunc, drop_remainder=drop).and_return()
        what = f"pack({cap}, {mx}, {pad}, truncate={trunc}, drop_remainder={drop}) of {items!r:.500}"
        limit = len(want) + 5
        for epoch in range(2):
            got = []
            it = iter(p)
            at = rng.randrange(len(want) + 1)
            while len(got) < limit:
                if len(got) == at and rng.random() < 0.5:
                    # Restores the same position, also right after an error.
                    st = p.state_dict()
                    if rng.random() < 0.5:
                        try:
                            next(it)
                        except (StopIteration, DataPipelineError):
                            pass
                    p = read_sequence(xs).pack(cap, mx, pad, truncate=trunc, drop_remainder=drop).and_return() if rng.random() < 0.5 else p
                    p.load_state_dict(st)
                    it = iter(p)
                try:
                    got.append(next(it))
                except StopIteration:
                    break
                except DataPipelineError:
                    got.append("error")
                    it = iter(p)
            kinds = lambda ws: [w if w == "error" else "batch" for w in ws]
            obs.check(kinds(got) == kinds(want), "pack-batches", lambda: f"{what}, epoch {epoch}: {got!r:.600} instead of {want!r:.600}")
            for g, w in zip(got, want):
                if w == "error":
                    obs.count("pack_errors")
                    continue
                flat = [e for _, x in w for e in x]
                ok = (g["seqs"].tolist() == flat + [pad] * (cap - len(flat)) and list(g["seq_lens"]) == [len(x) for _, x in w]
                      and g["seqs"].dtype == getattr(torch, w[0][0]))
                obs.check(ok, "pack", lambda: f"{what}, epoch {epoch}: batch {g} instead of {w}, padded with {pad}")
                obs.check(len(g["seqs"]) == cap and max(g["seq_lens"]) <= mx, "pack-limit", lambda: f"{what}: {g}")
                obs.count("packs")
            p.reset()
        obs.count("truncated" if trunc else "kept_whole")
        obs.state("pack", cap, mx, trunc, drop, len(items) > 5, faults)

    # ---------------------------------------------------------------- buckets

    def run_length(self, rng, obs):
        import torch
        from fairseq2.data.data_pipeline import DataPipelineError, read_sequence

        lens = sorted(rng.sample(range(1, 20), rng.randrange(1, 6)))
        sizes = [(rng.randrange(1, 7), n) for n in lens]
        if rng.random() < 0.5:
            sizes = [(max(1, 40 // n), n) for n in lens]
        if rng.random() < 0.2:
            rng.shuffle(sizes)
        mn = rng.choice([1, 1, 0, 2, 3])
        below, above, drop = (rng.random() < 0.5 for _ in range(3))
        how = rng.choice(["tensor", "list", "int", "key", "keys"])
        xs, ns = [], []
        for i in range(rng.choice([0, 1, 5, 30, 80])):
            n = rng.choice([rng.randrange(0, 22), rng.randrange(1, 6)])
            if rng.random() < 0.8:
                n = min(max(n, mn), lens[-1])
            m = rng.randrange(0, n + 1)
            ns.append(n)
            if how == "tensor":
                xs.append(torch.full((n, 2), i))
            elif how == "list":
                xs.append([i] * n)
            elif how == "int":
                xs.append(n)
            elif how == "key":
                xs.append({"x": [i] * n, "i": i})
            else:
                xs.append({"x": [i] * n, "y": torch.full((m,), i), "i": i})
        sel = {"key": "x", "keys": "y,x"}.get(how)
        p = read_sequence(xs).bucket_by_length(sizes, selector=sel, min_data_len=mn, skip_below_min_examples=below, skip_above_max_examples=above, drop_remainder=drop).and_return()
        what = f"{sizes} min {mn} skip {below}/{above} drop {drop} {how} {ns}"
        by = sorted(sizes, key=lambda s: s[1])

        def ident(x):
            return x["i"] if isinstance(x, dict) else x

        def length(x):
            return len(x["x"]) if isinstance(x, dict) else x if isinstance(x, int) else len(x)

        too_short = [i for i, n in enumerate(ns) if n < mn]
        too_long = [i for i, n in enumerate(ns) if n >= mn and n > lens[-1]]
        expect = [i for i in range(len(ns)) if i not in too_short and i not in too_long]
        n_err = (0 if below else len(too_short)) + (0 if above else len(too_long))
        for epoch in range(2):
            got, errors = [], 0
            it = iter(p)
            for _ in range(len(xs) + 5):
                try:
                    got.append(next(it))
                except StopIteration:
                    break
                except DataPipelineError:
                    errors += 1
                    it = iter(p)
            obs.check(errors == n_err, "bucket-errors", lambda: f"{what}: {errors} errors instead of {n_err}")
            for b in got:
                w = max(length(x) for x in b)
                size, limit = next(s for s in by if s[1] >= w)
                obs.check(1 <= len(b) <= size, "bucket-size", lambda: f"{what}: a bucket of {len(b)} examples of lengths {[length(x) for x in b]}; the limit is {size}")
                if drop:
                    obs.check(len(b) == size, "bucket-not-full", lambda: f"{what}: {len(b)} examples of lengths {[length(x) for x in b]} although remainders are dropped")
                obs.count("length_buckets")
            flat = [x for b in got for x in b]
            if how == "int":
                g, e = sorted(flat), sorted(ns[i] for i in expect)
            else:
                key = lambda x: x["i"] if isinstance(x, dict) else (int(x[0, 0]) if isinstance(x, torch.Tensor) else x[0]) if len(x) else -1
                g, e = sorted(key(x) for x in flat), sorted(i if how.startswith("key") or ns[i] else -1 for i in expect)
                for x in flat:
                    i = key(x)
                    if i >= 0:
                        obs.check(self.eq(x, xs[i]), "bucket-altered", lambda: f"{what}: example {i} became {x}")
            if drop:
                missing = list(e)
                for v in g:
                    obs.check(v in missing, "bucket-duplicates", lambda: f"{what}: {v} was emitted too often")
                    missing.remove(v)
                biggest = max(s for s, _ in sizes)
                obs.check(len(missing) < biggest, "bucket-lost", lambda: f"{what}: {len(missing)} examples were dropped: {missing}")
                obs.count("bucket_drops")
            else:
                obs.check(g == e, "bucket-conservation", lambda: f"{what}, epoch {epoch}: emitted {g} instead of {e}")
            p.reset()
        if below or above:
            obs.count("skipped", len(xs) - len(expect) - n_err)
        if n_err:
            obs.count("read_through_errors")
        obs.state("length", len(sizes), mn, below, above, drop, how)

    def run_cost(self, rng, obs):
        """Buckets by cost stop as soon as they reach the threshold."""
        from fairseq2.data.data_pipeline import DataPipelineError, read_sequence

        n = rng.choice([0, 3, 10, 40])
        thr = rng.choice([1.0, 3.0, 7.5])
        mn = rng.choice([None, None, 2])
        mx = rng.choice([None, None, 3, 5])
        drop = rng.random() < 0.3
        bad = set(rng.sample(range(n), min(n, rng.choice([0, 1, 3]))))
        seqs = [[i] * (9 if i in bad else 1) for i in range(n)]

        def mkp():
            # The inner operator raises recoverable errors for long examples.
            b = read_sequence(seqs).bucket_by_length([(1, 4)])
            return b.dynamic_bucket(thr, lambda x: float(x[0][0] % 3 + 1), min_num_examples=mn, max_num_examples=mx, drop_remainder=drop).and_return()

        p = mkp()
        want, cur, cost = [], [], 0.0
        for i in range(n):
            if i in bad:
                want.append("error")
                continue
            cur.append(i)
            cost += i % 3 + 1
            if cost >= thr and (mn is None or len(cur) >= mn) or mx is not None and len(cur) >= mx:
                want.append(cur)
                cur, cost = [], 0.0
        if cur and not drop:
            want.append(cur)
        what = f"threshold {thr} min {mn} max {mx} drop {drop} n {n} bad {sorted(bad)}"
        for epoch in range(2):
            got = []
            it = iter(p)
            save = rng.randrange(n + 1) if rng.random() < 0.6 else -1
            for _ in range(n + 5):
                if len(got) == save:
                    st = p.state_dict()
                    if rng.random() < 0.5:
                        p = mkp()
                    else:
                        try:
                            next(it)
                        except (StopIteration, DataPipelineError):
                            pass
                    p.load_state_dict(st)
                    it = iter(p)
                try:
                    got.append([x[0][0] for x in next(it)])
                except StopIteration:
                    break
                except DataPipelineError:
                    got.append("error")
                    it = iter(p)
            obs.check(got == want, "dynamic-bucket", lambda: f"{what}, epoch {epoch}: {got} instead of {want}")
            p.reset()
        obs.count("cost_buckets", len(want))

    def run_sizes(self, rng, obs):
        from fairseq2.data.data_pipeline import create_bucket_sizes

        mx = rng.choice([1, 2, 5, 16, 100, 1024])
        k = rng.choice([1, 2, 3, 7, 64])
        elems = mx * k
        mn = rng.choice([1, 1, rng.randrange(1, mx + 1)])
        m = rng.choice([1, 1, 2, 8, 16])
        out = create_bucket_sizes(max_num_elements=elems, max_seq_len=mx, min_seq_len=mn, num_seqs_multiple_of=m)
        what = f"max_num_elements {elems} max_seq_len {mx} min_seq_len {mn} multiple {m}: {out}"
        ls = [n for _, n in out]
        obs.check(ls == sorted(set(ls)) and ls[-1] == mx and ls[0] >= mn, "size-table", what)
        obs.check(all(b >= 1 and b * n <= elems for b, n in out), "size-limit", what)
        # As many as fit, and a multiple where the limit permits one.
        for b, n in out:
            cap = elems // n
            best = cap - cap % m if cap > m else cap
            obs.check(b == best, "size-optimal", f"{what}: {b} of length {n} instead of {best}")
        if elems % mx == 0:
            for kw in ({"max_num_elements": elems + 1, "max_seq_len": mx + 1}, {"max_num_elements": mx - 1, "max_seq_len": mx}, {"max_num_elements": elems, "max_seq_len": mx, "min_seq_len": mx + 1},
                       {"max_num_elements": elems, "max_seq_len": mx, "min_seq_len": 0}, {"max_num_elements": elems, "max_seq_len": mx, "num_seqs_multiple_of": 0}):
                if kw["max_num_elements"] % kw["max_seq_len"] == 0 and "min_seq_len" not in kw and "num_seqs_multiple_of" not in kw:
                    continue
                try:
                    r = create_bucket_sizes(**kw)
                except ValueError:
                    pass
                else:
                    obs.violate("size-accepted", f"{kw} gave {r}")
        obs.count("size_tables")

    def run_flow(self, rng, obs):
        """Whole batching pipelines: every token exactly once within limits."""
        import torch
        from fairseq2.data.data_pipeline import Collater, create_bucket_sizes, read_sequence
        from fairseq2.nn import BatchLayout

        mx = rng.choice([4, 10, 32])
        elems = mx * rng.choice([1, 2, 5])
        n = rng.choice([1, 10, 60])
        m = rng.choice([1, 1, 2])
        lens = [rng.randrange(1, mx + (3 if rng.random() < 0.2 else 1)) for _ in range(n)]
        v = 1
        xs = []
        for i, k in enumerate(lens):
            xs.append({"seq": torch.arange(v, v + k), "id": str(i), "extra": {"len": k}})
            v += k
        mode = rng.choice(["length", "static"])
        b = read_sequence(xs)
        if rng.random() < 0.5:
            b = b.shuffle(rng.choice([0, 5]), seed=rng.randrange(100))
        limit = None
        if mode == "length":
            bs = create_bucket_sizes(max_num_elements=elems, max_seq_len=mx, num_seqs_multiple_of=m)
            b = b.bucket_by_length(bs, selector="seq", skip_above_max_examples=True)
            limit = elems
        else:
            b = b.filter(lambda x: len(x["seq"]) <= mx).bucket(rng.choice([1, 4, 7]))
        c = Collater(pad_value=0, pad_to_multiple=rng.choice([1, 1, 4]) if mode == "static" else 1)
        b = b.map(c, num_parallel_calls=rng.choice([1, 4]))
        if rng.random() < 0.5:
            b = b.prefetch(3)
        p = b.and_return()
        for epoch in range(2):
            ids, toks = [], []
            for batch in p:
                q = batch["seq"]
                t = q["seqs"]
                layout = BatchLayout.of(t, q["seq_lens"])
                if limit:
                    obs.check(t.numel() <= limit, "batch-limit", lambda: f"a batch of {tuple(t.shape)} exceeds {limit} elements")
                obs.check(len(batch["id"]) == len(batch["extra"]["len"]) == t.size(0) == len(q["seq_lens"]), "batch-columns", lambda: f"{batch}")
                for row, k, i, e in zip(t, layout.seq_lens, batch["id"], batch["extra"]["len"]):
                    obs.check(k == e == lens[int(i)] and torch.equal(row[:k], xs[int(i)]["seq"]) and not row[k:].any(), "batch-rows", lambda: f"example {i}: {row} with length {k}")
                    toks += row[:k].tolist()
                ids += batch["id"]
            want = [i for i, k in enumerate(lens) if k <= mx]
            obs.check(sorted(map(int, ids)) == want, "batch-conservation", lambda: f"epoch {epoch}: emitted {sorted(map(int, ids))} instead of {want}")
            obs.check(sorted(toks) == [e for i in want for e in xs[i]["seq"].tolist()], "batch-tokens", "tokens lost or invented")
            p.reset()
        obs.count("end_to_end")


if __name__ == "__main__":
    main(C14())
