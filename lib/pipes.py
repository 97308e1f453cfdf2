"""Random data pipelines (as JSON specs) and the per-operator trace oracle."""

from __future__ import annotations

import random
import zlib
from collections import Counter

# ---------------------------------------------------------------- functions


def h(x) -> int:
    return zlib.crc32(canon(x).encode())


def canon(x) -> str:
    import torch

    if isinstance(x, torch.Tensor):
        return f"T{x.dtype}{tuple(x.shape)}{x.tolist()}"
    if isinstance(x, dict):
        return "{" + ",".join(f"{k}:{canon(v)}" for k, v in sorted(x.items())) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(canon(e) for e in x) + "]"
    return repr(x)


def f_map(k):
    return lambda x: [k, x]


def f_pred(k, m):
    return lambda x: (h(x) + k) % m != 0


def f_cost(k):
    return lambda x: float((h(x) + k) % 4 + 1)


def f_children(k, x):
    return [[k, i, x] for i in range((h(x) + k) % 4)]


def f_split(q):
    """A bucket creation function: cuts the buffer in buckets of q."""

    def f(buf):
        buf = list(buf)
        n = max(1, len(buf) // q)
        out = [buf[i * q : (i + 1) * q] for i in range(n)]
        return out, buf[n * q :]

    return f


# ---------------------------------------------------------------- building


class RangeIterator:
    def __init__(self, base, n) -> None:
        self.base, self.n, self.pos = base, n, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.pos == self.n:
            raise StopIteration
        self.pos += 1
        return self.base + self.pos - 1


def restart(it):
    it.pos = 0
    return it


def build(spec, delay=None):
    """Returns a DataPipelineBuilder for `spec`."""
    from fairseq2.data.data_pipeline import DataPipeline, read_iterator, read_sequence

    op = spec["op"]
    if op == "list" and spec.get("it"):
        return read_iterator(RangeIterator(spec["base"], spec["n"]), restart, infinite=False)
    if op == "list":
        return read_sequence(list(range(spec["base"], spec["base"] + spec["n"])))
    if op == "count":
        return DataPipeline.count(spec["base"], spec["step"])
    if op == "constant":
        return DataPipeline.constant(spec["base"])
    if op in ("concat", "round_robin", "sample", "zip"):
        ch = [build(c, delay).and_return() for c in spec["children"]]
        if op == "concat":
            return DataPipeline.concat(ch)
        if op == "round_robin":
            return DataPipeline.round_robin(ch, stop_at_shortest=spec["shortest"], allow_repeats=spec["repeats"])
        if op == "sample":
            return DataPipeline.sample(ch, weights=spec["weights"], seed=spec["seed"], allow_repeats=spec["repeats"])
        return DataPipeline.zip(ch, zip_to_shortest=spec["shortest"], disable_parallelism=spec["serial"])
    b = build(spec["inner"], delay)
    if op == "map":
        f = f_map(spec["k"])
        if delay:
            g = f

            def f(x, g=g):
                delay(x)
                return g(x)

        if spec.get("selector"):
            return b.map(lambda x: {"a": x, "b": x}).map(f, selector="a", num_parallel_calls=spec["par"], deterministic=spec["det"])
        if spec.get("chain"):
            return b.map([f, f_map(spec["k"] + 1)], num_parallel_calls=spec["par"], deterministic=spec["det"])
        return b.map(f, num_parallel_calls=spec["par"], deterministic=spec["det"])
    if op == "filter":
        return b.filter(f_pred(spec["k"], spec["m"]))
    if op == "bucket":
        return b.bucket(spec["n"], drop_remainder=spec["drop"])
    if op == "dynamic_bucket":
        kw = {}
        if spec["split"]:
            kw["bucket_creation_fn"] = f_split(spec["split"])
        return b.dynamic_bucket(float(spec["th"]), f_cost(spec["k"]), min_num_examples=spec["min"], max_num_examples=spec["max"], drop_remainder=spec["drop"], **kw)
    if op == "shard":
        return b.shard(spec["idx"], spec["num"], allow_uneven=spec["uneven"])
    if op == "shuffle":
        return b.shuffle(spec["w"], seed=spec["seed"])
    if op == "skip":
        return b.skip(spec["n"])
    if op == "take":
        return b.take(spec["n"])
    if op == "repeat":
        return b.repeat(spec["n"], reset_rng=spec["reset_rng"])
    if op == "prefetch":
        return b.prefetch(spec["n"])
    if op == "yield_from":
        from fairseq2.data.data_pipeline import read_sequence as rs

        return b.yield_from(lambda x: rs(f_children(spec["k"], x)).and_return())
    raise ValueError(op)


# ------------------------------------------------------------------- random


class Gen:
    def __init__(self, rng: random.Random, unordered=False) -> None:
        self.rng = rng
        self.base = 0
        self.unordered = unordered

    def src(self, n=None):
        r = self.rng
        n = r.choice([0, 1, 2, 3, 5, 8, 13, 21, 34]) if n is None else n
        self.base += 1000
        s = {"op": "list", "base": self.base, "n": n}
        if r.random() < 0.25:
            s["it"] = True  # read from a Python iterator
        return s

    def pseudo(self):
        r = self.rng
        self.base += 1000
        if r.random() < 0.5:
            return {"op": "count", "base": self.base, "step": r.choice([1, 3])}
        return {"op": "constant", "base": self.base}

    def unary(self, inner):
        r = self.rng
        op = r.choices(
            ["map", "filter", "bucket", "dynamic_bucket", "shard", "shuffle", "skip", "take", "repeat", "prefetch", "yield_from"],
            [4, 2, 2, 2, 2, 3, 1.5, 1.5, 2, 3, 1.5],
        )[0]
        s = {"op": op, "inner": inner}
        if op == "map":
            s.update(k=r.randrange(5), par=r.choice([1, 1, 2, 3, 4, 8]), det=True, chain=r.random() < 0.2, selector=r.random() < 0.2)
        elif op == "filter":
            s.update(k=r.randrange(5), m=r.choice([2, 3, 5]))
        elif op == "bucket":
            s.update(n=r.choice([1, 2, 3, 5]), drop=r.random() < 0.5)
        elif op == "dynamic_bucket":
            mn = r.choice([None, None, 1, 2, 4])
            mx = r.choice([None, None, 4, 6])
            s.update(th=r.choice([1, 3, 7, 12]), k=r.randrange(4), min=mn, max=mx, drop=r.random() < 0.4, split=r.choice([0, 0, 1, 2]))
        elif op == "shard":
            num = r.choice([1, 2, 3, 4])
            s.update(num=num, idx=r.randrange(num), uneven=r.random() < 0.5)
        elif op == "shuffle":
            s.update(w=r.choice([0, 1, 2, 3, 5, 10, 100]), seed=r.randrange(1 << 30))
        elif op in ("skip", "take"):
            s.update(n=r.choice([0, 1, 2, 5, 20]))
        elif op == "repeat":
            s.update(n=r.choice([0, 1, 2, 3]), reset_rng=r.random() < 0.5)
        elif op == "prefetch":
            s.update(n=r.choice([0, 1, 2, 5, 20]))
        elif op == "yield_from":
            s.update(k=r.randrange(4))
        return s

    def nary(self, depth, top=False):
        r = self.rng
        op = r.choice(["concat", "round_robin", "sample", "zip"])
        n = r.choice([1, 2, 2, 3, 4])
        ch = [self.tree(depth - 1, False) for _ in range(n)]
        s = {"op": op, "children": ch}
        if op == "round_robin":
            s.update(shortest=r.random() < 0.3, repeats=r.random() < 0.5)
        elif op == "sample":
            w = None if r.random() < 0.4 else [r.choice([0.1, 0.5, 1.0, 3.0]) for _ in ch]
            s.update(weights=w, seed=r.randrange(1 << 30), repeats=r.random() < 0.5)
        elif op == "zip":
            s.update(shortest=r.random() < 0.7, serial=r.random() < 0.5)
        # A round_robin/sample with a pseudo-infinite child counts as
        # pseudo-infinite itself, so it is not nested in another combinator.
        if (op == "zip" or (top and op in ("round_robin", "sample"))) and r.random() < 0.25:
            p = self.pseudo()
            if r.random() < 0.5:
                p = {"op": "map", "inner": p, "k": 1, "par": 1, "det": True, "chain": False, "selector": False}
            ch.insert(r.randrange(len(ch) + 1), p)
            if op == "sample" and s["weights"]:
                s["weights"].append(0.5)
        return s

    def tree(self, depth, top=True):
        r = self.rng
        if depth > 0 and r.random() < 0.35:
            t = self.nary(depth, top)
        else:
            t = self.src()
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            t = self.unary(t)
        tame(t)
        return t


def tame(spec, rep=False, cut=False):
    """Disables the prefetches whose read-ahead decides what a later epoch
    looks like: RNG drawing operators below a prefetch that is reset, without
    resetting RNGs, before it was read to its end."""
    op = spec["op"]
    if rep and op in ("take", "zip", "round_robin", "sample"):
        cut = True
    if (op == "repeat" and not spec["reset_rng"]) or (op in ("round_robin", "sample") and spec["repeats"]):
        rep = True
    if op == "prefetch" and rep and cut and is_random(spec["inner"]):
        spec["n"] = 0
    for c in spec.get("children", []) + ([spec["inner"]] if "inner" in spec else []):
        tame(c, rep, cut)


def ops(spec):
    yield spec
    for c in spec.get("children", []):
        yield from ops(c)
    if "inner" in spec:
        yield from ops(spec["inner"])


def is_random(spec) -> bool:
    """Does a second epoch without RNG reset legitimately differ?"""
    return any((o["op"] == "shuffle" and o["w"] != 1) or o["op"] == "sample" for o in ops(spec))


def is_pseudo(spec) -> bool:
    if spec["op"] in ("count", "constant"):
        return True
    if spec["op"] == "map":
        return is_pseudo(spec["inner"])
    return False


# ------------------------------------------------------------ trace oracle


class Mismatch(Exception):
    def __init__(self, op, why, got=None, want=None):
        super().__init__(f"{op}: {why}; got {canon(got)[:600]} want {canon(want)[:600]}")
        self.op = op


LIMIT = 4000


def drain(p, limit=LIMIT):
    out = []
    for x in p:
        out.append(x)
        if len(out) >= limit:
            raise OverflowError
    return out


def model_pseudo(spec, n):
    if spec["op"] == "count":
        return [spec["base"] + i * spec["step"] for i in range(n)]
    if spec["op"] == "constant":
        return [spec["base"]] * n
    return [f_map(spec["k"])(x) for x in model_pseudo(spec["inner"], n)]


def eq(op, got, want, why="wrong examples"):
    if [canon(x) for x in got] != [canon(x) for x in want]:
        raise Mismatch(op, why, got, want)


def eqset(op, got, want, why="wrong multiset of examples"):
    if Counter(canon(x) for x in got) != Counter(canon(x) for x in want):
        raise Mismatch(op, why, got, want)


def check_shuffle(got, src, w):
    eqset("shuffle", got, src, "examples lost, invented or duplicated")
    if w == 1:
        eq("shuffle", got, src, "a window of one must keep the order")
    if w > 1:
        # An example cannot leave before it entered the window.
        pos: dict[str, list[int]] = {}
        for i, x in enumerate(src):
            pos.setdefault(canon(x), []).append(i)
        for o, x in enumerate(got):
            i = min(pos[canon(x)])
            if i > o + w - 1:
                raise Mismatch("shuffle", f"source example {i} was emitted at {o} with a window of {w}", got, src)


def model_round_robin(chs, pseudo, shortest, repeats, limit):
    """chs: finite example lists (or pseudo generators by index)."""
    n = len(chs)
    pos = [0] * n
    done = [False] * n
    out = []
    if n == 0:
        return out
    for i in range(n):
        if pseudo[i] or not chs[i]:
            done[i] = True
    # is anything to emit?
    first = True
    while True:
        if not first and (any(done) if shortest else all(done)):
            return out
        if first and not any(pseudo[i] or chs[i] for i in range(n)):
            return out
        first = False
        for i in range(n):
            if pseudo[i]:
                out.append(("pseudo", i, pos[i]))
                pos[i] += 1
                continue
            c = chs[i]
            if not c:
                continue
            if pos[i] >= len(c):
                if not repeats:
                    continue
                pos[i] = 0
            out.append(c[pos[i]])
            pos[i] += 1
            if pos[i] == len(c):
                done[i] = True
        if len(out) > limit:
            raise OverflowError


def check_node(spec, got, child_outs):
    """Checks what `spec`'s top operator emitted against what its inputs emit."""
    op = spec["op"]
    if op == "list":
        return eq(op, got, list(range(spec["base"], spec["base"] + spec["n"])))
    if op == "concat":
        return eq(op, got, [x for c in child_outs for x in c])
    if op == "zip":
        ch = spec["children"]
        if not ch:
            return eq(op, got, [])
        lens = [len(c) for c, s in zip(child_outs, ch) if not is_pseudo(s)]
        if not lens:
            return
        n = min(lens)
        rows = [model_pseudo(s, n) if is_pseudo(s) else c for c, s in zip(child_outs, ch)]
        return eq(op, got, [[r[i] for r in rows] for i in range(n)])
    if op == "round_robin":
        ch = spec["children"]
        pseudo = [is_pseudo(s) for s in ch]
        want = model_round_robin(child_outs, pseudo, spec["shortest"], spec["repeats"], LIMIT)
        res = []
        for x in want:
            if isinstance(x, tuple) and x[0] == "pseudo":
                res.append(model_pseudo(ch[x[1]], x[2] + 1)[-1])
            else:
                res.append(x)
        if any(is_random(s) for s in ch) and spec["repeats"]:
            # A repeated child legitimately reshuffles: lengths and slots only.
            if any(not random_len_stable(s) for s in ch):
                return
            if len(got) != len(res):
                raise Mismatch(op, f"emitted {len(got)} examples instead of {len(res)}", got, res)
            return
        return eq(op, got, res)
    if op == "sample":
        return check_sample(spec, got, child_outs)

    src = child_outs[0]
    if op == "map":
        want = src
        if spec.get("selector"):
            want = [{"a": f_map(spec["k"])(x), "b": x} for x in want]
        else:
            want = [f_map(spec["k"])(x) for x in want]
            if spec.get("chain"):
                want = [f_map(spec["k"] + 1)(x) for x in want]
        if spec["det"]:
            return eq(op, got, want)
        return eqset(op, got, want)
    if op == "filter":
        p = f_pred(spec["k"], spec["m"])
        return eq(op, got, [x for x in src if p(x)])
    if op == "bucket":
        n = spec["n"]
        want = [src[i : i + n] for i in range(0, len(src), n)]
        if want and spec["drop"] and len(want[-1]) < n:
            want.pop()
        return eq(op, got, want)
    if op == "dynamic_bucket":
        return eq(op, got, model_dynamic(spec, src))
    if op == "shard":
        n, i = spec["num"], spec["idx"]
        want = src[i::n]
        if not spec["uneven"] and n > 1:
            want = want[: len(src) // n]
        return eq(op, got, want)
    if op == "shuffle":
        return check_shuffle(got, src, spec["w"])
    if op == "skip":
        return eq(op, got, src[spec["n"] :])
    if op == "take":
        return eq(op, got, src[: spec["n"]])
    if op == "prefetch":
        return eq(op, got, src)
    if op == "yield_from":
        return eq(op, got, [y for x in src for y in f_children(spec["k"], x)])
    if op == "repeat":
        n = spec["n"]
        inner = spec["inner"]
        if not src or n == 0:
            return eq(op, got, [])
        if not is_random(inner) or spec["reset_rng"]:
            return eq(op, got, src * n)
        if random_content_stable(inner):
            if len(got) != n * len(src):
                raise Mismatch(op, f"{len(got)} examples, expected {n * len(src)}", got, src)
            for i in range(n):
                eqset(op, got[i * len(src) : (i + 1) * len(src)], src, f"epoch {i}")
        eq(op, got[: len(src)], src, "first epoch")
        return
    raise ValueError(op)


_STABLE = {"list", "concat", "shuffle", "map", "filter", "prefetch", "yield_from", "repeat"}


def random_content_stable(spec) -> bool:
    """Every epoch has the same multiset of examples."""
    if not is_random(spec):
        return True
    return spec["op"] in _STABLE and all(random_content_stable(c) for c in spec.get("children", []) + ([spec["inner"]] if "inner" in spec else []))


def random_len_stable(spec) -> bool:
    if not is_random(spec):
        return True
    if spec["op"] in _STABLE | {"bucket", "shard", "skip", "take"}:
        kids = spec.get("children", []) + ([spec["inner"]] if "inner" in spec else [])
        if spec["op"] in ("filter", "yield_from"):
            return all(random_content_stable(c) for c in kids)
        return all(random_len_stable(c) for c in kids)
    return False


def model_dynamic(spec, src):
    cost_fn = f_cost(spec["k"])
    out = []
    buf: list = []
    it = iter(src)
    split = f_split(spec["split"]) if spec["split"] else None
    end = False
    while True:
        cost = 0.0

        def ready():
            if cost >= spec["th"] and (spec["min"] is None or len(buf) >= spec["min"]):
                return True
            return spec["max"] is not None and len(buf) >= spec["max"]

        while not ready():
            try:
                x = next(it)
            except StopIteration:
                break
            cost += cost_fn(x)
            buf.append(x)
        if not buf:
            return out
        if ready():
            if split:
                bs, buf = split(buf)
                out += bs
                continue
        elif spec["drop"]:
            return out
        out.append(buf)
        buf = []


def check_sample(spec, got, child_outs):
    """`got` must be an interleaving of the children's (cycled) streams that
    stops exactly when every child has been read to its end."""
    ch = spec["children"]
    pseudo = [is_pseudo(s) for s in ch]
    rnd = [is_random(s) for s in ch]
    if not ch:
        return eq("sample", got, [])
    owner: dict[str, set[int]] = {}
    for i, c in enumerate(child_outs):
        for x in c:
            owner.setdefault(canon(x), set()).add(i)
    if any(len(v) > 1 for v in owner.values()):
        return  # ambiguous
    const = {canon(model_pseudo(s, 1)[0]): i for i, s in enumerate(ch) if pseudo[i]}
    streams: list[list] = [[] for _ in ch]
    last_done_at = -1
    for o, x in enumerate(got):
        k = canon(x)
        if k in owner:
            i = next(iter(owner[k]))
        else:
            i = None
            for j, s in enumerate(ch):
                if pseudo[j] and canon(model_pseudo(s, len(streams[j]) + 1)[-1]) == k:
                    i = j
                    break
            if i is None:
                if spec["repeats"] and any(r and not random_content_stable(s) for r, s in zip(rnd, ch)):
                    return
                raise Mismatch("sample", f"example {k[:200]} comes from no pipeline", got, child_outs)
        streams[i].append(x)
        if not pseudo[i] and len(streams[i]) == len(child_outs[i]):
            last_done_at = o
    for i, s in enumerate(ch):
        if pseudo[i]:
            continue
        c = child_outs[i]
        g = streams[i]
        if spec["repeats"]:
            if rnd[i]:
                if random_content_stable(s) and len(g) >= len(c):
                    eqset("sample", g[: len(c)], c, f"first epoch of pipeline {i}")
            else:
                want = (c * (len(g) // max(1, len(c)) + 1))[: len(g)] if c else []
                eq("sample", g, want, f"order within pipeline {i}")
            if len(g) < len(c):
                raise Mismatch("sample", f"pipeline {i} was not read to its end", got, child_outs)
        else:
            eq("sample", g, c, f"pipeline {i} must be read exactly once, in order")
    if any(len(c) for c, p in zip(child_outs, pseudo) if not p):
        if last_done_at != len(got) - 1:
            raise Mismatch("sample", f"did not stop when the last pipeline ended (at {last_done_at}, {len(got)} emitted)", got, child_outs)
