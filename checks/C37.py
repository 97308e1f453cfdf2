"""C37: run directories identify their configuration."""
import dataclasses
import json
import os
import random
import re
import subprocess
import sys

from vlib import Check, main

HELPER = """
import sys, json, random
sys.path[:0] = json.loads(sys.argv[1])
from vlib import setup_fairseq2
setup_fairseq2(None)
sys.path.insert(0, sys.argv[2])
import C37
c = C37.Maker()
print("ready", flush=True)
for line in sys.stdin:
    case = json.loads(line)
    print(json.dumps(c.tags(case)), flush=True)
"""


class Maker:
    """Makes the tags of a configuration, its copies and its mutations."""

    def __init__(self):
        import fairseq2.recipe  # noqa: F401
        from fairseq2.utils.structured import StandardValueConverter
        self.conv = StandardValueConverter()

    def tag(self, config, size, fmt=None):
        from fairseq2.recipe.config import CommonSection
        from fairseq2.recipe.internal.config import _RecipeConfigHolder
        from fairseq2.recipe.internal.sweep_tag import _StandardSweepTagGenerator
        from fairseq2.world_info import WorldInfo
        sec = CommonSection() if fmt is None else CommonSection(sweep_format=fmt)
        return _StandardSweepTagGenerator(sec, WorldInfo(0, size, 0, 1), _RecipeConfigHolder(config), self.conv).maybe_generate()

    def make(self, case):
        import confkit
        rng = random.Random(case["seed"])
        confkit._count[0] = 0
        s = confkit.dc(rng, case["depth"], case["wide"])
        types = confkit.Types()
        return rng, types, s, types.value(rng, s)

    def tags(self, case):
        rng, types, s, v = self.make(case)
        return [self.tag(v, n) for n in (1, 8)]


# Pairs of the known finding `hash-boundary`.
KNOWN = [({"a": "xb", "b": "y"}, {"a": "x", "b": "by"}), ({"a": "xb1"}, {"a": "x", "b": 1})]


class C37(Check):
    id = "C37"
    rule = "the tags of a configuration are equal in every process and for every order of its keys and sets, and differ from those of each of its single place mutations and of other world sizes"
    required = ["tags", "mutations", "other_process", "reordered", "sizes", "formats", "bad_formats", "pairs", "disabled", "directories"]
    assumptions = ["different configurations may share a 32 bit hash by chance (probability 2^-32 for each pair compared)"]
    workers = 6

    def gen(self, rng, tier):
        for i in range(900 if tier == "quick" else 30000):
            yield dict(seed=rng.randrange(1 << 40), depth=rng.choice([0, 1, 1, 2, 3]), wide=rng.choice([1, 2, 4, 6]), other=i % 3 == 0)
        for a, b in KNOWN:
            yield dict(pair=[a, b])

    def setup_worker(self):
        self.maker = Maker()
        from vlib import scratch
        self.dir = scratch()
        here = os.path.dirname(os.path.abspath(__file__))
        env = dict(os.environ, PYTHONHASHSEED=str(random.SystemRandom().randrange(1, 1 << 30)))
        self.proc = subprocess.Popen([sys.executable, "-c", HELPER, json.dumps([here + "/../lib"] + [p for p in sys.path if p]), here], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env)
        line = self.proc.stdout.readline()
        if line.strip() != "ready":
            raise RuntimeError(f"helper process: {line}")

    def run(self, c, obs):
        from fairseq2.recipe.config import CommonSection
        from fairseq2.utils.validation import ValidationError
        tag = self.maker.tag
        if "pair" in c:
            a, b = c["pair"]
            obs.count("pairs")
            obs.count("assertions")
            if tag(a, 1) == tag(b, 1):
                obs.violate("hash-boundary" if boundary(self.maker, a, b) else "different-configs-share-tag", f"{a} and {b}")
            return
        rng, types, s, v = self.maker.make(c)
        t = tag(v, 1)
        obs.count("tags")
        obs.state(t)
        obs.check(re.fullmatch(r"ws_1\.[0-9a-f]{8,}", t), "tag-format", t)
        # Other world sizes
        n = rng.choice([2, 8, 11, 64])
        tn = tag(v, n)
        obs.count("sizes")
        obs.check(tn != t and tn.split(".")[-1] != t.split(".")[-1], "world-size-shares-tag", lambda: f"{t} {tn}")
        # The same configuration in another process, with another hash seed
        if c["other"]:
            self.proc.stdin.write(json.dumps(c) + "\n")
            self.proc.stdin.flush()
            got = json.loads(self.proc.stdout.readline())
            obs.count("other_process")
            obs.check(got == [t, tag(v, 8)], "processes-disagree", lambda: f"{v}: {got} and {t}")
        # As plain data, with keys and set elements in another order
        w = reorder(rng, v)
        obs.count("reordered")
        obs.check(tag(w, 1) == t, "order-changes-tag", lambda: f"{v} and {w}: {t} and {tag(w, 1)}")
        p = shuffled(rng, types.plain(s, v))
        obs.check(tag(p, 1) == tag(types.plain(s, v), 1), "order-changes-tag", lambda: f"{p}")
        # Single place mutations
        seen = {t: v}
        for _ in range(10):
            m = types.mutate(rng, s, rng.choice(list(seen.values())))
            if m is None:
                break
            m = m[0]
            if any(same(m, x) for x in seen.values()):
                continue
            tm = tag(m, 1)
            obs.count("mutations")
            if tm in seen:
                mech = "hash-boundary" if boundary(self.maker, seen[tm], m) else "different-configs-share-tag"
                obs.violate(mech, f"{tm}: {seen[tm]} and {m}")
                break
            seen[tm] = m
        # Pairs of plain configurations with close keys and values
        for _ in range(6):
            a, b = pair(rng)
            obs.count("pairs")
            ta, tb = tag(a, 1), tag(b, 1)
            if same(a, b):
                obs.check(ta == tb, "equal-configs-differ", lambda: f"{a} {b}")
            elif ta == tb:
                obs.violate("hash-boundary" if boundary(self.maker, a, b) else "different-configs-share-tag", f"{ta}: {a} and {b}")
        # Formats
        a = {"x": {"y": rng.choice([1, True, None, 0.5, "ab c/d.e", "../..", "q" * 40, "\u00e9\u00e8"])}, "z": [rng.randint(0, 9)]}
        f, want = fmt(rng, a)
        if want is None:
            obs.count("bad_formats")
            try:
                out = tag(a, 3, f)
                obs.violate("bad-format-accepted", f"{f!r} gave {out!r}")
            except ValidationError:
                pass
        else:
            obs.count("formats")
            out = tag(a, 3, f)
            obs.check(want(out), "format-differs", lambda: f"{f!r} of {a} gave {out!r}")
            obs.check("/" not in out and "\0" not in out and out not in (".", ".."), "bad-file-name", lambda: f"{f!r} of {a} gave {out!r}")
        # Directories
        from fairseq2.file_system import LocalFileSystem
        from fairseq2.recipe.internal.config import _RecipeConfigHolder
        from fairseq2.recipe.internal.output_dir import _OutputDirectoryCreator
        from fairseq2.recipe.internal.sweep_tag import _StandardSweepTagGenerator
        from fairseq2.world_info import WorldInfo
        base = self.dir / f"o{rng.randrange(4)}"
        sec = CommonSection(no_sweep_dir=rng.random() < 0.3)
        gen = _StandardSweepTagGenerator(sec, WorldInfo(0, 1, 0, 1), _RecipeConfigHolder(v), self.maker.conv)
        d = _OutputDirectoryCreator(gen, LocalFileSystem()).create(base)
        obs.count("disabled" if sec.no_sweep_dir else "directories")
        obs.check(d == (base if sec.no_sweep_dir else base / t).resolve() and d.is_dir(), "wrong-directory", lambda: f"{d}")


def same(a, b):
    if type(a) is not type(b):
        return False
    if dataclasses.is_dataclass(a):
        return all(same(getattr(a, f.name), getattr(b, f.name)) for f in dataclasses.fields(a))
    if isinstance(a, dict):
        return a.keys() == b.keys() and sorted(map(repr, a)) == sorted(map(repr, b)) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, set):
        return a == b and sorted(map(repr, a)) == sorted(map(repr, b))
    return a == b and repr(a) == repr(b) or a == b and not isinstance(a, float)


def leaves(p, path=""):
    if isinstance(p, dict):
        for k, e in p.items():
            yield from leaves(e, f"{path}.{k}" if path else f"{k}")
    elif isinstance(p, list):
        for i, e in enumerate(p):
            yield from leaves(e, f"{path}[{i}]")
    else:
        yield path, p


def boundary(maker, a, b):
    """Whether the two configurations, all of whose strings are short words,
    are the same once keys and values are written next to each other: the known
    finding `hash-boundary`."""
    out = []
    for c in (a, b):
        ls = sorted(leaves(maker.conv.unstructure(c)))
        if any(isinstance(x, str) and not re.fullmatch(r"[^\W\d][-\w]{0,14}", x) for _, x in ls):
            return False
        if sum(isinstance(x, str) for _, x in ls) < 1:
            return False
        word = lambda x: "none" if x is None else ("t" if x else "f") if isinstance(x, bool) else str(x)
        out.append("".join(k + word(x) for k, x in ls))
    # Equal streams of leaves at equal places would not be a boundary problem.
    return out[0] == out[1] and [(k, str(x)) for k, x in sorted(leaves(maker.conv.unstructure(a)))] != [(k, str(x)) for k, x in sorted(leaves(maker.conv.unstructure(b)))]


def reorder(rng, v):
    if dataclasses.is_dataclass(v):
        return dataclasses.replace(v, **{f.name: reorder(rng, getattr(v, f.name)) for f in dataclasses.fields(v)})
    if isinstance(v, dict):
        ks = list(v)
        rng.shuffle(ks)
        return {k: reorder(rng, v[k]) for k in ks}
    if isinstance(v, (list, tuple)):
        return type(v)(reorder(rng, e) for e in v)
    if isinstance(v, set):
        es = list(v)
        rng.shuffle(es)
        out = set(range(10**6, 10**6 + rng.choice([0, 50])))  # another table size
        out.update(es)
        return out - set(range(10**6, 10**6 + 50)) | set(es)
    return v


def shuffled(rng, p):
    if isinstance(p, dict):
        ks = list(p)
        rng.shuffle(ks)
        return {k: shuffled(rng, p[k]) for k in ks}
    return [shuffled(rng, e) for e in p] if isinstance(p, list) else p


def pair(rng):
    """Two plain configurations that differ little (or not at all)."""
    vals = [None, "none", True, "t", "True", False, "f", 1, "1", 1.0, "1.0", "", "-", [], {}, [[]], [None], "a", "a b", "ab", ["a", "b"], ["ab"], {"a": 1}, {"b": 1}, "inf", float("inf"), "/v1.0/x", "/v10/x", "q" * 16, "q" * 17, 0.1, 0.10000000000000002, 10**20, 1e20, -0.5, 0.5]
    keys = ["a", "b", "c"]
    a = {k: rng.choice(vals) for k in keys}
    if rng.random() < 0.3:
        a["d"] = {k: rng.choice(vals) for k in keys}
    import copy
    b = copy.deepcopy(a)
    r = rng.random()
    if r < 0.75:
        node = b["d"] if "d" in b and rng.random() < 0.5 else b
        node[rng.choice(keys)] = rng.choice(vals)
    elif r < 0.85:
        i, j = rng.sample(keys, 2)
        b[i], b[j] = b[j], b[i]
    elif r < 0.92:
        b["e"] = rng.choice([[], {}, ""])
    elif "d" in b:
        for k, e in b.pop("d").items():
            b[f"d.{k}"] = e
    return a, b


def fmt(rng, a):
    """A random format with the predicate its tag must satisfy (None: invalid)."""
    y, z = a["x"]["y"], a["z"][0]
    word = {None: "none", True: "t", False: "f"}.get(y) if not isinstance(y, (int, float)) or isinstance(y, bool) else str(y)
    if isinstance(y, str):
        w = re.sub(r"[^-_\w]", "", y)
        word = w if len(w) < 16 else None
    parts, rx, bad = [], [], False
    for _ in range(rng.randint(1, 5)):
        k = rng.randrange(12)
        if k == 0:
            parts.append("{{"), rx.append(re.escape("{"))
        elif k == 1:
            parts.append("}}"), rx.append(re.escape("}"))
        elif k == 2:
            parts.append("{world_size}"), rx.append("3")
        elif k == 3:
            parts.append("{hash}"), rx.append("[0-9a-f]{8}")
        elif k in (4, 5):
            parts.append("{x.y}"), rx.append(re.escape(word) if word is not None else "[0-9a-f]{8}")
        elif k == 6:
            parts.append("{z[0]}"), rx.append(str(z))
        elif k == 7 and rng.random() < 0.4:
            parts.append(rng.choice(["{}", "{nope}", "{x}", "{z}", "{z[1]}", "{x.y.z}"]))
            bad = True
        else:
            t = rng.choice(["foo", "_", "-", "r1."])
            parts.append(t), rx.append(re.escape(t))
    if rng.random() < 0.15:
        parts.insert(0, rng.choice(["{", "a}b", "x}"]) if rng.random() < 0.5 else "")
        if parts[0]:
            parts = [parts[0]] if parts[0] == "x}" else [parts[0], "q"] if parts[0] == "{" else parts
            bad = True
    f = "".join(parts)
    if not bad and f.strip() != f:
        return "foo", lambda out: out == "foo"
    return f, None if bad else (lambda out: re.fullmatch("".join(rx), out) is not None)


if __name__ == "__main__":
    main(C37())
