"""Random configuration types and values.

A type is described by a JSON-able spec: ["int"], ["opt", spec, none_first],
["union", [spec, ...]], ["list"|"seq"|"vtuple"|"set"|"aset", spec],
["tuple", [spec, ...]], ["dict"|"map", key spec, value spec],
["dc", name, [[field, spec, has default], ...]], ["enum", name, [names]],
["lit", [values]], or a scalar. `build` makes the real type, `value` a value
of it. Values are built from a `random.Random`, so that another process can
build the same ones.
"""
from __future__ import annotations

import dataclasses
from collections.abc import Mapping, Sequence, Set
from enum import Enum
from pathlib import Path
from typing import Any, Literal, Optional, Union

import torch

SCALARS = ["int", "float", "str", "bool", "path", "dtype", "device"]
HASHABLE = ["int", "str", "path", "float", "enum"]
DTYPES = ["float32", "float16", "bfloat16", "int64", "uint8", "bool", "complex64"]
DEVICES = ["cpu", "cuda", "cuda:0", "cuda:7", "meta"]

# Which kind of plain data a type turns into; two alternatives of a union that
# turn into the same kind cannot be told apart.
PLAIN = {"int": "int", "float": "float", "str": "str", "bool": "bool", "path": "str", "dtype": "str", "device": "str", "enum": "str", "lit": "str",
         "list": "list", "seq": "list", "vtuple": "list", "tuple": "list", "set": "list", "aset": "list", "dict": "dict", "map": "dict", "dc": "dict"}

_count = [0]


def spec(rng, depth=3, hashable=False, wide=4):
    if hashable:
        k = rng.choice(HASHABLE)
        return _enum(rng) if k == "enum" else [k]
    r = rng.random()
    if depth <= 0 or r < 0.3:
        return [rng.choice(SCALARS)] if rng.random() < 0.8 else _leaf(rng)
    if r < 0.4:
        return _leaf(rng)
    if r < 0.52:
        return ["opt", spec(rng, depth - 1, wide=wide), rng.random() < 0.5]
    if r < 0.6:
        out, kinds = [], set()
        for _ in range(rng.randint(2, 4)):
            s = spec(rng, depth - 1, wide=wide)
            while s[0] in ("opt", "union"):
                s = s[1] if s[0] == "opt" else s[1][0]
            if PLAIN[s[0]] not in kinds:
                kinds.add(PLAIN[s[0]])
                out.append(s)
        return ["union", out] if len(out) > 1 else ["opt", out[0], False]
    if r < 0.75:
        k = rng.choice(["list", "seq", "vtuple", "set", "aset", "list"])
        return [k, spec(rng, depth - 1, hashable=k in ("set", "aset"), wide=wide)]
    if r < 0.8:
        return ["tuple", [spec(rng, depth - 1, wide=wide) for _ in range(rng.randint(1, 3))]]
    if r < 0.88:
        return [rng.choice(["dict", "map"]), spec(rng, 0, hashable=True), spec(rng, depth - 1, wide=wide)]
    return dc(rng, depth - 1, wide)


def dc(rng, depth, wide=4):
    _count[0] += 1
    fs = [[f"f{i}_{rng.choice('abcxyz')}", spec(rng, depth, wide=wide), rng.random() < 0.6] for i in range(rng.randint(1, wide))]
    fs.sort(key=lambda f: f[2])  # required fields first
    return ["dc", f"C{_count[0]}", fs]


def _enum(rng):
    return ["enum", "E", rng.sample(["RED", "GREEN", "BLUE", "none", "t"], rng.randint(1, 4))]


def _leaf(rng):
    return _enum(rng) if rng.random() < 0.5 else ["lit", rng.sample(["all", "last", "none", "t", "a-b"], rng.randint(1, 4))]


class Types:
    """Builds (and remembers) the real types of specs."""

    def __init__(self):
        self._memo = {}

    def build(self, s) -> Any:
        key = repr(s)
        t = self._memo.get(key)
        if t is None:
            t = self._memo[key] = self._build(s)
        return t

    def _build(self, s):
        k, b = s[0], self.build
        if k in ("int", "float", "str", "bool"):
            return {"int": int, "float": float, "str": str, "bool": bool}[k]
        if k == "path":
            return Path
        if k == "dtype":
            return torch.dtype
        if k == "device":
            return torch.device
        if k == "enum":
            return Enum(s[1], {n: i + 1 for i, n in enumerate(s[2])})
        if k == "lit":
            return Literal[tuple(s[1])]
        if k == "opt":
            return Union[None, b(s[1])] if s[2] else Optional[b(s[1])]
        if k == "union":
            return Union[tuple(b(e) for e in s[1])]
        if k == "list":
            return list[b(s[1])]
        if k == "seq":
            return Sequence[b(s[1])]
        if k == "vtuple":
            return tuple[b(s[1]), ...]
        if k == "set":
            return set[b(s[1])]
        if k == "aset":
            return Set[b(s[1])]
        if k == "tuple":
            return tuple[tuple(b(e) for e in s[1])]
        if k == "dict":
            return dict[b(s[1]), b(s[2])]
        if k == "map":
            return Mapping[b(s[1]), b(s[2])]
        if k == "dc":
            import random
            fs = []
            for name, fspec, has_default in s[2]:
                t = b(fspec)
                if has_default:
                    v = self.value(random.Random(f"{s[1]}.{name}"), fspec)
                    fs.append((name, t, dataclasses.field(default_factory=lambda v=v: v)))
                else:
                    fs.append((name, t))
            return dataclasses.make_dataclass(s[1], fs)
        raise AssertionError(s)

    def default(self, s, name):
        import random
        for n, fspec, has in s[2]:
            if n == name:
                return self.value(random.Random(f"{s[1]}.{name}"), fspec)
        raise AssertionError(name)

    def value(self, rng, s, size=3):
        k = s[0]
        v = lambda e: self.value(rng, e, size)
        if k == "int":
            return rng.choice([0, 1, -1, 2, 10, rng.randint(-10**6, 10**6), rng.randint(0, 2**63), 10**20])
        if k == "float":
            return rng.choice([0.0, 1.0, -1.0, 0.1, 1e-5, 1e-8, 1e300, 2.5e22, float("inf"), -float("inf"), rng.random(), rng.uniform(-1e3, 1e3), float(rng.randint(-5, 5))])
        if k == "str":
            return text(rng)
        if k == "bool":
            return rng.random() < 0.5
        if k == "path":
            return Path(rng.choice(["/a/b.c", "a", ".", "/", "../x y", "/data/v1.0", "/data/v10", "n\u00f6n/e", "/" + "p" * rng.randint(1, 30)]))
        if k == "dtype":
            return getattr(torch, rng.choice(DTYPES))
        if k == "device":
            return torch.device(rng.choice(DEVICES))
        if k == "enum":
            return self.build(s)[rng.choice(s[2])]
        if k == "lit":
            return rng.choice(s[1])
        if k == "opt":
            return None if rng.random() < 0.35 else v(s[1])
        if k == "union":
            return v(rng.choice(s[1]))
        if k in ("list", "seq"):
            return [v(s[1]) for _ in range(rng.randint(0, size))]
        if k == "vtuple":
            return tuple(v(s[1]) for _ in range(rng.randint(0, size)))
        if k in ("set", "aset"):
            return {v(s[1]) for _ in range(rng.randint(0, size))}
        if k == "tuple":
            return tuple(v(e) for e in s[1])
        if k in ("dict", "map"):
            return {v(s[1]): v(s[2]) for _ in range(rng.randint(0, size))}
        if k == "dc":
            return self.build(s)(**{n: v(f) for n, f, _ in s[2]})
        raise AssertionError(s)

    # -- reference conversions

    def plain(self, s, v):
        """The plain data of value `v` of type `s` (sets as sorted lists)."""
        k = s[0]
        if k == "opt":
            return None if v is None else self.plain(s[1], v)
        if k == "union":
            for e in s[1]:
                if self.fits(e, v):
                    return self.plain(e, v)
            return v if isinstance(v, bool) else self.plain(next(e for e in s[1] if self.loose(e, v)), v)
        if k == "path":
            return str(v)
        if k == "dtype":
            return str(v).removeprefix("torch.")
        if k == "device":
            return str(v)
        if k == "enum":
            return v.name
        if k in ("list", "seq", "vtuple"):
            return [self.plain(s[1], e) for e in v]
        if k in ("set", "aset"):
            return sorted([self.plain(s[1], e) for e in v])
        if k == "tuple":
            return [self.plain(t, e) for t, e in zip(s[1], v)]
        if k in ("dict", "map"):
            return {self.plain(s[1], a): self.plain(s[2], b) for a, b in v.items()}
        if k == "dc":
            return {n: self.plain(f, getattr(v, n)) for n, f, _ in s[2]}
        return v

    def fits(self, s, v):
        """Whether `v` is exactly a value of type `s`."""
        k = s[0]
        if k in ("int", "float", "str", "bool"):
            return type(v).__name__ == k
        if k == "path":
            return isinstance(v, Path)
        if k == "dtype":
            return isinstance(v, torch.dtype)
        if k == "device":
            return isinstance(v, torch.device)
        if k == "enum":
            return isinstance(v, self.build(s))
        if k == "lit":
            return isinstance(v, str) and v in s[1]
        if k == "opt":
            return v is None or self.fits(s[1], v)
        if k == "union":
            return any(self.fits(e, v) for e in s[1])
        if k in ("list", "seq"):
            return type(v) is list and all(self.fits(s[1], e) for e in v)
        if k == "vtuple":
            return type(v) is tuple and all(self.fits(s[1], e) for e in v)
        if k in ("set", "aset"):
            return type(v) is set and all(self.fits(s[1], e) for e in v)
        if k == "tuple":
            return type(v) is tuple and len(v) == len(s[1]) and all(self.fits(a, b) for a, b in zip(s[1], v))
        if k in ("dict", "map"):
            return type(v) is dict and all(self.fits(s[1], a) and self.fits(s[2], b) for a, b in v.items())
        if k == "dc":
            return type(v) is self.build(s) and all(self.fits(f, getattr(v, n)) for n, f, _ in s[2])
        raise AssertionError(s)

    def loose(self, s, v):
        try:
            self.plain(s, v)
        except Exception:
            return False
        kinds = {"list": list, "seq": list, "vtuple": tuple, "tuple": tuple, "set": set, "aset": set, "dict": dict, "map": dict}
        return isinstance(v, kinds[s[0]]) if s[0] in kinds else False

    def mutate(self, rng, s, v):
        """A value of type `s` that differs from `v` in exactly one place (None
        if no other value was found)."""
        k = s[0]
        if k == "dc":
            order = list(s[2])
            rng.shuffle(order)
            for n, f, _ in order:
                m = self.mutate(rng, f, getattr(v, n))
                if m is not None:
                    return (dataclasses.replace(v, **{n: m[0]}),)
            return None
        if k in ("list", "seq", "vtuple") and v and rng.random() < 0.6:
            i = rng.randrange(len(v))
            m = self.mutate(rng, s[1], v[i])
            if m is not None:
                w = list(v)
                w[i] = m[0]
                return ((w if k != "vtuple" else tuple(w)),)
        for _ in range(8):
            w = near(rng, v) if rng.random() < 0.5 else self.value(rng, s)
            if w is not SAME and self.fits(s, w) and (w != v or type(w) is not type(v)):
                return (w,)
        return None


SAME = object()


def near(rng, v):
    """A value that looks like `v`."""
    if isinstance(v, bool):
        return not v
    if isinstance(v, str):
        return rng.choice([v + rng.choice(". /-_!"), v.replace("/", ""), v.replace(".", ""), v.swapcase(), v[::-1], v + " ", "none" if v else ""])
    if isinstance(v, Path):
        return Path(rng.choice([str(v).replace(".", "") or "q", str(v) + ".", str(v) + "/0", str(v) + " "]))
    if isinstance(v, int):
        return rng.choice([v + 1, -v, v * 10])
    if isinstance(v, float):
        return rng.choice([v + 1e-7, -v, v * 10])
    if isinstance(v, (list, tuple)) and v:
        return rng.choice([v[:-1], v[::-1], v + v[-1:]])
    if isinstance(v, dict) and v:
        w = dict(v)
        w.popitem()
        return w
    return SAME


def text(rng):
    return rng.choice([
        "", "a", "b", "none", "t", "f", "1", "1.0", "-1", "true", "null", "~", "yes", "no", "1e-5", "0x10", "1_000", ".inf", ".nan", "2020-01-01", "12:30:45", "nan", "inf",
        "a b", " lead", "trail ", "x: y", "- x", "#c", "a#b", "a # b", "[1]", "{a: b}", "&a", "*a", "!t", "%d", "@x", "`", "|", ">", "?", ":", "-", "--- x", "...", "'q'", '"dq"', "back\\slash", "\t", "a\nb", "a\n", "\n", "a\r\nb", "\u2028", "\u00e9", "\U0001f600", "\x07", "\x00", "\ufeff", "=", "<<",
        "/data/v1.0", "/data/v10", r".*\.bias$", "llama3_1", "a-b", "a_b", "w" * 15, "w" * 16, "w" * 17, "ab" * 50, "long text " * 20,
        "".join(rng.choice("ab.-_/ 1") for _ in range(rng.randint(1, 6))), "".join(rng.choice("abcdefgh_.") for _ in range(rng.randint(14, 20)))])
