"""C30: configurations survive serialization and merging."""
import copy
import io
import json
import random
import traceback
from argparse import ArgumentParser

from vlib import Check, main, scratch


def eq(a, b):
    """Equality that tells 1, 1.0 and True apart."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return a == b or (a != a and b != b)


def show(e):
    return "".join(traceback.format_exception(e))


def rand_plain(rng, depth=2):
    import confkit
    r = rng.random()
    if depth > 0 and r < 0.2:
        return [rand_plain(rng, depth - 1) for _ in range(rng.randint(0, 3))]
    if depth > 0 and r < 0.4:
        return {rng.choice("abcd"): rand_plain(rng, depth - 1) for _ in range(rng.randint(0, 3))}
    return rng.choice([None, True, False, 0, 1, 7, -3, 0.5, 2.0, float("inf"), 10**20, confkit.text(rng), confkit.text(rng), "3", "0.5"])


def tree(rng, depth=3, keys="abcde"):
    out = {}
    for k in rng.sample(keys, rng.randint(0, 4)):
        out[k] = tree(rng, depth - 1, keys) if depth and rng.random() < 0.5 else rand_plain(rng, 1)
    return out


def overrides(rng, depth=3):
    out = tree(rng, 0)
    for k in rng.sample("abcde", rng.randint(0, 3)):
        out[k] = overrides(rng, depth - 1) if depth else rand_plain(rng, 1)
    if rng.random() < 0.35:
        out["_del_"] = rng.sample("abcdef", rng.randint(0, 3))
    if rng.random() < 0.35:
        out["_set_"] = tree(rng, 1, "abcdef")
    return out


def ref_merge(target, source):
    """The documented merge: delete, then override (recursively), then set."""
    if not isinstance(source, dict):
        return copy.deepcopy(source)
    out = copy.deepcopy(target) if isinstance(target, dict) else {}
    for k in source.get("_del_") or []:
        out.pop(k, None)
    for k, v in source.items():
        if k not in ("_del_", "_set_"):
            out[k] = ref_merge(out.get(k), v)
    out.update(copy.deepcopy(source.get("_set_") or {}))
    return out


class Env:
    def __init__(self, d):
        self.d = d

    def maybe_get(self, name):
        return self.d.get(name)

    def get(self, name):
        return self.d[name]


class C30(Check):
    id = "C30"
    rule = "typed -> plain -> (YAML) -> typed is the identity; ill-typed values are rejected with their path or accepted without changing them; merges and command line overrides equal a reference merge and leave their inputs alone"
    required = ["roundtrip", "yaml", "defaults", "missing", "extra", "ill_rejected", "ill_accepted", "path_named", "merged", "bad_directives", "cli_items", "cli_dels", "directives", "loads", "loads_rejected", "real_configs", "real_overrides"]
    assumptions = [
        "a union whose alternatives turn into the same plain data (e.g. of two dataclasses) is resolved in order by design and not generated",
        "`object` fields, dates and binary YAML values are not generated",
    ]

    def gen(self, rng, tier):
        n = 600 if tier == "quick" else 20000
        for _ in range(n):
            for kind in ("typed", "typed", "ill", "merge", "cli", "process", "load"):
                yield dict(kind=kind, seed=rng.randrange(1 << 40))
        yield dict(kind="real", seed=0)

    def setup_worker(self):
        import fairseq2.recipe  # noqa: F401
        from fairseq2.utils.structured import StandardValueConverter

        self.conv = StandardValueConverter()
        self.dir = scratch()

    def run(self, c, obs):
        obs.count("kind_" + c["kind"])
        getattr(self, "do_" + c["kind"])(random.Random(c["seed"]), obs)

    # -- the real configurations

    def do_real(self, rng, obs):
        import dataclasses
        import pathlib

        import fairseq2
        import fairseq2.recipe.config as rc
        from fairseq2.file_system import LocalFileSystem
        from fairseq2.models.family import ModelFamily
        from fairseq2.runtime.dependency import get_dependency_resolver
        from fairseq2.utils.config import StandardConfigMerger
        from fairseq2.utils.yaml import RuamelYamlDumper, RuamelYamlLoader

        configs = []
        for n, k in vars(rc).items():
            if dataclasses.is_dataclass(k) and isinstance(k, type):
                try:
                    v = k()
                except TypeError:
                    continue
                if not untyped(v):
                    configs.append((n, v))
        fairseq2.init_fairseq2()
        res = get_dependency_resolver()
        for name in res.iter_keys(ModelFamily):
            family = res.resolve(ModelFamily, key=name)
            for arch in sorted(family.get_archs()):
                configs.append((f"{name}/{arch}", family.maybe_get_arch_config(arch)))
        fs = LocalFileSystem()
        for name, v in configs:
            before = copy.deepcopy(v)
            plain = self.conv.unstructure(v)
            w = self.conv.structure(plain, type(v))
            obs.count("real_configs")
            obs.state("real", name)
            obs.check(w == v and v == before, "real-config-differs", lambda: f"{name}: {v} -> {w}")
            out = io.StringIO()
            RuamelYamlDumper(fs).dump(plain, out)
            back = RuamelYamlLoader(fs).load(io.StringIO(out.getvalue()))
            obs.check(len(back) == 1 and eq(back[0], plain), "real-yaml-differs", lambda: f"{name}: {plain} -> {back}")
            # Override each of its scalar fields
            for path in list(dict_paths(plain))[:40]:
                node = plain
                for k in path[:-1]:
                    node = node[k]
                old = node[path[-1]]
                if type(old) not in (int, float, bool):
                    continue
                new = {int: lambda: old + 1, float: lambda: old + 0.5, bool: lambda: not old}[type(old)]()
                ov, _ = self.cli([".".join(path) + "=" + json.dumps(new)], rng)
                m = StandardConfigMerger().merge(plain, ov[0])
                x = self.conv.unstructure(self.conv.structure(m, type(v)))
                want = copy.deepcopy(plain)
                node = want
                for k in path[:-1]:
                    node = node[k]
                node[path[-1]] = new
                obs.count("real_overrides")
                obs.check(x == want, "real-override-differs", lambda: f"{name}: {path}={new} gave {x}")

    # -- typed values

    def unordered(self, types, s, p):
        """Plain data with the lists of sets sorted."""
        k = s[0]
        try:
            if k == "opt":
                return None if p is None else self.unordered(types, s[1], p)
            if k in ("set", "aset"):
                return sorted(p)
            if k in ("list", "seq", "vtuple"):
                return [self.unordered(types, s[1], e) for e in p]
            if k == "tuple":
                return [self.unordered(types, t, e) for t, e in zip(s[1], p)]
            if k in ("dict", "map"):
                return {a: self.unordered(types, s[2], b) for a, b in p.items()}
            if k == "dc":
                return {n: self.unordered(types, f, p[n]) for n, f, _ in s[2]}
        except (TypeError, KeyError, AttributeError):
            pass
        return p

    def no_union_sets(self, s):
        """Sets within unions cannot be sorted by `unordered`."""
        def has(s, inside):
            if s[0] in ("set", "aset"):
                return inside
            if s[0] == "dc":
                return any(has(f[1], inside) for f in s[2])
            if s[0] in ("union", "tuple"):
                return any(has(e, inside or s[0] == "union") for e in s[1])
            return any(has(e, inside) for e in s[1:] if isinstance(e, list) and e and isinstance(e[0], str) and s[0] not in ("enum", "lit"))
        return not has(s, False)

    def make(self, rng):
        import confkit
        while True:
            s = confkit.dc(rng, rng.randint(1, 3), rng.randint(1, 5))
            if self.no_union_sets(s):
                types = confkit.Types()
                return types, s, types.value(rng, s)

    def do_typed(self, rng, obs):
        from fairseq2.utils.structured import StructureError
        types, s, v = self.make(rng)
        t = types.build(s)
        obs.state(s[0], len(s[2]), tuple(sorted({f[1][0] for f in s[2]})))
        before = copy.deepcopy(v)
        plain = self.conv.unstructure(v)
        obs.check(eq(self.unordered(types, s, plain), self.unordered(types, s, types.plain(s, v))), "unstructure-differs", lambda: f"{v} became {plain}")
        obs.check(v == before, "unstructure-modified", lambda: f"{before} became {v}")
        p2 = copy.deepcopy(plain)
        w = self.conv.structure(plain, t)
        obs.count("roundtrip")
        obs.check(w == v and types.fits(s, w), "roundtrip-differs", lambda: f"{v} -> {plain} -> {w}")
        obs.check(eq(plain, p2), "structure-modified-input", lambda: f"{p2} became {plain}")
        x = self.conv.structure(v, t)
        obs.check(x == v, "structured-again-differs", lambda: f"{v} -> {x}")
        # YAML
        from fairseq2.file_system import LocalFileSystem
        from fairseq2.utils.yaml import RuamelYamlDumper, RuamelYamlLoader
        fs = LocalFileSystem()
        f = self.dir / "c.yaml"
        if rng.random() < 0.5:
            RuamelYamlDumper(fs).dump(plain, f)
            back = RuamelYamlLoader(fs).load(f)
        else:
            io_ = io.StringIO()
            RuamelYamlDumper(fs).dump(plain, io_)
            back = RuamelYamlLoader(fs).load(io.StringIO(io_.getvalue()))
        obs.count("yaml")
        if obs.check(len(back) == 1 and eq(back[0], plain), "yaml-differs", lambda: f"{plain} -> {back}"):
            y = self.conv.structure(back[0], t)
            obs.check(y == v and types.fits(s, y), "yaml-roundtrip-differs", lambda: f"{v} -> {back} -> {y}")
        # Missing and extra fields
        some = [n for n, _, d in s[2] if d and rng.random() < 0.5]
        part = {k: e for k, e in plain.items() if k not in some}
        z = self.conv.structure(part, t)
        for n, fspec, _ in s[2]:
            want = types.default(s, n) if n in some else getattr(v, n)
            obs.check(getattr(z, n) == want, "default-differs", lambda: f"{n}: {getattr(z, n)} instead of {want}")
            obs.count("defaults", n in some)
        for n, _, d in s[2]:
            if not d:
                try:
                    z = self.conv.structure({k: e for k, e in plain.items() if k != n}, t)
                    obs.violate("missing-field-accepted", f"{n} missing gave {z}")
                except StructureError as e:
                    obs.count("missing")
                    obs.check(n in show(e), "missing-field-not-named", lambda: f"{n}: {show(e)}")
        try:
            z = self.conv.structure({**plain, "extra_key": 1}, t)
            obs.violate("extra-key-accepted", f"gave {z}")
        except StructureError as e:
            obs.count("extra")
            obs.check("extra_key" in show(e), "extra-key-not-named", lambda: show(e))

    def places(self, s, p, path=()):
        """All (spec, path of field names, setter) of plain data, outside of unions."""
        yield s, path, ()
        k = s[0]
        if k == "opt" and p is not None:
            for q in self.places(s[1], p, path):
                if q[2]:
                    yield q
        elif k in ("list", "seq", "vtuple"):
            for i, e in enumerate(p):
                for q in self.places(s[1], e, path):
                    yield q[0], q[1], (i,) + q[2]
        elif k == "tuple":
            for i, e in enumerate(p):
                for q in self.places(s[1][i], e, path):
                    yield q[0], q[1], (i,) + q[2]
        elif k in ("dict", "map"):
            for a, e in p.items():
                for q in self.places(s[2], e, path):
                    yield q[0], q[1], (a,) + q[2]
        elif k == "dc":
            for n, f, _ in s[2]:
                for q in self.places(f, p[n], path + (n,)):
                    yield q[0], q[1], (n,) + q[2]

    def same(self, s, inp, out):
        """Whether `out` (plain data of a structured value) is what `inp` says."""
        import torch
        k = s[0]
        if k in ("path", "dtype", "device") and not isinstance(out, str):
            return False
        if k in ("int", "float"):
            if isinstance(inp, str):
                try:
                    x = (int if k == "int" else float)(inp)
                except ValueError:
                    return False
                return x == out or (x != x and out != out)
            return not isinstance(inp, (list, dict)) and inp == out or (k == "float" and isinstance(inp, int) and float(inp) == out)
        if k == "path":
            from pathlib import Path
            return isinstance(inp, str) and str(Path(inp)) == out
        if k == "dtype":
            return isinstance(inp, str) and getattr(torch, inp.removeprefix("torch."), 0) is getattr(torch, out, 1)
        if k == "device":
            try:
                return isinstance(inp, str) and torch.device(inp) == torch.device(out)
            except RuntimeError:
                return False
        if k == "opt":
            return out is None if inp is None else self.same(s[1], inp, out)
        if k == "union":
            return any(self.same(e, inp, out) for e in s[1])
        if k in ("set", "aset"):
            return isinstance(inp, list) and len(inp) == len(out) and all(any(self.same(s[1], a, b) for b in out) for a in inp)
        if k in ("list", "seq", "vtuple"):
            return isinstance(inp, list) and isinstance(out, list) and len(inp) == len(out) and all(self.same(s[1], a, b) for a, b in zip(inp, out))
        if k == "tuple":
            return isinstance(inp, list) and isinstance(out, list) and len(inp) == len(out) == len(s[1]) and all(self.same(t, a, b) for t, a, b in zip(s[1], inp, out))
        if k in ("dict", "map"):
            if not isinstance(inp, dict) or not isinstance(out, dict):
                return False
            if len(inp) != len(out):
                return len(inp) > len(out)  # equal keys after parsing
            return all(self.same(s[1], a, b) and self.same(s[2], inp[a], out[b]) for a, b in zip(inp, out))
        if k == "dc":
            if not isinstance(inp, dict) or not isinstance(out, dict) or not set(inp) <= {f[0] for f in s[2]}:
                return False
            return all(self.same(f, inp[n], out[n]) if n in inp else d for n, f, d in s[2])
        return eq(inp, out)

    def do_ill(self, rng, obs):
        from fairseq2.utils.structured import StructureError
        types, s, v = self.make(rng)
        t = types.build(s)
        plain = types.plain(s, v)
        obs.state(tuple(sorted({f[1][0] for f in s[2]})))
        for _ in range(8):
            sub, path, keys = rng.choice(list(self.places(s, plain))[1:] or [(None, (), ())])
            if not keys:
                continue
            data = copy.deepcopy(plain)
            node = data
            for k in keys[:-1]:
                node = node[k]
            old, new = node[keys[-1]], rand_plain(rng)
            node[keys[-1]] = new
            before = copy.deepcopy(data)
            try:
                w = self.conv.structure(data, t)
            except StructureError as e:
                obs.count("ill_rejected")
                msg = show(e)
                obs.count("path_named")
                obs.check(all(f"`{n}` field" in msg for n in path), "path-not-named", lambda: f"{path}: {msg}")
                try:
                    fits = any(self.valid(types, sub2, new) for sub2 in [sub])
                except Exception:
                    raise
                obs.check(not fits, "valid-value-rejected", lambda: f"{new!r} for {sub}: {msg}")
                continue
            finally:
                obs.check(eq(data, before), "structure-modified-input", lambda: f"{before} became {data}")
            obs.count("ill_accepted")
            obs.check(types_ok(types, s, w), "result-of-another-type", lambda: f"{new!r} for {sub} (was {old!r}): {w}")
            obs.check(self.same(s, data, types.plain(s, w)) if types_ok(types, s, w) else True, "value-coerced", lambda: f"{new!r} for {sub} at {keys} (was {old!r}) became {w}")

    def valid(self, types, s, p):
        """Whether plain data `p` is exactly that of some value of type `s`."""
        k = s[0]
        if k == "opt":
            return p is None or self.valid(types, s[1], p)
        if k == "union":
            return any(self.valid(types, e, p) for e in s[1])
        if k in ("int", "float", "str", "bool"):
            return type(p).__name__ == k
        if k == "path":
            return isinstance(p, str)
        if k in ("enum",):
            return isinstance(p, str) and p in s[2]
        if k == "lit":
            return isinstance(p, str) and p in s[1]
        if k in ("list", "seq", "vtuple"):
            return isinstance(p, list) and all(self.valid(types, s[1], e) for e in p)
        if k in ("set", "aset"):
            return isinstance(p, list) and all(self.valid(types, s[1], e) for e in p) and len({self.norm(s[1], e) for e in p}) == len(p)
        if k == "tuple":
            return isinstance(p, list) and len(p) == len(s[1]) and all(self.valid(types, t, e) for t, e in zip(s[1], p))
        if k in ("dict", "map"):
            return isinstance(p, dict) and all(self.valid(types, s[1], a) and self.valid(types, s[2], b) for a, b in p.items())
        if k == "dc":
            return isinstance(p, dict) and set(p) <= {f[0] for f in s[2]} and all(self.valid(types, f, p[n]) if n in p else d for n, f, d in s[2])
        return False

    @staticmethod
    def norm(s, e):
        from pathlib import Path
        return Path(e) if s[0] == "path" else e

    # -- merging

    def do_merge(self, rng, obs):
        from fairseq2.utils.config import StandardConfigMerger
        m = StandardConfigMerger()
        target = tree(rng) if rng.random() < 0.95 else rand_plain(rng)
        for _ in range(rng.randint(1, 4)):
            source = overrides(rng) if rng.random() < 0.95 else rand_plain(rng)
            t0, s0 = copy.deepcopy(target), copy.deepcopy(source)
            out = m.merge(target, source)
            want = ref_merge(t0, s0)
            obs.count("merged")
            obs.state(len(str(want)) // 8)
            obs.check(eq(out, want), "merge-differs", lambda: f"{t0} + {s0} = {out}, should be {want}")
            obs.check(eq(target, t0) and eq(source, s0), "merge-modified-input", lambda: f"{t0} + {s0}: {target}, {source}")
            if isinstance(source, dict):
                scramble(out)
                obs.check(eq(target, t0) and eq(source, s0), "merge-aliases-input", lambda: f"{t0} + {s0}")
            target = want
        bad = overrides(rng)
        node, path = bad, []
        while rng.random() < 0.5:
            k = rng.choice("abc")
            node[k] = overrides(rng)
            node = node[k]
            path.append(k)
        key, val = rng.choice([("_del_", "a"), ("_del_", {"a": 1}), ("_del_", [1]), ("_del_", ["a", None]), ("_set_", "a"), ("_set_", ["a"]), ("_set_", {1: 2}), ("_set_", 3)])
        node[key] = val
        t0 = copy.deepcopy(target)
        try:
            out = m.merge(target if isinstance(target, dict) else {}, bad)
            obs.violate("bad-directive-accepted", f"{bad}: {out}")
        except TypeError as e:
            obs.count("bad_directives")
            obs.check(".".join(path + [key]) in str(e), "bad-directive-not-named", lambda: f"{path} {key}: {e}")
        obs.check(eq(target, t0), "merge-modified-input", lambda: f"{t0}: {target}")

    def items(self, rng, target, obs):
        """Random command line items with what they make of `target`."""
        want = copy.deepcopy(target)
        out = []
        for _ in range(rng.randint(1, 6)):
            paths = list(dict_paths(want))
            if rng.random() < 0.3 and paths:
                path = rng.choice(paths)
                node = want
                for k in path[:-1]:
                    node = node[k]
                del node[path[-1]]
                out.append("del:" + ".".join(path))
                obs.count("cli_dels")
                continue
            if paths and rng.random() < 0.6:
                path = rng.choice(paths)
                if rng.random() < 0.4:
                    path = path + (rng.choice("abc"),)
            else:
                path = tuple(rng.choice("abcde") for _ in range(rng.randint(1, 3)))
            val = rng.choice([None, True, 3, -1, 0.5, 1e-5, "x", "a b", "1", "", "x=y", [1, "2"], {}, {"a": 1}, {"b": {"c": [2]}}, tree(rng, 1)])
            while not json_ok(val):
                val = tree(rng, 1)
            node = want
            for k in path[:-1]:
                if not isinstance(node.get(k), dict):
                    node[k] = {}
                node = node[k]
            node[path[-1]] = copy.deepcopy(val)
            sp = rng.choice(["", " "])
            out.append(rng.choice(["", "set:"]) + ".".join(path) + sp + "=" + sp + json.dumps(val))
            obs.count("cli_items")
        return out, want

    def cli(self, items, rng):
        from fairseq2.utils.argparse import ConfigAction
        parser = ArgumentParser()
        parser.add_argument("--config", dest="c", action=ConfigAction)
        argv = []
        i = 0
        while i < len(items):
            n = rng.randint(1, 3)
            argv += ["--config"] + items[i:i + n]
            i += n
        return parser.parse_args(argv).c, argv

    def do_cli(self, rng, obs):
        from fairseq2.utils.config import StandardConfigMerger
        target = tree(rng)
        items, want = self.items(rng, target, obs)
        ov, argv = self.cli(items, rng)
        out = target
        for o in ov:
            out = StandardConfigMerger().merge(out, o)
        obs.state(len(items), len(str(want)) // 8)
        obs.check(eq(out, want), "cli-override-differs", lambda: f"{target} with {argv} gave {out}, should be {want}")

    # -- directives

    def do_process(self, rng, obs):
        import re
        from pathlib import Path

        from fairseq2.utils.config import ReplaceEnvDirective, ReplacePathDirective, StandardConfigProcessor
        env = {n: rng.choice(["", "v1", "/p/q", "$x", "a}b", "\\1"]) for n in rng.sample(["A", "B_1", "_C", "HOME"], 2)}

        def text():
            parts = [rng.choice(["x", "", "/", "${dir}", "${env:A}", "${env:B_1}", "${env:_C:def}", "${env:HOME:}", "${env:1A}", "${env:}", "$dir", "${dir", "{dir}", "${env:A:x y}"]) for _ in range(rng.randint(0, 4))]
            return "".join(parts)

        def fill(d):
            r = rng.random()
            if d and r < 0.3:
                return [fill(d - 1) for _ in range(rng.randint(0, 3))]
            if d and r < 0.6:
                return {rng.choice(["a", "b", "${dir}", "${env:A}"]): fill(d - 1) for _ in range(rng.randint(0, 3))}
            return rng.choice([None, 1, 0.5, True, text(), text()])

        def ref(v):
            if isinstance(v, list):
                return [ref(e) for e in v]
            if isinstance(v, dict):
                return {k: ref(e) for k, e in v.items()}
            if isinstance(v, str):
                def sub(mt):
                    obs.count("directives")
                    return env.get(mt[1], mt[2] or "")
                return re.sub(r"\$\{env:([A-Za-z_]\w*)(?::([^}]*))?\}", sub, v, flags=re.A).replace("${dir}", "/the/dir")
            return v

        data = fill(3)
        before = copy.deepcopy(data)
        out = StandardConfigProcessor([ReplaceEnvDirective(Env(env))]).process(data, [ReplacePathDirective(Path("/the/dir"))])
        want = ref(before)
        obs.state(len(str(want)) // 8)
        obs.check(eq(out, want), "directives-differ", lambda: f"{before} with {env} gave {out}, should be {want}")
        obs.check(eq(data, before), "process-modified-input", lambda: f"{before} became {data}")

    # -- the loader of recipes, end to end

    def do_load(self, rng, obs):
        import confkit
        from fairseq2.file_system import LocalFileSystem
        from fairseq2.recipe.cli import _RecipeConfigLoader
        from fairseq2.recipe.error import RecipeConfigParseError
        from fairseq2.recipe.internal.config import _StandardRecipeConfigStructurer
        from fairseq2.utils.config import ReplaceEnvDirective, StandardConfigMerger, StandardConfigProcessor
        from fairseq2.utils.yaml import RuamelYamlDumper, RuamelYamlLoader

        while True:
            s = confkit.dc(rng, 2, 4)
            for f in s[2]:
                f[2] = True
            if self.no_union_sets(s):
                break
        types = confkit.Types()
        t = types.build(s)
        fs = LocalFileSystem()
        loader = _RecipeConfigLoader(fs, RuamelYamlLoader(fs), self.conv, StandardConfigMerger(), StandardConfigProcessor([ReplaceEnvDirective(Env({}))]), _StandardRecipeConfigStructurer(None, self.conv, None))
        defaults = {n: types.default(s, n) for n, _, _ in s[2]}
        want = dict(defaults)
        f = None
        if rng.random() < 0.7:
            part = {}
            for n, fs_, _ in s[2]:
                if rng.random() < 0.5 and not self.mergeable(fs_):
                    want[n] = types.value(rng, fs_)
                    part[n] = types.plain(fs_, want[n])
            if not part:
                n, fs_, _ = s[2][0]
                part["_set_"] = {n: types.plain(fs_, want[n])}
            f = self.dir / "r.yaml"
            RuamelYamlDumper(fs).dump(part, f)
        items = []
        for n, fs_, _ in s[2]:
            if rng.random() < 0.4:
                v = types.value(rng, fs_)
                p = types.plain(fs_, v)
                if json_ok(p):
                    want[n] = v
                    items.append(f"{n}={json.dumps(p)}")
        rng.shuffle(items)
        bad = rng.random() < 0.15
        if bad:
            items.append(rng.choice(["no_such_field=1", f"{s[2][0][0]}.x.y.z={{}}"]))
        ov = self.cli(items, rng)[0] if items else None
        try:
            got = loader.load(t, f, iter(ov) if ov is not None else None)
        except RecipeConfigParseError as e:
            obs.count("loads_rejected")
            obs.check(bad, "config-rejected", lambda: f"{s}: {items}: {show(e)[-800:]}")
            return
        obs.count("loads")
        obs.state(len(s[2]), len(items), f is None)
        if not bad:
            for n, _, _ in s[2]:
                obs.check(eq_val(getattr(got, n), want[n]), "loaded-config-differs", lambda: f"{n}: {getattr(got, n)!r} instead of {want[n]!r}; {items}")

    def mergeable(self, s):
        """Whether a value is merged with (instead of replacing) its default."""
        if s[0] == "opt":
            return self.mergeable(s[1])
        if s[0] == "union":
            return any(self.mergeable(e) for e in s[1])
        return s[0] in ("dict", "map", "dc")


def untyped(v):
    """Whether `v` holds `object` fields that are structured at a later stage."""
    import dataclasses
    if dataclasses.is_dataclass(v):
        return hasattr(v, "structure") or any(untyped(getattr(v, f.name)) for f in dataclasses.fields(v))
    return False


def eq_val(a, b):
    return a == b and type(a) is type(b)


def types_ok(types, s, w):
    """Like `fits`, but lets a boolean stand for an integer."""
    try:
        types.plain(s, w)
    except StopIteration:
        return True  # a boolean within a union
    except Exception:
        return False
    return True


def json_ok(v):
    import math
    if isinstance(v, float):
        return math.isfinite(v)
    if isinstance(v, dict):
        return all(isinstance(k, str) and k == k.strip() and json_ok(k) and json_ok(e) for k, e in v.items())
    if isinstance(v, list):
        return all(json_ok(e) for e in v)
    if isinstance(v, str):
        return v.isascii() and v.isprintable()
    return True


def dict_paths(d, prefix=()):
    for k, v in d.items():
        yield prefix + (k,)
        if isinstance(v, dict):
            yield from dict_paths(v, prefix + (k,))


def scramble(v):
    if isinstance(v, dict):
        for e in list(v.values()):
            scramble(e)
        v.clear()
        v["scrambled"] = 1
    elif isinstance(v, list):
        for e in v:
            scramble(e)
        v.append("scrambled")


if __name__ == "__main__":
    main(C30())
