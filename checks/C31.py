"""C31: dependency resolution is consistent."""
import random
import threading
import time
from collections import Counter

from vlib import Check, main

PARAMS = ["req", "req", "req", "opt", "def", "iter", "seq", "coll", "lookup", "lazy", "call", "resolver", "plain", "odd"]


class Boom(Exception):
    pass


class Missing(Exception):
    """Reference: a dependency without a provider."""

    def __init__(self, kls, key):
        self.kls, self.key = kls, key


class Cycle(Exception):
    def __init__(self, path):
        self.path = path


class Wrong(Exception):
    pass


class Node:
    def __init__(self, kls):
        self.kls, self.args = kls, {}


class World:
    """A random dependency graph: real classes, their registrations, and a reference resolver."""

    def __init__(self, seed, threads=False):
        from collections.abc import Callable, Collection, Iterable, Sequence

        from fairseq2.runtime.dependency import DependencyContainer, DependencyResolver
        from fairseq2.runtime.lazy import Lazy
        from fairseq2.runtime.lookup import Lookup

        rng = self.rng = random.Random(seed)
        n = rng.randint(3, 9)
        self.cyclic = rng.random() < 0.3
        self.built, self.box, self.calls = Counter(), DependencyContainer(), Counter()
        self.slow = threads
        self.boom_left = {}
        self.classes, self.params, self.subs = [], [], {}
        for i in range(n):
            ps = []
            for j in range(rng.randint(0, 4)):
                kind = rng.choice(PARAMS)
                hi = n if self.cyclic and rng.random() < 0.25 else i
                ps.append((f"p{j}", kind, rng.randrange(hi) if hi else None))
            self.params.append([p if p[2] is not None or p[1] in ("resolver", "plain", "odd") else (p[0], "plain", None) for p in ps])
        for i in range(n):
            self.classes.append(self.make_class(f"K{i}", i))
        for i in range(n):
            ann = {}
            kinds = dict(iter=Iterable, seq=Sequence, coll=Collection, lookup=Lookup, lazy=Lazy)
            for name, kind, t in self.params[i]:
                k = self.classes[t] if t is not None else None
                if kind in ("req", "def"):
                    ann[name] = k
                elif kind == "opt":
                    ann[name] = k | None
                elif kind == "call":
                    ann[name] = Callable[[], k]
                elif kind == "resolver":
                    ann[name] = DependencyResolver
                elif kind == "plain":
                    ann[name] = int
                elif kind == "odd":
                    ann[name] = list[int]
                else:
                    ann[name] = kinds[kind][k]
            self.classes[i].__init__.__annotations__ = ann
        # (class, key) -> registration; collections: (class, key) -> registrations
        self.regs, self.colls, self.order, self.corder = {}, {}, {}, {}
        for i in range(n):
            if rng.random() < 0.9:
                self.register(i, None, False)
            for key in rng.sample(["a", "b", 3, ("t", 1)], rng.choice([0, 0, 1, 2])):
                self.register(i, key, False)
            for _ in range(rng.choice([0, 0, 1, 2, 3])):
                self.register(i, rng.choice([None, None, None, "a"]), True)
        self.frozen = False
        # Reference state.
        self.singles = {}
        self.active = []
        self.ref_boom = dict(self.boom_left)
        self.match, self.real = {}, {}
        self.keep = []

    def make_class(self, name, i):
        import inspect

        w = self
        args = []
        for pname, kind, _ in self.params[i]:
            d = {"def": "=DEFAULT", "plain": "=5", "odd": "=()"}.get(kind, "")
            args.append((pname, d))
        args.sort(key=lambda a: bool(a[1]))
        self.params[i].sort(key=lambda p: p[1] in ("def", "plain", "odd"))
        body = f"def __init__(self{''.join(', ' + a + d for a, d in args)}):\n self.args = dict({', '.join(a + '=' + a for a, _ in args)})\n done(self)\n"
        def done(obj):
            if w.slow:
                time.sleep(0.0005)
            with LOCK:
                w.built[type(obj).__name__] += 1

        ns = dict(DEFAULT="default", done=done)
        exec(body, ns)  # noqa: S102
        return type(name, (), {"__init__": ns["__init__"]})

    def register(self, i, key, coll):
        rng, kls = self.rng, self.classes[i]
        kind = rng.choice(["type", "type", "type", "single", "single", "single", "instance", "provider", "provider_single", "none", "sub", "fail", "wrong"] if not self.slow else ["type", "single", "single", "single", "instance", "provider_single", "provider", "sub"])
        target = self.box.collection if coll else self.box
        single = kind in ("single", "provider_single") or (kind in ("none", "sub", "fail") and rng.random() < 0.5)
        reg = dict(id=(i, key, coll, len(self.colls.get((i, key), [])) if coll else 0), kind=kind, single=single, cls=i)
        kw = dict(key=key) if key is not None or rng.random() < 0.3 else {}
        if kind in ("type", "single"):
            target.register_type(kls, singleton=single, **kw)
        elif kind == "sub":
            sub = type(kls.__name__ + "S", (kls,), {})
            target.register_type(kls, sub, singleton=single, **kw)
        elif kind == "instance":
            obj = kls.__new__(kls)
            obj.args = None
            reg["obj"] = obj
            target.register_instance(kls, obj, **kw)
        else:
            deps = [rng.randrange(len(self.classes) if self.cyclic and rng.random() < 0.2 else i) for _ in range(rng.randint(0, 2))] if i else []
            reg["deps"] = deps
            if kind == "fail":
                self.boom_left[reg["id"]] = rng.randint(1, 3)

            def provide(resolver, reg=reg):
                args = {f"d{k}": resolver.resolve(self.classes[d]) for k, d in enumerate(reg["deps"])}
                if self.slow:
                    time.sleep(0.001)
                with LOCK:
                    self.calls[reg["id"]] += 1
                if reg["kind"] == "none":
                    return None
                if reg["kind"] == "wrong":
                    return 42
                if reg["kind"] == "fail" and self.boom_left[reg["id"]] > 0:
                    self.boom_left[reg["id"]] -= 1
                    raise Boom(str(reg["id"]))
                obj = kls.__new__(kls)
                obj.args = args
                with LOCK:
                    self.built[kls.__name__] += 1
                return obj

            target.register(kls, provide, singleton=single, **kw)
        if coll:
            self.colls.setdefault((i, key), []).append(reg)
            self.corder.setdefault(i, []).append(key)
        else:
            self.regs[i, key] = reg
            self.order.setdefault(i, []).append(key)

    # -- The reference -------------------------------------------------------

    def ref_get(self, reg):
        if reg["id"] in self.singles:
            return self.singles[reg["id"]]
        if reg["kind"] == "instance":
            return reg["obj"]
        if reg["id"] in self.active:
            raise Cycle([reg["cls"]])
        self.active.append(reg["id"])
        try:
            node = Node(reg["cls"])
            if reg["kind"] in ("type", "single", "sub"):
                for name, kind, t in self.params[reg["cls"]]:
                    node.args[name] = self.ref_arg(kind, t)
            else:
                for k, d in enumerate(reg["deps"]):
                    node.args[f"d{k}"] = self.ref_resolve(d, None)
                if reg["kind"] == "none":
                    node = None
                elif reg["kind"] == "wrong":
                    raise Wrong()
                elif reg["kind"] == "fail" and self.ref_boom[reg["id"]] > 0:
                    self.ref_boom[reg["id"]] -= 1
                    raise Boom(str(reg["id"]))
        except Cycle as e:
            raise Cycle([reg["cls"]] + e.path) from None
        finally:
            self.active.pop()
        if reg["single"]:
            self.singles[reg["id"]] = node
        return node

    def ref_arg(self, kind, t):
        if kind == "req":
            return self.ref_resolve(t, None)
        if kind in ("opt", "def"):
            v = self.ref_maybe(t, None)
            return v if v is not None or kind == "opt" else "default"
        if kind in ("seq", "coll"):
            return self.ref_collect(t, None)
        if kind == "plain":
            return 5
        if kind == "odd":
            return ()
        return (kind, t)

    def ref_resolve(self, i, key):
        reg = self.regs.get((i, key))
        v = self.ref_get(reg) if reg is not None else None
        if v is None:
            raise Missing(i, key)
        return v

    def ref_maybe(self, i, key):
        try:
            return self.ref_resolve(i, key)
        except Missing as e:
            if (e.kls, e.key) == (i, key):
                return None
            raise

    def ref_collect(self, i, key):
        return [v for r in self.colls.get((i, key), []) if (v := self.ref_get(r)) is not None]

    # -- Comparison ---------------------------------------------------------------

    def same(self, obj, ref, obs, where, depth=0):
        """The real object `obj` is the reference node `ref`."""
        if depth > 12:
            return
        if not isinstance(ref, Node):
            obs.check(obj is ref, "wrong-object", lambda: f"{where}: {obj!r} instead of {ref!r}")
            return
        if id(ref) in self.match:
            obs.check(self.match[id(ref)] is obj, "not-shared", lambda: f"{where}: another object of a type that is built once")
            return
        obs.check(id(obj) not in self.real, "shared", lambda: f"{where}: an object that was already returned for another registration or call")
        self.match[id(ref)] = obj
        self.real[id(obj)] = ref
        self.keep += [obj, ref]
        if not obs.check(isinstance(obj, self.classes[ref.kls]), "wrong-type", lambda: f"{where}: {type(obj)}"):
            return
        if not obs.check(list(obj.args) == list(ref.args), "wrong-arguments", lambda: f"{where}: {obj.args} {ref.args}"):
            return
        for k, r in ref.args.items():
            self.arg(obj.args[k], r, obs, f"{where}.{k}", depth + 1)

    def arg(self, a, r, obs, where, depth):
        from fairseq2.runtime.dependency import DependencyLookup
        from fairseq2.runtime.lazy import Lazy

        if isinstance(r, Node) or r is None:
            self.same(a, r, obs, where, depth) if r is not None else obs.check(a is None, "optional-set", lambda: f"{where}: {a!r}")
        elif isinstance(r, list):
            a = list(a)
            if obs.check(len(a) == len(r), "wrong-collection", lambda: f"{where}: {len(a)} objects instead of {len(r)}"):
                for k, (x, y) in enumerate(zip(a, r)):
                    self.same(x, y, obs, f"{where}[{k}]", depth)
        elif isinstance(r, tuple) and r:
            kind, t = r
            if kind == "resolver":
                obs.check(a is self.box, "wrong-resolver", lambda: f"{where}: {a!r}")
            elif kind == "lookup":
                obs.check(isinstance(a, DependencyLookup) and a.kls is self.classes[t], "wrong-lookup", where)
                self.pending.append((kind, a, t, where))
            elif kind == "lazy":
                obs.check(isinstance(a, Lazy), "wrong-lazy", where)
                self.pending.append((kind, a, t, where))
            else:
                self.pending.append((kind, a, t, where))
        else:
            obs.check(a is r or a == r, "wrong-argument", lambda: f"{where}: {a!r} instead of {r!r}")

    def both(self, obs, real, ref, where):
        """Run the real and the reference call and compare what they give or raise."""
        from fairseq2.error import InternalError
        from fairseq2.runtime.dependency import DependencyCycleError, DependencyNotFoundError

        try:
            want, err = ref(), None
        except (Missing, Cycle, Boom, Wrong) as e:
            want, err = None, e
        try:
            got, gerr = real(), None
        except (DependencyNotFoundError, DependencyCycleError, Boom, InternalError) as e:
            got, gerr = None, e
        if err is None:
            if obs.check(gerr is None, "unexpected-error", lambda: f"{where}: {type(gerr).__name__}: {gerr}"):
                self.arg(got, want, obs, where, 0)
                obs.count("resolved")
            return
        if not obs.check(gerr is not None, "error-lost", lambda: f"{where}: resolved, expected {type(err).__name__} {err.__dict__}"):
            return
        if isinstance(err, Missing):
            obs.check(isinstance(gerr, DependencyNotFoundError) and gerr.kls is self.classes[err.kls] and gerr.key == err.key, "wrong-missing", lambda: f"{where}: {gerr!r} instead of {err.kls} {err.key}")
            obs.count("missing")
        elif isinstance(err, Cycle):
            ok = isinstance(gerr, DependencyCycleError) and [k for k, _ in gerr.cycle] == [self.classes[k] for k in err.path]
            obs.check(ok, "wrong-cycle", lambda: f"{where}: {gerr!r} {gerr} instead of {err.path}")
            obs.count("cycles")
        elif isinstance(err, Boom):
            obs.check(isinstance(gerr, Boom) and str(gerr) == str(err), "wrong-failure", lambda: f"{where}: {gerr!r}")
            obs.count("failed")
        else:
            obs.check(isinstance(gerr, InternalError), "wrong-type-error", lambda: f"{where}: {gerr!r}")
            obs.count("bad_types")


LOCK = threading.Lock()


class C31(Check):
    id = "C31"
    rule = "every resolution returns (or raises) what a reference resolver over the same registrations does, with the same sharing of objects; under threads each singleton is built once"
    required = ["resolved", "missing", "cycles", "failed", "bad_types", "late", "duplicates", "kind_history", "kind_threads", "thread_resolves", "lazies", "lookups", "callables", "collections", "wired", "cycle_threads"]
    assumptions = ["the order in which constructor parameters are resolved is that of their declaration"]
    case_timeout = 60

    def gen(self, rng, tier):
        q = tier == "quick"
        for _ in range(2500 if q else 60000):
            yield dict(kind="history", seed=rng.randrange(1 << 30), ops=rng.randint(5, 25))
        for _ in range(250 if q else 6000):
            yield dict(kind="threads", seed=rng.randrange(1 << 30), threads=rng.randint(2, 6))

    def setup_worker(self):
        import fairseq2.recipe  # noqa: F401
        import sys

        sys.setswitchinterval(1e-4)

    def run(self, c, obs):
        obs.count("kind_" + c["kind"])
        getattr(self, c["kind"])(c, obs)

    def history(self, c, obs):
        from fairseq2.error import InvalidOperationError
        from fairseq2.runtime.dependency import AutoWireError, wire_object

        w = World(c["seed"])
        rng, box = random.Random(c["seed"] + 1), w.box
        w.pending = []
        # Registration errors.
        for i, key in list(w.regs)[:2]:
            try:
                box.register_type(w.classes[i], key=key)
                obs.violate("duplicate-accepted", f"{i} {key}")
            except InvalidOperationError:
                obs.count("duplicates")
        try:
            box.register_type(w.classes[0], w.classes[1])
            obs.violate("unrelated-type-accepted", "")
        except ValueError:
            pass
        for step in range(c["ops"]):
            i, x = rng.randrange(len(w.classes)), rng.random()
            key = rng.choice([None, None, None, "a", 3, ("t", 1), "zz"])
            kls, where = w.classes[i], f"step {step} {i} {key}"
            kw = dict(key=key) if key is not None else {}
            if x < 0.5:
                w.both(obs, lambda: box.resolve(kls, **kw), lambda: w.ref_resolve(i, key), where)
            elif x < 0.65:
                w.both(obs, lambda: box.maybe_resolve(kls, **kw), lambda: w.ref_maybe(i, key), where)
            elif x < 0.78:
                w.both(obs, lambda: list(box.collection.resolve(kls, **kw)), lambda: w.ref_collect(i, key), where)
                obs.count("collections")
            elif x < 0.86:
                obs.check(list(box.iter_keys(kls)) == w.order.get(i, []), "wrong-keys", lambda: f"{list(box.iter_keys(kls))} {w.order.get(i)}")
                obs.check(set(box.collection.iter_keys(kls)) == set(w.corder.get(i, [])), "wrong-collection-keys", lambda: f"{list(box.collection.iter_keys(kls))} {w.corder.get(i)}")
            elif x < 0.93:
                ps = w.params[i]
                custom = {p[0]: object() for p in ps if rng.random() < 0.4}

                def ref():
                    node = Node(i)
                    for name, kind, t in ps:
                        node.args[name] = custom[name] if name in custom else w.ref_arg(kind, t)
                    return node

                w.both(obs, lambda: wire_object(box, kls, **custom), ref, where + " wire")
                obs.count("wired")
                try:
                    wire_object(box, type("X", (), {"__init__": lambda self: None}), nosuch=1)
                    obs.violate("extra-accepted", "wire_object accepted an unknown argument")
                except AutoWireError:
                    pass
            elif w.pending:
                kind, a, t, where = w.pending.pop(rng.randrange(len(w.pending)))
                if kind == "lazy":
                    w.both(obs, a.get, lambda: w.ref_resolve(t, None), where + " lazy")
                    obs.count("lazies")
                    try:
                        first = a.get()
                        obs.check(a.get() is first, "lazy-again", where)
                    except Exception:
                        # the reference failed as well; keep both in step
                        try:
                            w.ref_resolve(t, None)
                        except (Missing, Cycle, Boom, Wrong):
                            pass
                elif kind == "lookup":
                    w.both(obs, lambda: a.maybe_get(key), lambda: w.ref_maybe(t, key), where + " lookup")
                    obs.check(list(a.iter_keys()) == w.order.get(t, []), "wrong-lookup-keys", where)
                    obs.count("lookups")
                elif kind == "call":
                    w.both(obs, a, lambda: w.ref_resolve(t, None), where + " callable")
                    obs.count("callables")
                elif kind == "iter":
                    w.both(obs, lambda: list(a), lambda: w.ref_collect(t, None), where + " iterable")
            if step == 0 or rng.random() < 0.1:
                box.maybe_resolve(Boom)
                for t in (box, box.collection):
                    try:
                        t.register_type(w.classes[0], key="late")
                        obs.violate("late-accepted", "a registration was accepted after the first resolution")
                    except InvalidOperationError:
                        obs.count("late")
        obs.state((len(w.classes), w.cyclic, sum(w.built.values())))

    def threads(self, c, obs):
        from fairseq2.runtime.dependency import DependencyCycleError, DependencyNotFoundError

        w = World(c["seed"], threads=True)
        rng = random.Random(c["seed"] + 1)
        start = threading.Barrier(c["threads"])
        got, bad = [], []
        plans = [[(rng.randrange(len(w.classes)), rng.choice([None, None, "a"]), rng.random() < 0.2) for _ in range(rng.randint(1, 4))] for _ in range(c["threads"])]
        if rng.random() < 0.5:
            plans = [plans[0]] * len(plans)

        def go(plan):
            start.wait()
            for i, key, coll in plan:
                try:
                    v = list(w.box.collection.resolve(w.classes[i], key=key)) if coll else w.box.resolve(w.classes[i], key=key)
                except (DependencyCycleError, DependencyNotFoundError) as e:
                    v = e
                except Exception as e:  # noqa: BLE001
                    bad.append(e)
                    continue
                with LOCK:
                    got.append((i, key, coll, v))

        ts = [threading.Thread(target=go, args=(p,), daemon=True) for p in plans]
        for t in ts:
            t.start()
        for t in ts:
            t.join(20)
        obs.check(not any(t.is_alive() for t in ts), "deadlock", "threads that resolve at the same time did not finish")
        obs.check(not bad, "thread-error", lambda: repr(bad[0]))
        obs.count("thread_resolves", len(got))
        # What each resolution must give does not depend on the other threads.
        objs = {}
        for i, key, coll, v in got:
            try:
                want = w.ref_collect(i, key) if coll else w.ref_resolve(i, key)
            except (Missing, Cycle) as e:
                want = e
            if isinstance(want, Cycle):
                obs.count("cycle_threads")
            obs.check(isinstance(v, DependencyCycleError) == isinstance(want, Cycle), "thread-cycle", lambda: f"{i} {key} {coll}: {v!r} {v}, alone: {want!r}")
            obs.check(isinstance(v, DependencyNotFoundError) == isinstance(want, Missing), "thread-missing", lambda: f"{i} {key} {coll}: {v!r}, alone: {want!r}")
            if isinstance(v, Exception) or isinstance(want, Exception):
                continue
            regs = w.colls.get((i, key), []) if coll else [w.regs[i, key]]
            for reg, o in zip([r for r in regs if r["kind"] != "none"], v if coll else [v]):
                first = objs.setdefault(reg["id"], [o])
                if reg["single"] or reg["kind"] == "instance":
                    obs.check(o is first[0], "singleton-twice", lambda: f"{reg['id']}: threads got different objects")
                elif o is not first[0]:
                    first.append(o)
        if not w.cyclic:
            # Providers of singletons are called once.
            for r in list(w.regs.values()) + [r for rs in w.colls.values() for r in rs]:
                if r["single"] and r["kind"].startswith("provider"):
                    obs.check(w.calls[r["id"]] <= 1, "provider-twice", lambda: f"{r['id']} called {w.calls[r['id']]} times")
        obs.state(("t", len(w.classes), len(got)))


if __name__ == "__main__":
    main(C31())
