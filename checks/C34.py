"""C34: random state is isolated and restorable."""
import io
import random

import torch

from vlib import Check, main


class Boom(Exception):
    pass


class C34(Check):
    id = "C34"
    rule = "every draw equals the draw of a reference generator with the same history of seeds; temporary seeds and saved states leave no other trace"
    required = ["draws", "temp", "nested_temp", "temp_failed", "saved", "loaded", "seeded", "reseeded", "bad_loads", "bad_seeds", "default_draws", "outside_draws"]
    assumptions = ["CPU generators (no GPU here); a reference generator is torch.Generator itself"]

    def gen(self, rng, tier):
        for _ in range(1500 if tier == "quick" else 40000):
            yield dict(seed=rng.randrange(1 << 30), n=rng.choice([1, 1, 2, 3]), default=rng.random() < 0.6, ops=rng.randint(5, 25))

    def setup_worker(self):
        import fairseq2.recipe  # noqa: F401
        import fairseq2.utils.rng  # noqa: F401

    def run(self, c, obs):
        from fairseq2.device import CPU
        from fairseq2.error import StateDictError
        from fairseq2.utils.rng import RngBag

        rng = random.Random(c["seed"])
        torch.manual_seed(c["seed"])
        ref_default = torch.Generator().manual_seed(c["seed"])
        gens, refs = [], []
        if c["default"] and c["n"] == 1 and rng.random() < 0.7:
            bag = RngBag.from_device_defaults(*rng.choice([[CPU], [CPU, CPU], [torch.device("meta"), CPU]]))
            obs.check(len(bag.state_dict()["generators"]) == 1, "one-generator", "a generator is held more than once")
            gens, refs = [torch.default_generator], [ref_default]
        else:
            for i in range(c["n"]):
                s = rng.randrange(1 << 31)
                gens.append(torch.Generator().manual_seed(s))
                refs.append(torch.Generator().manual_seed(s))
            if c["default"]:
                i = rng.randrange(c["n"])
                gens[i], refs[i] = torch.default_generator, ref_default
            bag = RngBag(*gens)
        out_s = rng.randrange(1 << 31)
        outside, ref_outside = torch.Generator().manual_seed(out_s), torch.Generator().manual_seed(out_s)
        saved = []
        has_default = any(g is torch.default_generator for g in gens)

        def sample(kind, n, g):
            if kind == "rand":
                return torch.rand(n, generator=g)
            if kind == "randn":
                return torch.randn(n, generator=g)
            if kind == "int":
                return torch.randint(0, 1 << 40, (n,), generator=g)
            if kind == "perm":
                return torch.randperm(n + 1, generator=g)
            return torch.empty(n, dtype=torch.float64).normal_(generator=g)

        def draw(g, r, what):
            kind, n = rng.choice(["rand", "randn", "int", "perm", "normal"]), rng.choice([1, 2, 3, 17, 40, 700])
            if g is torch.default_generator:
                g = rng.choice([g, None])
                obs.count("default_draws")
            a, b = sample(kind, n, g), sample(kind, n, r)
            obs.check(torch.equal(a, b), what, lambda: f"{kind} x{n}: {a[:4].tolist()} instead of {b[:4].tolist()} after {log}")
            obs.count("draws")

        log = []

        def states():
            return [r.get_state() for r in refs]

        def steps(n, depth):
            for _ in range(n):
                x = rng.random()
                if x < 0.35:
                    i = rng.randrange(len(gens))
                    log.append(("draw", i))
                    draw(gens[i], refs[i], "draw" if depth == 0 else "draw-in-temporary")
                elif x < 0.42:
                    draw(outside, ref_outside, "other-generator")
                    if not has_default:
                        draw(torch.default_generator, ref_default, "default-generator")
                    obs.count("outside_draws")
                elif x < 0.50:
                    s = rng.choice([0, 1, (1 << 32) - 1, rng.randrange(1 << 32)])
                    log.append(("seed", s))
                    bag.manual_seed(s)
                    for r in refs:
                        r.manual_seed(s)
                    obs.count("seeded")
                elif x < 0.55:
                    log.append(("reseed",))
                    bag.seed()
                    s = gens[0].initial_seed()
                    obs.check(all(g.initial_seed() == s for g in gens), "seed-differs", lambda: str([g.initial_seed() for g in gens]))
                    for r in refs:
                        r.manual_seed(s)
                    obs.count("reseeded")
                elif x < 0.75 and depth < 3:
                    s, fail = rng.choice([0, 5, rng.randrange(1 << 32)]), rng.random() < 0.35
                    keep = states()
                    log.append(("temp", s, fail))
                    try:
                        with bag.temporary_manual_seed(s):
                            for r in refs:
                                r.manual_seed(s)
                            steps(rng.randint(0, 5), depth + 1)
                            if fail:
                                raise rng.choice([Boom, KeyboardInterrupt, StopIteration])()
                        obs.check(not fail, "exception-lost", "an exception within the temporary seed was swallowed")
                    except (Boom, KeyboardInterrupt, StopIteration):
                        obs.count("temp_failed")
                    except RuntimeError as e:
                        # contextmanager wraps StopIteration of its body only if it leaks out of the generator
                        obs.violate("exception-changed", str(e))
                    for r, k in zip(refs, keep):
                        r.set_state(k)
                    log.append(("end",))
                    obs.count("temp")
                    if depth:
                        obs.count("nested_temp")
                elif x < 0.84:
                    sd = bag.state_dict()
                    if rng.random() < 0.5:
                        b = io.BytesIO()
                        torch.save(sd, b)
                        sd = torch.load(io.BytesIO(b.getvalue()), weights_only=True)
                    saved.append((sd, states()))
                    log.append(("save",))
                    obs.count("saved")
                elif x < 0.94 and saved:
                    k = rng.randrange(len(saved))
                    bag.load_state_dict(saved[k][0])
                    for r, s in zip(refs, saved[k][1]):
                        r.set_state(s)
                    log.append(("load", k))
                    obs.count("loaded")
                else:
                    how = rng.choice([0, 1, 2, 3, 4, 5, 6])
                    try:
                        if how == 0:
                            bag.load_state_dict({})
                        elif how == 1:
                            bag.load_state_dict({"generators": (bag.state_dict()["generators"] + [gens[0].get_state()])})
                        elif how == 2:
                            bag.load_state_dict({"generators": 3})
                        elif how == 4:
                            bag.load_state_dict({**bag.state_dict(), "unexpected": 1})
                        elif how == 5:
                            other = [torch.Generator().manual_seed(3).get_state() for _ in gens]
                            other[0] = b"x"
                            bag.load_state_dict({"generators": other})
                        elif how == 6:
                            with bag.temporary_manual_seed(-3):
                                pass
                        else:
                            bag.manual_seed(rng.choice([-1, 1 << 32]))
                        obs.violate("bad-state-accepted", f"malformed state {how} was accepted")
                    except StateDictError:
                        obs.check(how not in (3, 6), "wrong-error", "StateDictError for a bad seed")
                        obs.count("bad_loads")
                    except ValueError:
                        obs.check(how in (3, 6), "wrong-error", f"ValueError for state {how}")
                        obs.count("bad_seeds")
                    log.append(("bad", how))

        steps(c["ops"], 0)
        for i in range(len(gens)):
            draw(gens[i], refs[i], "draw-at-end")
        draw(outside, ref_outside, "other-generator")
        # Same numbers each time under the same seed.
        xs = []
        for _ in range(2):
            with bag.temporary_manual_seed(7):
                xs.append([torch.rand(3, generator=g) for g in gens])
        obs.check(all(torch.equal(a, b) for a, b in zip(*xs)), "not-repeatable", "two runs under the same temporary seed differ")
        obs.state((len(gens), has_default, tuple(x[0] for x in log[:6])))


if __name__ == "__main__":
    main(C34())
