"""C11: a data pipeline's saved state resumes exactly where it was taken."""
import os
import pickle
import random
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from vlib import Check, Violation, main
import pipes


def cs(xs):
    return [pipes.canon(x) for x in xs]


class C11(Check):
    id = "C11"
    native = True
    rule = (
        "random pipelines over every operator; the state is saved at sampled positions (start, end, "
        "epoch boundaries, in between), pickled and loaded in a fresh pipeline, in one read to "
        "another position and in one read to its end; each must emit exactly the rest, and then the "
        "same next epoch; non-trivial = at least one restore of a pipeline with examples left"
    )
    required = ["restores_fresh", "restores_used", "continuations", "next_epochs", "pack_states", "async_states", "lossy_states", "chained_saves", "iterators"]

    def gen(self, rng, tier):
        n = 2400 if tier == "quick" else 12000
        for i in range(n):
            g = pipes.Gen(rng)
            kind = rng.choices(["tree", "async", "pack", "lossy", "text"], [12, 1, 1, 1, 1])[0]
            s = rng.randrange(1 << 30)
            if kind == "tree":
                spec = g.tree(rng.choice([1, 1, 2, 3]))
                yield {"kind": kind, "spec": spec, "s": s, "npos": 6 if tier == "quick" else 20}
            elif kind == "async":
                inner = g.tree(1, False)
                yield {"kind": kind, "spec": {"op": "map", "inner": inner, "k": 1, "par": rng.choice([2, 4]), "det": False, "chain": False, "selector": False}, "s": s}
            elif kind == "pack":
                yield {"kind": kind, "lens": [rng.randrange(0, 9) for _ in range(rng.randrange(0, 20))], "cap": rng.choice([4, 7, 12]), "mx": rng.choice([3, 4, 10]),
                       "trunc": rng.random() < 0.6, "drop": rng.random() < 0.4, "pre": rng.choice([0, 3]), "s": s}
            elif kind == "lossy":
                t = {"op": "list", "base": 0, "n": rng.choice([10, 40])}
                for _ in range(rng.choice([1, 2, 3])):
                    o = rng.choice(["map", "shuffle", "prefetch", "filter"])
                    t = {"op": o, "inner": t}
                    if o == "map":
                        t.update(k=1, par=rng.choice([1, 4]), det=True, chain=False, selector=False)
                    elif o == "shuffle":
                        t.update(w=rng.choice([2, 5, 0]), seed=rng.randrange(1 << 20))
                    elif o == "prefetch":
                        t.update(n=rng.choice([1, 4]))
                    else:
                        t.update(k=1, m=3)
                yield {"kind": kind, "spec": t, "s": s}
            else:
                yield {"kind": kind, "lens": [rng.randrange(1, 9) for _ in range(rng.randrange(0, 30))], "s": s, "shuffle": rng.choice([1, 4]),
                       "skip_long": rng.random() < 0.5, "pre": rng.choice([0, 2])}

    def run(self, case, obs):
        from fairseq2.data.data_pipeline import DataPipelineError

        try:
            getattr(self, "run_" + case["kind"])(case, obs)
        except DataPipelineError:
            # Later epochs of random children may have other lengths, of which
            # these two complain.
            if "spec" in case and pipes.is_random(case["spec"]) and any(
                o["op"] == "zip" and not o["shortest"] or o["op"] == "sample" and o["repeats"] for o in pipes.ops(case["spec"])
            ):
                obs.count("skipped_infinite_or_error")
                return
            raise

    def build(self, case):
        if case["kind"] in ("tree", "async", "lossy"):
            return pipes.build(case["spec"]).and_return()
        import torch
        from fairseq2.data.data_pipeline import read_sequence

        if case["kind"] == "pack":
            ts = [torch.arange(n) + 100 * i for i, n in enumerate(case["lens"])]
            b = read_sequence(ts).pack(case["cap"], case["mx"], 0, truncate=case["trunc"], drop_remainder=case["drop"])
            if case["pre"]:
                b = b.prefetch(case["pre"])
            return b.and_return(max_num_warnings=1000)
        b = read_sequence([[i] * n for i, n in enumerate(case["lens"])]).shuffle(case["shuffle"], seed=3)
        b = b.bucket_by_length([(4, 2), (2, 4), (1, 6)], skip_above_max_examples=case["skip_long"], skip_below_min_examples=False)
        if case["pre"]:
            b = b.prefetch(case["pre"])
        return b.and_return(max_num_warnings=1000)

    def run_pack(self, case, obs):
        self.run_tree(case, obs)
        obs.count("pack_states")

    def run_text(self, case, obs):
        self.run_tree(case, obs)
        obs.count("bucket_by_length_states")

    def run_tree(self, case, obs):
        from fairseq2.data.data_pipeline import DataPipelineError

        try:
            full = pipes.drain(self.build(case))
        except (OverflowError, DataPipelineError):
            obs.count("skipped_infinite_or_error")
            return
        full = cs(full)
        # A zip of unequal pipelines keeps no memory of its end.
        has_zip = "spec" in case and any(o["op"] == "zip" for o in pipes.ops(case["spec"]))
        r = random.Random(case["s"])
        n = len(full)
        ks = {0, n // 2, n - 1 if n else 0}
        if not has_zip:
            ks.add(n)
        while len(ks) < min(n, case.get("npos", 6)):
            ks.add(r.randrange(n + 1))
        for k in sorted(ks):
            if k == n and has_zip:
                continue
            p = self.build(case)
            it = iter(p)
            for _ in range(k):
                next(it)
            if k == n:
                next(it, None)
            if r.random() < 0.3:
                time.sleep(0.002)  # let prefetch threads run ahead
            sd = pickle.loads(pickle.dumps(p.state_dict()))
            obs.state(case["spec"]["op"] if "spec" in case else case["kind"], k, n)
            rest = full[k:]
            if "spec" in case and any(o.get("it") for o in pipes.ops(case["spec"])):
                obs.count("iterators")

            def verify(q, how):
                got = cs(pipes.drain(q))
                if got != rest:
                    raise Violation(f"resume-{how}", f"saved at {k} of {n}: {how} emitted {got[:12]} instead of {rest[:12]} ({len(got)} vs {len(rest)}); {case}")
                obs.check(True, "x")

            fresh = self.build(case)
            fresh.load_state_dict(sd)
            # Saving right after loading must give an equivalent state.
            sd2 = pickle.loads(pickle.dumps(fresh.state_dict()))
            chained = self.build(case)
            chained.load_state_dict(sd2)
            # ... and so must saving again later.
            m = r.randrange(len(rest) + 1) if rest else 0
            if not (has_zip and m == len(rest)):
                ci = iter(chained)
                pre = cs([next(ci) for _ in range(m)])
                third = self.build(case)
                third.load_state_dict(chained.state_dict())
                tail = cs(pipes.drain(third))
                obs.count("chained_saves")
                if pre + tail != rest:
                    raise Violation("resume-chained", f"saved at {k} and again {m} later: emitted {(pre + tail)[:12]} instead of {rest[:12]}; {case}")
            used = self.build(case)
            ui = iter(used)
            j = r.choice([0, 1, n // 2, n + 1])
            for _ in range(j):
                if next(ui, None) is None:
                    break
            used.load_state_dict(sd)
            verify(p, "continuing")
            obs.count("continuations")
            verify(fresh, "fresh")
            obs.count("restores_fresh")
            verify(used, "used")
            obs.count("restores_used")
            # Rolling the very same pipeline back.
            p.load_state_dict(sd)
            verify(p, "rolled-back")
            # The restored pipelines agree on what follows.
            if k != n:
                # How far a prefetch thread ran ahead of the reset is up to the
                # scheduler, and so is what it drew from the RNGs.
                rng_too = "spec" not in case or any(o["op"] == "prefetch" for o in pipes.ops(case["spec"]))
                outs = []
                for q in (p, fresh, used):
                    q.reset(reset_rng=rng_too)
                    try:
                        outs.append(cs(pipes.drain(q)))
                    except OverflowError:
                        return
                obs.count("next_epochs")
                if outs[0] != outs[1] or outs[0] != outs[2]:
                    raise Violation("next-epoch", f"after resuming at {k} the following epochs differ: {[o[:8] for o in outs]}; {case}")
        obs.sample = {"examples": n, "positions": sorted(ks)}

    def run_async(self, case, obs):
        from collections import Counter

        from fairseq2.data.data_pipeline import DataPipelineError

        if any(o["op"] == "zip" for o in pipes.ops(case["spec"])):
            return
        try:
            full = cs(pipes.drain(self.build(case)))
        except (OverflowError, DataPipelineError):
            return
        n = len(full)
        for k in {0, n // 2, n}:
            p = self.build(case)
            it = iter(p)
            pre = cs([next(it) for _ in range(k)])
            sd = pickle.loads(pickle.dumps(p.state_dict()))
            q = self.build(case)
            q.load_state_dict(sd)
            obs.count("async_states")
            for name, x in (("continuing", p), ("fresh", q)):
                got = cs(pipes.drain(x))
                if Counter(pre + got) != Counter(full):
                    raise Violation(f"async-{name}", f"saved at {k} of {n}; {pre + got} vs {full}; {case}")
                obs.check(True, "x")

    def run_lossy(self, case, obs):
        full = cs(pipes.drain(self.build(case)))
        n = len(full)
        for k in {n // 3, n // 2}:
            p = self.build(case)
            it = iter(p)
            pre = cs([next(it) for _ in range(k)])
            sd = p.state_dict(strict=False)
            q = self.build(case)
            for _ in range(k // 2):
                next(iter(q))
            q.load_state_dict(sd)
            got = cs(pipes.drain(q))
            obs.count("lossy_states")
            obs.check(len(set(got)) == len(got) and not set(got) & set(pre) and set(got) <= set(full), "lossy-repeat",
                      f"a state without buffers re-emitted examples: {pre} then {got}; {case}")
            obs.check(cs(pipes.drain(p)) == full[k:], "lossy-continuing", f"saving a lossy state disturbed the pipeline; {case}")


if __name__ == "__main__":
    main(C11())
