"""C10: every data pipeline operator emits exactly what it documents."""
import random
import sys
import os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from vlib import Check, Violation, main
import pipes


class C10(Check):
    id = "C10"
    native = True
    rule = (
        "random pipelines (depth<=3, every operator, nested combinations); each operator's emitted "
        "trace is compared with a model applied to the traces its inputs emit on their own; then "
        "reset, re-iteration, slowed map functions and the single-threaded variant; non-trivial = at "
        "least one example emitted"
    )
    required = ["traces", "examples", "resets", "parallel_maps", "prefetches", "async_maps", "failures_injected", "endless_runs", "iterators"]
    assumptions = ["third-party decoders (zip, audio, image, sentencepiece) are replaced by stand-ins"]

    def gen(self, rng, tier):
        n = 2400 if tier == "quick" else 12000
        for i in range(n):
            g = pipes.Gen(rng)
            kind = rng.choices(["tree", "inf", "async", "fail"], [9, 2, 2, 2])[0]
            if kind == "tree":
                yield {"kind": kind, "spec": g.tree(rng.choice([1, 2, 2, 3]))}
            elif kind == "inf":
                t = g.tree(rng.choice([0, 1, 2]), False)
                pipes.tame(t, True)
                yield {"kind": kind, "spec": t, "m": rng.choice([0, 1, 7, 40, 150]), "pre": rng.choice([0, 4]), "reset_rng": rng.random() < 0.5}
            elif kind == "async":
                inner = g.tree(1, False)
                s = {"op": "map", "inner": inner, "k": 1, "par": rng.choice([2, 3, 8]), "det": False, "chain": False, "selector": False}
                if rng.random() < 0.5:
                    s["chain"] = True
                yield {"kind": kind, "spec": s, "prefetch": rng.choice([0, 0, 3]), "slow": rng.random() < 0.5}
            else:
                m = rng.choice([6, 20, 40])
                yield {"kind": kind, "n": m, "bad": sorted(rng.sample(range(m), rng.choice([1, 1, 2]))), "par": rng.choice([1, 2, 4]),
                       "prefetch": rng.choice([0, 1, 4]), "det": rng.random() < 0.7, "how": rng.choice(["raise", "tolong"]), "warn": rng.choice([0, 5]), "then": rng.choice(["", "shuffle", "bucket", "dynamic_bucket", "map", "async", "shard", "filter", "round_robin", "sample", "concat", "yield_from"]), "k": rng.randrange(1, 5)}

    def trace(self, spec, obs, memo):
        key = id(spec)
        if key in memo:
            return memo[key]
        if pipes.is_pseudo(spec):
            memo[key] = []
            return []
        kids = spec.get("children", []) + ([spec["inner"]] if "inner" in spec else [])
        outs = [self.trace(k, obs, memo) for k in kids]
        expect_error = None
        if spec["op"] == "zip":
            lens = {len(o) for o, k in zip(outs, kids) if not pipes.is_pseudo(k)}
            if not lens:
                obs.inconclusive_skip = True
                raise OverflowError
            if len(lens) > 1 and not spec["shortest"]:
                expect_error = "zip"
        if spec["op"] == "sample" and spec["repeats"] and any(not o for o, k in zip(outs, kids) if not pipes.is_pseudo(k)):
            expect_error = "sample"
        from fairseq2.data.data_pipeline import DataPipelineError

        p = pipes.build(spec).and_return()
        try:
            got = pipes.drain(p)
        except DataPipelineError as ex:
            obs.count("pipeline_errors")
            if spec["op"] == "sample" and spec["repeats"] and not all(pipes.random_len_stable(k) for k in kids):
                raise OverflowError from None  # a later epoch of a child may be empty
            if expect_error is None:
                raise Violation(f"op-{spec['op']}", f"unexpected error {ex} for {spec}")
            raise OverflowError from None
        if expect_error:
            if expect_error == "zip":
                raise Violation("op-zip", f"zipping pipelines of different lengths {lens} went unreported")
            raise OverflowError  # an empty child that never got sampled
        obs.count("traces")
        obs.count("examples", len(got))
        obs.count(f"op_{spec['op']}")
        if spec.get("it"):
            obs.count("iterators")
        try:
            pipes.check_node(spec, got, outs)
        except pipes.Mismatch as ex:
            raise Violation(f"op-{spec['op']}", f"{ex}; spec {spec}") from None
        obs.check(True, "x")
        if spec["op"] == "map" and spec["par"] > 1:
            obs.count("parallel_maps")
        if spec["op"] == "prefetch":
            obs.count("prefetches")
        # A second read after the end yields nothing.
        extra = next(iter(p), None)
        if spec["op"] not in ("zip",) and extra is not None and not any(o["op"] in ("zip",) for o in pipes.ops(spec)):
            raise Violation(f"end-{spec['op']}", f"{spec['op']} emitted {extra} after it had signalled its end; spec {spec}")
        p.reset(reset_rng=True)
        again = pipes.drain(p)
        obs.count("resets")
        if [pipes.canon(x) for x in again] != [pipes.canon(x) for x in got]:
            raise Violation("reset", f"after reset(reset_rng=True) {spec} emitted {pipes.canon(again)[:500]} instead of {pipes.canon(got)[:500]}")
        if not pipes.is_random(spec):
            p.reset()
            again = pipes.drain(p)
            if [pipes.canon(x) for x in again] != [pipes.canon(x) for x in got]:
                raise Violation("reset", f"after reset() {spec} emitted {pipes.canon(again)[:500]} instead of {pipes.canon(got)[:500]}")
        # Reset in mid-stream.
        if len(got) > 1:
            p.reset(reset_rng=True)
            it = iter(p)
            for _ in range(len(got) // 2):
                next(it)
            p.reset(reset_rng=True)
            again = pipes.drain(p)
            if [pipes.canon(x) for x in again] != [pipes.canon(x) for x in got]:
                raise Violation("reset", f"after a mid-stream reset {spec} emitted {pipes.canon(again)[:500]} instead of {pipes.canon(got)[:500]}")
        memo[key] = got
        return got

    def run(self, case, obs):
        if case["kind"] == "fail":
            return self.run_fail(case, obs)
        spec = case["spec"]
        if case["kind"] == "async":
            return self.run_async(case, obs)
        if case["kind"] == "inf":
            return self.run_inf(case, obs)
        try:
            got = self.trace(spec, obs, {})
        except OverflowError:
            obs.count("skipped_infinite_or_error")
            return
        obs.state(pipes.canon([len(got), pipes.h(got)]))
        obs.sample = {"emitted": len(got), "first": pipes.canon(got[:2])[:200]}
        # The threaded pipeline, slowed down, must emit the same.
        if any(o["op"] == "map" and o["par"] > 1 or o["op"] == "prefetch" for o in pipes.ops(spec)) and len(got) < 60:
            import time

            r = random.Random(pipes.h(got))
            slow = pipes.build(spec, delay=lambda x: time.sleep(r.choice([0, 0, 0.001, 0.003]))).and_return()
            again = pipes.drain(slow)
            obs.count("delayed_runs")
            obs.check([pipes.canon(x) for x in again] == [pipes.canon(x) for x in got], "delay-dependence",
                      lambda: f"with slow map functions {spec} emitted {pipes.canon(again)[:500]} instead of {pipes.canon(got)[:500]}")

    def run_inf(self, case, obs):
        """An endless pipeline cut short."""
        from fairseq2.data.data_pipeline import DataPipeline

        spec, m = case["spec"], case["m"]
        try:
            src = [pipes.canon(x) for x in self.trace(spec, obs, {})]
        except OverflowError:
            return
        b = pipes.build(spec).repeat(None, reset_rng=case["reset_rng"])
        if case["pre"]:
            b = b.prefetch(case["pre"])
        p = b.take(m).and_return()
        got = [pipes.canon(x) for x in pipes.drain(p)]
        obs.count("endless_runs")
        want = (src * (m // max(1, len(src)) + 1))[:m]
        if not pipes.is_random(spec) or case["reset_rng"]:
            obs.check(got == want, "op-repeat", lambda: f"endless repeat of {src[:20]}: {got[:40]}")
        elif pipes.random_content_stable(spec):
            obs.check(len(got) == len(want), "op-repeat", lambda: f"endless repeat of {len(src)} examples cut at {m} gave {len(got)}")
            for i in range(0, len(got) - len(src) + 1, max(1, len(src))):
                obs.check(sorted(got[i : i + len(src)]) == sorted(src), "op-repeat", lambda: f"an epoch of the endless repeat of {src[:20]} is {got[i:i+20]}")
        # Counters next to a finite pipeline.
        z = DataPipeline.zip([pipes.build(spec).and_return(), DataPipeline.count(5, 2).and_return(), DataPipeline.constant("c").and_return()]).and_return()
        got = [pipes.canon(x) for x in pipes.drain(z)]
        obs.check(got == [f"[{x},{5 + 2 * i},'c']" for i, x in enumerate(src)], "op-zip", lambda: f"zip with a counter gave {got[:10]} for {src[:10]}")
        p = DataPipeline.count(3, 4).take(m).and_return()
        obs.check(pipes.drain(p) == [3 + 4 * i for i in range(m)], "op-count", "count is off")

    def run_async(self, case, obs):
        import time

        spec = case["spec"]
        try:
            src = self.trace(spec["inner"], obs, {})
        except OverflowError:
            return
        r = random.Random(1)
        delay = (lambda x: time.sleep(r.choice([0, 0, 0.002]))) if case["slow"] and len(src) < 60 else None
        b = pipes.build(spec, delay)
        if case["prefetch"]:
            b = b.prefetch(case["prefetch"])
        p = b.and_return()
        for rep in range(2):
            got = pipes.drain(p)
            obs.count("async_maps")
            obs.state(pipes.canon(got)[:400])
            try:
                pipes.check_node(spec, got, [src])
            except pipes.Mismatch as ex:
                raise Violation("async-map", f"pass {rep}: {ex}") from None
            obs.check(True, "x")
            p.reset(reset_rng=True)

    def run_fail(self, case, obs):
        """Examples before a failing one are delivered; the failure surfaces;
        nothing after it is delivered as if nothing had happened."""
        from fairseq2.data.data_pipeline import DataPipeline, DataPipelineError, read_sequence

        n, bad = case["n"], set(case["bad"])
        obs.count("failures_injected")
        if case["how"] == "raise":
            def f(x):
                if x in bad:
                    raise ValueError(f"bad {x}")
                return [x]

            b = read_sequence(list(range(n))).map(f, num_parallel_calls=case["par"], deterministic=case["det"])
            if case["prefetch"]:
                b = b.prefetch(case["prefetch"])
            p = b.and_return()
            got, err = [], None
            try:
                for x in p:
                    got.append(x[0])
            except Exception as ex:
                err = ex
            if err is None:
                raise Violation("error-swallowed", f"the error of the map function at {sorted(bad)} never surfaced; got {got}")
            obs.check("bad" in repr(err) or "bad" in str(err.__cause__) or "bad" in str(err.__context__), "error-identity", f"surfaced as {err!r}")
            first = min(bad)
            ok = all(x not in bad for x in got) and len(set(got)) == len(got)
            obs.check(ok, "error-content", f"got {got} with {bad} failing")
            if case["det"] or case["par"] == 1:
                obs.check(got == list(range(first)), "error-prefix",
                          f"got {got}; the first failing example is {first}, parallelism {case['par']}, prefetch {case['prefetch']}")
            # From now on the pipeline is broken and says so.
            obs.check(p.is_broken, "broken-flag", "pipeline not marked broken")
            try:
                next(iter(p))
                obs.violate("broken-read", "a broken pipeline could be read")
            except DataPipelineError:
                obs.count("broken_reads")
            except StopIteration:
                obs.violate("broken-read", "a broken pipeline signalled a clean end")
            return
        # Recoverable errors: too long examples in bucket_by_length.
        seq = [list(range(20)) if i in bad else [i] * (i % 5 + 1) for i in range(n)]
        b = read_sequence(seq).bucket_by_length([(3, 2), (2, 5)])
        if case["prefetch"]:
            b = b.prefetch(case["prefetch"])
        # Operators that read ahead must not lose what they have read so far.
        op = case.get("then", "")
        other = ["other", "more"]
        if op == "shuffle":
            b = b.shuffle(case["k"], seed=n)
        elif op == "bucket":
            b = b.bucket(case["k"])
        elif op == "dynamic_bucket":
            b = b.dynamic_bucket(float(case["k"]), lambda x: 1.0)
        elif op == "map":
            b = b.map(lambda x: x, num_parallel_calls=case["k"])
        elif op == "async":
            b = b.map(lambda x: x, num_parallel_calls=case["k"], deterministic=False)
        elif op == "shard":
            b = b.shard(0, 1)
        elif op == "filter":
            b = b.filter(lambda x: True)
        elif op in ("round_robin", "sample", "concat"):
            ps = [b.and_return(), read_sequence(other).and_return()]
            if case["k"] % 2:
                ps.reverse()
            if op == "round_robin":
                b = DataPipeline.round_robin(ps, allow_repeats=False)
            elif op == "sample":
                b = DataPipeline.sample(ps, [0.5, 0.5], seed=n, allow_repeats=False)
            else:
                b = DataPipeline.concat(ps)
        elif op == "yield_from":
            b = read_sequence([0]).yield_from(lambda _, b=b: b.and_return())
        p = b.and_return(max_num_warnings=case["warn"])
        got = []
        errors = 0
        extra = 0

        def take(x):
            nonlocal extra
            if x in other:
                extra += 1
            elif not isinstance(x, list):
                raise Violation("invented-example", f"{op} emitted {x!r} after a recoverable error")
            elif x and isinstance(x[0], list) and x[0] and isinstance(x[0][0], list):
                for y in x:
                    take(y)
            else:
                got.extend(tuple(e) for e in x)

        for _ in range(20):
            try:
                for x in p:
                    take(x)
                break
            except DataPipelineError:
                errors += 1
        if op:
            obs.count("reads_through_errors")
        if op in ("round_robin", "sample", "concat"):
            obs.check(extra == len(other), "lost-example", f"{op} emitted {extra} of {len(other)} examples of the other pipeline")
        want = sorted(tuple(s) for i, s in enumerate(seq) if i not in bad)
        if case["warn"]:
            obs.check(errors == 0, "warning-budget", f"{len(bad)} bad examples with a budget of {case['warn']} warnings raised {errors} errors (prefetch {case['prefetch']})")
            obs.check(sorted(got) == want, "warning-skip", f"{op} {case['k']}: with {sorted(bad)} skipped, got {sorted(got)[:40]}, want {want[:40]} (prefetch {case['prefetch']})")
        else:
            obs.check(errors >= 1, "error-swallowed", f"{sorted(bad)} never reported")
            if True:
                obs.check(errors == len(bad) and sorted(got) == want, "recoverable-resume", f"{op} {case['k']} prefetch {case['prefetch']}: {errors} errors for {sorted(bad)}; got {sorted(got)[:40]}")


if __name__ == "__main__":
    main(C10())
