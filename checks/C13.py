"""C13: native code is free of races and deadlocks."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from vlib import Check, main


class C13(Check):
    id = "C13"
    rule = (
        "random pipelines with prefetching and parallel (ordered and unordered) mapping, slow and failing functions, driven through random reads, resets, saves, restores, and "
        "destruction, in native code built with ThreadSanitizer and watched for progress; non-trivial = the programs of the case ran to the end"
    )
    required = ["programs", "pipelines", "reads", "examples", "records", "reloads", "resets", "pipeline_errors", "errors", "calls", "interleavings"]
    assumptions = ["a stand-in for TBB on plain threads", "Python bindings not instrumented"]
    case_timeout = 400
    workers = 6

    def setup(self, tier):
        import nativebuild

        self.driver = str(nativebuild.build_driver("thread"))

    def gen(self, rng, tier):
        q = tier == "quick"
        for i in range(48 if q else 1500):
            yield {"first": rng.randrange(1 << 48), "n": 200}

    def run(self, case, obs):
        import drv

        drv.run(self.driver, "conc", case["first"], case["n"], obs)
        obs.state("conc")


if __name__ == "__main__":
    main(C13())
