"""C12: native code is memory safe."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from vlib import Check, main


class C12(Check):
    id = "C12"
    rule = (
        "random pipelines over random examples driven through random reads, resets, saves, restores (with damaged states too), and destruction, and random inputs of "
        "the collater, selectors, string, text, and file functions, all in native code built with AddressSanitizer, LeakSanitizer, and UndefinedBehaviorSanitizer, and counting live "
        "examples; non-trivial = the programs of the case ran to the end"
    )
    required = ["programs", "pipelines", "reads", "examples", "records", "reloads", "damaged_reloads", "resets", "pipeline_errors", "errors", "calls", "collates", "strings", "splits", "to_int", "to_tensor", "selects", "maps", "lengths", "file_maps", "texts", "lines"]
    assumptions = ["audio, image, zip, and SentencePiece code left out (their libraries are missing)", "built without TBB", "Python bindings not instrumented"]
    case_timeout = 400
    workers = 7

    def setup(self, tier):
        import nativebuild

        self.driver = str(nativebuild.build_driver("address"))

    def gen(self, rng, tier):
        q = tier == "quick"
        for mode, n, k in (("mem", 20, 200), ("damage", 20, 150), ("kit", 8, 500)):
            for i in range(n if q else n * 30):
                yield {"mode": mode, "first": rng.randrange(1 << 48), "n": k}

    def run(self, case, obs):
        import drv

        drv.run(self.driver, case["mode"], case["first"], case["n"], obs, stall="skip")
        obs.state(case["mode"])


if __name__ == "__main__":
    main(C12())
