"""Shared harness for all checks.

A check is a subclass of `Check`. It generates JSON-able cases, runs each one
against the real code and reports what its monitors saw. `main()` does the
rest: seeding, worker processes, watchdogs, known findings, evidence, verdict.

Exit codes: 0 held, 1 violated (with a VIOLATION line), 2 inconclusive/error.
"""

from __future__ import annotations

import argparse
import errno
import hashlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))


def setup_fairseq2(native_dir: str | None = None) -> None:
    """Makes `fairseq2` importable from /repo's working tree.

    With `native_dir`, the native bindings built from /repo are used; otherwise
    the project's own DOC_MODE switch selects the import-only stand-ins."""
    import types

    for p in (REPO / "src", REPO / "native/python/src"):
        if str(p) in sys.path:
            sys.path.remove(str(p))
        sys.path.insert(0, str(p))

    if "fairseq2n.config" not in sys.modules:
        # Generated by the build; constants only.
        import torch

        m = types.ModuleType("fairseq2n.config")
        m._TORCH_VERSION = torch.__version__
        m._TORCH_VARIANT = "CPU-only"
        m._SUPPORTS_IMAGE = False
        m._SUPPORTS_CUDA = False
        m._CUDA_VERSION = None
        sys.modules["fairseq2n.config"] = m

    import fairseq2n

    if native_dir is None:
        fairseq2n.DOC_MODE = True
    else:
        fairseq2n.__path__.append(native_dir)

    import warnings

    warnings.filterwarnings("ignore")

    import logging

    logging.disable(logging.ERROR)

    import fairseq2  # noqa: F401


class Violation(Exception):
    def __init__(self, mechanism: str, detail: str) -> None:
        super().__init__(f"{mechanism}: {detail}")
        self.mechanism = mechanism
        self.detail = detail


class Inconclusive(Exception):
    pass


class Obs:
    """What the monitors saw while one case ran."""

    def __init__(self) -> None:
        self.counts: Counter[str] = Counter()
        self.states: set[str] = set()
        self.violations: list[tuple[str, str]] = []
        self.notes: list[str] = []
        self.sample: object = None
        self.fingerprint: object = None

    def count(self, key: str, n: int = 1) -> None:
        self.counts[key] += n

    def state(self, *parts: object) -> None:
        """Records a distinct observed state/interleaving/outcome."""
        s = "|".join(str(p) for p in parts)
        if len(s) > 60:
            s = hashlib.sha1(s.encode()).hexdigest()[:16]
        if len(self.states) < 20000:
            self.states.add(s)

    def violate(self, mechanism: str, detail: object) -> None:
        self.violations.append((mechanism, str(detail)[:4000]))

    def check(self, ok: bool, mechanism: str, detail: object = "") -> bool:
        self.counts["assertions"] += 1
        if not ok:
            self.violate(mechanism, detail() if callable(detail) else detail)
        return ok

    def inconclusive(self, why: str) -> None:
        raise Inconclusive(why)


class Check:
    id = "C00"
    level = "exploration"
    rule = ""
    # Counters that must be non-zero, or the run is inconclusive.
    required: list[str] = []
    assumptions: list[str] = []
    workers = 6
    case_timeout = 60.0
    time_cap = {"quick": 480.0, "thorough": 3000.0}
    native = False
    threads = 1  # torch threads per worker

    def setup(self, tier: str) -> None:
        """Called once, before workers are forked."""

    def setup_worker(self) -> None:
        """Called once per worker."""

    def gen(self, rng: random.Random, tier: str):
        """Yields JSON-able case dicts."""
        raise NotImplementedError

    def run(self, case: dict, obs: Obs) -> None:
        raise NotImplementedError

    def teardown(self) -> None:
        pass

    def on_abnormal(self, case: dict, res: dict):
        """What it means if a case killed its worker or hung (twice)."""
        if res["status"] == "timeout":
            return ("hang", res["err"] + ", twice")
        if os.WIFSIGNALED(res.get("wait", 0)) and os.WTERMSIG(res["wait"]) in (signal.SIGKILL, signal.SIGTERM, signal.SIGINT):
            return None
        return ("crash", res["err"])

    # Nontrivial if it made at least one assertion.
    def nontrivial(self, case: dict, obs: Obs) -> bool:
        return obs.counts["assertions"] > 0


def scratch(prefix: str = "vf") -> Path:
    """A fresh scratch directory."""
    return Path(tempfile.mkdtemp(prefix=prefix + "-", dir=os.environ.get("VF_SCRATCH")))


def load_known(pid: str) -> list[dict]:
    """Lines "known: property=<id> mechanism=<name> <what fails>"; "fixed:"
    lines are a record only."""
    f = VERIF / "known_findings.txt"
    out = []
    if f.exists():
        for line in f.read_text().splitlines():
            if line.startswith("known: "):
                _, p, m, what = line.split(" ", 3)
                if p == f"property={pid}":
                    out.append({"mechanism": m.removeprefix("mechanism="), "what": what})
    return out


def _run_one(check: Check, case: dict) -> dict:
    obs = Obs()
    t = time.time()
    status = "ok"
    err = ""
    try:
        check.run(case, obs)
    except Violation as ex:
        obs.violate(ex.mechanism, ex.detail)
    except Inconclusive as ex:
        status, err = "inconclusive", str(ex)
    except (KeyboardInterrupt, SystemExit, MemoryError, ImportError):
        status, err = "error", traceback.format_exc()[-3000:]
    except BaseException as ex:
        # Every error a case expects is handled by the check itself; one that
        # arrives here is the code under test failing on a legitimate input.
        if isinstance(ex, OSError) and ex.errno in (errno.ENOSPC, errno.EMFILE, errno.ENOMEM):
            status, err = "error", traceback.format_exc()[-3000:]
        else:
            obs.violate("unexpected-" + type(ex).__name__, traceback.format_exc()[-2500:])
    return {
        "status": status,
        "err": err,
        "counts": dict(obs.counts),
        "states": sorted(obs.states),
        "violations": obs.violations,
        "sample": obs.sample,
        "fp": obs.fingerprint,
        "nontrivial": check.nontrivial(case, obs),
        "t": time.time() - t,
        "notes": obs.notes,
    }


def _worker(check: Check, rfd: int, wfd: int) -> None:
    """Reads one case per line, writes one result per line."""
    rin = os.fdopen(rfd, "r")
    wout = os.fdopen(wfd, "w")
    check.setup_worker()
    for line in rin:
        msg = json.loads(line)
        res = _run_one(check, msg["case"])
        res["i"] = msg["i"]
        wout.write(json.dumps(res, default=str) + "\n")
        wout.flush()
    wout.close()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


class _Pool:
    """Forked workers over pipes; one that dies or hangs is replaced."""

    def __init__(self, check: Check, n: int) -> None:
        self.check = check
        self.ws = [self._spawn() for _ in range(n)]

    def _spawn(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.setsid()
            os.close(w1)
            os.close(r2)
            for w in getattr(self, "ws", []):
                try:
                    os.close(w["w"])
                    os.close(w["r"])
                except OSError:
                    pass
            try:
                _worker(self.check, r1, w2)
            except BaseException:
                traceback.print_exc()
            os._exit(3)
        os.close(r1)
        os.close(w2)
        return {"pid": pid, "w": w1, "r": r2, "busy": None, "since": 0.0, "buf": b""}

    def kill(self, w) -> None:
        try:
            os.killpg(w["pid"], signal.SIGKILL)
        except OSError:
            try:
                os.kill(w["pid"], signal.SIGKILL)
            except OSError:
                pass
        try:
            _, st = os.waitpid(w["pid"], 0)
        except ChildProcessError:
            st = 0
        for fd in (w["w"], w["r"]):
            try:
                os.close(fd)
            except OSError:
                pass
        return st

    def run(self, cases, on_result, deadline: float) -> bool:
        import select

        it = iter(enumerate(cases))
        retries: list = []
        retried: set[int] = set()
        done = False
        truncated = False
        while True:
            for k, w in enumerate(self.ws):
                if w["busy"] is None and (retries or not done):
                    if retries:
                        i, case = retries.pop()
                    elif time.time() > deadline:
                        done = truncated = True
                        break
                    else:
                        try:
                            i, case = next(it)
                        except StopIteration:
                            done = True
                            break
                    w["busy"] = (i, case)
                    w["since"] = time.time()
                    try:
                        os.write(w["w"], (json.dumps({"i": i, "case": case}) + "\n").encode())
                    except OSError:
                        pass
            busy = [w for w in self.ws if w["busy"] is not None]
            if not busy:
                if done and not retries:
                    break
                continue
            rl, _, _ = select.select([w["r"] for w in busy], [], [], 1.0)
            for k, w in enumerate(self.ws):
                if w["busy"] is None:
                    continue
                if w["r"] in rl:
                    data = os.read(w["r"], 1 << 20)
                    if not data:  # died
                        st = self.kill(w)
                        i, case = w["busy"]
                        on_result(i, case, {"status": "died", "wait": st, "err": f"the process died, wait status {st}"})
                        self.ws[k] = self._spawn()
                        continue
                    w["buf"] += data
                    if b"\n" in w["buf"]:
                        line, w["buf"] = w["buf"].split(b"\n", 1)
                        i, case = w["busy"]
                        w["busy"] = None
                        on_result(i, case, json.loads(line))
                elif time.time() - w["since"] > self.check.case_timeout:
                    i, case = w["busy"]
                    self.kill(w)
                    if i not in retried:
                        retried.add(i)
                        retries.append((i, case))
                    else:
                        on_result(i, case, {"status": "timeout", "err": f"case exceeded {self.check.case_timeout:.0f}s"})
                    self.ws[k] = self._spawn()
        return truncated

    def close(self) -> None:
        for w in self.ws:
            try:
                os.close(w["w"])
            except OSError:
                pass
        t = time.time()
        for w in self.ws:
            while time.time() - t < 5:
                p, _ = os.waitpid(w["pid"], os.WNOHANG)
                if p:
                    break
                time.sleep(0.02)
            else:
                self.kill(w)
            try:
                os.killpg(w["pid"], signal.SIGKILL)
            except OSError:
                pass


def main(check: Check) -> None:
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--limit", type=int, default=0)
    ap.add_argument("-j", type=int, default=0)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--keep-going", action="store_true")
    args = ap.parse_args()
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"

    t0 = time.time()
    os.environ["OMP_NUM_THREADS"] = os.environ["MKL_NUM_THREADS"] = str(check.threads)
    sdir = tempfile.mkdtemp(prefix=f"vf{check.id}-")
    os.environ["VF_SCRATCH"] = sdir
    code = 2
    try:
        code = _main(check, args, tier, t0)
    except Inconclusive as ex:
        print(f"INCONCLUSIVE property={check.id} {ex}")
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        shutil.rmtree(sdir, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


def _main(check: Check, args, tier: str, t0: float) -> int:
    native_dir = None
    if check.native:
        from nativebuild import build_ext

        native_dir = build_ext()
    check.native_dir = native_dir

    # Threads are limited through OMP_NUM_THREADS; torch.set_num_threads() would
    # break threads of forked processes.
    setup_fairseq2(native_dir)
    check.setup(tier)

    known = load_known(check.id)

    if args.replay:
        rec = json.loads(Path(args.replay).read_text())
        cases = [rec["case"]]
    else:
        rng = random.Random(f"{check.id}-{args.seed}")
        cases = check.gen(rng, tier)
        if args.limit:
            import itertools

            cases = itertools.islice(cases, args.limit)

    counts: Counter[str] = Counter()
    states: set[str] = set()
    fps: set[str] = set()
    viols: list = []
    errors: list = []
    samples: list = []
    known_hit: dict[str, str] = {}
    n = 0

    def on_result(i: int, case: dict, res: dict) -> None:
        nonlocal n
        n += 1
        if args.v:
            print(i, json.dumps(case)[:2000], res["status"], res.get("counts"), f"{res.get('t', 0):.2f}s", res.get("violations"), res.get("err", "")[-1500:], flush=True)
        if res["status"] in ("died", "timeout"):
            v = check.on_abnormal(case, res)
            if v is None:
                errors.append((case, res["status"], res["err"]))
                return
            res = {"status": "ok", "violations": [v], "counts": {"assertions": 1}, "states": [], "nontrivial": True, "fp": None, "sample": None}
        if res["status"] in ("error", "inconclusive"):
            errors.append((case, res["status"], res["err"]))
        counts.update(res["counts"])
        states.update(res["states"])
        if res["nontrivial"]:
            fps.add(hashlib.sha1(json.dumps(res["fp"] if res["fp"] is not None else case, sort_keys=True, default=str).encode()).hexdigest())
        if len(samples) < 3 and res["nontrivial"]:
            samples.append({"case": case, "observed": res["sample"] if res["sample"] is not None else res["counts"]})
        for mech, detail in res["violations"]:
            for k in known:
                if mech == k["mechanism"]:
                    known_hit[mech] = k["what"]
                    break
            else:
                viols.append((mech, detail, case))

    nw = args.j or check.workers
    deadline = t0 + check.time_cap[tier]
    truncated = False
    if nw <= 1 or args.replay:
        check.setup_worker()
        for i, case in enumerate(cases):
            if time.time() > deadline:
                truncated = True
                break
            on_result(i, case, _run_one(check, case))
            if viols and not args.keep_going:
                break
    else:
        pool = _Pool(check, nw)

        def guarded():
            for c in cases:
                if viols and not args.keep_going:
                    return
                yield c

        truncated = pool.run(guarded(), on_result, deadline)
        pool.close()

    check.teardown()

    missing = [k for k in check.required if not counts[k]]

    ev = {
        "property": check.id,
        "tier": tier,
        "seed": args.seed,
        "level": check.level,
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": len(fps),
            "rule": check.rule,
            "samples": samples or [{"note": "no non-trivial case completed"}],
            "monitor_events": dict(sorted(counts.items())),
            "distinct_observed_states": len(states),
            "truncated_by_time": truncated,
            "errors": len(errors),
            "known_findings_seen": sorted(known_hit),
        },
        "assumptions": check.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    if not args.replay and not args.limit:
        (VERIF / f"evidence/{check.id}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")

    for mech, what in sorted(known_hit.items()):
        print(f"KNOWN-FINDING: property={check.id} {what}")

    if viols:
        rd = VERIF / "replays"
        rd.mkdir(exist_ok=True)
        seen = set()
        for mech, detail, case in viols:
            if mech in seen:
                continue
            seen.add(mech)
            if len(seen) > 5:
                break
            h = hashlib.sha1((mech + json.dumps(case, sort_keys=True)).encode()).hexdigest()[:10]
            rp = rd / f"{check.id}-{h}.json"
            rp.write_text(json.dumps({"property": check.id, "mechanism": mech, "detail": detail, "case": case, "seed": args.seed, "tier": tier}, indent=1))
            print(f"VIOLATION property={check.id} replay={rp}")
            print(f"  mechanism: {mech}\n  detail: {detail[:1500]}\n  case: {json.dumps(case)[:800]}")
        return 1

    print(f"{check.id}: {n} cases, {len(fps)} distinct non-trivial, {len(states)} states, events {dict(counts)}, {time.time() - t0:.1f}s{' (time cap)' if truncated else ''}")

    if errors:
        case, st, err = errors[0]
        print(f"INCONCLUSIVE property={check.id}: {len(errors)} cases ended with {sorted({e[1] for e in errors})}; first: {json.dumps(case)[:500]}\n{err}")
        return 2
    if args.replay or args.limit:
        return 0
    if missing or len(fps) == 0:
        print(f"INCONCLUSIVE property={check.id}: monitors never reached: {missing}")
        return 2
    return 0
