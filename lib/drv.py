"""Runs the sanitized native driver and collects what it reports."""
import json
import os
import re
import shutil
import subprocess
import time

from vlib import scratch

OPTS = {
    "ASAN_OPTIONS": "detect_leaks=1:allocator_may_return_null=1:detect_stack_use_after_return=1:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=1",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4",
    "LSAN_OPTIONS": "report_objects=0",
}
HEAD = re.compile(r"(?:runtime error: (?P<ub>.*)|(?:ERROR|WARNING): (?P<san>\w+Sanitizer): (?P<kind>[a-zA-Z-]+(?: [a-z]+)*)|(?P<leak>LEAKED)|(?P<term>terminate called.*)|(?P<assert>Assertion .* failed))")
STALL = 45.0


def reports(err):
    """(mechanism, excerpt) of each report."""
    out = []
    hits = list(HEAD.finditer(err))
    for i, m in enumerate(hits):
        part = err[m.start() : hits[i + 1].start() if i + 1 < len(hits) else None]
        if m["ub"]:
            start = err.rfind("\n", 0, m.start()) + 1
            kind, part = "undefined-behaviour", err[start : m.start()] + part
        elif m["san"] == "LeakSanitizer" and "fatal error" in part:
            continue  # not permitted here
        elif m["san"]:
            kind = m["kind"].split(" on ")[0].strip().replace(" ", "-")[:60]
        else:
            kind = "leaked-examples" if m["leak"] else "aborted"
        frames = re.findall(r"#\d+ \S+ (?:in )?.*?/(native/src/fairseq2n/\S+?):\d+", part)
        where = os.path.basename(frames[0]).split(".")[0] if frames else ""
        lines = [x[:160] if not x.lstrip().startswith("#") else " ".join(x.split()[:1] + x.split()[-1:])[:160] for x in part.splitlines() if x.strip()]
        out.append((f"{kind}{'-in-' + where if where else ''}", "\n".join(lines[:45])))
    return out


def run(driver, mode, first, n, obs, *, stall="violation"):
    """Runs programs first..first+n-1, resuming after each failing one."""
    end, fails = first + n, 0
    env = {**os.environ, **OPTS}
    while first < end and fails < 4:
        dir_ = scratch("drv")
        try:
            (dir_ / "w").mkdir()
            with open(dir_ / "out", "w+b") as fo, open(dir_ / "err", "w+b") as fe:
                p = subprocess.Popen([driver, mode, str(first), str(end - first), str(dir_ / "w")], env=env, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL)
                cur, since, hung = None, time.time(), False
                while p.poll() is None:
                    time.sleep(0.05)
                    try:
                        s = (dir_ / "w/status").read_text()
                    except OSError:
                        s = ""
                    if s != cur:
                        cur, since = s, time.time()
                    elif time.time() - since > STALL:
                        hung = True
                        p.kill()
                        p.wait()
            out = (dir_ / "out").read_text(errors="replace")
            err = (dir_ / "err").read_text(errors="replace")
            cur = (dir_ / "w/status").read_text().strip() if (dir_ / "w/status").exists() else ""
        finally:
            shutil.rmtree(dir_, ignore_errors=True)
        for mech, text in reports(err)[:5]:
            obs.violate(mech, f"program {cur} ({mode}): {text}")
        if hung:
            if stall == "violation":
                obs.violate("stalled", f"program {cur} ({mode}) made no progress for {STALL:.0f} s")
            else:
                obs.count("endless_programs")
        elif p.returncode and not reports(err):
            if p.returncode == -9:
                obs.inconclusive("driver killed")
            elif "LeakSanitizer has encountered a fatal error" not in err:
                obs.violate(f"died-{-p.returncode if p.returncode < 0 else p.returncode}", f"program {cur} ({mode}): {err[-1500:]}")
        if out.strip():
            for k, v in json.loads(out).items():
                obs.count(k, v)
            obs.count("assertions")
            return
        if not cur:
            obs.inconclusive("driver did not start")
            return
        fails += 1
        first = int(cur) + 1
