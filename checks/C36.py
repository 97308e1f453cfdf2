"""C36: context settings stay in their thread and scope."""
import queue
import random
import threading
from collections import defaultdict

import torch

from vlib import Check, main

DTYPES = [torch.float16, torch.bfloat16, torch.float64, torch.float32]


class Boom(Exception):
    pass


class C36(Check):
    id = "C36"
    rule = "after every enter, exit or failure in any thread, each thread reads exactly the settings of its own stack, both from the getters and from the tensors it makes"
    required = ["enters", "exits", "failed_exits", "observed", "tensors", "kind_lockstep", "kind_free", "gangs_seen", "meta_seen", "new_threads", "default_gangs", "explicit"]
    assumptions = ["scopes are exited in the reverse order of their entry, as `with` does"]

    def gen(self, rng, tier):
        for i in range(300 if tier == "quick" else 8000):
            yield dict(kind="free" if i % 5 == 0 else "lockstep", seed=rng.randrange(1 << 30), threads=rng.randint(1, 4), ops=rng.randint(10, 60))

    def setup_worker(self):
        import fairseq2.recipe  # noqa: F401
        import fairseq2

        fairseq2.init_fairseq2()

    def run(self, c, obs):
        from fairseq2.device import CPU
        from fairseq2.gang import create_fake_gangs, set_default_gangs

        obs.count("kind_" + c["kind"])
        rng = random.Random(c["seed"])
        pool = [create_fake_gangs(CPU) for _ in range(4)]
        default = [pool[0]]
        set_default_gangs(pool[0])
        torch.set_default_dtype(torch.float32)
        errors = []
        lock = threading.Lock()

        class Worker:
            def __init__(w, seed):
                w.rng = random.Random(seed)
                w.stack = []  # (kind, value)
                w.cms = []
                w.log = []
                w.counts = defaultdict(int)

            def top(w, kind, fallback):
                for k, v in reversed(w.stack):
                    if k == kind:
                        return v
                return fallback

            def step(w):
                x = w.rng.random()
                if x < 0.45 and len(w.stack) < 7:
                    w.enter()
                elif x < 0.85 and w.stack:
                    w.exit(fail=w.rng.random() < 0.3)
                w.observe()

            def enter(w):
                from fairseq2.data_type import set_dtype
                from fairseq2.device import set_device
                from fairseq2.gang import set_gangs

                k = w.rng.choice(["device", "dtype", "dtype", "gangs", "gangs", "gangs_meta"])
                if k == "device":
                    v = w.rng.choice([torch.device("meta"), torch.device("cpu")])
                    cm = set_device(v)
                    w.stack.append(("device", v))
                elif k == "dtype":
                    v = w.rng.choice(DTYPES)
                    cm = set_dtype(v)
                    w.stack.append(("dtype", v))
                elif k == "gangs":
                    v = w.rng.choice(pool)
                    cm = v if w.rng.random() < 0.5 else set_gangs(v)
                    w.stack.append(("gangs:cpu", v))
                else:
                    v = w.rng.choice(pool)
                    cm = set_gangs(v, meta=True)
                    w.stack.append(("gangs:cpu", v))
                    w.stack.append(("gangs:meta", v))
                cm.__enter__()
                w.cms.append((cm, 2 if k == "gangs_meta" else 1))
                w.log.append(f"enter {k} {v if k in ('device', 'dtype') else pool.index(v)}")
                w.counts["enters"] += 1

            def exit(w, fail):
                cm, n = w.cms.pop()
                if fail:
                    e = Boom()
                    try:
                        r = cm.__exit__(Boom, e, None)
                        if r:
                            errors.append(("swallowed", "an exception was swallowed"))
                    except Boom:
                        pass
                    w.counts["failed_exits"] += 1
                else:
                    cm.__exit__(None, None, None)
                    w.counts["exits"] += 1
                del w.stack[-n:]
                w.log.append("exit" + (" with exception" if fail else ""))

            def observe(w):
                from fairseq2.data_type import get_current_dtype
                from fairseq2.device import get_current_device
                from fairseq2.gang import get_current_gangs, get_default_gangs

                dev, dt = w.top("device", torch.device("cpu")), w.top("dtype", torch.float32)
                d0 = default[0]
                cpu, meta = w.top("gangs:cpu", d0), w.top("gangs:meta", None)
                got = dict(device=get_current_device(), dtype=get_current_dtype())
                for k, want in (("device", dev), ("dtype", dt)):
                    if got[k] != want:
                        errors.append((f"current-{k}", f"{got[k]} instead of {want} after {w.log[-12:]}"))
                for _ in range(2):
                    name = w.rng.choice(["ones", "zeros", "empty", "rand", "full", "eye", "linspace", "tensor"])
                    a = {"full": ((2,), 1.5), "eye": (3,), "linspace": (0.0, 1.0, 3), "tensor": ([1.5, 2.0],)}.get(name, (2, 3))
                    kw, wd, wt = {}, dev, dt
                    if w.rng.random() < 0.2:
                        kw["dtype"] = wt = w.rng.choice(DTYPES)
                        w.counts["explicit"] += 1
                    if w.rng.random() < 0.2:
                        kw["device"] = wd = torch.device(w.rng.choice(["cpu", "meta"]))
                        w.counts["explicit"] += 1
                    t = getattr(torch, name)(*a, **kw)
                    if t.device != wd or t.dtype != wt:
                        errors.append(("tensor-" + ("device" if t.device != wd else "dtype"), f"torch.{name}({kw}) made {t.dtype} on {t.device} instead of {wt} on {wd} after {w.log[-12:]}"))
                    w.counts["tensors"] += 1
                g = get_current_gangs(torch.device("cpu"))
                if g is not cpu and d0 is default[0]:
                    errors.append(("current-gangs", f"gangs {pool.index(g) if g in pool else g} instead of {pool.index(cpu)} after {w.log[-12:]}"))
                if meta is not None:
                    w.counts["meta_seen"] += 1
                    if get_current_gangs(torch.device("meta")) is not meta:
                        errors.append(("current-gangs-meta", f"after {w.log[-12:]}"))
                elif get_current_gangs(torch.device("meta")) in [v for k, v in w.stack]:
                    errors.append(("current-gangs-meta-leak", f"after {w.log[-12:]}"))
                g = get_current_gangs()
                if (want := cpu if dev.type == "cpu" else meta) is not None and d0 is default[0] and g is not want:
                    errors.append(("current-gangs-of-device", f"after {w.log[-12:]}"))
                if d0 is default[0] and get_default_gangs(torch.device("cpu")) is not d0:
                    errors.append(("default-gangs", f"after {w.log[-12:]}"))
                w.counts["gangs_seen"] += 1
                w.counts["observed"] += 1

            def finish(w):
                while w.stack:
                    w.exit(w.rng.random() < 0.3)
                    w.observe()
                w.observe()

        workers = [Worker(rng.randrange(1 << 30)) for _ in range(c["threads"])]

        def guarded(f):
            try:
                f()
            except BaseException as e:  # noqa: BLE001
                import traceback

                with lock:
                    errors.append((f"unexpected-{type(e).__name__}", traceback.format_exc()[-1200:]))

        if c["kind"] == "lockstep":
            qs = [(queue.SimpleQueue(), queue.SimpleQueue()) for _ in workers]

            def loop(w, qi, qo):
                while (m := qi.get()) is not None:
                    guarded(getattr(w, m))
                    qo.put(1)

            ts = [threading.Thread(target=loop, args=(w, *q), daemon=True) for w, q in zip(workers, qs)]
            for t in ts:
                t.start()
            for _ in range(c["ops"]):
                if rng.random() < 0.04:
                    default[0] = rng.choice(pool)
                    set_default_gangs(default[0])
                    obs.count("default_gangs")
                i = rng.randrange(len(ts))
                for j, m in [(i, "step"), (rng.randrange(len(ts)), "observe")]:
                    qs[j][0].put(m)
                    qs[j][1].get()
                if rng.random() < 0.1:
                    # A thread started meanwhile has no settings.
                    n = Worker(1)
                    t = threading.Thread(target=guarded, args=(n.observe,))
                    t.start()
                    t.join()
                    obs.count("new_threads")
            for q in qs:
                q[0].put("finish")
                q[1].get()
                q[0].put(None)
            for t in ts:
                t.join()
        else:
            import sys

            start = threading.Barrier(len(workers))
            old = sys.getswitchinterval()
            sys.setswitchinterval(1e-5)

            def free(w):
                start.wait()
                for _ in range(c["ops"]):
                    w.step()
                w.finish()

            ts = [threading.Thread(target=guarded, args=(lambda w=w: free(w),)) for w in workers]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            sys.setswitchinterval(old)
        guarded(Worker(2).observe)
        for w in workers:
            for k, v in w.counts.items():
                obs.count(k, v)
            obs.count("assertions", w.counts["observed"])
            obs.state((len(workers), tuple(x.split(" 0")[0] for x in w.log[:5])))
        seen = set()
        for m, d in errors:
            if m not in seen:
                seen.add(m)
                obs.violate(m, d)


if __name__ == "__main__":
    main(C36())
