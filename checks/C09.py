"""C09: process grids and collectives are consistent."""
import os
import random
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from vlib import Check, main

DIMS = ("dp", "tp", "rdp", "sdp", "pp")


def grid(size, tp, intra):
    """Members of each gang of each rank: the mathematical definition."""
    out = []
    dp_size = size // tp
    for r in range(size):
        d, t = divmod(r, tp)
        dp = [x * tp + t for x in range(dp_size)]
        g = {"dp": dp, "tp": [d * tp + x for x in range(tp)], "pp": [r]}
        if intra == 0:  # no FSDP
            g["rdp"], g["sdp"] = dp, [r]
        elif intra == 1:  # fully sharded
            g["rdp"], g["sdp"] = [r], dp
        else:
            n, i = divmod(d, intra)
            g["sdp"] = dp[n * intra : (n + 1) * intra]
            g["rdp"] = dp[i::intra]
        out.append(g)
    return out


class C09(Check):
    id = "C09"
    rule = (
        "gangs of every topology on simulated, threaded and gloo ranks log their members and the results of random collectives with delays between "
        "ranks; judged by the mathematical grid and by reference results; non-trivial = at least one membership or result compared"
    )
    required = ["topologies", "memberships", "gloo_collectives", "gloo_subgang_broadcasts", "thread_memberships", "rejected_sizes", "rejected_ranks", "fake_collectives", "bad_coordinators"]
    assumptions = ["gloo on CPU; NCCL and GPUs are not available"]
    case_timeout = 120.0

    def gen(self, rng, tier):
        q = tier == "quick"
        for size in range(1, 13 if q else 33):
            yield {"k": "fake", "size": size, "s": rng.randrange(1 << 30)}
        topo = []
        for size in (2, 3, 4, 5, 6, 8):
            for tp in range(1, size + 1):
                if size % tp:
                    continue
                dp = size // tp
                for intra in [0, 1] + [i for i in range(2, dp + 1) if dp % i == 0]:
                    topo.append((size, tp, intra))
        for t in topo:
            yield {"k": "thread", "topo": t, "s": rng.randrange(1 << 30)}
        for t in topo:
            if t[1] > 1 and t[2] > 1 and t[2] != t[0] // t[1]:
                continue  # needs sub-gangs of sub-gangs: CUDA only
            for _ in range(1 if q else 12):
                yield {"k": "gloo", "topo": t, "s": rng.randrange(1 << 30), "n": 25 if q else 60}

    def make(self, root, topo):
        from fairseq2.gang import create_fsdp_gangs, create_parallel_gangs

        _, tp, intra = topo
        g = create_parallel_gangs(root, tp_size=tp)
        if intra == 1:
            g = create_fsdp_gangs(g)
        elif intra > 1:
            g = create_fsdp_gangs(g, intra)
        return g

    def expect_ranks(self, obs, topo, r, g, where):
        ref = grid(*topo)[r]
        obs.check(g.root.rank == r and g.root.size == topo[0], "root", f"{where} {topo} rank {r}")
        for d in DIMS:
            gang = getattr(g, d)
            ok = gang.size == len(ref[d]) and gang.rank == ref[d].index(r)
            obs.check(ok, f"grid-{d}", f"{where} {topo} rank {r}: {d} is rank {gang.rank} of {gang.size}, expected {ref[d].index(r)} of {len(ref[d])}")

    def run(self, case, obs):
        getattr(self, "run_" + case["k"])(case, obs)

    def run_fake(self, case, obs):
        import torch
        from fairseq2.gang import FakeGang, Gangs, ReduceOperation, create_fsdp_gangs, create_parallel_gangs

        size, r = case["size"], random.Random(case["s"])
        cpu = torch.device("cpu")
        for tp in range(0, size + 3):
            for rank in range(size):
                root = FakeGang(cpu, rank=rank, size=size)
                if tp < 1 or size % tp:
                    try:
                        create_parallel_gangs(root, tp_size=tp)
                        obs.violate("bad-size-accepted", f"tp {tp} of {size}")
                    except ValueError:
                        obs.count("rejected_sizes")
                    continue
                g = create_parallel_gangs(root, tp_size=tp)
                dp = size // tp
                self.expect_ranks(obs, (size, tp, 0), rank, g, "fake")
                self.expect_ranks(obs, (size, tp, 1), rank, create_fsdp_gangs(g), "fake")
                for intra in range(0, dp + 3):
                    if intra <= 1 or dp % intra:
                        try:
                            create_fsdp_gangs(g, intra)
                            obs.violate("bad-size-accepted", f"intra {intra} of {dp}")
                        except ValueError:
                            obs.count("rejected_sizes")
                        continue
                    self.expect_ranks(obs, (size, tp, intra), rank, create_fsdp_gangs(g, intra), "fake")
                    obs.count("topologies")
                    obs.state(size, tp, intra)
        # Arbitrary sub-gangs.
        for _ in range(20):
            ranks = sorted(r.sample(range(size), r.randrange(1, size + 1)))
            for rank in range(size):
                sub = FakeGang(cpu, rank=rank, size=size).create_gang(ranks)
                want = (ranks.index(rank), len(ranks)) if rank in ranks else None
                obs.check((sub and (sub.rank, sub.size)) == want, "sub-gang", f"{ranks} of {size}: rank {rank}")
        for bad in ([-1], [size], [0, size], [0, 0], [size + 1], [0, -1]):
            try:
                FakeGang(cpu, rank=0, size=size).create_gang(bad)
                obs.violate("bad-ranks-accepted", f"{bad} in a gang of {size}")
            except ValueError:
                obs.count("rejected_ranks")
        for rk, sz in ((size, size), (-1, size), (0, 0)):
            try:
                FakeGang(cpu, rank=rk, size=sz)
                obs.violate("bad-ranks-accepted", f"rank {rk} of {sz}")
            except ValueError:
                obs.count("rejected_ranks")
        # The coordinator leads everywhere.
        root = FakeGang(cpu, rank=0, size=size)
        one = FakeGang(cpu)
        for d in ("dp", "tp", "pp"):
            kw = dict(root=root, dp=one, rdp=one, sdp=one, tp=one, pp=one)
            kw[d] = FakeGang(cpu, rank=1, size=2)
            try:
                Gangs(**kw)
                obs.violate("bad-coordinator-accepted", d)
            except ValueError:
                obs.count("bad_coordinators")
        # A fake gang behaves as if all ranks had contributed the same.
        for _ in range(10):
            rank = r.randrange(size)
            f = FakeGang(cpu, rank=rank, size=size)
            x = torch.randint(1, 4, (r.randrange(1, 4), 2)).to(torch.float64)
            for op, want in ((ReduceOperation.SUM, x * size), (ReduceOperation.PRODUCT, x**size)):
                y = x.clone()
                f.all_reduce(y, op)
                obs.check(torch.equal(y, want), "fake-all-reduce", f"{op} {size}: {x} -> {y}")
            out = torch.zeros((size, *x.shape), dtype=x.dtype)
            f.all_gather(out, x)
            obs.check(torch.equal(out, torch.stack([x] * size)), "fake-all-gather", f"{size}")
            outs = [torch.zeros_like(x) for _ in range(size)]
            f.all_gather_to_list(outs, x)
            obs.check(all(torch.equal(o, x) for o in outs), "fake-all-gather-to-list", f"{size}")
            y = x.clone()
            f.broadcast(y, rank)
            obs.check(torch.equal(x, y), "fake-broadcast", "")
            obs.count("fake_collectives", 5)

    def run_thread(self, case, obs):
        import tgang
        import torch

        topo = tuple(case["topo"])

        def body(root, rank):
            g = self.make(root, topo)
            out = {}
            for d in DIMS:
                gang = getattr(g, d)
                x = torch.full((1,), rank)
                y = torch.zeros((gang.size, 1), dtype=torch.int64)
                gang.all_gather(y, x)
                out[d] = (gang.rank, gang.size, y.flatten().tolist())
            return out

        res = tgang.run_ranks(topo[0], body, delay_seed=case["s"])
        self.judge_members(obs, topo, res, "thread_memberships")

    def judge_members(self, obs, topo, res, counter):
        bad = [r for r in res if r[0] != "ok"]
        obs.check(not bad, "ranks-failed", lambda: f"{topo}: {bad[:2]}")
        if bad:
            return
        ref = grid(*topo)
        obs.state(*topo)
        for r, (_, v) in enumerate(res):
            for d in DIMS:
                rk, sz, members = v[d]
                obs.count(counter)
                obs.count("memberships")
                want = ref[r][d]
                obs.check((rk, sz) == (want.index(r), len(want)) and members == want, f"members-{d}", f"{topo} rank {r}: {d} rank {rk} of {sz} with members {members}, expected {want}")

    def run_gloo(self, case, obs):
        import gloo

        topo, seed, n = tuple(case["topo"]), case["s"], case["n"]
        res = gloo.run(topo[0], lambda root, rank: self.gloo_rank(root, rank, topo, seed, n), timeout=90)
        if any(r[0] == "init-failed" for r in res):
            obs.inconclusive(str(res)[:500])
        bad = [r for r in res if r[0] != "ok"]
        obs.check(not bad, "ranks-failed", lambda: f"{case}: {str(bad[:2])[:2500]}")
        if bad:
            return
        self.judge_members(obs, topo, [("ok", r[1]["members"]) for r in res], "gloo_memberships")
        for rank, (_, v) in enumerate(res):
            for c in v["wrong"]:
                obs.violate("collective-" + c[0], f"{case} rank {rank}: {c[1]}")
            for k, m in v["counts"].items():
                obs.count(k, m)
            obs.counts["assertions"] += sum(v["counts"].values())
        obs.sample = {"topo": topo, "counts": res[0][1]["counts"]}

    def gloo_rank(self, root, rank, topo, seed, n):
        import torch
        from fairseq2.gang import ReduceOperation, all_sum, broadcast_flag

        g = self.make(root, topo)
        ref = grid(*topo)[rank]
        ref["root"] = list(range(topo[0]))
        members, wrong, counts = {}, [], {"gloo_collectives": 0, "gloo_subgang_broadcasts": 0}
        for d in DIMS:
            gang = getattr(g, d)
            y = torch.zeros((gang.size, 1), dtype=torch.int64)
            gang.all_gather(y, torch.full((1,), rank))
            members[d] = (gang.rank, gang.size, y.flatten().tolist())
        # Extra sub-gangs of the root.
        r = random.Random(seed)
        extra = []
        for _ in range(2):
            ranks = sorted(r.sample(range(topo[0]), r.randrange(1, topo[0] + 1)))
            sub = root.create_gang(ranks)
            if (sub is None) != (rank not in ranks) or sub is not None and (sub.rank, sub.size) != (ranks.index(rank), len(ranks)):
                wrong.append(("sub-gang", f"{ranks}"))
            extra.append((ranks, sub))
        lag = random.Random(seed * 31 + rank)

        def data(who, i, dt, shape):
            gen = torch.Generator().manual_seed(seed % 100000 + 7919 * who + i)
            return torch.randint(-4, 5, shape, generator=gen).to(dt)

        ops = {ReduceOperation.SUM: lambda xs: sum(xs[1:], xs[0].clone()), ReduceOperation.MIN: lambda xs: torch.stack(xs).amin(0), ReduceOperation.MAX: lambda xs: torch.stack(xs).amax(0),
               ReduceOperation.PRODUCT: lambda xs: torch.stack(xs).prod(0)}
        for i in range(n):
            which = r.choice(["root", *DIMS, 0, 1])
            kind = r.choice(["reduce", "gather", "list", "bcast", "objects", "flag", "sum", "barrier"])
            opk = r.choice(list(ops))
            dt = r.choice([torch.float32, torch.float64, torch.int64, torch.int32])
            shape = r.choice([(), (1,), (3,), (2, 3), (0,), (4, 1)])
            pick = r.random()
            if lag.random() < 0.3:
                time.sleep(lag.random() * 0.01)
            if which in (0, 1):
                mem, gang = extra[which]
                if gang is None:
                    continue
            else:
                mem, gang = ref[which], getattr(g, which)
            src = int(pick * len(mem))
            from fairseq2.gang import FakeGang

            if isinstance(gang, FakeGang) and opk in (ReduceOperation.MIN, ReduceOperation.MAX):
                continue
            x = data(rank, i, dt, shape)
            xs = [data(m, i, dt, shape) for m in mem]
            counts["gloo_collectives"] += 1

            def eq(name, got, want):
                if not torch.equal(got, want):
                    wrong.append((name, f"{which} {mem} #{i}: {got.tolist()} instead of {want.tolist()}"))

            if kind == "reduce":
                gang.all_reduce(x, opk)
                eq("all-reduce", x, ops[opk](xs))
            elif kind == "gather":
                if not shape or 0 in shape:
                    continue
                out = torch.zeros((len(mem), *shape), dtype=dt)
                gang.all_gather(out, x)
                eq("all-gather", out, torch.stack(xs))
            elif kind == "list":
                outs = [torch.zeros(shape, dtype=dt) for _ in mem]
                gang.all_gather_to_list(outs, x)
                for o, w in zip(outs, xs):
                    eq("all-gather-to-list", o, w)
            elif kind == "bcast":
                gang.broadcast(x, src)
                eq("broadcast", x, xs[src])
                if len(mem) < topo[0]:
                    counts["gloo_subgang_broadcasts"] += 1
            elif kind == "objects":
                objs = [{"r": rank, "i": i}, "x" * (rank + 1)]
                gang.broadcast_objects(objs, src)
                want = [{"r": mem[src], "i": i}, "x" * (mem[src] + 1)]
                if objs != want:
                    wrong.append(("broadcast-objects", f"{which} {mem} #{i} from {src}: {objs} instead of {want}"))
                if len(mem) < topo[0]:
                    counts["gloo_subgang_broadcasts"] += 1
            elif kind == "flag":
                got = broadcast_flag(gang, (rank + i) % 2 == 0, src)
                if got != ((mem[src] + i) % 2 == 0):
                    wrong.append(("broadcast-flag", f"{which} {mem} #{i} from {src}: {got}"))
            elif kind == "sum":
                v = all_sum(gang, rank * 1.5 + i)
                if abs(float(v) - sum(m * 1.5 + i for m in mem)) > 1e-4 * (1 + i) * len(mem):
                    wrong.append(("all-sum", f"{which} {mem} #{i}: {v}"))
                v = all_sum(gang, rank + 1)
                if int(v) != sum(m + 1 for m in mem):
                    wrong.append(("all-sum", f"{which} {mem} #{i}: {v}"))
            else:
                gang.barrier()
        root.barrier()
        return {"members": members, "wrong": wrong[:20], "counts": counts}


if __name__ == "__main__":
    main(C09())
