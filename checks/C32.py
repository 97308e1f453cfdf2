"""C32: metrics are neither lost nor counted twice."""
import json
import math
import os
import random
import shutil
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from vlib import Check, main, scratch


def num(v):
    """Plain numbers of a published value."""
    import torch

    if isinstance(v, torch.Tensor):
        return v.item() if v.numel() == 1 else v.tolist()
    if isinstance(v, (tuple, list)):
        return [num(x) for x in v]
    return v


def near(a, b, tol=2e-5):
    if isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(near(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return a == b or math.isclose(a, b, rel_tol=tol, abs_tol=1e-6)


def edits(a, b):
    row = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        prev, row[0] = row[0], i
        for j, y in enumerate(b, 1):
            prev, row[j] = row[j], min(row[j] + 1, row[j - 1] + 1, prev + (x != y))
    return row[-1]


WORDS = "the a cat dog sat on mat ran far away from big red house and saw 12 birds".split()


def text(r):
    return " ".join(r.choice(WORDS) for _ in range(r.choice([5, 6, 8, 12])))


class Ref:
    """What was given to each metric, by name."""

    KINDS = ["sum", "mean", "min", "max", "bleu", "chrf", "wer", "thr"]

    def __init__(self, kinds):
        self.kinds = dict(kinds)
        self.seen = {n: [] for n in kinds}

    def copy(self):
        c = Ref(self.kinds)
        c.seen = {n: list(v) for n, v in self.seen.items()}
        return c

    def value(self, n, seen):
        k = self.kinds[n]
        if k == "sum":
            return sum(v * w for v, w in seen)
        if k == "mean":
            ws = sum(w for _, w in seen)
            t = sum(v * w for v, w in seen)
            return t / ws if t else 0.0
        if k == "min":
            return min((v for v, _ in seen), default=math.inf)
        if k == "max":
            return max((v for v, _ in seen), default=-math.inf)
        if k == "thr":
            return None  # judged per rank, see thr()
        if k == "wer":
            ue = sum(x[0] for x in seen)
            ul = sum(x[1] for x in seen)
            we = sum(x[2] for x in seen)
            wl = sum(x[3] for x in seen)
            return [ue * 100 / ul, we * 100 / wl] if ul and wl else [-1.0, -1.0]
        refs = [t for a, _ in seen for t in a]
        hyps = [t for _, b in seen for t in b]
        return refs, hyps


def make_metric(kind):
    from fairseq2.metrics import Max, Mean, Min, Sum
    from fairseq2.metrics.text import BleuMetric, ChrfMetric, WerMetric
    from torcheval.metrics import Throughput

    return {"sum": Sum, "mean": Mean, "min": Min, "max": Max, "bleu": BleuMetric, "chrf": ChrfMetric, "wer": WerMetric, "thr": Throughput}[kind]()


def update(r, bag, ref, n):
    """A random update of metric n, through the bag."""
    import torch
    from fairseq2.nn import BatchLayout

    k = ref.kinds[n]
    m = bag.get(n, type(bag.metrics[n]))
    if k in ("sum", "mean", "min", "max"):
        v = r.choice([r.randrange(-50, 1000), r.randrange(1 << 20), round(r.uniform(-5, 5), 3), 0])
        w = 1
        arg = v
        if r.random() < 0.4:
            # The state of Min and Max has the type of its inputs, and must have one on all ranks.
            arg = torch.tensor(v, dtype=r.choice([torch.float64, torch.float32] if k in ("sum", "mean") else [torch.float32]) if isinstance(v, float) else torch.int64)
        if k in ("sum", "mean") and r.random() < 0.5:
            w = r.choice([1, 2, 7, 0.5, 100])
            m.update(arg, weight=w)
        else:
            m.update(arg)
        ref.seen[n].append((v, w))
    elif k == "thr":
        a, t = r.randrange(1, 100), r.uniform(0.1, 3)
        m.update(a, t)
        ref.seen[n].append((a, t))
    elif k in ("bleu", "chrf"):
        c = r.choice([1, 2, 3])
        refs = [text(r) for _ in range(c)]
        hyps = [x if r.random() < 0.3 else " ".join(w if r.random() < 0.85 else r.choice(WORDS) for w in x.split()) for x in refs]
        m.update(refs, hyps)
        ref.seen[n].append((refs, hyps))
    else:
        c = r.choice([1, 2, 4])
        refs, hyps = [text(r) for _ in range(c)], [text(r) for _ in range(c)]
        rs = [[r.randrange(5) for _ in range(r.randrange(1, 9))] for _ in range(c)]
        hs = [[r.randrange(5) for _ in range(r.randrange(1, 9))] for _ in range(c)]

        def padded(xs):
            w = max(map(len, xs)) + r.choice([0, 2])
            t = torch.full((len(xs), w), r.choice([0, 9]))
            for i, x in enumerate(xs):
                t[i, : len(x)] = torch.tensor(x)
            return t, BatchLayout((len(xs), w), [len(x) for x in xs])

        m.update(refs, *padded(rs), hyps, *padded(hs))
        ref.seen[n].append((sum(edits(a, b) for a, b in zip(rs, hs)), sum(map(len, rs)), sum(edits(a.split(), b.split()) for a, b in zip(refs, hyps)), sum(len(a.split()) for a in refs)))


def expect(kinds, refs):
    """Values of the metrics over all ranks."""
    from sacrebleu.metrics import CHRF
    from sacrebleu.metrics.bleu import BLEU

    out = {}
    for n, k in kinds.items():
        allseen = [x for ref in refs for x in ref.seen[n]]
        if k == "thr":
            tot = sum(a for a, _ in allseen)
            t = max(sum(t for _, t in ref.seen[n]) for ref in refs)
            out[n] = tot / t if t else 0.0
            continue
        v = refs[0].value(n, allseen)
        if k in ("bleu", "chrf"):
            rs, hs = v
            if not rs:
                continue
            if k == "bleu":
                st = BLEU().corpus_score(hs, [rs])
                v = BLEU.compute_bleu(st.counts, st.totals, st.sys_len, st.ref_len).score if 0 in st.counts else st.score
            else:
                v = CHRF(word_order=2).corpus_score(hs, [rs]).score
        out[n] = v
    return out


class C32(Check):
    id = "C32"
    rule = (
        "random histories of updates, transactions, resets, saves and restores of metric bags on one or more gloo ranks, real trainer runs with overflows, "
        "gradient accumulation and restarts, batch metric helpers, and recorder files, all compared with values computed from the logged updates; "
        "non-trivial = at least one published value judged"
    )
    required = ["updates", "rollbacks", "commits", "restored_bags", "published_values", "rank_publications", "text_metrics", "trainer_publications", "trainer_overflows", "trainer_restarts", "batch_metrics", "empty_target_batches", "records", "reopened_files", "tb_scalars", "log_lines", "wandb_values", "rejected_states"]
    assumptions = ["fp16 loss scaling emulated by enabling torch's gradient scalers for CPU"]

    def setup_worker(self):
        import fairseq2.recipe  # noqa: F401 (import order)
        import logging

        import trainkit

        trainkit.emulate_fp16_scaling()
        logging.disable(logging.NOTSET)
        logging.getLogger("fairseq2").propagate = False
        logging.getLogger("fairseq2").setLevel(logging.CRITICAL)
        logging.getLogger("torcheval").setLevel(logging.ERROR)
        logging.getLogger().addFilter(lambda rec: "update()" not in rec.getMessage())

    def gen(self, rng, tier):
        q = tier == "quick"
        for i in range(140 if q else 2000):
            yield {"k": "bag", "s": rng.randrange(1 << 40), "size": 1}
        for i in range(10 if q else 150):
            yield {"k": "bag", "s": rng.randrange(1 << 40), "size": rng.choice([2, 2, 3])}
        for i in range(100 if q else 1500):
            n = rng.randrange(4, 24)
            p = rng.choice([0, 0.1, 0.3])
            yield {"k": "trainer", "s": rng.randrange(1 << 40), "n": n, "acc": rng.choice([1, 1, 2, 3]), "pub": rng.choice([1, 2, 3, 5]), "after": rng.choice([0, 0, 3]), "fp16": rng.random() < 0.6,
                   "bad": {str(b): rng.choice(["inf", "nan"]) for b in range(3 * n) if rng.random() < p}, "cut": [rng.randrange(1, n) for _ in range(rng.choice([0, 0, 1, 2]))], "pub_epochs": rng.random() < 0.25}
        for i in range(60 if q else 600):
            yield {"k": "helpers", "s": rng.randrange(1 << 40)}
        for i in range(50 if q else 500):
            yield {"k": "record", "s": rng.randrange(1 << 40)}

    def run(self, case, obs):
        getattr(self, case["k"])(case, obs, random.Random(case["s"]))

    # --- metric bags ---

    def bag(self, case, obs, r):
        import torch
        from fairseq2.gang import FakeGang

        kinds = {f"{r.choice(['', 'total_'])}m{i}": r.choice(Ref.KINDS) for i in range(r.randrange(1, 7))}
        syncs = sorted(r.sample(range(40), r.choice([1, 2, 3])))
        if case["size"] == 1:
            out = [("ok", self.history(case["s"], kinds, syncs, FakeGang(torch.device("cpu")), 0))]
        else:
            import gloo

            out = gloo.run(case["size"], lambda gang, rank: self.history(case["s"], kinds, syncs, gang, rank))
        for o in out:
            if not obs.check(o[0] == "ok", "unexpected-error", lambda: f"{kinds}: {[str(x)[-700:] for x in out if x[0] != chr(111) + chr(107)]}"):
                return
        res = [o[1] for o in out]
        for x in res:
            for k, v in x["counts"].items():
                obs.count(k, v)
            for mech, d in x["bad"]:
                obs.violate(mech, d)
        for i in range(len(syncs)):
            refs = []
            for x in res:
                f = Ref(kinds)
                f.seen = x["syncs"][i][0]
                refs.append(f)
            want = expect(kinds, refs)
            for rank, x in enumerate(res):
                seen, got, later = x["syncs"][i]
                if not obs.check(set(got) == set(kinds), "missing-metric", lambda: f"{sorted(got)} != {sorted(kinds)}"):
                    return
                for n, w in want.items():
                    obs.count("published_values")
                    if kinds[n] in ("bleu", "chrf", "wer"):
                        obs.count("text_metrics")
                    if case["size"] > 1:
                        obs.count("rank_publications")
                    obs.check(near(got[n], w), "wrong-metric-value", lambda: f"rank {rank}/{case['size']}, publication {i}: {n} ({kinds[n]}) = {got[n]}, expected {w}; ops {x['ops'][-30:]}")
                    obs.check(near(later[n], got[n], 0), "published-value-changed", lambda: f"{n} ({kinds[n]}) was {got[n]} and is {later[n]} after later updates")
                    obs.state(kinds[n], case["size"], got[n] == 0)

    def history(self, seed, kinds, syncs, gang, rank):
        import copy
        import io

        import torch
        from fairseq2.error import StateDictError
        from fairseq2.metrics.bag import MetricBag, sync_and_compute_metrics

        r = random.Random(seed * 31 + rank)
        bag = MetricBag(gang.device)
        bad, counts, ops, out = [], {}, [], []

        def count(k):
            counts[k] = counts.get(k, 0) + 1

        def fresh():
            b = MetricBag(gang.device)
            for n, k in kinds.items():
                b.add(n, make_metric(k))
            return b

        bag = fresh()
        ref, saved = Ref(kinds), None
        live = []
        for t in range(40):
            if t in syncs:
                vals = sync_and_compute_metrics(bag, gang)
                live.append((copy.deepcopy(ref.seen), {k: num(v) for k, v in vals.items()}, vals))
                ops.append("sync")
            op = r.choice(["update"] * 8 + ["begin", "commit", "rollback", "save", "reset", "bad"])
            ops.append(op)
            if op == "update":
                n = r.choice(list(kinds))
                update(r, bag, ref, n)
                ops[-1] = n
                count("updates")
            elif op == "begin" and saved is None:
                bag.begin_updates()
                saved = ref.copy()
            elif op == "commit" and saved is not None:
                bag.commit_updates()
                saved = None
                count("commits")
            elif op == "rollback" and saved is not None:
                bag.rollback_updates()
                ref, saved = saved, None
                count("rollbacks")
            elif op == "reset" and r.random() < 0.5:
                if r.random() < 0.5:
                    bag.reset_metrics()
                    ref = Ref(kinds)
                else:
                    for n, m in bag.metrics.items():
                        if not n.startswith("total_"):
                            m.reset()
                            ref.seen[n] = []
            elif op == "save" and saved is None:
                sd = bag.state_dict()
                if r.random() < 0.7:
                    f = io.BytesIO()
                    torch.save(sd, f)
                    f.seek(0)
                    sd = torch.load(f, weights_only=True)
                else:
                    # a snapshot: later updates must not show up in it
                    sc = ref.copy()
                    for _ in range(3):
                        update(r, bag, sc, r.choice(list(kinds)))
                nb = fresh()
                if r.random() < 0.5:  # replaced, not added to
                    for _ in range(3):
                        update(r, nb, Ref(kinds), r.choice(list(kinds)))
                nb.load_state_dict(sd)
                bag = nb
                count("restored_bags")
            elif op == "bad":
                sd = bag.state_dict()
                how = r.choice(["missing", "extra", "type", "inner"])
                n = r.choice(list(kinds))
                if how == "missing":
                    del sd[n]
                elif how == "extra":
                    sd["other"] = {}
                elif how == "type":
                    sd[n] = [1]
                else:
                    sd[n] = {"nosuch": 1}
                try:
                    fresh().load_state_dict(sd)
                    bad.append(("bad-state-accepted", how))
                except StateDictError:
                    count("rejected_states")
        return {"bad": bad, "counts": counts, "ops": ops, "syncs": [(s, g, {k: num(v) for k, v in vals.items()}) for s, g, vals in live]}

    # --- trainer ---

    def trainer(self, case, obs, r):
        import ckpt
        import torch
        import trainkit as tk
        from fairseq2.optim.fp16_loss_scaler import StandardFloat16LossScaler

        dir_ = scratch("c32")
        try:
            gangs = tk.single_gangs()
            n, acc = case["n"], case["acc"]
            per_epoch = r.choice([n, max(2, n // 3)])
            rows = [[[(s * acc + a) * 2 + j for j in range(r.choice([1, 2, 2]))] for a in range(acc)] for s in range(per_epoch)]
            calls = 0
            totals = {0: (0, 0)}  # step -> totals of the (restored) history
            for cut in list(case["cut"]) + [None]:
                log = tk.Log()
                net = tk.make_net(1)
                opt = torch.optim.SGD(net.parameters(), lr=0.001)
                mgr = ckpt.make_manager(dir_, gangs)
                scaler = StandardFloat16LossScaler(gangs, init_scale=2.0**10, scale_factor=2.0, scale_window=4, min_scale=2.0**-60) if case["fp16"] else None

                def bad(step, call, batch):
                    nonlocal calls
                    v = {"inf": tk.INF, "nan": tk.NAN}.get(case["bad"].get(str(calls))) if case["fp16"] else None
                    calls += 1
                    if v is not None:
                        log("poison")
                    return v

                def hook(u, b, cut=cut):
                    if cut is not None and u.calls > cut:
                        raise tk.Preempted()

                unit = tk.make_unit(net, log, normalize=r.random() < 0.5, bad=bad, hook=hook)
                set0 = unit.set_step_nr
                unit.set_step_nr = lambda k: (log("attempt", k), set0(k))
                if case["pub_epochs"]:
                    kw = dict(publish_metrics_every_n_data_epochs=1, checkpoint_every_n_data_epochs=1)
                else:
                    kw = dict(publish_metrics_every_n_steps=case["pub"], publish_metrics_after_n_steps=case["after"], checkpoint_every_n_steps=case["pub"])
                start = mgr.maybe_get_last_step_number(exclude_model_only=True) or 0
                t = tk.make_trainer(model=net, unit=unit, reader=tk.make_list_reader(lambda e: rows, tk.Batch), gangs=gangs, optimizer=opt, manager=mgr,
                                    recorder=tk.make_recorder(log), scaler=scaler, max_num_steps=n, max_num_data_epochs=6, **kw)
                how = tk.run_trainer(t)
                if start:
                    obs.count("trainer_restarts")
                totals = {k: v for k, v in totals.items() if k <= start}
                if not obs.check(start in totals, "restored-unknown-step", lambda: f"{start} not in {totals}"):
                    return
                self.judge_run(case, obs, log.events, totals, start)
                if how == "done" or obs.violations:
                    break
        finally:
            shutil.rmtree(dir_, ignore_errors=True)

    def judge_run(self, case, obs, events, totals, start):
        tot = totals[start]
        interval, step, attempt, poisoned, open_ = [], start, [], False, False

        def close():
            nonlocal tot, interval, open_
            if open_ and not poisoned:
                ids = [i for b in attempt for i in b]
                interval += attempt
                tot = (tot[0] + len(ids), tot[1] + sum(ids))
                totals[step] = tot
            elif open_:
                obs.count("trainer_overflows")
            open_ = False

        for e in events:
            if e[0] == "attempt":
                close()
                step, attempt, poisoned, open_ = e[1], [], False, True
            elif e[0] == "poison":
                poisoned = True
            elif e[0] == "batch":
                attempt.append(e[3])
                obs.count("updates")
            elif e[0] == "publish":
                close()
                obs.count("trainer_publications")
                v = e[2]
                ids = [i for b in interval for i in b]
                wts = sum(len(b) for b in interval)
                want = {"num_ids": len(ids), "total_num_ids": tot[0], "total_id_sum": tot[1], "avg": sum(sum(b) * len(b) for b in interval) / wts if wts and ids else 0.0}
                for k, w in want.items():
                    obs.check(k in v and near(v[k], w), "wrong-published-value", lambda: f"step {e[1]} (started from {start}): {k} = {v.get(k)}, expected {w}; interval {interval}; {case}")
                obs.check(math.isfinite(v["grad_norm"]), "overflow-in-metrics", lambda: f"grad_norm = {v['grad_norm']} at step {e[1]}; {case}")
                obs.state("publish", len(interval) > 1, start > 0, case["fp16"])
                interval = []

    # --- batch metrics ---

    def helpers(self, case, obs, r):
        import torch
        from fairseq2.datasets import Seq2SeqBatch, SequenceBatch
        from fairseq2.metrics import MetricBag
        from fairseq2.metrics import common as C

        def seqs(packed):
            k = r.randrange(1, 5)
            lens = [r.randrange(1, 9) for _ in range(k)]
            if packed:
                w = sum(lens) + r.choice([0, 0, 3])
                t = torch.zeros(w, dtype=torch.int64)
                pad, shape = w - sum(lens), (w,)
            else:
                w = max(lens) + r.choice([0, 2])
                t = torch.zeros(k, w, dtype=torch.int64)
                pad, shape = sum(w - x for x in lens), (k, w)
            return t, lens, pad, shape

        dev = torch.device("cpu")
        want = {}

        def add(n, v):
            want[n] = want.get(n, 0) + v

        bag = MetricBag(dev)
        which = r.choice(["seq", "seq2seq", "gen", "gen2"])
        {"seq": C.add_seq_batch_metrics, "seq2seq": C.add_seq2seq_batch_metrics, "gen": C.add_seq_generator_metrics, "gen2": C.add_seq2seq_generator_metrics}[which](bag)
        C.add_nll_loss_metric(bag)
        num, den = 0.0, 0
        nb = r.randrange(1, 8)
        transact = r.random() < 0.5
        thr = [0, 0.0]
        caches = [[], []]
        for _ in range(nb):
            if transact:
                bag.begin_updates()
            snap = (dict(want), num, den, list(thr), [list(c) for c in caches])
            packed = r.random() < 0.4
            t, lens, pad, shape = seqs(packed)
            targets = sum(lens)
            if which == "seq":
                mask = None
                if r.random() < 0.5:
                    mask = torch.tensor([r.random() < 0.5 for _ in range(t.numel())]).view(shape)
                    targets = int(mask.sum())
                b = SequenceBatch(t, lens, packed=packed, target_mask=mask)
                C.update_seq_batch_metrics(bag, b)
                for p in ("", "total_"):
                    add(p + "num_examples", len(lens))
                    add(p + "num_elements", sum(lens))
                    add(p + "num_target_elements", targets)
                add("padding", pad)
            elif which == "seq2seq":
                t2, lens2, pad2, _ = seqs(packed)
                if packed or len(lens2) != len(lens):
                    lens2 = [r.randrange(1, 9) for _ in lens]
                    if packed:
                        t2 = torch.zeros(sum(lens2) + 1, dtype=torch.int64)
                        pad2 = 1
                    else:
                        w = max(lens2)
                        t2 = torch.zeros(len(lens2), w, dtype=torch.int64)
                        pad2 = sum(w - x for x in lens2)
                from fairseq2.datasets import Seq2SeqBatch

                mask = None
                targets = sum(lens2)
                if r.random() < 0.4:
                    mask = torch.tensor([r.random() < 0.5 for _ in range(t2.numel())]).view(t2.shape)
                    targets = int(mask.sum())
                b = Seq2SeqBatch(t, lens, t2, lens2, packed=packed, target_mask=mask)
                C.update_seq2seq_batch_metrics(bag, b)
                for p in ("", "total_"):
                    add(p + "num_examples", len(lens))
                    add(p + "num_elements", sum(lens) + sum(lens2))
                    add(p + "num_source_elements", sum(lens))
                    add(p + "num_target_elements", targets)
                add("padding", pad + pad2)
            else:
                from types import SimpleNamespace as N

                out = N(hypotheses=[[]] * len(lens), counters=N(prefill_size=r.randrange(50), num_generated_elements=r.randrange(1, 90), generation_time=r.uniform(0.1, 2), cache_size=r.randrange(1000), cache_capacity=r.randrange(2000)))
                c = out.counters
                src = 0
                if which == "gen":
                    C.update_seq_generator_metrics(bag, out)
                else:
                    src = sum(lens)
                    C.update_seq2seq_generator_metrics(bag, out, src)
                    for p in ("", "total_"):
                        add(p + "num_source_elements", src)
                for p in ("", "total_"):
                    add(p + "num_examples", len(lens))
                    add(p + "num_elements", src + c.prefill_size + c.num_generated_elements)
                add("generator_prefill_size", c.prefill_size)
                add("generator_num_elements", c.num_generated_elements)
                thr[0] += c.num_generated_elements
                thr[1] += c.generation_time
                caches[0].append(c.cache_size)
                caches[1].append(c.cache_capacity)
            nt = r.choice([targets, targets, 0])
            loss = torch.tensor(round(r.uniform(0, 5), 3) * nt, dtype=torch.float64)
            if nt == 0:
                obs.count("empty_target_batches")
            C.update_nll_loss_metric(bag, loss, nt)
            num, den = num + loss.item(), den + nt
            obs.count("batch_metrics")
            if transact:
                if r.random() < 0.3:
                    bag.rollback_updates()
                    obs.count("rollbacks")
                    want, num, den, thr, caches = snap
                else:
                    bag.commit_updates()
        want["nll_loss"] = num / den if den else 0.0
        got = {k: num_(m.compute()) for k, m in bag.metrics.items()}
        for k, w in want.items():
            obs.check(near(got[k], w), "wrong-batch-metric", lambda: f"{which}: {k} = {got[k]}, expected {w}")
        if which.startswith("gen") and thr[1]:
            obs.check(near(got["generator_elements_per_second"], thr[0] / thr[1]), "wrong-batch-metric", "elements per second")
            obs.check(got["generator_cache_size"] == max(caches[0]) and got["generator_cache_capacity"] == max(caches[1]), "wrong-batch-metric", "cache size")
        obs.state(which, transact)
        vals = {k: m.compute() for k, m in bag.metrics.items()}
        k, el = r.choice([0, nb]), r.choice([0.0, 2.5])
        C.extend_batch_metric_values(vals, k, el)
        ne, nx = want.get("num_elements", 0), want.get("num_examples", 0)
        exp = {"batch_size": nx // k if k else 0, "elements_per_batch": ne // k if k else 0, "elements_per_second": ne / el if el else 0.0}
        if ne and "padding" in want:
            exp["padding_ratio"] = want["padding"] / (ne + want["padding"])
        for n, w in exp.items():
            obs.check(n in vals and near(num_(vals[n]), w), "wrong-derived-metric", lambda: f"{n} = {vals.get(n)}, expected {w}; {k} batches, {el} s")
        obs.check(all(near(num_(vals[n]), got[n], 0) for n in got), "metric-modified", "")
        # The loss without a target count is a mean over batches.
        bag = MetricBag(dev)
        C.add_nll_loss_metric(bag)
        ls = [round(r.uniform(0.1, 5), 3) for _ in range(4)]
        for x in ls:
            C.update_nll_loss_metric(bag, torch.tensor(x))
        obs.check(near(bag.metrics["nll_loss"].compute().item(), sum(ls) / 4), "wrong-batch-metric", "nll_loss mean")

    # --- recorders ---

    def record(self, case, obs, r):
        import logging

        import torch
        from fairseq2.file_system import LocalFileSystem
        from fairseq2.metrics.recorders import MetricDescriptorRegistry
        from fairseq2.metrics.recorders.composite import CompositeMetricRecorder
        from fairseq2.metrics.recorders.descriptor import MetricDescriptor
        from fairseq2.metrics.recorders.jsonl import JsonlMetricRecorder
        from fairseq2.metrics.recorders.log import LogMetricRecorder
        from fairseq2.metrics.recorders.tensorboard import TensorBoardRecorder
        from fairseq2.metrics.recorders.wandb import WandbRecorder
        from fairseq2.recipe.composition.metric_recorders import _register_metric_descriptors
        from fairseq2.runtime.dependency import DependencyContainer

        cont = DependencyContainer()
        _register_metric_descriptors(cont)
        reg = cont.resolve(MetricDescriptorRegistry)
        descs = {d.name: d for d in cont.resolve_all(MetricDescriptor)} if hasattr(cont, "resolve_all") else {d.name: d for d in cont.collection.resolve(MetricDescriptor)}
        shown = {n: d.display_name for n, d in descs.items()}
        obs.check(len(set(shown.values())) == len(shown), "ambiguous-display-names", lambda: f"{sorted(shown.values())}")
        known = sorted(descs)
        dir_ = scratch("c32")
        lines = []

        class H(logging.Handler):
            def emit(self, rec):
                lines.append(rec.getMessage())

        lg = logging.getLogger("fairseq2")
        h, lvl = H(), lg.level
        lg.addHandler(h)
        lg.setLevel(logging.INFO)
        tb = r.random() < 0.3
        wb = []

        class Run:
            def log(self, output, step=None):
                wb.append((step, {k: num(v) for k, v in output.items()}))

            def finish(self):
                pass

        def make():
            rs = [JsonlMetricRecorder(dir_, LocalFileSystem(), reg), LogMetricRecorder(reg), WandbRecorder(Run(), reg)]
            if tb:
                rs.append(TensorBoardRecorder(dir_, reg))
            return CompositeMetricRecorder(rs)

        cats = r.sample(["train", "valid", "valid/a", "eval/x-y_z/3", "eval", "a/b", "a/c"], 3)
        sent = {c: [] for c in cats}
        flat = []
        nlog = 0
        try:
            rec = make()
            for i in range(r.randrange(3, 14)):
                if r.random() < 0.2:
                    rec.close()
                    rec = make()
                    obs.count("reopened_files")
                cat = r.choice(cats)
                names = r.sample(known + ["custom", "my metric", "żółć/1"], r.randrange(0, 9))
                vals = {}
                for n in names:
                    v = r.choice([lambda: r.randrange(-5, 10**12), lambda: r.uniform(-1e3, 1e3), lambda: math.nan, lambda: math.inf, lambda: -math.inf, lambda: 1e-300, lambda: True,
                                  lambda: torch.tensor(r.randrange(100)), lambda: torch.tensor(r.uniform(0, 9), dtype=torch.float64), lambda: torch.tensor(math.nan), lambda: torch.tensor([0.5]), lambda: torch.tensor(-math.inf),
                                  lambda: [r.uniform(0, 1), r.randrange(9)], lambda: (torch.tensor(0.25), 3), lambda: 'te"x\nt é', lambda: ""])()
                    vals[n] = v
                step = r.choice([None, i, i, 10**7 + i])
                before = len(lines)
                rec.record_metric_values(cat, dict(vals), step)
                obs.count("records")
                plain = {shown.get(n, n): num(v) if not (isinstance(v, torch.Tensor) and v.numel() == 1) else v.item() for n, v in vals.items()}
                sent[cat].append((step, plain))
                flat.append((cat, step, plain))
                if obs.check(len(lines) == before + 1, "not-logged", lambda: f"{lines[before:]}"):
                    obs.count("log_lines")
                    vis = [shown.get(n, n) for n in vals if n not in descs or descs[n].log]
                    obs.check(all(f"{d}: " in lines[-1] for d in vis), "not-logged", lambda: f"{vis} not all in {lines[-1]}")
                bad = r.random()
                if bad < 0.15:  # rejected as a whole
                    try:
                        JsonlMetricRecorder.record_metric_values(rec._recorders[0], cat, {"loss": 1.0, "x": object()}, 1)
                        obs.violate("bad-value-accepted", "object()")
                    except ValueError:
                        pass
                elif bad < 0.3:
                    for c in ("../evil", "a b", "x/../y", "", "/abs", "a//b"):
                        try:
                            rec.record_metric_values(c, {"loss": 1.0}, 1)
                            obs.violate("bad-category-accepted", c)
                        except ValueError:
                            pass
            rec.close()
            obs.check(len(wb) == len(flat), "wandb-records", lambda: f"{len(wb)} != {len(flat)}")
            for (cat, step, plain), (ws, wv) in zip(flat, wb):
                exp = {}
                for n, v in plain.items():
                    if isinstance(v, list) and not isinstance(v, str):
                        exp.update({f"{cat}/{n} ({j})": x for j, x in enumerate(v)})
                    else:
                        exp[f"{cat}/{n}"] = v
                obs.count("wandb_values", len(exp))
                obs.check(ws == step and set(wv) == set(exp) and all(near(wv[k], exp[k], 0) for k in exp), "wandb-values", lambda: f"{wv} != {exp}")
            files = {str(f.relative_to(dir_ / "metrics")) for f in (dir_ / "metrics").rglob("*") if f.is_file()}
            obs.check(files == {c + ".jsonl" for c in cats if sent[c]}, "wrong-files", lambda: f"{files}")
            for c in cats:
                if not sent[c]:
                    continue
                rows = [json.loads(x) for x in (dir_ / "metrics" / (c + ".jsonl")).read_text(encoding="utf-8").split("\n")[:-1]]
                if not obs.check(len(rows) == len(sent[c]), "wrong-number-of-records", lambda: f"{c}: {len(rows)} != {len(sent[c])}"):
                    continue
                for row, (step, plain) in zip(rows, sent[c]):
                    t = row.pop("Time", None)
                    st = row.pop("Step", None)
                    obs.check(isinstance(t, str) and st == step, "wrong-record", lambda: f"{t} {st} {step}")
                    obs.check(set(row) == set(plain) and all(near(row[k], plain[k], 0) for k in plain), "wrong-record", lambda: f"{row} != {plain}")
            if tb:
                self.tensorboard(obs, dir_, flat)
            obs.state("record", tb, len(flat) > 8)
        finally:
            lg.removeHandler(h)
            lg.setLevel(lvl)
            shutil.rmtree(dir_, ignore_errors=True)

    def tensorboard(self, obs, dir_, flat):
        from tensorboard.backend.event_processing.event_file_loader import EventFileLoader

        want = {}
        for cat, step, plain in flat:
            for n, v in plain.items():
                vs = [(f"{n} ({j})", x) for j, x in enumerate(v)] if isinstance(v, list) else [(n, v)]
                for k, x in vs:
                    if not isinstance(x, str):
                        want.setdefault((cat, k), []).append((step or 0, float(x)))
        got = {}
        for cat in {c for c, _, _ in flat}:
            for f in sorted((dir_ / "tb" / cat).glob("events.*")):
                for e in EventFileLoader(str(f)).Load():
                    for v in e.summary.value:
                        if v.metadata.plugin_data.plugin_name == "scalars" or v.HasField("simple_value"):
                            x = v.simple_value if v.HasField("simple_value") else (v.tensor.float_val[0] if v.tensor.float_val else __import__("struct").unpack("<f", v.tensor.tensor_content)[0])
                            got.setdefault((cat, v.tag), []).append((e.step, x))
        for k, w in want.items():
            obs.count("tb_scalars", len(w))
            g = sorted(got.get(k, []), key=str)
            w = sorted(w, key=str)
            obs.check(len(g) == len(w) and all(a[0] == b[0] for a, b in zip(g, w)) , "tensorboard-values", lambda: f"{k}: {g} != {w}")
            gv, wv = sorted((x for _, x in g), key=str), sorted((x for _, x in w), key=str)
            fin = lambda xs: sorted(x for x in xs if math.isfinite(x))  # noqa: E731
            obs.check(len(fin(gv)) == len(fin(wv)) and all(near(a, b, 1e-5) for a, b in zip(fin(gv), fin(wv))), "tensorboard-values", lambda: f"{k}: {g} != {w}")


num_ = num

if __name__ == "__main__":
    main(C32())
