"""C38: loss and evaluation do not depend on batching."""
import math
import os
import random
import sys
from types import SimpleNamespace

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from vlib import REPO, Check, main


def ref_losses(logits, targets, smoothing):
    """Losses of (S, V) logits and (S) targets, in double precision."""
    import torch

    lp = torch.log_softmax(logits.double(), -1)
    nll = -lp[torch.arange(len(targets)), targets.clamp(0, lp.size(-1) - 1)]
    if smoothing == 0.0:
        return nll
    eps = smoothing / (lp.size(-1) - 1)
    return (1.0 - smoothing - eps) * nll - eps * lp.sum(-1)


def levenshtein(a, b):
    d = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        last, d[0] = d[0], i
        for j, y in enumerate(b, 1):
            last, d[j] = d[j], min(d[j] + 1, d[j - 1] + 1, last + (x != y))
    return d[-1]


def sync_metrics(metrics, process_group=None):
    """torcheval's synchronization for ranks that are threads."""
    import copy

    for m in metrics.values():
        m._prepare_for_merge_state()
    vals = process_group._x(f"metrics:{sorted(metrics)}", {k: copy.deepcopy(m) for k, m in metrics.items()})
    out = {}
    for k in metrics:
        m = copy.deepcopy(vals[0][k])
        m.merge_state([copy.deepcopy(v[k]) for v in vals[1:]])
        out[k] = m.compute()
    return out


class Recorder:
    """Metric values as published."""

    def __init__(self):
        self.events = []

    def record_metric_values(self, category, values, step_nr=None):
        import torch

        self.events.append((category, step_nr, {k: v.item() if isinstance(v, torch.Tensor) else v for k, v in values.items()}))

    def close(self):
        self.events.append(("closed", None, {}))


class C38(Check):
    id = "C38"
    native = True
    rule = (
        "losses of random logits, and of real models on random batches (padded, packed, masked, smoothed), compared with a reference in double precision; "
        "the real validator and evaluator run over random splits of the same data on several ranks; training with validation compared with training without"
    )
    required = ["ce", "ignored_targets", "model_losses", "packed_losses", "trimmed_batches", "refused", "s2s_losses", "evaluations", "ranks", "empty_ranks", "units", "validations", "scores", "asr_evaluations", "empty_hypotheses", "perfect_hypotheses", "trained_with_validation", "failures", "stops", "random_units", "reruns"]
    assumptions = ["logits are finite", "results are compared up to float rounding"]
    workers = 6

    def setup_worker(self):
        sys.path.insert(0, str(REPO))
        import torcheval.metrics.toolkit as toolkit

        toolkit.sync_and_compute_collection = sync_metrics
        import fairseq2.recipe  # noqa: F401

        import recipes.lm.sft.recipe  # noqa: F401
        import recipes.wav2vec2.asr.recipe  # noqa: F401

    def gen(self, rng, tier):
        n = 1500 if tier == "quick" else 15000
        for _ in range(n):
            yield {"kind": rng.choices(["ce", "model", "s2s", "trim", "eval", "asr", "train"], [8, 8, 3, 3, 8, 4, 2])[0], "s": rng.randrange(1 << 40)}

    def run(self, case, obs):
        getattr(self, "run_" + case["kind"])(random.Random(case["s"]), obs, case)

    def close(self, obs, what, got, want, why, tol=2e-4):
        got, want = float(got), float(want)
        ok = (math.isnan(got) and math.isnan(want)) or abs(got - want) <= tol * max(1.0, abs(want))
        obs.check(ok, what, lambda: f"{why() if callable(why) else why}: {got!r}, expected {want!r}")

    # -- cross entropy ------------------------------------------------------
    def run_ce(self, rng, obs, case):
        import torch
        from fairseq2.nn.functional import cross_entropy

        g = torch.Generator().manual_seed(case["s"])
        batch, width, vocab = rng.choice([None, 1, 3]), rng.randint(1, 9), rng.choice([2, 3, 11, 40])
        shape = (width,) if batch is None else (batch, width)
        dt = rng.choice([torch.float32, torch.float32, torch.float16, torch.bfloat16, torch.float64])
        logits = (torch.randn(*shape, vocab, generator=g) * rng.choice([1.0, 5.0, 30.0])).to(dt)
        targets = torch.randint(0, vocab, shape, generator=g)
        pad = rng.choice([None, 0, vocab - 1])
        if pad is not None and rng.random() < 0.7:
            targets[torch.rand(shape, generator=g) < 0.4] = pad
        mask = torch.rand(shape, generator=g) < rng.choice([0.0, 0.3, 0.8, 1.0]) if rng.random() < 0.6 else None
        smoothing = rng.choice([0.0, 0.0, 0.1, 0.5])
        if batch is not None and rng.random() < 0.3:
            big = torch.randn(batch, width + 2, vocab, generator=g).to(dt)
            big[:, 1:-1] = logits
            logits = big[:, 1:-1]  # not contiguous
            bt = torch.zeros(batch, width + 1, dtype=torch.int64)
            bt[:, 1:] = targets
            targets = bt[:, 1:]
        used = torch.ones(shape, dtype=torch.bool) if pad is None else targets != pad
        if mask is not None:
            used = used & mask
        flat = ref_losses(logits.reshape(-1, vocab), targets.reshape(-1), smoothing)
        u = used.reshape(-1)
        obs.count("ce")
        obs.count("ignored_targets", int((~u).sum()))
        obs.state(("ce", batch is None, str(dt), pad is None, mask is None, smoothing, bool(u.all()), bool(u.any())))
        what = lambda: f"logits {tuple(logits.shape)} {dt}, pad_idx {pad}, label_smoothing {smoothing}, mask {mask is not None}"  # noqa: E731
        for reduction in ("sum", "mean", "none"):
            x = logits.clone().requires_grad_()
            copies = [t.clone() for t in (targets, mask) if t is not None]
            got = cross_entropy(x, targets, pad, label_smoothing=smoothing, target_mask=mask, reduction=reduction)
            obs.check(got.dtype == torch.float32, "loss-dtype", lambda: f"{what()}: {got.dtype}")
            obs.check(all(torch.equal(a, b) for a, b in zip(copies, [t for t in (targets, mask) if t is not None])), "input-changed", what)
            want = flat * u
            if reduction == "none":
                obs.check(got.shape == shape and torch.allclose(got.double().reshape(-1), want, rtol=1e-4, atol=1e-4), "cross-entropy", lambda: f"{what()}, {reduction}: {got}, expected {want.reshape(shape)}")
                got = got.sum()
            elif reduction == "sum":
                self.close(obs, "cross-entropy", got.detach(), want.sum(), lambda: f"{what()}, {reduction}")
            else:
                if not u.any():
                    continue
                self.close(obs, "cross-entropy", got.detach(), want.sum() / u.sum(), lambda: f"{what()}, {reduction}")
            y = logits.double().clone().requires_grad_()
            w = (ref_losses(y.reshape(-1, vocab), targets.reshape(-1), smoothing) * u).sum()
            if reduction == "mean":
                w = w / u.sum()
            w.backward()
            got.backward()
            obs.check(bool((x.grad[~used] == 0).all()), "ignored-gradient", lambda: f"{what()}, {reduction}: ignored targets have gradients {x.grad[~used]}")
            tol = 1e-4 if dt in (torch.float32, torch.float64) else 1e-2
            obs.check(torch.allclose(x.grad.double(), y.grad, rtol=tol, atol=tol), "loss-gradient", lambda: f"{what()}, {reduction}: {x.grad}, expected {y.grad}")
        # Whatever is at the ignored positions.
        other, ot = logits.clone(), targets.clone()
        other[~used] = (torch.randn(int((~used).sum()), vocab, generator=g) * 1e3).to(dt)
        if mask is not None:
            ot[~mask] = torch.randint(0, vocab, (int((~mask).sum()),), generator=g)
            if pad is not None:
                pass
        for reduction in ("sum", "mean"):
            if not u.any():
                break
            # Masked targets may hold the padding index or not.
            a = cross_entropy(logits, targets, pad, label_smoothing=smoothing, target_mask=mask, reduction=reduction)
            b = cross_entropy(other, ot, pad, label_smoothing=smoothing, target_mask=mask, reduction=reduction)
            obs.check(torch.equal(a, b), "ignored-positions", lambda: f"{what()}, {reduction}: {a} becomes {b} with other values at ignored positions")

    # -- models -------------------------------------------------------------
    def sequences(self, rng, n, vocab, pad, low=2, high=9):
        ok = [t for t in range(vocab) if t != pad]
        return [[rng.choice(ok) for _ in range(rng.randint(low, high))] for _ in range(n)]

    def lm(self, rng):
        from modelkit import LM_FAMILIES, lm_desc, make_lm

        d = lm_desc(rng, rng.choice(LM_FAMILIES))
        if d["family"] == "llama":
            d["pad_idx"] = rng.choice([None, 0, 5])
        return d, make_lm(d)

    def alone(self, model, seq):
        """Logits (S, V) of a sequence on its own."""
        import torch
        from fairseq2.nn import BatchLayout

        x = torch.tensor([seq])
        return model(x, BatchLayout.of(x))[0]

    def batch(self, rows, masks, packed, extra, pad):
        """A SequenceBatch of `rows`."""
        import torch
        from fairseq2.datasets import SequenceBatch
        from nnkit import pack_rows

        x, _, _ = pack_rows([torch.tensor(r) for r in rows], "packed" if packed else "padded", extra=extra, poison=pad)
        m = None
        if masks is not None:
            m, _, _ = pack_rows([torch.tensor(r) for r in masks], "packed" if packed else "padded", extra=extra, poison=0)
        return SequenceBatch(x, [len(r) for r in rows], packed=packed, target_mask=m)

    def run_model(self, rng, obs, case):
        import torch

        d, model = self.lm(rng)
        vocab, pad = d["vocab"], model.pad_idx
        if pad is not None and rng.random() < 0.5:
            model.train(rng.random() < 0.5)
            for m in model.modules():
                if isinstance(m, torch.nn.Dropout):
                    m.eval()
        model.eval()
        n = rng.randint(1, 5)
        rows = self.sequences(rng, n, vocab, pad)
        packed = rng.random() < 0.4 and d["family"] != "gemma3n"  # Gemma3n takes padded batches only.
        masks = None
        if pad is None or rng.random() < 0.5:
            masks = [[rng.random() < 0.7 for _ in r] for r in rows]
        extra = rng.choice([0, 0, 1, 4])
        poison = pad if masks is None or rng.random() < 0.5 else rng.randrange(vocab)
        smoothing = rng.choice([0.0, 0.0, 0.2])
        b = self.batch(rows, masks, packed, extra, 0 if poison is None else poison)
        inp, tgt = b.as_auto_regressive()
        x, layout = inp.as_input()
        # The loss of every target from sequences run on their own.
        want, count = torch.zeros((), dtype=torch.float64), 0
        with torch.no_grad():
            for i, r in enumerate(rows):
                lo = ref_losses(self.alone(model, r)[:-1], torch.tensor(r[1:]), smoothing)
                if packed and i + 1 < n:  # A pack is one stream of targets.
                    nxt = ref_losses(self.alone(model, r)[-1:], torch.tensor(rows[i + 1][:1]), smoothing)
                    lo = torch.cat([lo, nxt])
                use = torch.ones(len(lo))
                if masks is not None:
                    use = torch.tensor([float(v) for v in (masks[i][1:] + (masks[i + 1][:1] if len(lo) == len(r) else []))])
                want = want + (lo * use).sum()
                count += int(use.sum())
        obs.count("packed_losses" if packed else "model_losses")
        obs.state(("model", d["family"], packed, masks is None, extra > 0, smoothing, pad is None))
        what = lambda: f"{d['family']} packed={packed} masks={masks is not None} extra={extra} smoothing={smoothing} pad={pad} {rows}"  # noqa: E731
        obs.check(tgt.num_target_elements == count, "target-count", lambda: f"{what()}: {tgt.num_target_elements} targets, expected {count}")
        kw = dict(targets=tgt.seqs, target_mask=tgt.target_mask, label_smoothing=smoothing)
        with torch.no_grad():
            logits = model(x, layout)
            for reduction in ("sum", "mean"):
                w = want if reduction == "sum" else want / count if count else None
                if w is None:
                    continue
                a = model(x, layout, reduction=reduction, **kw)
                c, lg = model(x, layout, reduction=reduction, return_logits=True, **kw)
                self.close(obs, "model-loss", a, w, lambda: f"{what()}, {reduction}", tol=1e-3)
                self.close(obs, "model-loss", c, w, lambda: f"{what()}, {reduction}, with logits", tol=1e-3)
                obs.check(lg.shape == logits.shape and torch.allclose(lg, logits, rtol=1e-4, atol=1e-4), "returned-logits", what)
            self.close(obs, "model-loss", model(x, layout, **kw), want, lambda: f"{what()}, default reduction", tol=1e-3)

    def run_s2s(self, rng, obs, case):
        import torch
        from fairseq2.datasets import Seq2SeqBatch
        from fairseq2.nn import BatchLayout
        from modelkit import S2S_FAMILIES, make_s2s, s2s_desc
        from nnkit import pack_rows

        d = s2s_desc(rng, rng.choice(S2S_FAMILIES))
        model = make_s2s(d)
        vocab, pad = d["vocab"], model.pad_idx
        g = torch.Generator().manual_seed(case["s"])
        n = rng.randint(1, 4)
        rows = self.sequences(rng, n, vocab, pad)
        text = d["family"] == "nllb"
        src = [torch.tensor(r) for r in self.sequences(rng, n, vocab, pad)] if text else [torch.randn(rng.randint(1, 30), 6, generator=g) for _ in range(n)]
        masks = [[rng.random() < 0.6 for _ in r] for r in rows] if rng.random() < 0.4 else None
        packed = text and rng.random() < 0.3
        extra, smoothing = rng.choice([0, 1, 4]), rng.choice([0.0, 0.1])
        kind = "packed" if packed else "padded"
        sx, _, _ = pack_rows(src, kind, extra=rng.choice([0, 2]), poison=pad if text else 0.0)
        b0 = self.batch(rows, masks, packed, extra, pad)
        b = Seq2SeqBatch(sx, [len(r) for r in src], b0.seqs, [len(r) for r in rows], packed=packed, target_mask=b0.target_mask)
        inp, tgt = b.as_auto_regressive()
        want, count = torch.zeros((), dtype=torch.float64), 0
        with torch.no_grad():
            for i, r in enumerate(rows):
                t = torch.tensor([r])
                lg = model(src[i][None], BatchLayout.of(src[i][None]), t, BatchLayout.of(t))[0]
                nxt = r[1:] + (rows[i + 1][:1] if packed and i + 1 < n else [])
                lo = ref_losses(lg[: len(nxt)], torch.tensor(nxt), smoothing)
                use = torch.ones(len(lo)) if masks is None else torch.tensor([float(v) for v in (masks[i][1:] + (masks[i + 1][:1] if len(nxt) == len(r) else []))])
                want = want + (lo * use).sum()
                count += int(use.sum())
            what = lambda: f"{d['family']} packed={packed} masks={masks is not None} extra={extra} {rows}"  # noqa: E731
            sx, sl = inp.as_source_input()
            tx, tl = inp.as_target_input()
            for reduction in ("sum", "mean"):
                if reduction == "mean" and not count:
                    continue
                w = want if reduction == "sum" else want / count
                kw = dict(targets=tgt.seqs, target_mask=tgt.target_mask, label_smoothing=smoothing, reduction=reduction)
                self.close(obs, "model-loss", model(sx, sl, tx, tl, **kw), w, lambda: f"{what()}, {reduction}", tol=1e-3)
                lo, lg = model(sx, sl, tx, tl, return_logits=True, **kw)
                self.close(obs, "model-loss", lo, w, lambda: f"{what()}, {reduction}, with logits", tol=1e-3)
                obs.check(torch.allclose(lg, model(sx, sl, tx, tl), rtol=1e-4, atol=1e-4), "returned-logits", what)
        obs.count("s2s_losses")
        obs.state(("s2s", d["family"], packed, masks is None, extra > 0, smoothing))
        obs.check(tgt.num_target_elements == count, "target-count", lambda: f"{what()}: {tgt.num_target_elements} targets, expected {count}")
        ns, nt = sum(len(r) for r in src), sum(len(r) for r in rows)
        obs.check((b.num_examples, b.num_source_elements) == (n, ns), "batch-counts", lambda: f"{b}")
        obs.check(b.num_elements == ns + nt, "batch-counts", lambda: f"{what()}: {b.num_elements} elements, expected {ns} + {nt}")

    def run_trim(self, rng, obs, case):
        """Batches describe what they hold, also after trimming."""
        import torch
        from fairseq2.datasets import SequenceBatch
        from fairseq2.error import InvalidOperationError

        n = rng.randint(1, 5)
        rows = [[rng.randrange(1, 50) for _ in range(rng.choice([1, 2, 3, 7]))] for _ in range(n)]
        packed, extra = rng.random() < 0.5, rng.choice([0, 0, 1, 3])
        masks = [[rng.random() < 0.6 for _ in r] for r in rows] if rng.random() < 0.5 else None
        b = self.batch(rows, masks, packed, extra, 0)
        lens = [len(r) for r in rows]
        total = sum(lens)
        cells = total + extra if packed else n * (max(lens) + extra)
        obs.state(("trim", packed, extra, masks is None, 1 in lens))
        got = (b.num_examples, b.batch_size, b.num_elements, b.num_target_elements, b.padding, list(b.seq_lens))
        want = (n, 1 if packed else n, total, sum(map(sum, masks)) if masks else total, cells - total, lens)
        obs.check(got == want, "batch-counts", lambda: f"{rows} packed={packed} extra={extra}: {got}, expected {want}")
        if packed:
            bad = n == 1 and lens[0] == 1
            new = lens[:-1] + ([lens[-1] - 1] if lens[-1] > 1 else [])
        else:
            bad = 1 in lens
            new = [k - 1 for k in lens]
        try:
            inp, tgt = b.as_auto_regressive()
        except InvalidOperationError:
            obs.check(bad, "trim-refused", lambda: f"{rows} packed={packed}")
            obs.count("refused")
            return
        obs.count("trimmed_batches")
        obs.check(not bad, "trim-accepted", lambda: f"{rows} packed={packed}")
        if bad:
            return
        x, y = (b.seqs[:-1], b.seqs[1:]) if packed else (b.seqs[:, :-1], b.seqs[:, 1:])
        obs.check(torch.equal(inp.seqs, x) and torch.equal(tgt.seqs, y), "trim", lambda: f"{rows}: {inp.seqs}, {tgt.seqs}")
        obs.check(list(inp.seq_lens) == new == list(tgt.seq_lens) and inp.packed == tgt.packed == packed, "trim", lambda: f"{rows} packed={packed}: {inp.seq_lens}, {tgt.seq_lens}, expected {new}")
        obs.check(list(b.seq_lens) == lens and b.num_elements == total, "input-changed", lambda: f"{rows}: the batch changed to {b}")
        if masks:
            m = b.target_mask[1:] if packed else b.target_mask[:, 1:]
            obs.check(torch.equal(tgt.target_mask, m) and tgt.num_target_elements == int(m.sum()), "trim", lambda: f"{rows}: {tgt.target_mask}")
        # Malformed batches.
        seqs = b.seqs
        for what, args in {
            "count": dict(seq_lens=lens + [1] * 50) if not packed else dict(seq_lens=lens + [extra + 1]),
            "zero": dict(seq_lens=[0] + lens[1:]), "negative": dict(seq_lens=[-1] + lens[1:]), "long": dict(seq_lens=[cells + 1] + lens[1:]), "empty": dict(seq_lens=[]),
            "mask": dict(seq_lens=lens, target_mask=torch.ones(2, 2, 2, dtype=torch.bool)), "mask shape": dict(seq_lens=lens, target_mask=torch.ones((cells + 1,) if packed else (n, cells + 1), dtype=torch.bool)),
        }.items():
            try:
                SequenceBatch(seqs, packed=packed, **args)
                obs.violate("malformed-batch", f"{what}: {args} of {tuple(seqs.shape)} packed={packed} is accepted")
            except ValueError:
                obs.count("refused")

    # -- evaluation ---------------------------------------------------------
    def state_of(self, model):
        import torch

        return (
            {k: v.clone() for k, v in model.state_dict().items()},
            {k: m.training for k, m in model.named_modules()},
            {k: None if p.grad is None else p.grad.clone() for k, p in model.named_parameters()},
            {k: p.requires_grad for k, p in model.named_parameters()},
            torch.get_rng_state(),
        )

    def same_state(self, a, b, modes=True):
        import torch

        def eq(x, y):
            return x.keys() == y.keys() and all((x[k] is None and y[k] is None) or (x[k] is not None and y[k] is not None and torch.equal(x[k], y[k])) for k in x)

        for name, ok in (("parameters", eq(a[0], b[0])), ("modes", not modes or a[1] == b[1]), ("gradients", eq(a[2], b[2])), ("requires_grad", a[3] == b[3]), ("random state", torch.equal(a[4], b[4]))):
            if not ok:
                return name
        return None

    def make_eval(self, which, model, units, readers, gangs, recorder, *, score=None, seed=7, amp=False):
        import torch
        from fairseq2.checkpoint import NOOP_HG_EXPORTER
        from fairseq2.metrics.recorders import NOOP_METRIC_DESCRIPTOR
        from fairseq2.profilers import NOOP_PROFILER
        from fairseq2.utils.device_stat import NOOP_DEVICE_STAT_TRACKER
        from fairseq2.utils.progress import NOOP_PROGRESS_REPORTER
        from fairseq2.utils.stopwatch import Stopwatch

        w = Stopwatch()
        w.start()
        kw = dict(units=units, data_readers=readers, gangs=gangs, amp=amp, amp_dtype=torch.bfloat16 if amp else torch.float32, metric_recorder=recorder, profiler=NOOP_PROFILER, device_stat_tracker=NOOP_DEVICE_STAT_TRACKER, wall_watch=w, progress_reporter=NOOP_PROGRESS_REPORTER, seed=seed)
        if which == "evaluator":
            from fairseq2.evaluator import Evaluator

            return Evaluator(model=model, **kw)
        from fairseq2.validator import StandardValidator

        mgr = SimpleNamespace(maybe_complete_save_operation=lambda **k: None, load_scores=lambda: [])
        return StandardValidator(score_metric_descriptor=score or NOOP_METRIC_DESCRIPTOR, checkpoint_manager=mgr, hg_exporter=NOOP_HG_EXPORTER, **kw)

    def reader(self, examples, rng_seed, how, gangs, pad, to_batch, collater):
        from fairseq2.data.data_pipeline import read_sequence
        from fairseq2.datasets import DataPipelineReader, SyncMode

        b = read_sequence(examples).shard(gangs.dp.rank, gangs.dp.size, allow_uneven=True)
        if how["shuffle"]:
            b.shuffle(how["shuffle"], seed=rng_seed)
        if how["lengths"]:
            b.bucket_by_length([(4, 10), (2, 16), (1, 64)], selector="len")
        else:
            b.bucket(how["batch"])
        b.map(collater, num_parallel_calls=how["npc"])
        if how["prefetch"]:
            b.prefetch(2)
        return DataPipelineReader(b.map(to_batch).and_return(), gangs, num_accumulate=how["acc"], drop_remainder=False, sync=True, sync_mode=SyncMode.UNTIL_LAST)

    def how(self, rng):
        return {"shuffle": rng.choice([0, 0, 3, 50]), "lengths": rng.random() < 0.3, "batch": rng.choice([1, 2, 3, 7, 50]), "npc": rng.choice([1, 3]), "prefetch": rng.random() < 0.4, "acc": rng.choice([1, 1, 2, 5])}

    def run_eval(self, rng, obs, case):
        import copy

        import torch
        from fairseq2.data.data_pipeline import Collater, CollateOptionsOverride
        from fairseq2.datasets import SequenceBatch
        from fairseq2.evaluator import EvalUnit
        from fairseq2.gang import create_parallel_gangs
        from fairseq2.metrics import Sum
        from fairseq2.metrics.recorders import MetricDescriptor
        from recipes.lm.sft.recipe import LMLossEvalUnit
        from tgang import run_ranks

        d, model = self.lm(rng)
        vocab, pad = d["vocab"], model.pad_idx
        fill = pad if pad is not None else 0
        which = rng.choice(["evaluator", "validator", "validator"])
        n_units = rng.choice([1, 1, 2, 3])
        data = []
        for u in range(n_units):
            rows = self.sequences(rng, rng.choice([1, 2, 5, 12]), vocab, pad)
            data.append([{"indices": torch.tensor(r), "target_mask": torch.tensor([rng.random() < 0.7 for _ in r]), "len": torch.zeros(len(r))} for r in rows])
        collater = Collater(pad_value=fill, overrides=[CollateOptionsOverride("target_mask", pad_value=False)])

        def to_batch(ex):
            return SequenceBatch(ex["indices"]["seqs"], ex["indices"]["seq_lens"], target_mask=ex["target_mask"]["seqs"])

        class Unit(LMLossEvalUnit):
            label, mdl = None, model
            steps = ()
            calls = ()
            finals = 0

            def set_train_step_nr(self, n):
                self.steps += (n,)

            def prepare_metric_bag(self, bag):
                super().prepare_metric_bag(bag)
                bag.add("noise", Sum())
                bag.add("total_secret", Sum())

            def process_batch(self, batch, bag):
                super().process_batch(batch, bag)
                self.calls += (tuple(batch.seq_lens),)
                modes.add(tuple(m.training for m in self.mdl.modules()))
                grads.add(torch.is_grad_enabled())

            def finalize(self, bag):
                self.finals += 1
                bag.get("noise", Sum).update(torch.rand(()) if alone else 0.0)

            def process_metric_values(self, values):
                values["seen"] = len(values)

            @property
            def name(self):
                return self.label

        modes, grads = set(), set()
        want = []
        with torch.no_grad():
            for ex in data:
                loss, nt = 0.0, 0
                for e in ex:
                    seq, m = e["indices"].tolist(), e["target_mask"][1:]
                    lo = ref_losses(self.alone(model, seq)[:-1], torch.tensor(seq[1:]), 0.0)
                    loss += float((lo * m).sum())
                    nt += int(m.sum())
                want.append({"nll_loss": loss / nt if nt else None, "num_examples": len(ex), "num_elements": sum(len(e["indices"]) - 1 for e in ex), "num_target_elements": nt})
        labels = [None if n_units == 1 and rng.random() < 0.5 else f"part{u}" for u in range(n_units)]
        higher = rng.random() < 0.5
        use_score = which == "validator" and all(w["nll_loss"] is not None for w in want) and rng.random() < 0.6
        desc = MetricDescriptor("nll_loss", "NLL", 1, str, higher_better=higher) if use_score else None
        mode = rng.random() < 0.5 if which == "evaluator" else False
        for m in model.modules():
            m.training = mode and rng.random() < 0.8
        if rng.random() < 0.4:
            for p in model.parameters():
                p.grad = torch.randn(p.shape)
        runs = []
        sizes = [1, rng.choice([2, 3])]
        for size in sizes + [1]:
            alone = size == 1
            how = self.how(rng)
            rec = {}
            torch.manual_seed(rng.randrange(1 << 30))
            torch.rand(rng.randrange(5))
            before = self.state_of(model)
            mode_before = before[1]
            reps = rng.choice([1, 2]) if which == "validator" else 1

            models = [model] + [copy.deepcopy(model) for _ in range(size - 1)]

            def rank(root, r):
                gangs = create_parallel_gangs(root)
                units = []
                for lb in labels:
                    u = Unit(models[r])
                    u.label, u.mdl = lb, models[r]
                    units.append(u)
                readers = [self.reader(ex, case["s"] % 997 + r, how, gangs, fill, to_batch, collater) for ex in data]
                rec[r] = Recorder()
                ev = self.make_eval(which, models[r], units, readers, gangs, rec[r], score=desc)
                out = []
                for i in range(reps):
                    if which == "validator":
                        out.append(ev.run(10 + i))
                        try:
                            ev.run(11)
                            out.append("ran again without reset()")
                        except Exception as ex:  # noqa: BLE001
                            if type(ex).__name__ != "InvalidOperationError":
                                raise
                        ev.reset()
                    else:
                        ev.run()
                return out, units, [rd.num_accumulate for rd in readers]

            outs = run_ranks(size, rank, join_timeout=50)
            for r, (st, v) in enumerate(outs):
                if st != "ok":
                    if isinstance(v, BaseException):
                        raise v
                    obs.violate("evaluation", f"rank {r}: {st} with {how}")
                    return
            obs.count("evaluations")
            obs.count("ranks", size)
            obs.count("units", n_units)
            obs.state(("eval", which, size, n_units, how["batch"], how["lengths"], how["acc"], d["family"]))
            what = lambda: f"{which} {d['family']} on {size} ranks with {how}, units {labels} of {[len(x) for x in data]}"  # noqa: E731
            events = [e for e in rec[0].events if e[0] != "closed"]
            for r in range(1, size):
                obs.check(not [e for e in rec[r].events if e[0] != "closed"], "published-twice", lambda: f"{what()}: rank {r} published too")
                if not any(outs[r][1][1][u].calls for u in range(n_units)):
                    obs.count("empty_ranks")
            cat = "eval" if which == "evaluator" else "valid"
            names = [cat if lb is None else f"{cat}/{lb}" for lb in labels]
            steps = [None] if which == "evaluator" else [10 + i for i in range(reps)]
            obs.check([(e[0], e[1]) for e in events] == [(nm, s) for s in steps for nm in names], "published", lambda: f"{what()}: published {[e[:2] for e in events]}")
            if len(events) != len(steps) * n_units:
                return
            for i, (_, _, v) in enumerate(events):
                w = want[i % n_units]
                for k in ("num_examples", "num_elements", "num_target_elements"):
                    obs.check(v.get(k) == w[k], "evaluated-counts", lambda: f"{what()}: {k} of unit {i % n_units} is {v.get(k)}, expected {w[k]}")
                if w["nll_loss"] is not None:
                    self.close(obs, "evaluated-loss", v.get("nll_loss", math.nan), w["nll_loss"], lambda: f"{what()}: nll_loss of unit {i % n_units}", tol=1e-3)
                obs.check(not [k for k in v if k.startswith("total_")] and "seen" in v, "published", lambda: f"{what()}: {sorted(v)}")
                if alone:
                    obs.count("random_units")
                    runs.append((i % n_units, v["noise"]))
            for r in range(size):
                for u, unit in enumerate(outs[r][1][1]):
                    obs.check(unit.finals == reps and (which == "evaluator" or unit.steps == tuple(steps)), "unit-calls", lambda: f"{what()}: finalized {unit.finals} times, steps {unit.steps}")
                    seen = sum(len(c) for c in unit.calls)
                    mine = len(data[u][r::size])
                    obs.check(seen == mine * reps, "examples-seen", lambda: f"{what()}: rank {r} evaluated {seen} examples in {reps} runs, expected {mine} in each")
            if reps > 1:
                obs.count("reruns")
            obs.check(modes <= {tuple(False for _ in model.modules())} if which == "evaluator" else True, "evaluation-mode", lambda: f"{what()}: modules were in training mode")
            obs.check(grads <= {False}, "evaluation-mode", lambda: f"{what()}: gradients were recorded")
            diff = self.same_state(before, self.state_of(model), modes=which == "validator") if alone else None
            obs.check(diff is None, "state-changed", lambda: f"{what()}: {diff} changed")
            if which == "evaluator":
                for k, m in model.named_modules():
                    m.training = mode_before[k]
            if which == "validator":
                obs.count("validations")
                for r in range(size):
                    got = outs[r][1][0]
                    obs.check("ran again without reset()" not in got, "validator-reset", lambda: f"{what()}: {got}")
                    if use_score and r == 0:
                        obs.count("scores")
                        s = sum(w["nll_loss"] for w in want) * (1 if higher else -1)
                        for x in got:
                            self.close(obs, "score", x, s, lambda: f"{what()}: score", tol=1e-3)
                    elif not use_score:
                        obs.check(all(x is None for x in got), "score", lambda: f"{what()}: {got}")
        # Random numbers come from the seed of the evaluation, not from the state of the process.
        for i in range(n_units):
            # Runs of one validator repeat; different batchings do not draw here.
            vals = {v for u, v in runs if u == i}
            obs.check(len(vals) == 1, "random-state", lambda: f"{which}: unit {i} drew {vals} with the same seed")
        self.faults(rng, obs, which, model, data[0], collater, to_batch, fill, Unit, case)

    def faults(self, rng, obs, which, model, ex, collater, to_batch, fill, Unit, case):
        """Failures and stop requests."""
        import torch
        import trainkit as tk
        from fairseq2.task import TaskStopException

        class Boom(Exception):
            pass

        how = dict(self.how(rng), batch=1, lengths=False, acc=1)
        gangs = tk.single_gangs()
        unit = Unit(model)
        stop_at = rng.randrange(len(ex))
        kind = rng.choice(["raise", "stop"]) if which == "evaluator" else "raise"
        plain = Unit.process_batch

        def process(self, batch, bag):
            if len(self.calls) == stop_at:
                if kind == "raise":
                    raise Boom()
                ev.request_stop()
            plain(self, batch, bag)

        unit.process_batch = process.__get__(unit)
        rec = Recorder()
        ev = self.make_eval(which, model, [unit], [self.reader(ex, 1, how, gangs, fill, to_batch, collater)], gangs, rec)
        before = self.state_of(model)
        try:
            ev.run(3) if which == "validator" else ev.run()
            obs.check(kind == "stop" and False, "failure-ignored", f"{which}: no error after {kind} in batch {stop_at} of {len(ex)}")
        except (Boom, TaskStopException) as e:
            obs.check(isinstance(e, Boom) == (kind == "raise"), "failure-ignored", f"{which}: {e!r} after {kind}")
        obs.count("failures" if kind == "raise" else "stops")
        obs.check(len(unit.calls) == stop_at + (kind == "stop") and not unit.finals and not [e for e in rec.events if e[0] != "closed"], "failure-ignored", f"{which}: went on after {kind}: {len(unit.calls)} batches after {stop_at}")
        diff = self.same_state(before, self.state_of(model), modes=False)
        obs.check(diff is None, "state-changed", f"{which}: {diff} changed by a failed run")
        obs.check(not torch.is_inference_mode_enabled() and torch.is_grad_enabled(), "state-changed", f"{which}: left in inference mode")

    # -- speech recognition ---------------------------------------------------
    def run_asr(self, rng, obs, case):
        import torch
        from fairseq2.data.data_pipeline import Collater
        from fairseq2.datasets import Seq2SeqBatch
        from fairseq2.gang import create_parallel_gangs
        from fairseq2.nn import BatchLayout
        from modelkit import make_w2v2_asr, w2v2_desc
        from recipes.wav2vec2.asr.criterion import Wav2Vec2AsrCriterion
        from recipes.wav2vec2.asr.recipe import Wav2Vec2AsrEvalUnit
        from recipes.wav2vec2.asr.wer_calculator import WerCalculator
        from tgang import run_ranks

        d = w2v2_desc(rng)
        vocab, pad = 11, rng.choice([1, 10])
        model = make_w2v2_asr(d, vocab)
        bias = rng.choice(["none", "blank", "none"])
        if bias == "blank":  # Most frames, or all of them, are blank.
            with torch.no_grad():
                if model.final_proj.bias is not None:
                    model.final_proj.bias[0] += rng.choice([1.0, 3.0, 100.0])
        g = torch.Generator().manual_seed(case["s"])
        space = 9 if pad != 9 else 8

        def text(ids):
            # Tokens are letters; one of them is the space between words. Padding is skipped.
            ids = ids.tolist() if isinstance(ids, torch.Tensor) else list(ids)
            return "".join(" " if i == space else chr(97 + i) for i in ids if i != pad)

        tok = SimpleNamespace(vocab_info=SimpleNamespace(pad_idx=pad), create_decoder=lambda **k: text)
        n = rng.choice([1, 3, 6])
        examples, exp = [], dict(loss=0.0, ue=0, ul=0, we=0, wl=0)
        perfect = rng.random() < 0.3
        with torch.no_grad():
            for _ in range(n):
                k = rng.randint(24, 54)
                x = torch.randn(k, 4, generator=g) if d["fbank"] else torch.randn(k, generator=g)
                lg, lay = model(x[None], BatchLayout.of(x[None]))
                hyp, last = [], None
                for i in lg[0][: lay.seq_lens[0]].argmax(-1).tolist():
                    if i != last and i != 0:
                        hyp.append(i)
                    last = i
                letters = [i for i in range(2, 9) if i != space and i != pad]
                m = max(1, min(6, lay.seq_lens[0] // 3))
                ref = [rng.choice(letters + [space]) for _ in range(rng.randint(1, m))]
                ref[0] = rng.choice(letters)
                if perfect and pad not in hyp and text(hyp).split():
                    ref = hyp
                if not hyp:
                    obs.count("empty_hypotheses")
                if hyp == ref:
                    obs.count("perfect_hypotheses")
                t = torch.tensor(ref)
                exp["loss"] += float(model(x[None], BatchLayout.of(x[None]), t[None], BatchLayout.of(t[None])))
                exp["ue"] += levenshtein(hyp, ref)
                exp["ul"] += len(ref)
                exp["we"] += levenshtein(text(hyp).split(), text(ref).split())
                exp["wl"] += len(text(ref).split())
                examples.append({"audio": x, "text": t, "len": torch.zeros(len(ref))})
        collater = Collater(pad_value=0, overrides=[])

        def collate(bucket):
            a, t = [e["audio"] for e in bucket], [e["text"] for e in bucket]
            return {"audio": collater(a), "text": Collater(pad_value=pad)(t)}

        def to_batch(ex):
            return Seq2SeqBatch(ex["audio"]["seqs"], ex["audio"]["seq_lens"], ex["text"]["seqs"], ex["text"]["seq_lens"])

        which = rng.choice(["evaluator", "validator"])
        for size in (1, rng.choice([1, 2, 3])):
            how = dict(self.how(rng), lengths=False)
            rec = {}

            def rank(root, r):
                gangs = create_parallel_gangs(root)
                crit = Wav2Vec2AsrCriterion(SimpleNamespace(module=model), WerCalculator(tok))
                rec[r] = Recorder()
                ev = self.make_eval(which, model, [Wav2Vec2AsrEvalUnit(crit)], [self.reader(examples, 3 + r, how, gangs, pad, to_batch, collate)], gangs, rec[r])
                ev.run(1) if which == "validator" else ev.run()

            for st, v in run_ranks(size, rank, join_timeout=50):
                if st != "ok":
                    if isinstance(v, BaseException):
                        raise v
                    obs.violate("evaluation", f"asr: {st} with {how}")
                    return
            obs.count("asr_evaluations")
            obs.count("evaluations")
            obs.count("ranks", size)
            obs.state(("asr", size, how["batch"], d["fbank"], bias, n))
            v = rec[0].events[0][2]
            what = lambda: f"asr {which} on {size} ranks with {how}, {n} examples"  # noqa: E731
            self.close(obs, "evaluated-loss", v.get("ctc_loss", math.nan), exp["loss"] / n / math.log(2), lambda: f"{what()}: ctc_loss", tol=1e-3)
            obs.check(v.get("num_examples") == n, "evaluated-counts", lambda: f"{what()}: {v}")
            for k, w in (("uer", 100.0 * exp["ue"] / exp["ul"]), ("wer", 100.0 * exp["we"] / exp["wl"])):
                obs.check(k in v, "evaluated-rates", lambda: f"{what()}: {k} of {w} is not reported")
                if k in v:
                    self.close(obs, "evaluated-rates", v[k], w, lambda: f"{what()}: {k}")

    # -- validation within training -------------------------------------------
    def run_train(self, rng, obs, case):
        import ckpt
        import shutil

        import torch
        import trainkit as tk
        from fairseq2.evaluator import EvalUnit
        from fairseq2.metrics import Mean
        from fairseq2.metrics.recorders import MetricDescriptor
        from vlib import scratch

        steps = rng.randrange(2, 8)
        train = [[[rng.randrange(40) for _ in range(rng.choice([1, 3]))] for _ in range(rng.choice([1, 1, 2]))] for _ in range(steps)]
        valid = [[[rng.randrange(40) for _ in range(rng.choice([1, 2]))]] for _ in range(rng.choice([1, 3]))]
        every, seed, drop = rng.choice([1, 1, 2, 3]), rng.randrange(1 << 20), rng.choice([0.0, 0.3])
        at_start = rng.random() < 0.5
        higher = rng.random() < 0.5
        save = rng.random() < 0.5
        fresh = {}

        def loss_of(net, rows):
            with torch.no_grad():
                b = [tk.Batch(ids) for r in rows for ids in r]
                net.eval()
                return sum(float(((net(x.x) - x.y) ** 2).sum()) for x in b) / sum(len(x.ids) for x in b)

        def go(validate):
            import copy

            d = scratch()
            try:
                net = tk.make_net(seed, drop)
                log = tk.Log()
                gangs = tk.single_gangs()
                opt = torch.optim.AdamW(net.parameters(), lr=0.01)
                mgr = ckpt.make_manager(d, gangs)

                def hook(unit, batch):
                    if not all(m.training for m in net.modules()):
                        log("mode", unit.step)

                class VUnit(EvalUnit):
                    step = None

                    def prepare_metric_bag(self, bag):
                        bag.add("err", Mean())

                    def set_train_step_nr(self, n):
                        self.step = n
                        log("vstep", n)

                    def process_batch(self, batch, bag):
                        torch.rand(3)
                        if any(m.training for m in net.modules()):
                            log("vmode", self.step)
                        out = net(batch.x)
                        bag.get("err", Mean).update(((out - batch.y) ** 2).mean(), weight=len(batch.ids))

                    def finalize(self, bag):
                        fresh[self.step] = loss_of(copy.deepcopy(net), valid)

                rec = Recorder()
                kw = {}
                if validate:
                    kw = dict(validator=self.make_eval("validator", net, [VUnit()], [tk.make_list_reader(lambda e: valid, tk.Batch)], gangs, rec, score=MetricDescriptor("err", "e", 1, str, higher_better=higher)), validate_every_n_steps=every, validate_at_start=at_start)
                t = tk.make_trainer(model=net, unit=tk.make_unit(net, log, hook=hook), reader=tk.make_list_reader(lambda e: train, tk.Batch), gangs=gangs, optimizer=opt, manager=mgr, max_num_steps=steps, **({"checkpoint_every_n_steps": every} if save else {}), **kw)
                torch.manual_seed(seed)
                tk.run_trainer(t)
                scores = mgr.load_scores() if save else None
                return {k: v.clone() for k, v in net.state_dict().items()}, opt.state_dict()["state"], torch.get_rng_state(), log, rec, scores
            finally:
                shutil.rmtree(d, ignore_errors=True)

        a, b = go(False), go(True)
        obs.count("trained_with_validation")
        obs.state(("train", every, drop > 0, at_start, save, len(valid)))
        what = f"{steps} steps, validation every {every}, dropout {drop}"
        obs.check(all(torch.equal(a[0][k], b[0][k]) for k in a[0]), "training-changed", f"{what}: other parameters with validation")
        obs.check(all(torch.equal(x, b[1][k][n]) for k in a[1] for n, x in a[1][k].items()), "training-changed", f"{what}: another optimizer state with validation")
        obs.check(a[3].of("batch") == b[3].of("batch"), "training-changed", f"{what}: other batches")
        obs.check(not b[3].of("mode") and not b[3].of("vmode"), "evaluation-mode", f"{what}: trained in evaluation mode at {b[3].of('mode')}, validated in training mode at {b[3].of('vmode')}")
        due = ([0] if at_start else []) + [s for s in range(1, steps + 1) if s % every == 0 or s == steps]
        ev = [e for e in b[4].events if e[0] == "valid"]
        obs.check([e[1] for e in ev] == due, "validated-steps", f"{what}: validated at {[e[1] for e in ev]}, expected {due}")
        for _, s, v in ev:
            obs.count("validations")
            self.close(obs, "evaluated-loss", v.get("err", math.nan), fresh.get(s, math.nan), f"{what}: step {s}")
        if save:
            got = sorted((s, x) for x, s in b[5])
            exp = sorted((s, v["err"] if higher else -v["err"]) for _, s, v in ev if s)
            obs.check([s for s, _ in got] == [s for s, _ in exp] and all(abs(x - y) < 1e-6 for (_, x), (_, y) in zip(got, exp)), "score", f"{what}: saved scores {got}, expected {exp}")
            obs.count("scores")


if __name__ == "__main__":
    main(C38())
