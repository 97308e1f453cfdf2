"""Builds and observes real trainer runs."""
from __future__ import annotations

import torch
from torch import Tensor, nn

import fairseq2.recipe  # noqa: F401 (import order)
from fairseq2.device import SupportsDeviceTransfer

NAN = float("nan")
INF = float("inf")


def emulate_fp16_scaling():
    """CPU stand-in for CUDA: torch's gradient scalers turn themselves off
    unless told that they run on the CPU."""
    from torch.amp.grad_scaler import GradScaler
    from torch.distributed.fsdp.sharded_grad_scaler import ShardedGradScaler

    for k in (GradScaler, ShardedGradScaler):
        d = k.__init__.__defaults__
        k.__init__.__defaults__ = ("cpu",) + tuple(d[1:])


class Net(nn.Module):
    def __init__(self, dropout=0.0, dim=3):
        super().__init__()
        self.a = nn.Linear(dim, 4)
        self.drop = nn.Dropout(dropout)
        self.b = nn.Linear(4, 1)
        self.register_buffer("seen", torch.zeros((), dtype=torch.int64))

    def forward(self, x):
        if self.training:
            self.seen += len(x)
        return self.b(self.drop(torch.tanh(self.a(x)))).squeeze(-1)


def make_net(seed, dropout=0.0):
    g = torch.Generator().manual_seed(seed)
    m = Net(dropout)
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(torch.randn(p.shape, generator=g) * 0.5)
    return m


def example(i):
    g = torch.Generator().manual_seed(1000 + i)
    return torch.randn(3, generator=g), torch.randn((), generator=g)


class Batch(SupportsDeviceTransfer):
    def __init__(self, ids, targets=None):
        self.ids = [int(i) for i in ids]
        ex = [example(i) for i in self.ids]
        self.x = torch.stack([e[0] for e in ex]) if ex else torch.zeros(0, 3)
        self.y = torch.stack([e[1] for e in ex]) if ex else torch.zeros(0)
        # Weight of each example in the target count.
        self.w = [1] * len(self.ids) if targets is None else targets

    def to(self, device, *, non_blocking=False):
        pass

    def __repr__(self):
        return f"Batch({self.ids})"


def make_batch_cls():
    return Batch


class Preempted(BaseException):
    """The process dies here."""


class Log:
    """Events in program order."""

    def __init__(self):
        self.events = []

    def __call__(self, *ev):
        self.events.append(ev)

    def of(self, kind):
        return [e for e in self.events if e[0] == kind]


def make_unit(net_or_ddp, log, *, normalize=True, bad=None, hook=None, grads=None, use_torch_rng=False):
    """`bad(step, call, batch)` -> None, INF or NAN: poisons the gradients."""
    from fairseq2.metrics import Mean, Sum
    from fairseq2.trainer import TrainUnit

    class Unit(TrainUnit):
        def __init__(self):
            self.step = 0
            self.epoch = None
            self.calls = 0

        def prepare_metric_bag(self, bag):
            bag.add("num_ids", Sum())
            bag.add("total_num_ids", Sum())
            bag.add("total_id_sum", Sum())
            bag.add("avg", Mean())

        def set_step_nr(self, n):
            self.step = n

        def set_data_epoch_nr(self, n):
            self.epoch = n
            log("epoch", n)

        def process_batch(self, batch, bag):
            log("batch", self.step, self.epoch, tuple(batch.ids))
            self.calls += 1
            if hook:
                hook(self, batch)
            out = net_or_ddp(batch.x)
            w = torch.tensor(batch.w, dtype=out.dtype)
            loss = (((out - batch.y) ** 2) * w).sum()
            n = int(sum(batch.w))
            if not normalize and n:
                loss = loss / n
            if bad:
                v = bad(self.step, self.calls - 1, batch)
                if v is not None:
                    loss = loss * v
            bag.get("num_ids", Sum).update(len(batch.ids))
            bag.get("total_num_ids", Sum).update(len(batch.ids))
            bag.get("total_id_sum", Sum).update(sum(batch.ids))
            bag.get("avg", Mean).update(torch.tensor(float(sum(batch.ids))), weight=len(batch.ids))
            return loss, (n if normalize else None)

    return Unit()


def make_recorder(log):
    from fairseq2.metrics.recorders import MetricRecorder

    class Recorder(MetricRecorder):
        def record_metric_values(self, category, values, step_nr=None):
            log("publish", step_nr, {k: v.item() if isinstance(v, Tensor) and v.numel() == 1 else v for k, v in values.items()})

        def close(self):
            pass

    return Recorder()


def make_validator(log, score=None, hook=None):
    from fairseq2.validator import Validator

    class V(Validator):
        def run(self, step):
            s = score(step) if score else None
            log("validate", step, s)
            if hook:
                hook(step)
            return s

        def reset(self):
            pass

    return V()


def make_list_reader(epochs, batch_cls, log=None, hook=None):
    """A data reader over per-epoch lists of steps of batches of ids."""
    from fairseq2.datasets import DataReader

    class R(DataReader):
        def __init__(self):
            self.epoch = 0
            self.pos = 0
            self.done = False

        def __iter__(self):
            return self

        def __next__(self):
            if hook:
                hook(self)
            steps = epochs(self.epoch)
            if self.pos >= len(steps):
                raise StopIteration()
            self.pos += 1
            return [batch_cls(ids) for ids in steps[self.pos - 1]]

        def reset(self):
            self.epoch += 1
            self.pos = 0

        def state_dict(self):
            return {"epoch": self.epoch, "pos": self.pos}

        def load_state_dict(self, sd):
            self.epoch, self.pos = sd["epoch"], sd["pos"]

        @property
        def num_accumulate(self):
            return 1

    return R()


def single_gangs():
    from fairseq2.gang import FakeGang, create_parallel_gangs

    return create_parallel_gangs(FakeGang(torch.device("cpu")))


def make_trainer(*, model, unit, reader, gangs, optimizer, manager, recorder=None, lr_scheduler=None, scaler=None, validator=None, early_stopper=None, seed=2, **kw):
    from fairseq2.checkpoint import NOOP_HG_EXPORTER
    from fairseq2.early_stopper import NOOP_EARLY_STOPPER
    from fairseq2.metrics.recorders import NOOP_METRIC_RECORDER
    from fairseq2.optim.fp16_loss_scaler import NOOP_FP16_LOSS_SCALER
    from fairseq2.optim.lr_schedulers import PassthroughLR
    from fairseq2.profilers import NOOP_PROFILER
    from fairseq2.trainer import Trainer
    from fairseq2.utils.device_stat import NOOP_DEVICE_STAT_TRACKER
    from fairseq2.utils.gc import NOOP_GARBAGE_COLLECTOR
    from fairseq2.utils.progress import NOOP_PROGRESS_REPORTER
    from fairseq2.utils.stopwatch import Stopwatch
    from fairseq2.validator import NOOP_VALIDATOR

    watch = Stopwatch()
    watch.start()
    args = dict(
        model=model, unit=unit, data_reader=reader, gangs=gangs, amp=False, amp_dtype=torch.float32, optimizer=optimizer,
        lr_scheduler=lr_scheduler or PassthroughLR(optimizer), fp16_loss_scaler=scaler or NOOP_FP16_LOSS_SCALER,
        validator=validator or NOOP_VALIDATOR, early_stopper=early_stopper or NOOP_EARLY_STOPPER, checkpoint_manager=manager,
        hg_exporter=NOOP_HG_EXPORTER, metric_recorder=recorder or NOOP_METRIC_RECORDER, garbage_collector=NOOP_GARBAGE_COLLECTOR,
        profiler=NOOP_PROFILER, device_stat_tracker=NOOP_DEVICE_STAT_TRACKER, wall_watch=watch, progress_reporter=NOOP_PROGRESS_REPORTER,
        seed=seed,
    )
    args.update(kw)
    return Trainer(**args)


def run_trainer(t):
    """How the run ended."""
    from fairseq2.task import TaskStopException

    try:
        t.run()
    except TaskStopException:
        return "stopped"
    except Preempted:
        return "preempted"
    return "done"


def make_lr_scheduler(name, opt, n=12):
    from fairseq2.optim import lr_schedulers as L

    if name == "cosine":
        return L.CosineAnnealingLR(opt, cycle_len=5, num_warmup_steps=2, cycle_mul=1.5, lr_mul=0.7, start_lr=0.001, final_lr=0.0001)
    if name == "myle":
        return L.MyleLR(opt, num_warmup_steps=3, start_lr=0.0)
    if name == "noam":
        return L.NoamLR(opt, num_warmup_steps=4)
    if name == "poly":
        return L.PolynomialDecayLR(opt, num_steps=n, num_warmup_steps=2, power=1.5, start_lr=0.0, final_lr=0.0001)
    if name == "tri":
        return L.TriStageLR(opt, num_steps=n, stage_ratio=(0.2, 0.3, 0.5), start_lr_scale=0.1, final_lr_scale=0.05)
    return L.PassthroughLR(opt)
