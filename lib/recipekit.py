"""Runs complete recipes, as their command line does, on one or more processes."""
from __future__ import annotations

import json
import os
import pickle
import select
import signal
import sys
import time
import traceback
from dataclasses import dataclass, field
from pathlib import Path

import torch
from torch import nn

import fairseq2.recipe  # noqa: F401 (import order)
from fairseq2.composition import register_model_family
from fairseq2.datasets import DataReader
from fairseq2.device import SupportsDeviceTransfer
from fairseq2.metrics import Mean, Sum
from fairseq2.recipe.base import Recipe
from fairseq2.recipe.composition import register_reference_model
from fairseq2.recipe.config import (
    CommonSection,
    EvaluatorSection,
    GangSection,
    LRSchedulerSection,
    ModelSection,
    OptimizerSection,
    ReferenceModelSection,
    RegimeSection,
    TrainerSection,
)
from fairseq2.evaluator import EvalUnit
from fairseq2.trainer import TrainUnit

from gloo import _free_port


# -- the toy model ------------------------------------------------------------
@dataclass
class ToyConfig:
    dim: int = 3
    hidden: int = 64
    layers: int = 2
    dropout: float = 0.0
    scale: float = 1.0
    count: bool = True


class ToyLayer(nn.Module):
    def __init__(self, dim, hidden, dropout, device=None):
        super().__init__()
        self.up = nn.Linear(dim, hidden, device=device)
        self.drop = nn.Dropout(dropout)
        self.down = nn.Linear(hidden, dim, device=device)

    def forward(self, x):
        return x + self.down(self.drop(torch.tanh(self.up(x))))


class ToyModel(nn.Module):
    def __init__(self, c):
        super().__init__()
        self.inp = nn.Linear(3, c.dim)
        self.layers = nn.ModuleList([ToyLayer(c.dim, c.hidden, c.dropout) for _ in range(c.layers)])
        self.out = nn.Linear(c.dim, 1)
        if c.count:
            self.register_buffer("seen", torch.zeros((), dtype=torch.int64))
        self.count = c.count
        self.register_buffer("factor", torch.empty(c.dim), persistent=False)
        self.scale = c.scale
        self.reset_parameters()

    def reset_parameters(self):
        self.reset_non_persistent_buffers()

    def reset_non_persistent_buffers(self):
        self.factor.copy_(torch.arange(1, self.factor.numel() + 1).float() * self.scale / self.factor.numel())

    def forward(self, x):
        if self.training and self.count:
            self.seen += 1
        h = self.inp(x)
        h = h * self.factor.type_as(h)
        for layer in self.layers:
            h = layer(h)
        return self.out(h).squeeze(-1)


def toy_fsdp(model, granularity, wrapper):
    if granularity in ("layer", "stack"):
        for i, layer in enumerate(model.layers):
            model.layers[i] = wrapper(layer, reshard_after_forward=None)
    return wrapper(model, reshard_after_forward=False)


def toy_ac(model, every_nth_layer):
    from torch.distributed.algorithms._checkpoint.checkpoint_wrapper import checkpoint_wrapper

    for i, layer in enumerate(model.layers):
        if i % every_nth_layer == 0:
            model.layers[i] = checkpoint_wrapper(layer, preserve_rng_state=True)
    return model


def register_toys(container):
    register_model_family(container, "toy", ToyModel, ToyConfig, factory=ToyModel, supports_meta=True, fsdp_applier=toy_fsdp, layerwise_ac_applier=toy_ac)

    @dataclass
    class RealToyConfig(ToyConfig):
        pass

    register_model_family(container, "realtoy", ToyModel, RealToyConfig, factory=ToyModel, supports_meta=False, fsdp_applier=toy_fsdp, layerwise_ac_applier=toy_ac)


# -- data -------------------------------------------------------------------
class Batch(SupportsDeviceTransfer):
    def __init__(self, ids, kind):
        self.ids, self.kind = ids, kind
        gs = [torch.Generator().manual_seed(77 + i) for i in ids]
        if kind == "toy":
            self.x = torch.stack([torch.randn(3, generator=g) for g in gs])
            self.y = torch.stack([torch.randn((), generator=g) for g in gs])
        else:
            self.x = torch.stack([torch.randint(0, 12, (6,), generator=g) for g in gs])
            self.y = torch.stack([torch.randint(0, 12, (6,), generator=g) for g in gs])

    def to(self, device, *, non_blocking=False):
        pass


class Reader(DataReader):
    """`per_step` micro batches in a step, shared out over the data parallel
    ranks; `epoch_steps` steps in an epoch."""

    def __init__(self, gangs, per_step, size, epoch_steps, kind):
        self.rank, self.n = gangs.dp.rank, per_step // gangs.dp.size
        self.per_step, self.size, self.epoch_steps, self.kind = per_step, size, epoch_steps, kind
        self.epoch = self.pos = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.pos >= self.epoch_steps:
            raise StopIteration()
        base = ((self.epoch * self.epoch_steps + self.pos) * self.per_step + self.rank * self.n) * self.size
        self.pos += 1
        return [Batch(list(range(base + i * self.size, base + (i + 1) * self.size)), self.kind) for i in range(self.n)]

    def reset(self):
        self.epoch += 1
        self.pos = 0

    def state_dict(self):
        return {"epoch": self.epoch, "pos": self.pos}

    def load_state_dict(self, sd):
        self.epoch, self.pos = sd["epoch"], sd["pos"]

    @property
    def num_accumulate(self):
        return self.n


def loss_of(model, batch):
    if batch.kind == "toy":
        return ((model(batch.x) - batch.y) ** 2).sum()
    from fairseq2.nn import BatchLayout

    out = model(batch.x, BatchLayout.of(batch.x))
    return nn.functional.cross_entropy(out.flatten(0, 1).float(), batch.y.flatten(), reduction="sum")


# -- the recipes ----------------------------------------------------------------
@dataclass(kw_only=True)
class TinyConfig:
    model: ModelSection = field(default_factory=lambda: ModelSection(family="toy"))
    teacher: ReferenceModelSection = field(default_factory=lambda: ReferenceModelSection(name="nothing"))
    gang: GangSection = field(default_factory=GangSection)
    trainer: TrainerSection = field(default_factory=TrainerSection)
    optimizer: OptimizerSection = field(default_factory=OptimizerSection)
    lr_scheduler: LRSchedulerSection | None = None
    regime: RegimeSection = field(default_factory=RegimeSection)
    common: CommonSection = field(default_factory=CommonSection)
    per_step: int = 4
    size: int = 3
    epoch_steps: int = 3
    kind: str = "toy"
    use_teacher: bool = False
    do_validate: bool = False


def snapshot(module):
    return {k: v.detach().clone() if v.device.type != "meta" else None for k, v in list(module.named_parameters()) + list(module.named_buffers())}


class TinyRecipe(Recipe):
    """`hook(event, **info)` observes the run, and may end it."""

    def __init__(self, hook):
        self.hook = hook

    def register(self, container):
        register_toys(container)

        register_reference_model(container, "teacher")

    @property
    def config_kls(self):
        return TinyConfig

    def setup_model(self, context, model, newly_initialized):
        self.hook("model", model=model, new=newly_initialized, gangs=context.gangs)
        return model

    def create_task(self, context):
        config = context.get_config_as(TinyConfig)
        hook = self.hook
        teacher = context.get_model("teacher") if config.use_teacher else None
        if teacher is not None:
            hook("teacher", model=teacher)
        model = context.get_data_parallel_model()
        base = context.get_model()
        hook("ready", model=model, base=base, gangs=context.gangs, context=context)

        class Unit(TrainUnit):
            step = 0

            def set_step_nr(self, n):
                self.step = n
                self.call = 0

            def prepare_metric_bag(self, bag):
                bag.add("nll_loss", Mean())
                bag.add("num_examples", Sum())
                bag.add("total_num_examples", Sum())

            def process_batch(self, batch, bag):
                hook("batch", step=self.step, call=self.call, model=model, base=base, batch=batch)
                self.call += 1
                loss = loss_of(model, batch)
                n = batch.y.numel()
                bag.get("nll_loss", Mean).update(loss.detach() / n, weight=n)
                bag.get("num_examples", Sum).update(len(batch.ids))
                bag.get("total_num_examples", Sum).update(len(batch.ids))
                return loss, n

        class Valid(EvalUnit):
            def prepare_metric_bag(self, bag):
                bag.add("nll_loss", Mean())
                bag.add("total_num_examples", Sum())

            def process_batch(self, batch, bag):
                loss = loss_of(model, batch)
                n = batch.y.numel()
                bag.get("nll_loss", Mean).update(loss.detach() / n, weight=n)
                bag.get("total_num_examples", Sum).update(len(batch.ids))

        gangs = context.gangs

        def reader(epoch_steps):
            return Reader(gangs, config.per_step, config.size, epoch_steps, config.kind)

        if config.do_validate:
            return context.create_trainer(Unit(), reader(config.epoch_steps), [Valid()], [reader(2)])
        return context.create_trainer(Unit(), reader(config.epoch_steps))


# -- launching ---------------------------------------------------------------
def allow_fsdp1_on_cpu():
    """PyTorch refuses to synchronize the states of CPU modules, although its
    Gloo collectives can."""
    from torch.distributed.fsdp import _init_utils

    _init_utils._check_module_states_for_sync_module_states = lambda states: None


def launch(size, fn, *, timeout=60.0, local_size=None, retries=2):
    """fn(rank) on every rank, a process each with the environment of a
    launcher; returns a list of ("ok", value), ("error", type, traceback),
    ("exit", code, traceback), ("hang", None) or ("died", status)."""
    for _ in range(retries + 1):
        out = _launch(size, fn, timeout, local_size or size)
        if not any(o[0] == "error" and "EADDRINUSE" in o[2] for o in out):
            break
    return out


def _launch(size, fn, timeout, local_size):
    port = _free_port()
    kids = []
    for rank in range(size):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                os.setpgid(0, 0)
                err = os.open(os.environ.get("VERIF_RECIPE_STDERR", os.devnull), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
                os.dup2(err, 2)
                os.dup2(err, 1)
                for k in ("RANK", "WORLD_SIZE", "LOCAL_RANK", "LOCAL_WORLD_SIZE"):
                    os.environ.pop(k, None)
                if size > 1:
                    os.environ.update(RANK=str(rank), WORLD_SIZE=str(size), LOCAL_RANK=str(rank % local_size), LOCAL_WORLD_SIZE=str(local_size), MASTER_ADDR="127.0.0.1", MASTER_PORT=str(port), GLOO_SOCKET_IFNAME="lo")
                try:
                    res = ("ok", fn(rank))
                except SystemExit as ex:
                    res = ("exit", ex.code, traceback.format_exc()[-2500:])
                except BaseException as ex:  # noqa: BLE001
                    res = ("error", type(ex).__name__, traceback.format_exc()[-2500:])
                data = pickle.dumps(res)
                while data:
                    data = data[os.write(w, data):]
                code = 0
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
            finally:
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    end = time.time() + timeout
    bufs = [b""] * size
    left_ = {r: i for i, (_, r) in enumerate(kids)}
    while left_:
        left = end - time.time()
        if left <= 0:
            break
        for r in select.select(list(left_), [], [], left)[0]:
            d = os.read(r, 1 << 16)
            if d:
                bufs[left_[r]] += d
            else:
                del left_[r]
    out = []
    for i, (pid, r) in enumerate(kids):
        hang = r in left_
        if hang:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        _, st = os.waitpid(pid, 0)
        os.close(r)
        out.append(("hang", None) if hang else pickle.loads(bufs[i]) if bufs[i] else ("died", st))
    return out


def run_cli(recipe, args):
    """The command line of a recipe, in this process."""
    from fairseq2.recipe import cli

    import logging
    import warnings

    allow_fsdp1_on_cpu()

    warnings.simplefilter("ignore")
    logging.disable(logging.WARNING)
    old = sys.argv
    sys.argv = ["recipe", "--no-rich", *map(str, args)]
    try:
        cli.main(recipe)
    finally:
        sys.argv = old


def dump_yaml(path: Path, obj):
    path.write_text(json.dumps(obj))  # JSON is YAML
    return path


@dataclass(kw_only=True)
class TinyEvalConfig:
    model: ReferenceModelSection = field(default_factory=lambda: ReferenceModelSection(name="nothing"))
    gang: GangSection = field(default_factory=GangSection)
    evaluator: EvaluatorSection = field(default_factory=EvaluatorSection)
    common: CommonSection = field(default_factory=CommonSection)
    per_step: int = 4
    size: int = 3
    kind: str = "toy"


class TinyEvalRecipe(Recipe):
    def __init__(self, hook):
        self.hook = hook

    def register(self, container):
        register_toys(container)

    @property
    def config_kls(self):
        return TinyEvalConfig

    def create_task(self, context):
        config = context.get_config_as(TinyEvalConfig)
        model = context.get_model()
        self.hook("eval", model=model, context=context)
        assert not torch.is_grad_enabled()

        class Unit(EvalUnit):
            def prepare_metric_bag(self, bag):
                bag.add("nll_loss", Mean())
                bag.add("total_num_examples", Sum())

            def process_batch(self, batch, bag):
                loss = loss_of(model, batch)
                n = batch.y.numel()
                bag.get("nll_loss", Mean).update(loss.detach() / n, weight=n)
                bag.get("total_num_examples", Sum).update(len(batch.ids))

        return context.create_evaluator([Unit()], [Reader(context.gangs, config.per_step, config.size, 2, config.kind)])


def load_by_card(context, name):
    """A model of the asset store."""
    from fairseq2.models import ModelFamily

    card = context.asset_store.retrieve_card(name)
    family = context.resolver.resolve(ModelFamily, key=card.field("model_family").as_(str))
    return family.load_model(card, context.gangs, torch.float32, None, False, False)
