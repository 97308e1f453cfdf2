"""Shared parts of the checkpoint manager checks."""
from __future__ import annotations

import random
import threading
import time
from concurrent.futures import Future

import torch

TOPOLOGIES = [(1, 1, 0), (2, 1, 0), (1, 2, 0), (2, 2, 0), (4, 1, 2), (3, 1, 3), (2, 2, 2)]  # dp, tp, sdp


def make_gangs(root, tp, sdp):
    from fairseq2.gang import create_fsdp_gangs, create_parallel_gangs

    g = create_parallel_gangs(root, tp_size=tp)
    if sdp > 1:
        g = create_fsdp_gangs(g, sdp)
    else:
        g = create_fsdp_gangs(g) if sdp == 1 else g
    return g


def fake_gangs(rank, size, tp, sdp):
    from fairseq2.gang import FakeGang

    return make_gangs(FakeGang(torch.device("cpu"), rank=rank, size=size), tp, sdp)


def make_fs(kind):
    from fairseq2.file_system import GlobalFileSystem, LocalFileSystem

    return GlobalFileSystem() if kind == "global" else LocalFileSystem()


class Pool:
    """One thread per queued task, started after an injected delay."""

    def __init__(self, seed=None):
        self.rng = random.Random(seed) if seed is not None else None
        self.threads = []

    def queue(self, callback, *args, **kwargs):
        f = Future()
        d = self.rng.choice([0, 0, 0.001, 0.01, 0.03]) if self.rng else 0

        def body():
            if d:
                time.sleep(d)
            try:
                f.set_result(callback(*args, **kwargs))
            except BaseException as ex:  # noqa: BLE001
                f.set_exception(ex)

        t = threading.Thread(target=body, daemon=True)
        t.start()
        self.threads.append(t)
        return f


def make_manager(base, gangs, fs="global", seed=None, pool=None):
    from fairseq2.checkpoint import StandardCheckpointManager
    from fairseq2.io import _TorchTensorFileDumper, _TorchTensorFileLoader

    f = make_fs(fs)
    return StandardCheckpointManager(base, gangs, f, _TorchTensorFileLoader(f), _TorchTensorFileDumper(f), pool or Pool(seed))


class State:
    """A stateful part of a run."""

    def __init__(self, sd=None):
        self.sd = sd
        self.got = None

    def state_dict(self):
        return self.sd

    def load_state_dict(self, sd):
        self.got = sd


DTYPES = [torch.float32, torch.float16, torch.bfloat16, torch.float64, torch.int64, torch.int32, torch.int8, torch.uint8, torch.bool, torch.complex64]


def tensor(r: random.Random, g: torch.Generator):
    dt = r.choice(DTYPES)
    shape = r.choice([(), (0,), (1,), (3,), (2, 3), (4, 1, 2), (3, 0, 2), (17,), (5, 7)])
    t = torch.randint(-100, 100, shape, generator=g)
    if dt == torch.bool:
        t = t > 0
    elif dt == torch.uint8:
        t = t.abs()
    t = t.to(dt)
    if dt.is_floating_point and r.random() < 0.3 and t.numel():
        t.view(-1)[0] = r.choice([float("inf"), float("nan"), -0.0, 1e-30])
    k = r.random()
    if k < 0.15 and t.ndim >= 2:
        t = t.transpose(0, 1)
    elif k < 0.25:
        t = torch.stack([t, t])[1]
    elif k < 0.3:
        t = t.unsqueeze(0).expand(3, *t.shape)
    elif k < 0.35 and t.ndim == 1 and t.numel() > 4:
        t = t[::2]
    return t


def payload(seed, rank_key, kind, big=False):
    """The state of `kind` as a pure function of (seed, rank_key)."""
    r = random.Random(f"{seed}-{rank_key}-{kind}")
    g = torch.Generator().manual_seed(r.randrange(1 << 40))
    n = r.choice([1, 2, 4])
    sd = {f"m.{i}.w": tensor(r, g) for i in range(n)}
    sd["big"] = torch.randn((r.choice([64, 3000]) if big else 9,), generator=g)
    if r.random() < 0.4:
        sd["alias"] = sd["m.0.w"]
        if sd["big"].numel() > 4:
            sd["view"] = sd["big"][1:4]
    if kind == "model":
        return sd
    sd["n"] = r.randrange(1 << 40)
    sd["tag"] = f"{kind}-{seed}-{rank_key}"
    sd["nested"] = {"state": {0: {"step": torch.tensor(float(r.randrange(100))), "exp_avg": tensor(r, g)}}, "groups": [{"lr": r.random(), "params": [0, 1]}], "t": (1, None, "x", b"\x00\xff", True)}
    return sd


def deep_eq(a, b, path="") -> str | None:
    """None if bitwise equal, else where they differ."""
    if isinstance(a, torch.Tensor):
        if not isinstance(b, torch.Tensor):
            return f"{path}: {type(b)} instead of a tensor"
        if a.dtype != b.dtype or a.shape != b.shape:
            return f"{path}: {b.dtype}{tuple(b.shape)} instead of {a.dtype}{tuple(a.shape)}"
        x, y = a.detach().contiguous().cpu(), b.detach().contiguous().cpu()
        if x.numel() and x.reshape(-1).view(torch.uint8).ne(y.reshape(-1).view(torch.uint8)).any():
            return f"{path}: {y.reshape(-1)[:6].tolist()} instead of {x.reshape(-1)[:6].tolist()}"
        return None
    if type(a) is not type(b):
        return f"{path}: {type(b)} instead of {type(a)}"
    if isinstance(a, dict):
        if list(a) != list(b):
            return f"{path}: keys {list(b)} instead of {list(a)}"
        for k in a:
            d = deep_eq(a[k], b[k], f"{path}/{k}")
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: length {len(b)} instead of {len(a)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = deep_eq(x, y, f"{path}/{i}")
            if d:
                return d
        return None
    if a != b:
        return f"{path}: {b!r} instead of {a!r}"
    return None


def keys_of(gangs):
    """What distinguishes the state of this rank, per kind. Replicas hold equal
    model and optimizer state; tensor parallel peers read the same data."""
    sh = f"{gangs.pp.rank}.{gangs.tp.rank}.{gangs.sdp.rank}"
    return {"trainer": f"r{gangs.root.rank}", "model": sh, "optimizer": sh, "data_reader": f"d{gangs.dp.rank}"}


KINDS = ["trainer", "model", "optimizer", "data_reader"]


def states_for(gangs, seed, big=False):
    ks = keys_of(gangs)
    return {k: State(payload(seed, ks[k], k, big)) for k in KINDS}


def load(mgr, step, kind):
    """The loaded state, or the exception."""
    s = State()
    try:
        getattr(mgr, f"load_{kind}_state")(step, s)
    except Exception as ex:  # noqa: BLE001
        return ex
    return s.got


def judge_step(base, topo, step, versions, model_only=(), fs="global", big=False):
    """Loads a listed step on every rank; it must equal one of `versions`
    (payload seeds) consistently. Returns (version, error)."""
    dp, tp, sdp = topo
    size = dp * tp
    errs = []
    for v in versions:
        err = None
        for rank in range(size):
            g = fake_gangs(rank, size, tp, sdp)
            m = make_manager(base, g, fs)
            ks = keys_of(g)
            for kind in KINDS:
                got = load(m, step, kind)
                if v in model_only and kind != "model":
                    if type(got).__name__ != "CheckpointNotFoundError":
                        err = f"v{v} rank {rank}: model-only step has {kind} state: {type(got)}"
                        break
                    continue
                if isinstance(got, Exception):
                    err = f"v{v} rank {rank} {kind}: {type(got).__name__}: {got} / {got.__cause__!r}"
                    break
                d = deep_eq(payload(v, ks[kind], kind, big), got, kind)
                if d:
                    err = f"v{v} rank {rank} {d}"
                    break
            if err:
                break
        if err is None:
            return v, None
        errs.append(err)
    return None, "; ".join(errs)
