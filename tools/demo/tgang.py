"""Gangs whose ranks are threads of this process: every collective is a real
rendezvous, so lockstep mistakes deadlock (and are reported) just as over a
network. Delays between ranks are injected from a seed."""
from __future__ import annotations

import copy
import random
import threading
import time

import torch


class CollectiveMismatch(Exception):
    pass


class _World:
    """The shared state of one group of ranks."""

    def __init__(self, size, timeout, delay_rng=None):
        self.size = size
        self.timeout = timeout
        self.cv = threading.Condition()
        self.slots = {}
        self.result = {}
        self.gen = [0] * size
        self.delay = delay_rng
        self.log = []
        self.dead = None

    def exchange(self, rank, kind, value):
        """All ranks contribute (kind, value); each gets the list of values."""
        if self.delay is not None:
            with self.cv:
                d = self.delay.random()
            if d < 0.3:
                time.sleep(d * 0.005)
        with self.cv:
            g = self.gen[rank]
            self.gen[rank] += 1
            s = self.slots.setdefault(g, {})
            s[rank] = (kind, value)
            if len(s) == self.size:
                kinds = {k for k, _ in s.values()}
                if len(kinds) != 1:
                    self.dead = CollectiveMismatch(f"ranks called different collectives: {[s[r][0] for r in sorted(s)]}")
                self.log.append(kind)
                self.result[g] = [s[r][1] for r in range(self.size)]
                del self.slots[g]
                self.cv.notify_all()
            else:
                end = time.time() + self.timeout
                while g not in self.result and self.dead is None:
                    left = end - time.time()
                    if left <= 0:
                        self.dead = CollectiveMismatch(f"only ranks {sorted(s)} of {self.size} reached {kind} #{g}")
                        self.cv.notify_all()
                        break
                    self.cv.wait(left)
            if self.dead is not None:
                raise self.dead
            return self.result[g]

    def kill(self, why):
        with self.cv:
            if self.dead is None:
                self.dead = CollectiveMismatch(why)
            self.cv.notify_all()


def make_gang_class():
    from fairseq2.gang import Gang, GangError, ReduceOperation, _check_ranks

    class ThreadGang(Gang):
        def __init__(self, world, rank, registry, path=()):
            self._w, self._rank, self._reg, self._path = world, rank, registry, path
            self.calls = []

        def _x(self, kind, value):
            self.calls.append(kind)
            try:
                return self._w.exchange(self._rank, kind, value)
            except CollectiveMismatch as ex:
                raise GangError(str(ex)) from ex

        def close(self):
            pass

        def create_gang(self, ranks):
            _check_ranks(ranks, self.size)
            ranks = list(ranks)
            # a collective, as in torch
            n = self._x(f"create:{ranks}", None) and len(self.calls)
            if self._rank not in ranks:
                return None
            key = (self._path, n, tuple(ranks))
            with self._reg["lock"]:
                w = self._reg["worlds"].get(key)
                if w is None:
                    w = self._reg["worlds"][key] = _World(len(ranks), self._w.timeout, self._w.delay)
            return ThreadGang(w, ranks.index(self._rank), self._reg, key)

        def as_process_group(self):
            from fairseq2.error import NotSupportedError

            raise NotSupportedError("no process group")

        def barrier(self):
            self._x("barrier", None)

        def all_reduce(self, tensor, op):
            vs = self._x(f"all_reduce:{op.name}:{tuple(tensor.shape)}:{tensor.dtype}", tensor.detach().clone())
            st = torch.stack(vs)
            r = {
                ReduceOperation.SUM: lambda: st.sum(0), ReduceOperation.MEAN: lambda: st.sum(0) / len(vs),
                ReduceOperation.PRODUCT: lambda: st.prod(0), ReduceOperation.MIN: lambda: st.amin(0), ReduceOperation.MAX: lambda: st.amax(0),
            }[op]()
            with torch.no_grad():
                tensor.copy_(r)

        def all_gather(self, output_tensor, input_tensor):
            vs = self._x(f"all_gather:{tuple(input_tensor.shape)}:{input_tensor.dtype}", input_tensor.detach().clone())
            with torch.no_grad():
                output_tensor.copy_(torch.stack(vs).view(output_tensor.shape))

        def all_gather_to_list(self, output_tensors, input_tensor):
            vs = self._x("all_gather_to_list", input_tensor.detach().clone())
            with torch.no_grad():
                for o, v in zip(output_tensors, vs, strict=True):
                    o.copy_(v)

        def broadcast(self, tensor, source_rank=0):
            vs = self._x(f"broadcast:{source_rank}", tensor.detach().clone())
            if self._rank != source_rank:
                with torch.no_grad():
                    tensor.copy_(vs[source_rank])

        def broadcast_objects(self, objects, source_rank=0):
            vs = self._x(f"broadcast_objects:{source_rank}:{len(objects)}", list(objects))
            if self._rank != source_rank:
                objects[:] = copy.deepcopy(vs[source_rank])

        rank = property(lambda self: self._rank)
        size = property(lambda self: self._w.size)
        device = property(lambda self: torch.device("cpu"))
        supports_process_group = property(lambda self: False)

    return ThreadGang


def run_ranks(size, fn, *, timeout=20.0, delay_seed=None, join_timeout=60.0):
    """Runs fn(root_gang, rank) on `size` threads. Returns a list of
    ("ok", value) | ("error", exception) | ("hang", None) per rank."""
    TG = make_gang_class()
    reg = {"lock": threading.Lock(), "worlds": {}}
    world = _World(size, timeout, random.Random(delay_seed) if delay_seed is not None else None)
    out = [("hang", None)] * size

    def body(r):
        try:
            out[r] = ("ok", fn(TG(world, r, reg), r))
        except BaseException as ex:  # noqa: BLE001
            out[r] = ("error", ex)
            world.kill(f"rank {r} failed: {type(ex).__name__}: {ex}")
            with reg["lock"]:
                for w in reg["worlds"].values():
                    w.kill(f"rank {r} failed: {type(ex).__name__}: {ex}")

    ts = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(size)]
    for t in ts:
        t.start()
    end = time.time() + join_timeout
    for t in ts:
        t.join(max(0.0, end - time.time()))
    return out
