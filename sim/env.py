"""The simulated environment: faults, threads, memory, disk.

Everything nondeterministic that the code under test depends on is behind one of these
seams; each is driven by explicit numbers in the (JSON) case, so a case is one exactly
repeatable execution.
"""
import ast
import contextlib
import dis
import hashlib
import io
import json
import os
import struct
import sys
import threading
import time
import types
import warnings
import zlib

import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode

from . import core

PKG = os.path.realpath(os.path.join(core.REPO, "pyoptmat")) + os.sep
ZOO = os.path.realpath(os.path.join(core.HERE, "sim", "zoo.py"))

_owned = {}


def owned(code):
    """is this code object part of the package under test?"""
    f = code.co_filename
    r = _owned.get(f)
    if r is None:
        r = os.path.realpath(f).startswith(PKG)
        _owned[f] = r
    return r


class Injected(BaseException):
    """an interrupt delivered at a source line (like KeyboardInterrupt)"""


class InjectedError(RuntimeError):
    """a failing operation or user callback"""


# ------------------------------------------------------------------ line faults
_with_exits = {}
_cleanup = {}


def _exits(code):
    """Offsets at which a finished ``with`` block is about to call ``__exit__``.

    Python reports a line there, but no code could protect itself against an interrupt
    between the end of the block and the call.
    """
    r = _with_exits.get(code)
    if r is None:
        ins = [(i.offset, i.opname, i.argval) for i in dis.get_instructions(code)]
        r = set()
        for k in range(len(ins) - 3):
            if all(ins[k + j][1] == "LOAD_CONST" and ins[k + j][2] is None for j in range(3)) and ins[k + 3][1].startswith(("CALL", "PRECALL")):
                r.add(ins[k][0])
                j = k - 1
                while j >= 0 and ins[j][1] in ("SWAP", "NOP", "POP_TOP", "COPY", "ROT_TWO"):
                    r.add(ins[j][0])
                    j -= 1
        _with_exits[code] = r
    return r


def _cleanup_lines(filename):
    """Lines of ``finally`` and ``except`` bodies: clean-up that cannot itself be guarded."""
    r = _cleanup.get(filename)
    if r is None:
        r = set()
        try:
            with open(filename) as f:
                tree = ast.parse(f.read())
            for n in ast.walk(tree):
                if isinstance(n, ast.Try):
                    body = n.finalbody + [x for h in n.handlers for x in h.body]
                    for x in body:
                        r.update(range(x.lineno, (x.end_lineno or x.lineno) + 1))
                    r.update(h.lineno for h in n.handlers)
                    # nothing can be guarded between the line before "try:" and its block
                    r.add(n.lineno)
        except (OSError, SyntaxError):
            pass
        _cleanup[filename] = r
    return r


def guardable(frame):
    """Could the code at this point have protected itself against an exception here?

    False inside clean-up (or anything called from it) and at the exit of a with block.
    """
    if frame.f_lasti in _exits(frame.f_code):
        return False
    while frame is not None:
        if owned(frame.f_code) and frame.f_lineno in _cleanup_lines(frame.f_code.co_filename):
            return False
        frame = frame.f_back
    return True


class LineTracer:
    """Counts source lines of the package; optionally raises at the n-th one."""

    def __init__(self, at=None, exc=Injected):
        self.at = at
        self.exc = exc
        self.n = 0
        self.hit = None

    def _global(self, frame, event, arg):
        if owned(frame.f_code):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.at is not None and self.n >= self.at and self.hit is None and guardable(frame):
                self.hit = (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name)
                raise self.exc("injected at a source line")
        return self._local

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)
        return False


class OpTracer(TorchDispatchMode):
    """Counts tensor operations; optionally raises at the n-th one."""

    def __init__(self, at=None, exc=InjectedError, msg="simulated: not enough memory"):
        super().__init__()
        self.at = at
        self.exc = exc
        self.msg = msg
        self.n = 0
        self.hit = None

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        self.n += 1
        if self.at is not None and self.n >= self.at and self.hit is None and guardable(sys._getframe(1)):
            self.hit = str(func)
            raise self.exc(self.msg)
        return func(*args, **(kwargs or {}))


# -------------------------------------------------------------- poisoned memory
_EMPTY = {
    "aten.empty.memory_format",
    "aten.empty_like.default",
    "aten.new_empty.default",
    "aten.empty_strided.default",
    "aten.new_empty_strided.default",
}

PATTERNS = {
    "zero": 0.0,
    "nan": float("nan"),
    "huge": 1e300,
    "inf": float("inf"),
    "one": 1.0,
    "neg": -7.25,
}


class Poison(TorchDispatchMode):
    """Freshly allocated memory contains a chosen bit pattern."""

    def __init__(self, pattern):
        super().__init__()
        self.v = PATTERNS[pattern]
        self.count = 0

    def _int(self, bits=32):
        v = self.v
        if v == v and abs(v) < 1e6:
            return int(v)
        return 2**31 - 7

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        out = func(*args, **(kwargs or {}))
        if str(func) in _EMPTY and isinstance(out, torch.Tensor) and out.numel():
            self.count += 1
            if out.is_floating_point() or out.is_complex():
                out.fill_(self.v)
            elif out.dtype == torch.bool:
                out.fill_(self.v != 0.0)
            elif out.dtype in (torch.int64, torch.int32):
                out.fill_(self._int())
            else:
                out.fill_(1 if self.v != 0 else 0)
        return out

    def __enter__(self):
        self._np = np.empty
        mode = self

        def empty(*a, **k):
            x = mode._np(*a, **k)
            mode.count += 1
            if x.dtype.kind == "f":
                x.fill(mode.v)
            elif x.dtype.kind in "iu":
                x.fill(mode._int())
            return x

        np.empty = empty
        return super().__enter__()

    def __exit__(self, *a):
        np.empty = self._np
        return super().__exit__(*a)


# ---------------------------------------------------------------------- threads
class Deadlock(Exception):
    """harness failure: a parked thread did not come back"""


class SimLock:
    """What ``threading.Lock`` and ``threading.RLock`` are to the package.

    Exactly one simulated thread runs at a time, so a thread that finds the lock taken
    hands over; when nobody can run any more the threads are deadlocked.
    """

    def __init__(self, re=False):
        self.re = re
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        spins = 0
        while self.count and not (self.re and self.owner == me):
            if not blocking:
                return False
            s = Scheduler.active
            if s is None or me not in s.ids:
                if timeout is not None and timeout >= 0:
                    return False
                spins += 1
                if threading.active_count() > 1 and spins < 20000:
                    # held by a thread the package itself started
                    time.sleep(0.001)
                    continue
                raise core.Violation("deadlock", "waits for a lock that nobody will release")
            spins += 1
            if timeout is not None and timeout >= 0 and spins > 50:
                return False
            s.pass_on(s.ids.index(me), spins)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if not self.count or (self.re and self.owner != threading.get_ident()):
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return self.count > 0

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class ThreadingProxy(types.ModuleType):
    """the threading module as the package sees it"""

    def __init__(self):
        super().__init__("threading")

    def __getattr__(self, name):
        return getattr(threading, name)

    @staticmethod
    def Lock():
        return SimLock()

    @staticmethod
    def RLock():
        return SimLock(True)


class _SwitchOps(TorchDispatchMode):
    """Every tensor operation of thread i is a switch point too."""

    def __init__(self, sch, i):
        super().__init__()
        self.sch = sch
        self.i = i

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        f = sys._getframe(1)
        while f is not None and not owned(f.f_code):
            f = f.f_back
        if f is not None:
            self.sch._step(self.i, f)
        return func(*args, **(kwargs or {}))


class Scheduler:
    """Real threads, exactly one running; control changes hands at traced source lines.

    ``switches`` is a list of [gap, target]: after ``gap`` further lines (of whichever
    thread runs) control goes to thread ``target`` (modulo the number of live threads).
    """

    def __init__(self, fns, switches, extra_files=(), ops=False, kill=None, hot=None):
        self.fns = fns
        self.ids = [None] * len(fns)
        # [m, r]: only hand over inside a pseudo-random 1/m of the functions; ["file", name]: in one file;
        # ["meet", m, r]: wait inside these functions for the other threads to get there, then go on line by line in turn
        self.hot = hot
        self.meets = len(switches) if hot and hot[0] == "meet" else 0
        self.arrived = [False] * len(fns)
        self._hot = {}
        self.kill = dict(kill or {})  # thread -> own line at which it is interrupted
        self.own = [0] * len(fns)
        self.killed = set()
        self.n = len(fns)
        self.sw = [list(s) for s in switches]
        self.pos = 0
        self.countdown = self.sw[0][0] if self.sw else -1
        self.locks = [threading.Semaphore(0) for _ in fns]
        self.main = threading.Semaphore(0)
        self.done = [False] * self.n
        self.result = [None] * self.n
        self.error = [None] * self.n
        self.current = 0
        self.steps = 0
        self.switched = 0
        self.trace = []
        self.abort = False
        self.extra = tuple(os.path.realpath(f) for f in extra_files)
        self.ops = ops  # also hand over before every tensor operation
        self._own = {}

    def _is_own(self, code):
        r = self._own.get(code)
        if r is None:
            r = owned(code) or os.path.realpath(code.co_filename) in self.extra
            self._own[code] = r
        return r

    def _is_hot(self, code):
        r = self._hot.get(code)
        if r is None:
            if self.hot[0] == "file":
                r = os.path.basename(code.co_filename) == self.hot[1]
            else:
                m, k = self.hot[-2:]
                r = zlib.crc32(code.co_qualname.encode()) % m == k
            self._hot[code] = r
        return r

    def _mk(self, i):
        def glob(frame, event, arg):
            if self._is_own(frame.f_code):
                return local
            return None

        def local(frame, event, arg):
            if event == "line":
                self._step(i, frame)
            return local

        return glob

    def _step(self, i, frame):
        if self.abort:
            raise Injected("aborted")
        self.steps += 1
        self.own[i] += 1
        if i in self.kill and i not in self.killed and self.own[i] >= self.kill[i] and guardable(frame):
            self.killed.add(i)
            raise Injected("thread interrupted")
        if self.meets > 0:
            return self._meet(i, frame)
        if self.countdown < 0:
            if i not in self.kill or i in self.killed:
                # nothing left to decide for this thread: run on at full speed
                sys.settrace(None)
                frame.f_trace = None
            return
        if self.hot and not self._is_hot(frame.f_code):
            return
        if self.countdown > 0:
            self.countdown -= 1
            return
        target = self.sw[self.pos][1]
        self.pos += 1
        self.countdown = self.sw[self.pos][0] if self.pos < len(self.sw) else -1
        live = [k for k in range(self.n) if not self.done[k]]
        t = live[target % len(live)]
        if t != i:
            self.trace.append((frame.f_code.co_name, i, t))
            self.switched += 1
            self._give(t)
            self._wait(i)

    def _meet(self, i, frame):
        self.arrived[i] = self._is_hot(frame.f_code)
        if not self.arrived[i]:
            return
        self.meets -= 1
        if self.meets == 0:
            self.countdown = -1
        order = [k % self.n for k in range(i + 1, i + self.n) if not self.done[k % self.n]]
        if not order:
            return
        t = ([k for k in order if not self.arrived[k]] or order)[0]
        self.trace.append((frame.f_code.co_name, i, t))
        self.switched += 1
        self._give(t)
        self._wait(i)

    def pass_on(self, i, spins):
        """thread i waits for a lock: let another one run"""
        live = [k for k in range(self.n) if not self.done[k] and k != i]
        if not live or spins > 5000:
            raise core.Violation("deadlock", f"thread {i} waits for a lock that nobody will release")
        t = live[spins % len(live)]
        self.trace.append(("lock", i, t))
        self.switched += 1
        self._give(t)
        self._wait(i)

    active = None

    def _give(self, t):
        self.current = t
        self.locks[t].release()

    def _wait(self, i):
        if not self.locks[i].acquire(timeout=120):
            self.abort = True
            raise Deadlock(f"thread {i}")
        if self.abort:
            raise Injected("aborted")

    def _run(self, i):
        self.ids[i] = threading.get_ident()
        try:
            self._wait(i)
            with _SwitchOps(self, i) if self.ops else contextlib.nullcontext():
                sys.settrace(self._mk(i))
                try:
                    self.result[i] = self.fns[i]()
                finally:
                    sys.settrace(None)
        except BaseException as e:  # noqa
            self.error[i] = e
        self.done[i] = True
        live = [k for k in range(self.n) if not self.done[k]]
        if live:
            self._give(live[0])
        else:
            self.main.release()

    def run(self):
        ts = [threading.Thread(target=self._run, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        Scheduler.active = self
        self._give(0)
        try:
            ok = self.main.acquire(timeout=150)
        finally:
            Scheduler.active = None
        if not ok:
            self.abort = True
            for l in self.locks:
                l.release()
            raise Deadlock("threads did not finish")
        for t in ts:
            t.join(10)
        for e in self.error:
            if isinstance(e, (Deadlock,)):
                raise e
        return self.result


def gen_switches(rng, total, nthreads, hot=False, march=False):
    """A list of [gap, target] covering about ``total`` lines."""
    if march:
        # strictly one line each in turn, from the very first line
        lag = rng.choice([0, 0, 1, 3, rng.randrange(60)])
        return [[lag if i == 0 else 0, i + 1] for i in range(rng.choice([150, 600, 2000]))]
    style = rng.choice(["few", "even", "burst", "heavy", "fine", "lockstep", "lockstep"])
    if hot and rng.random() < 0.8:
        style = "lockstep"
    out, pos = [], 0
    if style == "lockstep":
        # everybody advances together from some point on
        start = rng.choice([0, 0, rng.randrange(total // 10)]) if hot else rng.choice([0, rng.randrange(total), rng.randrange(total)])
        k = rng.randrange(nthreads)
        out.append([start, k])
        for _ in range(1500):
            k = (k + 1) % nthreads if rng.random() < 0.95 else rng.randrange(nthreads)
            out.append([rng.choice([0, 0, 0, 0, 1, 2]), k])
        return out
    if style == "few":
        cuts = sorted(rng.randrange(total) for _ in range(rng.randint(1, 5)))
        for c in cuts:
            out.append([c - pos, rng.randrange(nthreads)])
            pos = c
        return out
    mean = {"even": max(5, total // 40), "burst": 4, "heavy": 30, "fine": 2}[style]
    while pos < total and len(out) < 600:
        if style == "even":
            g = rng.randrange(1, 2 * mean)
        elif style == "burst":
            g = rng.randrange(0, 8) if rng.random() < 0.9 else rng.randrange(total // 10 + 1)
        elif style == "heavy":
            g = int(rng.paretovariate(0.6) * 2)
        else:
            g = rng.randrange(0, 5)
        g = min(g, total)
        out.append([g, rng.randrange(nthreads)])
        pos += g + 1
    return out


# ------------------------------------------------------------------------- disk
class SimDisk:
    """Whole-file storage with a write cache; a crash keeps only durable bytes.

    Each write is one fault opportunity: ok, lost (never reaches the medium), torn
    (a prefix), flip (one byte corrupted), enospc (short write reported as an error).
    Contents carry a checksum, so readers can tell an intact file from a broken one.
    """

    def __init__(self, ctx, faults=()):
        self.files = {}
        self.order = []
        self.faults = list(faults)
        self.ctx = ctx
        self.writes = 0

    def write(self, name, payload):
        raw = hashlib.sha256(payload).digest() + struct.pack("<Q", len(payload)) + payload
        f = self.faults[self.writes] if self.writes < len(self.faults) else "ok"
        self.writes += 1
        if f != "ok":
            self.ctx.fault("disk-" + f)
        if f == "lost":
            return
        if f == "torn":
            raw = raw[: max(1, len(raw) * 2 // 3)]
        elif f == "flip":
            k = len(raw) // 2
            raw = raw[:k] + bytes([raw[k] ^ 0x40]) + raw[k + 1 :]
        elif f == "enospc":
            self.files[name] = raw[: len(raw) // 3]
            self.order.append(name)
            raise OSError(28, "No space left on device (simulated)")
        self.files[name] = raw
        self.order.append(name)

    def read(self, name):
        """payload or None when the file is missing or not intact"""
        raw = self.files.get(name)
        if raw is None or len(raw) < 40:
            return None
        h, n, payload = raw[:32], struct.unpack("<Q", raw[32:40])[0], raw[40:]
        if len(payload) != n or hashlib.sha256(payload).digest() != h:
            return None
        return payload


def pack(obj):
    b = io.BytesIO()
    torch.save(obj, b)
    return b.getvalue()


def unpack(b):
    return torch.load(io.BytesIO(b), weights_only=False)


# ------------------------------------------------------------------- snapshots
def bits(x):
    return x.detach().cpu().contiguous().numpy().tobytes()


class Watch:
    """Remembers tensors bit for bit."""

    def __init__(self, named):
        named = list(named)
        self.named = [(n, t) for n, t in named if isinstance(t, torch.Tensor)]
        self.old = [self._of(t) for _, t in self.named]
        self.mods = [(f"{n}.{k}", x, x.training) for n, m in named if isinstance(m, torch.nn.Module) for k, x in m.named_modules()]

    @staticmethod
    def _of(t):
        return (
            tuple(t.shape),
            t.dtype,
            tuple(t.stride()),
            bits(t),
            t.requires_grad,
            None if (not t.is_leaf or t.grad is None) else bits(t.grad),
        )

    def check(self, cls, where=""):
        for n, x, o in self.mods:
            if x.training != o:
                raise core.Violation(cls + "-mode", f"training mode of module '{n}' changed {where}")
        for (n, t), o in zip(self.named, self.old):
            new = self._of(t)
            if new[3] != o[3] or new[0] != o[0] or new[1] != o[1] or new[2] != o[2]:
                raise core.Violation(cls, f"tensor '{n}' changed {where}")
            if new[4] != o[4]:
                raise core.Violation(cls + "-requires-grad", f"gradient tracking of '{n}' changed {where}")
            if new[5] != o[5]:
                raise core.Violation(cls + "-grad", f".grad of '{n}' changed {where}")


class World:
    """Process-wide settings and random streams."""

    def __init__(self):
        self.v = self.now()

    @staticmethod
    def now():
        import random as _r

        import pyro

        st = np.random.get_state()
        return {
            "grad mode": torch.is_grad_enabled(),
            "inference mode": torch.is_inference_mode_enabled(),
            "default dtype": str(torch.get_default_dtype()),
            "deterministic": torch.are_deterministic_algorithms_enabled(),
            "anomaly": torch.is_anomaly_enabled(),
            "threads": torch.get_num_threads(),
            "denormals": float(torch.full((1,), 1e-310, dtype=torch.float64).mul(1.0)) != 0.0,
            "matmul precision": torch.get_float32_matmul_precision(),
            "default device": str(torch.empty(0).device),
            "multithreaded backward": torch.autograd.is_multithreading_enabled() if hasattr(torch.autograd, "is_multithreading_enabled") else None,
            "torch rng": hashlib.sha256(bits(torch.get_rng_state())).hexdigest(),
            "numpy rng": hashlib.sha256(st[1].tobytes() + repr(st[2:]).encode()).hexdigest(),
            "python rng": hashlib.sha256(repr(_r.getstate()).encode()).hexdigest(),
            "numpy errors": repr(sorted(np.geterr().items())),
            "pyro store": repr(sorted(pyro.get_param_store().keys())),
            "pyro stack": len(pyro.poutine.runtime._PYRO_STACK),
            "recursion": sys.getrecursionlimit(),
            "environ": hashlib.sha256(repr(sorted(os.environ.items())).encode()).hexdigest(),
            "cwd": os.getcwd(),
        }

    def check(self, cls, where="", ignore=()):
        new = self.now()
        for k, v in self.v.items():
            if k not in ignore and new[k] != v:
                raise core.Violation(cls, f"process-wide '{k}' changed {where}: {v} -> {new[k]}")


@contextlib.contextmanager
def solver_signals():
    """Collect the solver's non-convergence warnings."""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        out = []
        yield out
    out.extend(str(x.message) for x in w if "did not succeed" in str(x.message))
