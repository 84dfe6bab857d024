"""Start-up: isolate the process, take over every clock, import pymanopt.

Everything nondeterministic that pymanopt can reach is put behind a seam
*before* the package is imported from the working tree in /repo/src:

* the clocks of the ``time`` module (`CLOCK`),
* ``os.urandom`` (OS entropy, also behind ``random.SystemRandom``, ``secrets``
  and ``numpy.random.default_rng()`` where those use it from Python),
* LAPACK's SVD of infinite matrices, which may not return,
* bytecode caches (never read, never written),
* BLAS thread pools (one thread).
"""
import atexit
import functools
import os
import shutil
import sys
import tempfile
import types

REPO = os.environ.get("SIMKIT_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = os.path.join(SRC, "pymanopt") + os.sep

_ENV = {
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "VECLIB_MAXIMUM_THREADS": "1",
    "NUMEXPR_NUM_THREADS": "1",
    "JAX_PLATFORMS": "cpu",
    "CUDA_VISIBLE_DEVICES": "",
    "TF_CPP_MIN_LOG_LEVEL": "3",
    "TF_ENABLE_ONEDNN_OPTS": "0",
    "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false",
    "MPLBACKEND": "Agg",
    "PYTHONDONTWRITEBYTECODE": "1",
}

import time as _time  # noqa: E402

REAL = {
    name: getattr(_time, name)
    for name in (
        "time",
        "monotonic",
        "perf_counter",
        "process_time",
        "thread_time",
        "time_ns",
        "monotonic_ns",
        "perf_counter_ns",
        "process_time_ns",
        "thread_time_ns",
        "sleep",
    )
    if hasattr(_time, name)
}
real_urandom = os.urandom


class Clock:
    """The simulated clock; inactive outside of a simulated world."""

    world = None


CLOCK = Clock()


def _install_clock():
    def seconds(name):
        real = REAL[name]

        def read():
            world = CLOCK.world
            if world is None:
                return real()
            return world.read_clock(name)

        read.__name__ = name
        return read

    def nanoseconds(name):
        real = REAL[name]

        def read():
            world = CLOCK.world
            if world is None:
                return real()
            return int(world.read_clock(name) * 1e9)

        read.__name__ = name
        return read

    for name in REAL:
        if name == "sleep":
            continue
        setattr(
            _time,
            name,
            nanoseconds(name) if name.endswith("_ns") else seconds(name),
        )

    def sleep(duration):
        world = CLOCK.world
        if world is None:
            return REAL["sleep"](duration)
        world.advance(duration)

    _time.sleep = sleep

    def urandom(n):
        world = CLOCK.world
        if world is None or getattr(world, "entropy", None) is None:
            return real_urandom(n)
        world.entropy_reads += 1
        return world.entropy.randbytes(n)

    os.urandom = urandom
    import random

    random._urandom = urandom


# ------------------------------------------------------------------ locks

SCHEDULER = None  # of the simulated threads, while there are any


class SimLock:
    """A lock made by pymanopt: waiting for it is a decision of the scheduler."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.depth = 0

    def _me(self):
        return SCHEDULER.current if SCHEDULER is not None else "main"

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self.owner is not None and not (self.reentrant and self.owner is me):
            if not blocking or timeout == 0:
                return False
            if SCHEDULER is None:
                raise RuntimeError("waits for a lock that nobody can release")
            SCHEDULER.block(self)
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()


def _install_locks():
    import threading

    def factory(real, reentrant):
        def make():
            if sys._getframe(1).f_code.co_filename.startswith(PKG):
                return SimLock(reentrant)
            return real()

        return make

    threading.Lock = factory(threading.Lock, False)
    threading.RLock = factory(threading.RLock, True)


def _install_svd(numpy):
    """LAPACK's SVD never returns for some matrices with infinite entries.

    It reports NaN entries as an error, and so it does here for infinite ones.
    """
    svd = numpy.linalg.svd
    isinf, LinAlgError = numpy.isinf, numpy.linalg.LinAlgError

    @functools.wraps(svd)
    def guarded(a, *args, **kwargs):
        if isinf(a).any():
            raise LinAlgError("SVD did not converge")
        return svd(a, *args, **kwargs)

    numpy.linalg.svd = guarded


def boot(backends=()):
    """Import pymanopt from /repo/src with only the given heavy backends."""
    os.environ.update(_ENV)
    sys.dont_write_bytecode = True
    cache = tempfile.mkdtemp(prefix="simkit-pyc-")
    owner = os.getpid()

    def cleanup():
        if os.getpid() == owner:
            shutil.rmtree(cache, ignore_errors=True)

    atexit.register(cleanup)
    for module in ("tensorflow", "torch", "jax"):
        if module not in backends:
            sys.modules[module] = None
    import warnings

    warnings.simplefilter("ignore")
    import numpy  # noqa: F401
    import scipy.linalg  # noqa: F401

    _install_svd(numpy)
    import autograd  # noqa: F401

    if "torch" in backends:
        import torch

        torch.set_num_threads(1)
    if "tensorflow" in backends:
        import tensorflow as tf

        tf.get_logger().setLevel("ERROR")
        tf.config.threading.set_intra_op_parallelism_threads(1)
        tf.config.threading.set_inter_op_parallelism_threads(1)
    _install_clock()
    _install_locks()
    # bytecode caches of pymanopt itself are never read
    sys.pycache_prefix = cache
    sys.path.insert(0, SRC)
    if not os.path.exists(os.path.join(SRC, "pymanopt", "_version.py")):
        stub = types.ModuleType("pymanopt._version")
        stub.__version__ = stub.version = "0"
        stub.version_tuple = stub.__version_tuple__ = (0,)
        sys.modules["pymanopt._version"] = stub
    import pymanopt
    import pymanopt.manifolds
    import pymanopt.optimizers  # noqa: F401
    import pymanopt.optimizers.line_search  # noqa: F401

    numpy.seterr(all="ignore")
    if not os.path.realpath(pymanopt.__file__).startswith(
        os.path.realpath(PKG)
    ):
        raise RuntimeError(f"pymanopt imported from {pymanopt.__file__}")
    return pymanopt
