"""One simulated world: clock, event history, faults, snapshots, stdout.

A world is created for one simulated execution.  All callbacks that the
library can reach (cost, derivatives, preconditioner, line searcher, manifold
operations, stdout, clocks) go through it; it records every call, advances
the simulated clock, and fires the faults of the fault plan.  Nothing here
draws random numbers: the plan has been decided by the seed beforehand.
"""
import builtins
import hashlib
import sys
import threading
from collections import Counter

import numpy as np

from boot import CLOCK, PKG


class StepCap(BaseException):
    """Raised into the run when it exceeds the event budget."""


# --------------------------------------------------------------- digests


def flat(obj):
    """Arrays of a point or tangent vector, in order."""
    if isinstance(obj, (list, tuple)):
        result = []
        for item in obj:
            result.extend(flat(item))
        return result
    return [obj]


def _feed(h, obj, depth=0):
    if depth > 12:
        h.update(b"deep")
    elif obj is None or isinstance(obj, (bool, str, int)):
        h.update(f"{type(obj).__name__}:{obj}".encode())
    elif isinstance(obj, (float, np.floating)):
        h.update(b"f" + np.float64(obj).tobytes())
    elif isinstance(obj, (complex, np.complexfloating)):
        h.update(b"c" + np.complex128(obj).tobytes())
    elif isinstance(obj, np.integer):
        h.update(f"int:{int(obj)}".encode())
    elif isinstance(obj, np.ndarray):
        h.update(f"a{obj.dtype.str}{obj.shape}".encode())
        h.update(np.ascontiguousarray(obj).tobytes())
    elif isinstance(obj, (list, tuple)):
        h.update(f"l{len(obj)}".encode())
        for item in obj:
            _feed(h, item, depth + 1)
    elif isinstance(obj, dict):
        h.update(f"d{len(obj)}".encode())
        for key in obj:
            _feed(h, str(key))
            _feed(h, obj[key], depth + 1)
    else:
        h.update(type(obj).__name__.encode())


def digest(*objs):
    h = hashlib.blake2b(digest_size=8)
    for obj in objs:
        _feed(h, obj)
    return h.hexdigest()


def same(a, b):
    return digest(a) == digest(b)


def copy_value(obj):
    """A private deep copy of a point or tangent vector (plain containers)."""
    if isinstance(obj, (list, tuple)):
        return [copy_value(item) for item in obj]
    if isinstance(obj, np.ndarray):
        return obj.copy()
    return obj


# ---------------------------------------------------------------- stdout


class SimStdout:
    encoding = "utf-8"
    errors = "strict"

    def __init__(self, world):
        self.world = world
        self.text = []
        self.writes = 0

    def write(self, text):
        n = self.writes
        self.writes += 1
        world = self.world
        world.fire("stdout", n)
        self.text.append(text)
        return len(text)

    def flush(self):
        pass

    def isatty(self):
        return False

    def getvalue(self):
        return "".join(self.text)


# ----------------------------------------------------------------- world


class Event:
    __slots__ = ("seq", "kind", "args", "arg_digest", "value", "time", "tag", "extra")

    def __init__(self, seq, kind, args, arg_digest, time, tag):
        self.seq = seq
        self.kind = kind
        self.args = args
        self.arg_digest = arg_digest
        self.value = None
        self.time = time
        self.tag = tag
        self.extra = None

    def __repr__(self):
        return f"<{self.seq} {self.kind} {self.arg_digest} -> {self.value!r}>"


class World:
    """
    Args:
        epoch: Start value of the clock.
        tick: Time that passes at every clock read.
        cost_of: Simulated duration of the callbacks by kind (a list that is
            cycled through, or a number).
        jumps: {global event index: clock jump} applied before that event.
        cap: Event budget.
        keep: Whether to keep copies of arguments in events.
    """

    def __init__(
        self, *, epoch=1000.0, tick=0.0, durations=None, jumps=None,
        cap=20000, keep=False, track=False,
    ):
        self.now = float(epoch)
        self.epoch = float(epoch)
        self.tick = tick
        self.durations = durations or {}
        self.jumps = {int(k): v for k, v in (jumps or {}).items()}
        self.cap = cap
        self.keep = keep
        self.track = track
        self.events = []
        self.seq = 0
        self.counters = Counter()
        self.fired = Counter()
        self.faults = {}  # (kind, nth) -> list of actions
        self.kind_faults = {}  # kind -> action for each call
        self.reads = []  # (seq, value)
        self.sim_elapsed = 0.0
        self.entropy = None
        self.entropy_reads = 0
        self.enabled = True
        self.recording = True
        self.tag = None
        self.tracked = []  # (label, array, digest)
        self.tracked_ids = set()
        self.hooks = []  # called after each event
        self.on_boundary = None
        self.stdout = SimStdout(self)
        self.injected = None
        self.injected_seq = None
        self.notes = []  # (event position, fault label)

    def note(self, label):
        self.fired[label] += 1
        self.notes.append((self.seq, label))

    def history_digest(self):
        return digest(
            [[e.kind, e.arg_digest, _num(e.value), str(e.tag)] for e in self.events],
            [list(n) for n in self.notes], self.stdout.getvalue(),
        )

    def shape_digest(self):
        return digest(
            [[e.kind, str(e.tag)] for e in self.events],
            [list(n) for n in self.notes],
        )

    # -- clock
    def read_clock(self, name):
        self.now += self.tick
        self.sim_elapsed += self.tick
        value = self.now
        self.reads.append((self.seq, value))
        return value

    def advance(self, amount):
        self.now += amount
        self.sim_elapsed += abs(amount)

    # -- activation
    def __enter__(self):
        self._old = (CLOCK.world, sys.stdout)
        CLOCK.world = self
        sys.stdout = self.stdout
        return self

    def __exit__(self, *exc):
        CLOCK.world, sys.stdout = self._old
        return False

    # -- faults
    def add_fault(self, kind, nth, action):
        self.faults.setdefault((kind, nth), []).append(action)

    def fire(self, kind, nth, event=None):
        actions = self.faults.get((kind, nth))
        if actions:
            for action in actions:
                action(self, event)
        action = self.kind_faults.get(kind)
        if action:
            action(self, event)

    def raise_injected(self, exc, label):
        self.note(label)
        self.injected = exc
        self.injected_seq = self.seq
        raise exc

    # -- snapshots
    def publish(self, label, obj):
        """Remember the present content of every array in obj."""
        if not self.track:
            return
        for array in flat(obj):
            if isinstance(array, np.ndarray):
                self.tracked.append((label, array, digest(array)))

    def check_published(self):
        for label, array, d in self.tracked:
            if digest(array) != d:
                return label
        return None

    # -- the seam all callbacks go through
    def call(self, kind, function, args, info=None):
        if not self.enabled:
            return function(*args)
        n = self.counters[kind]
        self.counters[kind] += 1
        seq = self.seq
        self.seq += 1
        if seq >= self.cap:
            raise StepCap(f"more than {self.cap} events")
        event = Event(
            seq, kind, copy_value(args) if self.keep else None,
            digest(*args), self.now, self.tag,
        )
        event.extra = info
        if self.recording:
            self.events.append(event)
        self.publish(f"argument of {kind}", list(args))
        if self.on_boundary is not None:
            self.on_boundary(kind)
        durations = self.durations.get(kind)
        if durations is not None:
            if isinstance(durations, (list, tuple)):
                amount = durations[n % len(durations)]
            else:
                amount = durations
            if amount:
                self.advance(amount)
        jump = self.jumps.get(seq)
        if jump:
            self.note("clock_jump_back" if jump < 0 else "clock_jump")
            self.advance(jump)
        self.fire(kind, n, event)
        value = function(*args)
        post = self.faults.get((kind + ".value", n))
        if post:
            for action in post:
                value = action(self, event, value)
        every = self.kind_faults.get(kind + ".value")
        if every:
            value = every(self, event, value)
        event.value = value if isinstance(value, (int, float)) else digest(value)
        self.publish(f"value returned by {kind}", value)
        for hook in self.hooks:
            hook(self, event, args, value)
        if self.on_boundary is not None:
            self.on_boundary(kind + "/return")
        return value

    def trace(self, start=0, tag=None, kinds=None):
        """Comparable form of the history."""
        return [
            (e.kind, e.arg_digest, _num(e.value))
            for e in self.events[start:]
            if (tag is None or e.tag == tag) and (kinds is None or e.kind in kinds)
        ]


def _num(value):
    if isinstance(value, (float, np.floating)):
        return np.float64(value).tobytes().hex()
    return value


def first_difference(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"event {i}: {x} vs {y}"
    if len(a) != len(b):
        return f"lengths {len(a)} vs {len(b)}"
    return None


# ------------------------------------------------- asynchronous interrupts


class LineInterrupt:
    """Raises an exception at the n-th executed line of pymanopt code."""

    def __init__(self, world, nth, exc):
        self.world = world
        self.left = nth
        self.exc = exc
        self.fired = False
        self.lines = 0

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(PKG):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            self.lines += 1
            if self.left is not None:
                self.left -= 1
                if self.left < 0 and not self.fired:
                    self.fired = True
                    sys.settrace(None)
                    self.world.note("async_interrupt")
                    raise self.exc
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)
        return False


class InjectedError(Exception):
    pass


class InjectedBase(BaseException):
    pass


EXCEPTIONS = {
    "Injected": InjectedError,
    "InjectedBase": InjectedBase,
    "KeyboardInterrupt": KeyboardInterrupt,
    "SystemExit": SystemExit,
    "GeneratorExit": GeneratorExit,
    "StopIteration": StopIteration,
    "StopAsyncIteration": StopAsyncIteration,
    "ZeroDivisionError": ZeroDivisionError,
    "FloatingPointError": FloatingPointError,
    "OverflowError": OverflowError,
    "ArithmeticError": ArithmeticError,
    "NotImplementedError": NotImplementedError,
    "RuntimeError": RuntimeError,
    "RecursionError": RecursionError,
    "AttributeError": AttributeError,
    "TypeError": TypeError,
    "ValueError": ValueError,
    "KeyError": KeyError,
    "IndexError": IndexError,
    "LookupError": LookupError,
    "NameError": NameError,
    "AssertionError": AssertionError,
    "MemoryError": MemoryError,
    "OSError": OSError,
    "BrokenPipeError": BrokenPipeError,
    "TimeoutError": TimeoutError,
    "EOFError": EOFError,
    "ImportError": ImportError,
    "UnicodeError": UnicodeError,
    "Warning": UserWarning,
    "LinAlgError": np.linalg.LinAlgError,
}
