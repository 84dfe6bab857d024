"""Cooperative scheduling of real threads: exactly one runs at any moment.

Every executed line of pymanopt and every callback boundary is a possible
preemption point.  Which of them switch, and to whom, is decided by an
explicit schedule: a list of [steps until the switch, choice of the next
task].  When the schedule is used up, tasks run to completion one by one.
"""
import sys
import threading

import numpy as np
from autograd.tracer import trace_stack

import boot
from boot import CLOCK, PKG
from world import World


class TaskWorld(World):
    """A world of one task; the router decides which one is current."""

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False


class Router:
    """Stands for "the" world: the one of the thread that asks."""

    def __init__(self):
        self.local = threading.local()

    @property
    def stack(self):
        try:
            return self.local.stack
        except AttributeError:
            self.local.stack = []
            return self.local.stack

    def push(self, world):
        self.stack.append(world)

    def pop(self):
        return self.stack.pop()

    def __getattr__(self, name):
        return getattr(self.stack[-1], name)

    # as sys.stdout
    encoding = "utf-8"

    def write(self, text):
        return self.stack[-1].stdout.write(text)

    def flush(self):
        pass

    def isatty(self):
        return False

    def __enter__(self):
        self._old = CLOCK.world, sys.stdout
        CLOCK.world = self
        sys.stdout = self
        return self

    def __exit__(self, *exc):
        CLOCK.world, sys.stdout = self._old
        return False


class Deadlock(BaseException):
    pass


class Task:
    def __init__(self, index, function):
        self.index = index
        self.function = function
        self.go = threading.Semaphore(0)
        self.done = False
        self.waits_for = None  # a held SimLock
        self.rng = None
        self.error = None


class Scheduler:
    def __init__(self, functions, schedule, cap=2_000_000):
        self.tasks = [Task(i, f) for i, f in enumerate(functions)]
        self.schedule = list(schedule)
        self.position = 0
        self.left = None
        self.current = None
        self.switches = 0
        self.steps = 0
        self.taken = []
        self.cap = cap
        self.finished = threading.Semaphore(0)
        self.failure = None
        self._next_slice()

    def _next_slice(self):
        if self.position < len(self.schedule):
            self.left = self.schedule[self.position][0]
        else:
            self.left = None

    def runnable(self, but=None):
        return [
            t for t in self.tasks
            if not t.done and t is not but
            and (t.waits_for is None or t.waits_for.owner is None)
        ]

    def step(self):
        """A possible preemption point of the current task."""
        self.steps += 1
        if self.left is None:
            return
        self.left -= 1
        # the tape of autograd is one per process: never switch inside
        if self.left > 0 or trace_stack.top >= 0:
            return
        choice = self.schedule[self.position][1]
        self.position += 1
        self._next_slice()
        others = self.runnable(but=self.current)
        if others:
            self._switch(others[choice % len(others)])

    def block(self, lock):
        """The current task waits for a lock that another one holds."""
        task = self.current
        task.waits_for = lock
        while lock.owner is not None:
            others = self.runnable(but=task)
            if not others:
                raise Deadlock("all tasks wait for locks")
            self._switch(others[0])
        task.waits_for = None

    def _switch(self, to):
        me = self.current
        self.switches += 1
        self.taken.append([self.steps, me.index, to.index])
        me.rng = np.random.get_state()
        self.current = to
        if to.rng is not None:
            np.random.set_state(to.rng)
        to.go.release()
        me.go.acquire()

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(PKG):
            self.step()
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            self.step()
        return self._local

    def _body(self, task):
        task.go.acquire()
        np.seterr(all="ignore")
        sys.settrace(self._global)
        try:
            task.function()
        except BaseException as error:  # noqa: B902
            task.error = error
        finally:
            sys.settrace(None)
        task.done = True
        rest = self.runnable()
        if rest:
            choice = 0
            if self.position < len(self.schedule):
                choice = self.schedule[self.position][1]
                self.position += 1
                self._next_slice()
            to = rest[choice % len(rest)]
            self.current = to
            if to.rng is not None:
                np.random.set_state(to.rng)
            to.go.release()
        else:
            self.finished.release()

    def run(self):
        threads = [
            threading.Thread(target=self._body, args=(t,), daemon=True)
            for t in self.tasks
        ]
        boot.SCHEDULER = self
        try:
            for thread in threads:
                thread.start()
            self.current = self.tasks[0]
            self.current.go.release()
            self.finished.acquire()
            for thread in threads:
                if self.tasks[threads.index(thread)].done:
                    thread.join()
        finally:
            boot.SCHEDULER = None
        for task in self.tasks:
            if task.error is not None:
                raise task.error
        if not all(t.done for t in self.tasks):
            raise Deadlock("all tasks wait for locks")
