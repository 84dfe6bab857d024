"""C03: runs stop when, and only when, a configured limit is reached."""
import re

import numpy as np

import opts
import scenario
import zoo
from engine import Report
from world import StepCap

ID = "C03"
COUNT = {"quick": 3500, "thorough": 100000}
RULE = (
    "each execution runs one optimizer, after up to two earlier runs of it, "
    "under a clock schedule (durations of callbacks, stalls, jumps forwards "
    "and backwards) and random limits; it is nontrivial if the run made at "
    "least two checks of its stopping rule and its history is new"
)
REAL = [
    "pymanopt optimizers, line searchers, Problem, autodiff (autograd, numpy), manifolds",
    "numpy, scipy, autograd",
]
STUB = ["clock (time.*)", "stdout", "user callbacks (scripted problems)"]
ASSUMPTIONS = [
    "the check of the stopping rule of an iteration happens right after its log entry is made",
    "limits within rounding (relative 1e-6) of the measured quantity are not judged",
]
SHRINK_LISTS = ("faults", "history")

REASONS = [
    ("iterations", re.compile(r"max\W?iter", re.I)),
    ("time", re.compile(r"max\W?time", re.I)),
    ("cost", re.compile(r"cost eval", re.I)),
    ("gradient", re.compile(r"grad", re.I)),
    ("step", re.compile(r"step", re.I)),
]


def limits(rng, kind):
    o = {}
    if rng.random() < 0.6:
        o["max_time"] = rng.choice([0, 0.0107, 0.207, 1.037, 5.03, 31.07, 1003.1, "inf"])
    o["max_iterations"] = rng.choice([0, 1, 2, 3, 5, 8, 12, 25, "inf", "inf"])
    if rng.random() < 0.5:
        o["max_cost_evaluations"] = rng.choice([0, 1, 2, 4, 7, 12, 30, 60, "inf"])
    if kind in ("SD", "CG", "TR") and rng.random() < 0.6:
        o["min_gradient_norm"] = rng.choice([0.0, 1e-6, 1e-3, 0.1, 0.5, 1.0])
    if kind in ("SD", "CG") and rng.random() < 0.6:
        o["min_step_size"] = rng.choice([0.0, 1e-10, 1e-3, 0.03, 0.3])
    if kind in ("NM", "PSO") and o["max_iterations"] == 25:
        o["max_iterations"] = 6
    if o["max_iterations"] == "inf":
        o["max_cost_evaluations"] = rng.choice([0, 1, 5, 20, 45])
        # a searcher need not evaluate anything
        if kind in ("SD", "CG") and rng.random() < 0.5:
            o["max_iterations"] = 30
    return o


def generate(rng, tier, index):
    case = zoo.generate_case(rng)
    kinds = zoo.supports(case["problem"])
    opt = opts.generate_optimizer(rng, kinds, record=True, log=1)
    opt["options"].update(limits(rng, opt["kind"]))
    opt["options"]["log_verbosity"] = 1
    if opt["kind"] in ("SD", "CG") and "search" not in opt:
        opt["search"] = {"type": rng.choice(["adaptive", "backtracking"]), "record": True}
    runs = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        run = {
            "start": rng.choice([None, rng.randrange(1 << 20), rng.randrange(1 << 20)]),
            "np_seed": rng.randrange(1 << 30),
            "clock": scenario.generate_clock(rng),
        }
        run["clock"]["epoch"] = rng.choice([0.0, 1000.0, 1.7e6])
        if run["start"] is not None and rng.random() < 0.3:
            run["region"] = scenario.generate_region(rng)
        faults = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            faults.append({
                "do": "stall", "kind": rng.choice(["cost", "cost", "gradient", "search"]),
                "nth": min(int(rng.expovariate(0.1)), 80),
                "seconds": rng.choice([0.113, 1.513, 77.77, 5e4]) * rng.choice([1, 1, 1, -1]),
            })
        run["faults"] = faults
        runs.append(run)
    if len(runs) > 1 and rng.random() < 0.4:
        runs[0]["faults"].append({
            "do": "raise", "kind": "cost", "nth": rng.randrange(12), "exc": "Injected",
        })
    return {"case": case, "opt": opt, "history": runs[:-1], "final": runs[-1]}


def reason_kind(text):
    for kind, pattern in REASONS:
        if pattern.search(str(text)):
            return kind
    return None


class Monitor:
    """Decides for each check of the stopping rule which limits are met."""

    def __init__(self, scen, world, outcome):
        self.scen = scen
        self.world = world
        self.result = outcome.result
        self.outcome = outcome
        options = {k: opts.decode(v) for k, v in scen.opt_spec["options"].items()}
        self.max_time = options.get("max_time", 1000)
        kind = scen.kind
        dim = scen.case.manifold.dim
        if kind == "NM":
            self.max_iterations = options.get("max_iterations", max(2000, 4 * dim))
            self.max_cost = options.get("max_cost_evaluations", max(1000, 2 * dim))
        elif kind == "PSO":
            self.max_iterations = options.get("max_iterations", max(500, 4 * dim))
            self.max_cost = options.get("max_cost_evaluations", max(5000, 2 * dim))
        else:
            self.max_iterations = options.get("max_iterations", 1000)
            self.max_cost = options.get("max_cost_evaluations", 5000)
        self.min_gradient = options.get("min_gradient_norm", 1e-6)
        self.min_step = options.get("min_step_size", 1e-10)
        self.costs = [e.seq for e in world.events if e.kind == "cost"]
        self.search_events = [e.seq for e in world.events if e.kind == "search"]
        reads = world.reads[outcome.first_read:]
        self.end = reads[-1][1]
        self.tick = world.tick
        # the run time in the result tells when the run started counting
        self.start = self.end - float(self.result.time)

    def status(self, k, time, seq, point):
        """{limit: True / False / None when too close to call}."""
        s = {}
        elapsed = time - self.start
        slack = 20 * self.tick + 1e-9 * max(1.0, abs(time))
        if abs(elapsed - self.max_time) <= slack:
            s["time"] = None
        else:
            s["time"] = elapsed > self.max_time
        s["iterations"] = k >= self.max_iterations
        s["cost"] = sum(1 for c in self.costs if c < seq) >= self.max_cost
        kind = self.scen.kind
        s["gradient"] = False
        if kind in ("SD", "CG", "TR"):
            norm = self.scen.case.gradient_norm(point)
            if abs(norm - self.min_gradient) <= 1e-6 * self.min_gradient + 1e-12:
                s["gradient"] = None
            else:
                s["gradient"] = bool(norm < self.min_gradient)
        s["step"] = False
        if kind in ("SD", "CG"):
            done = sum(1 for c in self.search_events if c < seq)
            if done:
                step = self.world.searches[done - 1][0]
                s["step"] = bool(step < self.min_step)
        return s


def execute(spec):
    report = Report()
    scen = scenario.Scenario(spec["case"], spec["opt"])
    for run in spec["history"]:
        scen.run(run, report=report, cap=3000)
    outcome, world = scen.run(spec["final"], report=report, cap=3000)
    kind = scen.kind
    if isinstance(outcome.error, StepCap):
        report.violation(
            f"{kind}:endless", "the run goes on although limits have been reached: "
            f"{len(world.events)} callback calls",
        )
        return report
    if outcome.error is not None:
        if scenario.excusable(outcome):
            report.probes["run ended in " + type(outcome.error).__name__] += 1
            return report
        report.violation(
            f"exception:{type(outcome.error).__name__}", outcome.trace,
        )
        return report
    judge(report, scen, world, outcome)
    return report


def judge(report, scen, world, outcome):
    kind = scen.kind
    result = outcome.result
    monitor = Monitor(scen, world, outcome)
    log = (result.log or {}).get("iterations")
    named = reason_kind(result.stopping_criterion)
    report.probes[f"stopped by {named}"] += 1
    if named is None:
        report.violation(
            f"{kind}:no-reason", f"unknown reason {result.stopping_criterion!r}",
        )
        return
    where = {}
    reads = world.reads[outcome.first_read:]
    for i, (seq, value) in enumerate(reads):
        where.setdefault(value, (seq, i))
    entries = []
    if log:
        for time, point, number in zip(log["time"], log["point"], log["iteration"]):
            if time in where:
                entries.append((time, where[time][0], point, number))
    if log is None or len(entries) != len(log["time"]) or not entries:
        # no usable log: judge the end of the run only
        status = monitor.status(
            result.iterations, reads[-1][1], world.seq, result.point
        )
        if status[named] is False:
            report.violation(
                f"{kind}:false-reason",
                f"{result.stopping_criterion!r}, but limits met: {status}",
            )
        return
    report.nontrivial = len(entries) >= 2
    for k, (time, seq, point, number) in enumerate(entries, start=1):
        status = monitor.status(k, time, seq, point)
        last = k == len(entries)
        if not last:
            met = [name for name, value in status.items() if value]
            if met:
                report.violation(
                    f"{kind}:late:{met[0]}",
                    f"the run continues after iteration {k} of {len(entries)} "
                    f"although a limit is reached: {met}; it stops with "
                    f"{result.stopping_criterion!r}",
                )
                return
        elif status[named] is False:
            report.violation(
                f"{kind}:false-reason:{named}",
                f"stopped at iteration {k} with {result.stopping_criterion!r}, "
                f"but limits met: {status}",
            )
    if result.iterations != len(entries):
        report.violation(
            f"{kind}:iterations",
            f"result says {result.iterations} iterations, the log has {len(entries)}",
        )
    # nothing is evaluated after the last check
    late = sum(1 for e in world.events if e.seq >= entries[-1][1])
    if late:
        report.violation(
            f"{kind}:work-after-end", f"{late} callback calls after the last iteration",
        )
