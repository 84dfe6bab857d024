"""C14: the iteration log is a faithful history of exactly one run."""
import numpy as np

import opts
import scenario
import zoo
from checks.c04 import generate as generate_c04
from engine import Report
from scenario import close
from world import StepCap, copy_value, digest

ID = "C14"
COUNT = {"quick": 4000, "thorough": 120000}
RULE = (
    "each execution makes one to four runs with one optimizer (some aborted "
    "in a callback, some with cost regions that fail, refilled caller "
    "buffers) under a clock schedule, and compares every log with an "
    "independent record of that run, at the end of the run and again after "
    "all runs; it is nontrivial if some log had at least two entries and its "
    "history is new"
)
REAL = [
    "pymanopt optimizers, line searchers, Problem, autodiff (autograd, numpy), manifolds",
    "numpy, scipy, autograd",
]
STUB = ["clock (time.*)", "stdout", "user callbacks (scripted problems)"]
ASSUMPTIONS = [
    "the simulated clock never shows the same reading twice, which places log times in the history",
]
SHRINK_LISTS = ("faults", "runs")


def generate(rng, tier, index):
    spec = generate_c04(rng, tier, index)
    spec["opt"]["options"]["log_verbosity"] = rng.choice([0, 1, 1, 1, 1, 2])
    runs = spec["history"] + [spec["final"]]
    extra = rng.choice([0, 1])
    for _ in range(extra):
        run = dict(rng.choice(runs))
        run["np_seed"] = rng.randrange(1 << 30)
        runs.append(run)
    for run in runs[:-1]:
        if rng.random() < 0.35 and not run.get("faults"):
            run["faults"] = [{
                "do": "raise", "kind": rng.choice(["cost", "cost", "gradient", "search"]),
                "nth": min(int(rng.expovariate(0.15)), 50), "exc": "Injected",
            }]
        if rng.random() < 0.3:
            run["refill"] = True
    return {"case": spec["case"], "opt": spec["opt"], "runs": runs}


def log_form(log):
    """A digest of everything a log says."""
    iterations = log.get("iterations")
    return digest(
        {k: repr(v) for k, v in log["stopping_criteria"].items()},
        None if iterations is None else {k: list(v) for k, v in iterations.items()},
    )


def execute(spec):
    report = Report()
    scen = scenario.Scenario(spec["case"], spec["opt"])
    kind = scen.kind
    kept = []
    for number, run in enumerate(spec["runs"]):
        start = scen.start(run)
        supplied = start if isinstance(start, list) and kind in ("NM", "PSO") else [start]
        outcome, world = scen.run(
            run, report=report, start=start, keep=True, cap=4000
        )
        if isinstance(outcome.error, StepCap):
            report.probes["cap"] += 1
            continue
        if outcome.error is not None:
            if not scenario.excusable(outcome):
                report.violation(f"exception:{type(outcome.error).__name__}", outcome.trace)
            report.probes["run ended in " + type(outcome.error).__name__] += 1
            if run.get("refill"):
                _refill(start)
            continue
        judge(report, scen, outcome, world)
        log = outcome.result.log
        if log is not None:
            for old_number, old, _ in kept:
                if old is log or (
                    log.get("iterations") is not None
                    and old.get("iterations") is log.get("iterations")
                ):
                    report.violation(f"{kind}:shared", f"runs {old_number} and {number} share a log")
            if run.get("refill") and start is not None:
                # the points the caller supplied itself may be in the log
                _refill_checked(report, kind, log, supplied, start)
            kept.append((number, log, log_form(log)))
    for number, log, form in kept:
        if log_form(log) != form:
            report.violation(
                f"{kind}:changed", f"the log of run {number} changed during later runs",
            )
    return report


def _arrays(obj):
    if isinstance(obj, (list, tuple)):
        for item in obj:
            yield from _arrays(item)
    elif isinstance(obj, np.ndarray):
        yield obj


def _refill(start):
    for array in _arrays(start):
        array[...] = 0.123


def _refill_checked(report, kind, log, supplied, start):
    iterations = log.get("iterations")
    if iterations is None:
        _refill(start)
        return
    own = {id(a) for a in _arrays(supplied)}
    before = [
        [digest(a) for a in _arrays(p)] for p in iterations["point"]
    ]
    _refill(start)
    for k, point in enumerate(iterations["point"]):
        for a, d in zip(_arrays(point), before[k]):
            if digest(a) != d and id(a) not in own:
                report.violation(
                    f"{kind}:aliased",
                    f"logged point {k + 1} follows the buffer of the caller",
                )


def judge(report, scen, outcome, world):
    kind = scen.kind
    result = outcome.result
    case = scen.case
    log = result.log

    def wrong(what, text):
        report.violation(f"{kind}:{what}", text)

    options = {k: opts.decode(v) for k, v in scen.opt_spec["options"].items()}
    if not isinstance(log, dict):
        wrong("missing", "no log")
        return
    if log.get("optimizer") != type(scen.optimizer).__name__:
        wrong("optimizer", f"log of {log.get('optimizer')!r}")
    criteria = log["stopping_criteria"]
    for name in (
        "max_time", "max_iterations", "min_gradient_norm", "min_step_size",
        "max_cost_evaluations",
    ):
        if name in options and criteria.get(name) != options[name]:
            wrong("criteria", f"log says {name}={criteria.get(name)!r}, in force is {options[name]!r}")
    parameters = log.get("optimizer_parameters") or {}
    if kind == "CG":
        for name in ("beta_rule", "orth_value"):
            if name in options and parameters.get(name) != options[name]:
                wrong("parameters", f"log says {name}={parameters.get(name)!r}")
    iterations = log.get("iterations")
    if options.get("log_verbosity", 0) == 0:
        if iterations is not None and any(len(v) for v in iterations.values()):
            wrong("entries", "iteration entries with log_verbosity 0")
        return
    if iterations is None:
        wrong("missing", "no iteration entries with log_verbosity 1")
        return
    n = result.iterations
    names = ["time", "iteration", "point", "cost"]
    if kind in ("SD", "CG", "TR"):
        names.append("gradient_norm")
    for name in names:
        if len(iterations.get(name, ())) != n:
            wrong(
                "length",
                f"{len(iterations.get(name, ()))} entries of {name} in {n} iterations",
            )
            return
    for name in iterations:
        if len(iterations[name]) != n:
            wrong("length", f"{len(iterations[name])} entries of {name} in {n} iterations")
            return
    if list(iterations["iteration"]) != list(range(1, n + 1)):
        wrong("iteration", f"iteration numbers {list(iterations['iteration'])[:20]}")
    report.nontrivial |= n >= 2

    costs = [e for e in world.events if e.kind == "cost"]
    searches = [e for e in world.events if e.kind == "search"]
    reads = world.reads[outcome.first_read:]
    where = {}
    for seq, value in reads:
        where.setdefault(value, seq)
    trials = costs[1:]

    for k in range(n):
        point = iterations["point"][k]
        cost = iterations["cost"][k]
        true = case.true_cost(point)
        seq = where.get(iterations["time"][k])
        if seq is None:
            wrong("time", f"entry {k + 1} has time {iterations['time'][k]!r}, never shown by the clock")
            return
        if kind in ("SD", "CG", "TR") or not np.isnan(cost):
            if not close(cost, true, rel=1e-9, abs_=1e-13):
                wrong("cost", f"entry {k + 1} has cost {cost!r}, its point {true!r}")
        if kind in ("SD", "CG", "TR"):
            norm = case.gradient_norm(point)
            if not close(iterations["gradient_norm"][k], norm, rel=1e-7, abs_=1e-10):
                wrong(
                    "gradient_norm",
                    f"entry {k + 1} has {iterations['gradient_norm'][k]!r}, its point {norm!r}",
                )
        if kind in ("SD", "CG"):
            low = searches[k - 1].seq if k else -1
            high = searches[k].seq if k < len(searches) else world.seq
            if not low < seq <= high:
                wrong("time", f"the time of entry {k + 1} is not from that iteration")
            true_point = searches[k].args[0] if k < len(searches) else result.point
            if digest(point) != digest(true_point):
                wrong("point", f"entry {k + 1} does not hold the iterate of that iteration")
        elif kind == "TR" and k < len(trials):
            low = trials[k].seq
            high = trials[k + 1].seq if k + 1 < len(trials) else world.seq
            if not low < seq <= high:
                wrong("time", f"the time of entry {k + 1} is not from that iteration")
            trial = case_args(trials[k])
            previous = (
                case_args(costs[0]) if k == 0
                else digest(case.family.flat_point(iterations["point"][k - 1]))
            )
            form = digest(case.family.flat_point(point))
            if form not in (trial, previous):
                wrong("point", f"entry {k + 1} holds neither the trial point nor the iterate before")
            for e in world.events:
                if e.kind == "hessian" and low < e.seq < high:
                    held = list(e.args[:len(case.family.flat_point(point))])
                    if digest(held) != form:
                        wrong("point", f"the run goes on elsewhere than at entry {k + 1}")
                    break
        elif kind in ("NM", "PSO"):
            seen = [_cost(e) for e in costs if e.seq < seq]
            seen = [c for c in seen if not np.isnan(c)]
            if seen and not close(cost, min(seen), rel=1e-12):
                wrong("cost", f"entry {k + 1} has cost {cost!r}, best so far {min(seen)!r}")
            low = where.get(iterations["time"][k - 1], -1) if k else -1
            if not low <= seq:
                wrong("time", f"the time of entry {k + 1} is before entry {k}")
            made = len([e for e in costs if low <= e.seq < seq])
            if not made:
                wrong("time", f"no evaluation between entries {k} and {k + 1}")
    if n and digest(iterations["point"][-1]) != digest(result.point):
        wrong("point", "the last entry does not hold the returned point")
    if n and not close(iterations["cost"][-1], result.cost):
        wrong("cost", "the last entry does not hold the returned cost")


def _cost(event):
    return float(event.value)


def case_args(event):
    return digest(list(event.args))
