"""C04: the returned record describes the returned point and the run."""
import re

import numpy as np

import opts
import scenario
import zoo
from engine import Report
from scenario import close
from world import StepCap, digest

ID = "C04"
COUNT = {"quick": 4000, "thorough": 120000}
RULE = (
    "each execution runs one optimizer (after up to two earlier, possibly "
    "aborted runs of it) with NaN/infinite cost regions, stalls, clock jumps "
    "and arbitrary plug-in line searchers, and recomputes every number of the "
    "result; it is nontrivial if the run made at least three callback calls "
    "and its history is new"
)
REAL = [
    "pymanopt optimizers, line searchers, Problem, autodiff (autograd, numpy), manifolds",
    "numpy, scipy, autograd",
]
STUB = ["clock (time.*)", "stdout", "user callbacks (scripted problems)"]
ASSUMPTIONS = [
    "gradient norms are recomputed with fresh manifold objects of the tree under test",
    "costs agree to relative 1e-9, gradient norms to relative 1e-7",
]
SHRINK_LISTS = ("faults", "history")


def generate(rng, tier, index):
    case = zoo.generate_case(rng)
    kinds = zoo.supports(case["problem"])
    opt = opts.generate_optimizer(rng, kinds, record=True)
    o = opt["options"]
    if opt["kind"] in ("SD", "CG") and "search" not in opt:
        opt["search"] = {"type": rng.choice(["adaptive", "backtracking"]), "record": True}
    # let each limit end some of the runs
    which = rng.choice(["iterations", "iterations", "time", "gradient", "step", "cost"])
    if which != "iterations":
        o["max_iterations"] = 8 if opt["kind"] in ("NM", "PSO") else 40
    if which == "time":
        o["max_time"] = rng.choice([0, 0.107, 1.037, 5.03])
    elif which == "gradient":
        o["min_gradient_norm"] = rng.choice([0.5, 0.1, 1e-2, 1e-4])
    elif which == "step":
        o["min_step_size"] = rng.choice([0.3, 0.1, 1e-2])
    elif which == "cost":
        o["max_cost_evaluations"] = rng.choice([0, 1, 3, 6, 12, 25])
    noisy = rng.random() < (0.5 if opt["kind"] == "TR" else 0.15)
    if noisy and opt["kind"] == "TR":
        # accepts steps on which a cost with errors rises
        o["rho_regularization"] = rng.choice([1e3, 1e7, 1e9, 1e11, 1e13])
    runs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        run = {
            "start": rng.choice([None, rng.randrange(1 << 20), rng.randrange(1 << 20)]),
            "np_seed": rng.randrange(1 << 30),
            "clock": scenario.generate_clock(rng),
        }
        if run["start"] is not None and rng.random() < 0.5:
            run["region"] = scenario.generate_region(rng)
        if noisy and run["start"] is not None:
            run["region"] = scenario.generate_noise(rng)
        if opt["kind"] in ("SD", "CG") and rng.random() < 0.2:
            run["reuse"] = True
        if opt["kind"] in ("SD", "CG", "TR") and rng.random() < 0.15:
            run["broken"] = scenario.generate_region(rng, values=["nan"])
        runs.append(run)
    if len(runs) > 1 and rng.random() < 0.5:
        runs[0]["faults"] = [{
            "do": "raise", "kind": rng.choice(["cost", "gradient"]),
            "nth": rng.randrange(12), "exc": "Injected",
        }]
    return {"case": case, "opt": opt, "history": runs[:-1], "final": runs[-1]}


def execute(spec):
    report = Report()
    scen = scenario.Scenario(spec["case"], spec["opt"])
    for run in spec["history"]:
        outcome, world = scen.run(run, report=report, cap=4000)
        judge(report, scen, outcome, world)
    outcome, world = scen.run(spec["final"], report=report, cap=4000)
    judge(report, scen, outcome, world)
    report.nontrivial = len(world.events) >= 3
    return report


def judge(report, scen, outcome, world):
    if isinstance(outcome.error, StepCap):
        report.probes["cap"] += 1
        return
    if outcome.error is not None:
        if not scenario.excusable(outcome):
            report.violation(f"exception:{type(outcome.error).__name__}", outcome.trace)
        return
    kind = scen.kind
    result = outcome.result
    case = scen.case

    def wrong(what, text):
        report.violation(f"{kind}:{what}", text)

    true = case.true_cost(result.point)
    if not close(result.cost, true, rel=1e-9, abs_=1e-13):
        wrong("cost", f"result.cost is {result.cost!r}, the cost at result.point {true!r}")
    if kind in ("SD", "CG", "TR"):
        norm = case.gradient_norm(result.point)
        if result.gradient_norm is None or not close(
            result.gradient_norm, norm, rel=1e-7, abs_=1e-10
        ):
            wrong(
                "gradient_norm",
                f"result.gradient_norm is {result.gradient_norm!r}, at result.point it is {norm!r}",
            )
    elif result.gradient_norm is not None:
        wrong("gradient_norm", "gradient norm without gradients")

    costs = [e for e in world.events if e.kind == "cost"]
    searches = [e for e in world.events if e.kind == "search"]
    if result.cost_evaluations is None or result.cost_evaluations != len(costs):
        wrong(
            "cost_evaluations",
            f"result says {result.cost_evaluations}, made {len(costs)} cost evaluations",
        )
    iterations = None
    if kind in ("SD", "CG"):
        iterations = len(searches) + 1
    elif kind == "TR":
        iterations = len(costs) - 1
    log = (result.log or {}).get("iterations")
    if iterations is None and log:
        iterations = len(log["cost"])
    if iterations is not None and result.iterations != iterations:
        wrong("iterations", f"result says {result.iterations}, the run made {iterations}")

    if kind in ("SD", "CG"):
        step = world.searches[-1][0] if world.searches else float("nan")
        if result.step_size is None or not close(result.step_size, step, rel=1e-12):
            wrong("step_size", f"result.step_size is {result.step_size!r}, the last step was {step!r}")
        point = world.searches[-1][1] if world.searches else None
        if point is not None and digest(point) != digest(result.point):
            wrong("point", "the result is not the point of the last line search")

    # run time: from a clock reading before the first iteration to one at the end
    reads = world.reads[outcome.first_read:]
    if kind in ("SD", "CG"):
        begin = searches[0].seq if searches else world.seq
    elif kind == "TR":
        begin = 0 if not costs else costs[0].seq
    else:
        points = case.manifold.dim + 1
        if kind == "PSO":
            points = None
        begin = world.seq
        if points is not None and len(costs) > points:
            begin = costs[int(points)].seq
    ends = [v for s, v in reads if s >= world.seq] or [reads[-1][1]]
    starts = [v for s, v in reads if s <= begin]
    if kind == "TR" and not starts:
        starts = [reads[0][1]]
    tolerance = 1e-7 + 1e-9 * max(abs(world.now), 1.0) + 3 * world.tick
    if not any(
        abs((e - s) - float(result.time)) <= tolerance for e in ends for s in starts
    ):
        wrong(
            "time",
            f"result.time is {result.time!r}; the run began at one of {starts[:4]} "
            f"and ended at {ends[-3:]}",
        )
    text = str(result.stopping_criterion)
    m = re.search(r"after (\d+)\s+iterations", text)
    if m and int(m.group(1)) != result.iterations:
        wrong("message", f"{text!r} after {result.iterations} iterations")
    m = re.search(r"(-?[\d.]+) seconds", text)
    if m and abs(float(m.group(1)) - float(result.time)) > 0.0051 + 1e-4 + tolerance:
        wrong("message", f"{text!r} after {result.time} seconds")
