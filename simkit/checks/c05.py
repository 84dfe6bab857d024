"""C05: results are never worse than the start, even around failing costs."""
import numpy as np

import opts
import scenario
import zoo
from engine import Report
from scenario import close
from world import StepCap, digest

ID = "C05"
COUNT = {"quick": 4500, "thorough": 120000}
RULE = (
    "each execution runs one optimizer from supplied or random starting points "
    "on a cost that is NaN, infinite or huge in parts of the space (half "
    "spaces, shells, scattered points; the start may lie inside for "
    "population methods), after up to one earlier run; it is nontrivial if at "
    "least one faulty cost value was met and the history is new"
)
REAL = [
    "pymanopt optimizers, line searchers, Problem, autodiff (autograd, numpy), manifolds",
    "numpy, scipy, autograd",
]
STUB = ["clock (time.*)", "stdout", "user callbacks (scripted problems)"]
ASSUMPTIONS = [
    "cost failures are a function of the point",
    "TrustRegions may increase the cost by its documented regularisation, "
    "max(1, |f|) * eps * rho_regularization per iteration",
]
SHRINK_LISTS = ("faults", "history")


def generate(rng, tier, index):
    case = zoo.generate_case(rng)
    kinds = zoo.supports(case["problem"])
    opt = opts.generate_optimizer(rng, kinds, scripted=False)
    if opt["kind"] in ("SD", "CG"):
        opt["options"]["max_iterations"] = rng.randint(1, 20)
    if rng.random() < 0.2:
        opt["options"]["max_cost_evaluations"] = rng.choice([1, 3, 6, 12, 25])
    runs = []
    for _ in range(rng.choice([1, 1, 2])):
        run = {
            "start": rng.choice([None] + [rng.randrange(1 << 20)] * 5),
            "np_seed": rng.randrange(1 << 30),
            "clock": {"tick": 1e-6},
        }
        if run["start"] is not None and rng.random() < 0.9:
            run["region"] = scenario.generate_region(rng)
            # which starting points of a population may lie in the region
            run["spare"] = rng.choice(["all", "first", "last", "random"])
            run["spare_seed"] = rng.randrange(1 << 30)
        elif rng.random() < 0.5:
            run["region"] = {
                "type": "hash", "seed": rng.randrange(1 << 30),
                "value": rng.choice(["nan", "inf", 1e30]),
                "level": rng.choice([0.1, 0.3, 0.6]),
            }
        run["form"] = rng.choice(["list", "list", "tuple"])
        runs.append(run)
    spec = {"case": case, "opt": opt, "history": runs[:-1], "final": runs[-1]}
    if opt["kind"] == "NM" and rng.random() < 0.1:
        spec["wrong_size"] = rng.choice([-1, 1, 2])
    return spec


def execute(spec):
    report = Report()
    scen = scenario.Scenario(spec["case"], spec["opt"])
    if spec.get("wrong_size"):
        reject(report, scen, spec)
    for run in spec["history"]:
        one(report, scen, run)
    one(report, scen, spec["final"])
    return report


def reject(report, scen, spec):
    """A simplex of the wrong size is not silently used."""
    n = int(scen.case.manifold.dim) + 1 + spec["wrong_size"]
    if n < 1:
        return
    start = [scen.case.start(i) for i in range(n)]
    outcome, world = scen.run(dict(spec["final"], region=None), report=report, start=start)
    if not isinstance(outcome.error, ValueError):
        report.violation(
            "NM:wrong-size", f"{n} points accepted as a simplex in dimension {n - 1 - spec['wrong_size']}",
        )


def one(report, scen, run):
    kind = scen.kind
    case = scen.case
    start = scen.start(run)
    points = None
    if start is not None:
        points = list(start) if kind in ("NM", "PSO") else [start]
        if kind in ("NM", "PSO") and run.get("form") == "tuple":
            start = tuple(start)
    region = None
    if run.get("region") and points is None:
        region = scenario.make_region(run["region"], [])
    elif run.get("region"):
        args = [case.family.flat_point(p) for p in points]
        spare = run.get("spare", "all")
        if spare == "first":
            keep = args[:1]
        elif spare == "last":
            keep = args[-1:]
        elif spare == "random":
            keep = [args[run["spare_seed"] % len(args)]]
        else:
            keep = args
        region = scenario.make_region(run["region"], keep)
    outcome, world = scen.run(run, report=report, start=start, cap=6000, region=region)
    if isinstance(outcome.error, StepCap):
        report.probes["cap"] += 1
        return
    if outcome.error is not None:
        if not scenario.excusable(outcome):
            report.violation(f"exception:{type(outcome.error).__name__}", outcome.trace)
        return
    result = outcome.result

    def wrong(what, text):
        report.violation(f"{kind}:{what}", text)

    costs = [e for e in world.events if e.kind == "cost"]
    values = [float(e.value) for e in costs]
    if not costs:
        wrong("no-evaluation", "the cost was never evaluated")
        return
    faulty = sum(1 for v in values if not np.isfinite(v) or v == 1e30)
    report.nontrivial |= faulty > 0
    if points is not None:
        first = [digest(*case.family.flat_point(p)) for p in points]
        made = [e.arg_digest for e in costs[:len(first)]]
        if sorted(first) != sorted(made):
            wrong("start", "the run does not begin by evaluating the supplied points")
            return
        best = [v for v in values[:len(first)] if np.isfinite(v)]
    else:
        n = 1
        if kind == "NM":
            n = int(case.manifold.dim) + 1
        elif kind == "PSO":
            n = scen.opt_spec["options"].get("population_size") or int(
                min(40, 10 * case.manifold.dim)
            )
        best = [v for v in values[:n] if np.isfinite(v)]
    if not best:
        report.probes["no finite start"] += 1
        return
    best = min(best)
    report.probes["judged"] += 1
    cost = float(result.cost)
    if not np.isfinite(cost):
        wrong("not-finite", f"returned cost {cost} although the start had {best}")
        return
    slack = 1e-12 * max(1.0, abs(best))
    if kind == "TR":
        rho = 1e3
        slack += result.iterations * 2 * rho * 2.3e-16 * max(1.0, abs(best), abs(cost))
    if cost > best + slack:
        wrong("worse", f"returned cost {cost!r}, best starting cost {best!r}")
    true = float(case.true_cost(result.point))
    if not np.isfinite(true) or true > best + slack + 1e-9 * max(1.0, abs(true)):
        wrong("worse-point", f"the returned point has cost {true!r}, best starting cost {best!r}")
    if kind in ("NM", "PSO"):
        reached = min(v for v in values if not np.isnan(v))
        if not close(cost, reached, rel=1e-12):
            wrong("not-best", f"returned cost {cost!r}, but evaluated {reached!r}")
        form = digest(*case.family.flat_point(result.point))
        if not any(e.arg_digest == form and close(e.value, cost, rel=1e-12) for e in costs):
            wrong("not-evaluated", "the returned point was never evaluated with the returned cost")
