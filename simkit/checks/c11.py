"""C11: every point evaluated is on the manifold, every direction tangent."""
import numpy as np

import opts
import scenario
import zoo
from engine import Report
from world import StepCap

ID = "C11"
COUNT = {"quick": 5000, "thorough": 60000}
RULE = (
    "each execution makes one to four runs, each started where the one before "
    "ended, with up to 150 steps each of a line searcher that takes huge, tiny "
    "and ascending steps (or of the library's searchers on costs that fail in "
    "regions), and computes the constraint residuals of all points and the "
    "tangency residuals of all vectors handed to user code; it is nontrivial "
    "if at least ten points were judged and its history is new"
)
REAL = [
    "pymanopt manifolds, optimizers, line searchers, Problem, autodiff (autograd, numpy)",
    "numpy, scipy, autograd",
]
STUB = ["clock (time.*)", "stdout", "user callbacks (scripted problems)"]
ASSUMPTIONS = [
    "constraint residuals up to 1e-9 and relative tangency residuals up to "
    "5e-8 are rounding errors (measured maxima over 25000 executions on the "
    "unchanged tree: 5e-12 and 3e-9); the determinant of special Hermitian "
    "matrices is judged relative to the condition number",
    "a run does not start from a point at which the one before converged: "
    "its gradient would be nothing but rounding errors",
    "steps on manifolds without bound are limited to length 2",
]
SHRINK_LISTS = ("faults", "runs", "script")
POINT_TOLERANCE = 1e-9
TANGENT_TOLERANCE = 5e-8
UNBOUNDED = {
    "positive", "spd", "hpd", "shpd", "poincare", "psd", "psd_complex",
    "fixed_rank", "product", "elliptope",
}


def generate(rng, tier, index):
    case = zoo.generate_case(rng)
    kinds = zoo.supports(case["problem"])
    weights = [k for k in kinds for _ in range({"SD": 3, "CG": 3, "TR": 3}.get(k, 1))]
    opt = opts.generate_optimizer(rng, weights, record=True)
    o = opt["options"]
    length = rng.choice([20, 60, 150])
    o["max_iterations"] = length
    o["min_gradient_norm"] = rng.choice([1e-5, 1e-4])
    if opt["kind"] in ("SD", "CG"):
        o["min_step_size"] = 0.0
        if rng.random() < 0.6:
            sizes = [1e-9, 1e-4, 0.01, 0.1, 0.5, 1.0, 2.0, -0.1, -1e-3, "same", "keep"]
            if case["problem"]["name"] not in UNBOUNDED:
                sizes += [10.0, 1e3, 1e6, -1.0]
            opt["search"] = {
                "type": "scripted", "record": True,
                "script": [rng.choice(sizes) for _ in range(rng.randint(1, 8))],
            }
        else:
            opt["search"] = {"type": rng.choice(["adaptive", "backtracking"]), "record": True}
            if rng.random() < 0.3:
                opt["search"]["kw"] = {"initial_step_size": rng.choice([0.01, 2.0])}
    elif opt["kind"] == "TR":
        o["max_iterations"] = rng.choice([10, 40])
    else:
        o["max_iterations"] = rng.randint(2, 10)
    runs = []
    for _ in range(rng.choice([1, 2, 4])):
        run = {"np_seed": rng.randrange(1 << 30), "start": rng.randrange(1 << 20)}
        if rng.random() < 0.3:
            run["region"] = scenario.generate_region(rng)
        runs.append(run)
    if rng.random() < 0.3:
        runs[0]["start"] = None
    return {"case": case, "opt": opt, "runs": runs}


def split(case, args):
    """(point, rest) of flattened callback arguments."""
    n = len(case.family.flat_point(case.start(1)))
    return list(args[:n]), list(args[n:])


def execute(spec):
    report = Report()
    scen = scenario.Scenario(spec["case"], spec["opt"])
    case = scen.case
    fam = case.family
    kind = scen.kind
    n_values = len(fam.flat_point(case.start(1)))
    worst = [0.0, 0.0]
    judged = [0]

    def structured(args):
        """The point as the family's residuals expect it."""
        return _structure(fam, list(args[:n_values]))

    def hook(world, event, args, value):
        if report.violations:
            return
        where = event.kind
        if where in ("cost", "gradient"):
            point, vectors = structured(args), []
        elif where == "hessian":
            if case.deriv in ("riemannian", "mixed"):
                point, vectors = args[0], [args[1]]
            else:
                point, vectors = structured(args), []
                if not all(np.all(np.isfinite(a)) for a in args[n_values:]):
                    report.violation(
                        f"{kind}:not-finite:hessian", f"direction {args[n_values:]!r}"
                    )
                    return
        elif where == "preconditioner":
            point, vectors = args
            vectors = [vectors]
        elif where == "search":
            point, vectors = args[0], [args[1]]
        else:
            return
        judged[0] += 1
        r = fam.feasible(point)
        worst[0] = max(worst[0], r)
        name = fam.name
        if not r <= POINT_TOLERANCE:
            report.violation(
                f"{kind}:{where}:infeasible",
                f"{name}: event {event.seq} ({where}): constraint residual {r:g} at {point!r}",
            )
            return
        for vector in vectors:
            r = fam.tangent(point, vector)
            worst[1] = max(worst[1], r)
            if not r <= TANGENT_TOLERANCE:
                report.violation(
                    f"{kind}:{where}:not-tangent",
                    f"{name}: event {event.seq} ({where}): tangency residual {r:g} "
                    f"of {vector!r} at {point!r}",
                )
                return

    start = "default"
    for run in spec["runs"]:
        world = scenario.World(tick=1e-6, cap=12000)
        world.hooks.append(hook)
        if isinstance(start, str):
            start = scen.start(run)
        outcome, world = scen.run(run, report=report, start=start, world=world)
        if outcome.error is not None:
            if not isinstance(outcome.error, StepCap) and not scenario.excusable(outcome):
                report.violation(f"exception:{type(outcome.error).__name__}", outcome.trace)
            if isinstance(outcome.error, np.linalg.LinAlgError):
                report.probes["LinAlgError"] += 1
            break
        r = fam.feasible(outcome.result.point)
        worst[0] = max(worst[0], r)
        if not r <= POINT_TOLERANCE:
            report.violation(
                f"{kind}:result:infeasible",
                f"{fam.name}: constraint residual {r:g} of the returned point",
            )
        if kind in ("NM", "PSO"):
            start = "default"
            if kind == "PSO" and run["start"] is not None:
                start = scen.start(run)
                start[0] = outcome.result.point
        else:
            start = outcome.result.point
            norm = outcome.result.gradient_norm
            if norm is None or not norm >= spec["opt"]["options"]["min_gradient_norm"]:
                start = "default"
    report.nontrivial = judged[0] >= 10
    report.probes["points judged"] += judged[0]
    if DEBUG is not None:
        DEBUG.append((fam.name, kind, worst))
    return report


DEBUG = None


def _structure(fam, values):
    """Groups flattened arguments into a point of the family."""
    if isinstance(fam, zoo.Product):
        point, i = [], 0
        for part in fam.parts:
            point.append(_structure(part, values[i:i + part.values]))
            i += part.values
        return point
    if fam.values == 1:
        return values[0]
    return values
