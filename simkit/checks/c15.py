"""C15: trust-region steps stay inside a radius governed by the ratio test."""
import math

import numpy as np

import opts
import scenario
import zoo
from engine import Report
from world import StepCap, World, copy_value, digest, flat

ID = "C15"
COUNT = {"quick": 8000, "thorough": 160000}
RULE = (
    "each execution makes one or two runs of TrustRegions whose cost lies "
    "(regions and single calls with NaN, infinite, huge or wrong values) and "
    "whose Hessian is indefinite and jumps from point to point, replays the "
    "trial steps through a set-valued reference model of radius and "
    "acceptance, and is nontrivial if a step was rejected or the radius grew "
    "and its history is new"
)
REAL = [
    "pymanopt TrustRegions, Problem, manifolds, autodiff (autograd, numpy)",
    "numpy, scipy, autograd",
]
STUB = ["clock (time.*)", "stdout", "user callbacks (scripted problems)"]
ASSUMPTIONS = [
    "ratios within rounding error of a threshold may go either way",
    "after a corrupted derivative the predicted reduction is unknown; what "
    "is required then is rejection of NaN and infinite costs, shrinking "
    "after rejection, and the bound on the step",
    "user preconditioners scale by a constant; the radius is then measured in "
    "the norm they induce",
    "from a point of infinite cost any trial may be adopted or rejected",
]
SHRINK_LISTS = ("faults", "runs")
# what the recurrences for norms lose; radii change by factors of 2 and 4
SLACK = 0.1
DEBUG = None
EPS = float(np.finfo(float).eps)


def generate(rng, tier, index):
    while True:
        case = zoo.generate_case(rng)
        if "TR" in zoo.supports(case["problem"]):
            break
    opt = opts.generate_optimizer(rng, ["TR"], log=rng.choice([0, 1]))
    o = opt["options"]
    o["max_iterations"] = rng.choice([5, 15, 40])
    o["min_gradient_norm"] = 1e-5
    run = opt.setdefault("run", {})
    if rng.random() < 0.6:
        bar = rng.choice([0.05, 0.3, 1.0, 3.0])
        run["Delta_bar"] = bar
        if rng.random() < 0.7:
            run["Delta0"] = bar * rng.choice([1.0, 0.5, 0.125, 0.01])
        else:
            run.pop("Delta0", None)
    else:
        run.pop("Delta_bar", None)
        run.pop("Delta0", None)
    runs = []
    for _ in range(rng.choice([1, 1, 2])):
        r = {"np_seed": rng.randrange(1 << 30), "start": rng.randrange(1 << 20), "faults": []}
        if rng.random() < 0.4:
            r["region"] = scenario.generate_region(rng)
        for _ in range(rng.choice([0, 1, 2, 5])):
            kind = rng.choice(["cost", "cost", "cost", "hessian", "gradient"])
            do = "value"
            if kind == "cost":
                value = rng.choice(["nan", "inf", 1e10, -1e3, 7.0, "-inf", 0.0])
            elif kind == "hessian" or rng.random() < 0.4 or case["deriv"] != "riemannian":
                value = rng.choice(["nan", "inf"] if kind == "hessian" else ["nan"])
            else:
                # (a Hessian that changes within an iteration, which a gradient
                # that does would imply for the others, is not an operator)
                do, value = "scale", rng.choice([-1.0, 0.0, 7.0, -1e3, 1e6])
            r["faults"].append({
                "do": do, "kind": kind, "value": value,
                "nth": min(int(rng.expovariate(0.15)), 60),
            })
        runs.append(r)
    shift = None
    if rng.random() < 0.6:
        shift = {
            "seed": rng.randrange(1 << 30),
            "scale": rng.choice([0.5, 3.0, 30.0]),
            "share": rng.choice([0.3, 1.0]),
            "zero": rng.choice([0, 0, 0.2, 1.0]),
        }
    return {"case": case, "opt": opt, "runs": runs, "shift": shift}


def shift_of(shift, point):
    """Two numbers that jump from point to point: a + c times the identity."""
    word = int(digest(list(flat(point)), shift["seed"])[:12], 16)
    if ((word >> 32) & 0xFFFF) / 0x10000 < shift["zero"]:
        return 0.0, 0.0
    share = (word & 0xFFFF) / 0xFFFF
    if share > shift["share"]:
        return 1.0, 0.0
    return 1.0, shift["scale"] * (((word >> 16) & 0xFFFF) / 0x7FFF - 1)


def bend(family, shift, n):
    """Adds a multiple of the identity that depends on the point to the Hessian."""
    if shift is None:
        return
    ehess, rhess = family.ehess, family.rhess

    def add(value, vector, a, c):
        if isinstance(value, (list, tuple)):
            return [add(*pair, a, c) for pair in zip(value, vector)]
        return a * value + c * vector

    def new_ehess(*args):
        factors = shift_of(shift, list(args[:n]))
        value = ehess(*args)
        rest = list(args[n:]) if isinstance(value, (list, tuple)) else args[n]
        return add(value, rest, *factors)

    def new_rhess(man, x, v):
        return add(rhess(man, x, v), v, *shift_of(shift, [x]))

    family.ehess = new_ehess
    family.rhess = new_rhess


class Iteration:
    pass


def interval(num, slack, den, den_slack):
    """Bounds of (num + reg) / (den + reg) with errors; None if unknown."""
    low, high = den - den_slack, den + den_slack
    if low <= 0 <= high:
        return None
    values = [
        (num + a) / b for a in (-slack, slack) for b in (low, high)
    ]
    return min(values), max(values)


def execute(spec):
    report = Report()
    scen = scenario.Scenario(spec["case"], spec["opt"], intercept=["retraction"])
    case = scen.case
    fam = case.family
    n = len(fam.flat_point(case.start(1)))
    bend(fam, spec["shift"], n)
    twin = zoo.Case(spec["case"], World())
    twin.world.enabled = False
    bend(twin.family, spec["shift"], n)
    for run in spec["runs"]:
        one(spec, scen, twin, run, report)
        if report.violations:
            break
    return report


def one(spec, scen, twin, run, report):
    o = spec["opt"]["options"]
    options = spec["opt"].get("run", {})
    man = twin.manifold
    problem = twin.problem
    trials = []
    state = {"gradient": False}
    world = World(tick=1e-6, cap=12000)

    def hook(world, event, args, value):
        if event.kind == "manifold.retraction":
            t = Iteration()
            t.seq, t.x, t.eta = event.seq, args[0], args[1]
            t.new, t.cost = copy_value(value), None
            t.x_digest = digest(list(flat(args[0])))
            t.new_digest = digest(list(flat(value)))
            trials.append(t)
        elif event.kind == "cost":
            if trials and trials[-1].cost is None:
                trials[-1].cost = float(value)
            elif not trials:
                state.setdefault("f0", float(value))

    world.hooks.append(hook)
    outcome, world = scen.run(run, report=report, world=world)
    if outcome.error is not None:
        # scipy refuses to solve equations with NaN coefficients
        refused = world.notes and "infs or NaNs" in str(outcome.error)
        if not (
            isinstance(outcome.error, StepCap) or scenario.excusable(outcome) or refused
        ):
            report.violation(f"exception:{type(outcome.error).__name__}", outcome.trace)
        return
    trials = [t for t in trials if t.cost is not None]
    # a note carries the number of the next event
    notes = [(seq - 1, label) for seq, label in world.notes if "returned by" in label]
    bad_hess = [seq for seq, label in notes if label.endswith("hessian")]
    bad_grad = [seq for seq, label in notes if label.endswith("gradient")]
    grads = [e.seq for e in world.events if e.kind == "gradient"]

    bar = options.get("Delta_bar")
    if bar is None:
        try:
            bar = float(man.typical_dist)
        except NotImplementedError:
            bar = math.sqrt(man.dim)
    delta0 = options.get("Delta0", bar / 8)
    if delta0 > bar * (1 + 1e-12):
        return
    use_rand = o.get("use_rand", False)
    # radii are measured in the norm of the preconditioner
    unit = 1.0
    if spec["case"].get("precond") is not None and not use_rand:
        unit = math.sqrt(spec["case"]["precond"])
    rho_prime = o.get("rho_prime", 0.1)
    regularization = o.get("rho_regularization", 1e3)
    noisy = options.get("mininner", 1) > 1 or man.dim <= 1

    radii = {delta0}
    fx = state.get("f0")
    x_digest = None
    previous = -1
    tainted_point = False
    for i, t in enumerate(trials):
        label = f"iteration {i + 1} (event {t.seq})"
        if x_digest is not None and t.x_digest != x_digest:
            report.violation("origin", f"{label}: step from a point that was not adopted")
            return
        norm = float(man.norm(t.x, t.eta)) / unit
        top = max(radii)
        if not norm <= top * (1 + SLACK) + 1e-14:
            report.violation(
                "radius",
                f"{label}: step of norm {norm!r}, radius at most {top!r} "
                f"(Delta0 {delta0}, Delta_bar {bar})",
            )
            return
        if not norm <= bar * (1 + SLACK):
            report.violation("bar", f"{label}: step of norm {norm!r} > Delta_bar {bar}")
            return
        # -- the ratio
        if any(s >= previous and s < t.seq for s in bad_grad):
            tainted_point = True
        tainted = tainted_point or any(previous < s < t.seq for s in bad_hess)
        bounds = None
        f1 = t.cost
        if fx is None:
            return
        if not tainted:
            g = problem.riemannian_gradient(t.x)
            h = problem.riemannian_hessian(t.x, t.eta)
            a = float(man.inner_product(t.x, g, t.eta))
            b = float(man.inner_product(t.x, t.eta, h))
            size = float(man.norm(t.x, g)) * norm * unit
            hsize = float(man.norm(t.x, h)) * norm * unit
            if math.isfinite(fx) and math.isfinite(f1) and math.isfinite(a + b):
                reg = max(1.0, abs(fx)) * EPS * regularization
                num = fx - f1 + reg
                den = -a - 0.5 * b + reg
                bounds = interval(
                    num, 1e-13 * (abs(fx) + abs(f1)) + 0.5 * reg,
                    den, 1e-7 * (size + hsize) + 0.5 * reg,
                )
        # -- was it adopted?
        after = (
            trials[i + 1].x_digest if i + 1 < len(trials)
            else digest(list(flat(outcome.result.point)))
        )
        if after == t.new_digest and after == t.x_digest:
            adopted = None
        elif after == t.new_digest:
            adopted = True
        elif after == t.x_digest:
            adopted = False
        else:
            report.violation("origin", f"{label}: neither adopted nor kept")
            return
        where = f"{label}: cost {fx!r} -> {f1!r}, ratio in {bounds}, rho_prime {rho_prime}"
        if adopted and not (f1 == f1 and f1 < math.inf):
            report.violation("adopts-nan", where)
            return
        if adopted and not fx == fx:
            report.violation("adopts-nan", where)
            return
        if bounds is not None:
            low, high = bounds
            if den + 1e-7 * (size + hsize) + 0.5 * reg < 0:
                # the model increased: no ratio can justify the step
                if adopted:
                    report.violation("adopts-increase", f"{where}: predicted {den}")
                    return
                low = high = -math.inf
            elif adopted is False and low > rho_prime:
                report.violation("rejects", where)
                return
            elif adopted and high < rho_prime:
                report.violation("adopts", where)
                return
        else:
            low, high = -math.inf, math.inf
        # -- the next radius
        new = set()
        if DEBUG:
            DEBUG(i, t.seq, sorted(radii), norm, fx, f1, bounds, adopted)
        for d in radii:
            if norm > d * (1 + SLACK) + 1e-14:
                continue
            # (directions in the noise of a solved model lose the norm)
            boundary = use_rand or noisy or norm >= d * (1 - SLACK)
            poor = high < 0.25 or not (f1 == f1 and f1 < math.inf) or not fx == fx
            if adopted is False or poor:
                new.add(d / 4)
                continue
            if low < 0.25 + 1e-9:
                new.add(d / 4)
            if high > 0.75 and boundary:
                new.add(min(2 * d, bar))
                report.probes["may grow"] += 1
            if low <= 0.75 + 1e-9 or norm < d * (1 - 1e-3) or use_rand or tainted:
                new.add(d)
        radii = new or radii
        report.probes["trial steps"] += 1
        report.probes["adopted" if adopted else "rejected"] += 1
        if adopted is False or (high > 0.75 and norm >= top * (1 - 1e-3)):
            report.nontrivial = True
        if adopted is None and f1 != fx:
            return  # a step of length zero: there is no telling which cost counts
        if adopted:
            fx = f1
            # the gradient there is the next one evaluated
            later = [s for s in grads if s > t.seq]
            tainted_point = bool(later) and later[0] in bad_grad
        x_digest = after
        previous = t.seq
