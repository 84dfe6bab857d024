"""C13: progress resumes once faults stop."""
import copy
import math

import numpy as np

import faults as faultlib
import opts
import scenario
import zoo
from engine import Report
from world import StepCap, copy_value

ID = "C13"
COUNT = {"quick": 5000, "thorough": 60000}
RULE = (
    "each execution lets SteepestDescent, ConjugateGradient or TrustRegions "
    "meet faults (NaN, infinite and huge costs for a while, failing regions "
    "and noise, aborted runs, line searchers that do nothing useful, stalls "
    "and clock jumps, runs on badly scaled other problems whose line searcher "
    "is kept), in the same run or in earlier runs with the same objects, then "
    "stops all faults for good and demands that the known optimum is reached "
    "within a bound on iterations; every eighth execution does so with "
    "NelderMead or ParticleSwarm, where one of four runs after the faults must "
    "close the gap to the optimum but for a hundredth or a fiftieth; it is nontrivial if a fault took effect "
    "before and its history is new"
)
REAL = [
    "pymanopt optimizers, line searchers, Problem, manifolds, autodiff (numpy)",
    "numpy, scipy",
]
STUB = ["clock (time.*)", "stdout", "user callbacks (scripted problems)"]
ASSUMPTIONS = [
    "min_step_size is 0: with a positive one, ending a run after a rejected "
    "step is the documented behaviour",
    "the optimum counts as reached at an iterate whose cost is within 1e-5 of "
    "the optimal one, relative to where the faultless phase started, or whose "
    "gradient norm fell by 1e7 (a saddle point)",
    "the bounds on iterations are at least three times the largest numbers "
    "needed in 15000 executions on the unchanged tree; beyond them a run that "
    "still reduces the gap by a fifth in its second half is slow, not stuck",
    "FletcherReeves only with restarts (it is known to jam without them)",
]
SHRINK_LISTS = ("faults", "runs", "script")
# iterations allowed after the last fault, and more for each thing that failed
BOUND = {"SD": 5000, "CG": 1000, "TR": 60}
ACCURACY = 1e-5
# the derivative-free optimizers: what is left of the gap, and iterations
ROUGH = {"NM": 0.01, "PSO": 0.02}
ATTEMPTS = 4
SIMPLEX = 400
SWARM = 80
POPULATION = 15
DIMENSION = {"NM": 4, "PSO": 6}
UNBOUNDED = {
    "positive", "spd", "hpd", "shpd", "poincare", "psd", "psd_complex",
    "fixed_rank", "elliptope",
}
BAD_COSTS = ["nan", "inf", 1e30, 1e3]


class Reached(BaseException):
    """Ends a run at the optimum."""


class Enough(BaseException):
    """Ends a run after the iterations it may make."""


class LateSearch:
    """A user-made searcher that is useless until the world says otherwise."""

    def __init__(self, holder, script, inner):
        self.holder = holder
        self.script = script
        self.inner = inner

    def __deepcopy__(self, memo):
        return LateSearch(self.holder, self.script, copy.deepcopy(self.inner, memo))

    def search(self, objective, manifold, x, d, f0, df0):
        world = self.holder.world
        n = world.counters["late"]
        world.counters["late"] += 1
        if n >= len(self.script):
            return self.inner.search(objective, manifold, x, d, f0, df0)
        world.note("useless line search")
        t = self.script[n]
        if t == "keep":
            return 0, x
        if t == "same":
            return 0.25, x
        if t == "eval":
            objective(x)
            return 0, x
        norm = float(manifold.norm(x, d))
        if t == "late":
            # a real search whose result is thrown away
            self.inner.search(objective, manifold, x, d, f0, df0)
            return 0, x
        newx = manifold.retraction(x, float(t / max(norm, 1e-6)) * d)
        return abs(t), newx if objective(newx) <= f0 else x


def generate(rng, tier, index):
    if index % 8 == 7:
        return generate_population(rng)
    while True:
        case = zoo.generate_case(rng, derivs=("euclidean", "riemannian", "mixed"))
        fam = zoo.make(case["problem"], np.random.RandomState(0))
        if fam.known:
            break
    kinds = [k for k in zoo.supports(case["problem"]) if k in ("SD", "CG", "TR")]
    kind = rng.choice(kinds)
    opt = {"kind": kind, "options": {"log_verbosity": rng.choice([0, 1])}}
    o = opt["options"]
    if kind in ("SD", "CG"):
        o["min_step_size"] = 0.0
        if rng.random() < 0.7:
            search = {"type": rng.choice(["adaptive", "backtracking"]), "kw": {}}
            kw = search["kw"]
            if rng.random() < 0.3:
                kw["initial_step_size"] = rng.choice([0.1, 0.5, 2.0, 4.0])
            if rng.random() < 0.3:
                kw["sufficient_decrease"] = rng.choice([1e-4, 0.1, 0.3])
            if rng.random() < 0.3:
                kw["contraction_factor"] = rng.choice([0.25, 0.5])
            if search["type"] == "backtracking" and rng.random() < 0.3:
                kw["optimism"] = rng.choice([1, 2, 1.1])
            opt["search"] = search
    if kind == "CG":
        o["beta_rule"] = rng.choice(opts.BETA_RULES)
        if rng.random() < 0.3:
            o["orth_value"] = rng.choice([0.1, 0.5, 2.0, "inf"])
        if o["beta_rule"] == "FletcherReeves":
            # jams without restarts, whatever happened before (Powell, 1977)
            o["orth_value"] = rng.choice([0.1, 0.5])
    if kind == "TR":
        if rng.random() < 0.3:
            o["rho_prime"] = rng.choice([0.0, 0.05, 0.1, 0.2])
        if rng.random() < 0.3:
            o["theta"] = rng.choice([0.5, 1.0])
        if rng.random() < 0.2:
            o["use_rand"] = True
    runs = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        r = {
            "np_seed": rng.randrange(1 << 30), "start": rng.randrange(1 << 20),
            "length": rng.choice([1, 3, 10, 40]), "faults": [],
            "reuse": kind != "TR" and rng.random() < 0.5,
            "follow": rng.random() < 0.6,
        }
        if rng.random() < 0.3:
            r["clock"] = scenario.generate_clock(rng)
            r["max_time"] = rng.choice(["inf", 1.0, 1000.0])
        what = rng.random()
        if what < 0.3:
            r["region"] = scenario.generate_region(rng)
        elif what < 0.4:
            r["region"] = scenario.generate_noise(rng)
        elif what < 0.6:
            # the first steps after a far larger problem are huge, which
            # only bounded manifolds can take
            up = [] if unbounded(fam) else [4, 8, 12]
            r["scale"] = 10.0 ** rng.choice([-12, -8, -4] + up)
        for _ in range(rng.choice([0, 1, 1, 3])):
            r["faults"].append(fault(rng, kind))
        runs.append(r)
    final = {
        "np_seed": rng.randrange(1 << 30), "start": rng.randrange(1 << 20),
        "faults": [], "reuse": kind != "TR" and rng.random() < 0.5,
        "consistent": rng.random() < 0.5,
    }
    if rng.random() < 0.3:
        final["clock"] = scenario.generate_clock(rng)
    if not runs or rng.random() < 0.6:
        # a burst of failing evaluations while the run goes on
        for _ in range(rng.choice([1, 1, 2])):
            final["faults"].append({
                "do": "burst", "value": rng.choice(BAD_COSTS),
                "nth": min(1 + int(rng.expovariate(0.05)), 150),
                "count": rng.choice([1, 2, 6, 12, 30, 60]),
            })
        if rng.random() < 0.3:
            final["region"] = scenario.generate_region(rng)
            final["region_until"] = rng.choice([2, 10, 40, 100])
    if kind != "TR" and rng.random() < 0.3:
        opt["late"] = [
            rng.choice(["keep", "same", "eval", "late", 1e-3, 1e-9, 1e-300, 0.1])
            for _ in range(rng.choice([1, 2, 5, 15]))
        ]
    return {"case": case, "opt": opt, "runs": runs, "final": final}


def fault(rng, kind):
    what = rng.random()
    nth = min(int(rng.expovariate(0.1)), 60)
    if what < 0.45:
        return {
            "do": "raise", "kind": rng.choice(["cost", "gradient"]), "nth": nth,
            "exc": rng.choice(["Injected", "KeyboardInterrupt", "FloatingPointError", "LinAlgError"]),
        }
    if what < 0.6:
        return {
            "do": "stall", "kind": rng.choice(["cost", "gradient"]), "nth": nth,
            "seconds": rng.choice([1e6, -1e6, 0.7]),
        }
    kinds = ["cost", "cost", "gradient"] + (["hessian"] if kind == "TR" else [])
    return {
        "do": "value", "kind": rng.choice(kinds), "nth": nth,
        "value": rng.choice(["nan", "inf", 1e30, 1e-30]),
    }


def scale_family(fam, s):
    for name in ("cost", "egrad", "ehess"):
        original = getattr(fam, name)

        def wrapped(*args, original=original):
            value = original(*args)
            if isinstance(value, (list, tuple)):
                return [s * v for v in value]
            return s * value

        setattr(fam, name, wrapped)


def build(spec):
    free = dict(
        spec["opt"]["options"], max_iterations=1 << 30, max_time="inf",
        max_cost_evaluations="inf", min_gradient_norm=0.0,
    )
    scen = scenario.Scenario(spec["case"], dict(spec["opt"], options=free))
    late = spec["opt"].get("late")
    if late:
        from pymanopt.optimizers.line_search import AdaptiveLineSearcher

        inner = AdaptiveLineSearcher()
        if "search" in spec["opt"]:
            inner = opts.build_search(spec["opt"]["search"], scen.holder)
        options = {k: opts.decode(v) for k, v in free.items()}
        options.update(verbosity=0, line_searcher=LateSearch(scen.holder, late, inner))
        scen.optimizer = opts.CLASSES[scen.kind](**options)
    return scen


def execute(spec):
    if spec["opt"]["kind"] in ("NM", "PSO"):
        return execute_population(spec)
    report = Report()
    scen = build(spec)
    case, fam, kind = scen.case, scen.case.family, scen.kind
    optimizer = scen.optimizer
    limits = (
        "_max_iterations", "_max_time", "_max_cost_evaluations", "_min_gradient_norm",
    )
    optimum = float(fam.optimum())
    report.probes[fam.name] += 1
    n_values = len(fam.flat_point(case.start(1)))
    last = [None]
    allowance = [math.inf]
    steps = "cost" if kind == "TR" else "gradient"

    def remember(world, event, args, value):
        if world.counters[steps] > allowance[0] + 1:
            raise Enough
        if event.kind == "gradient":
            values = copy_value(list(args[:n_values])) if case.deriv not in (
                "riemannian",) else None
            point = copy_value(args[0]) if values is None else _structure(fam, values)
            if fam.feasible(point) < 1e-6:
                last[0] = point

    def set_limits(iterations, max_time=math.inf, gradient=0.0):
        allowance[0] = iterations
        for name, value in zip(limits, (iterations, max_time, math.inf, gradient)):
            # without that attribute the hooks end the run
            if hasattr(optimizer, name):
                setattr(optimizer, name, value)

    # ---- the past, with faults
    aged = 0
    for r in spec["runs"]:
        set_limits(r["length"], opts.decode(r.get("max_time", "inf")), 1e-9)
        world = scenario.World(tick=1e-6, cap=6000)
        if "clock" in r:
            c = r["clock"]
            world = scenario.World(
                tick=c.get("tick", 0.0), durations=c.get("durations"),
                jumps=c.get("jumps"), cap=6000,
            )
        world.hooks.append(remember)
        start = last[0] if r["follow"] and last[0] is not None else scen.start(r)
        plan = {k: v for k, v in r.items() if k not in ("length", "follow", "scale", "max_time")}
        if r.get("scale"):
            other = dict(spec["case"], seed=r["start"])
            old = scen.case
            scen.case = zoo.Case(other, world, manifold=case.manifold)
            scale_family(scen.case.family, r["scale"])
            world.note(f"problem scaled by {r['scale']:g}")
            world.hooks.clear()
            start = scen.case.start(r["start"])
            outcome, world = scen.run(plan, report=report, start=start, world=world)
            scen.case = old
        else:
            outcome, world = scen.run(plan, report=report, start=start, world=world)
        aged += sum(world.fired.values()) + (
            case.region.hits[0] if case.region is not None else 0
        )
        case.region = None
        if outcome.error is not None and world.injected is None and not (
            isinstance(outcome.error, (StepCap, Enough, np.linalg.LinAlgError))
            # scipy refuses corrupted gradients
            or "infs or NaNs" in str(outcome.error)
        ):
            report.violation(f"exception:{type(outcome.error).__name__}", outcome.trace)
            return report
    # ---- from the last iterate, faults (if any) stop for good after a while
    final = spec["final"]
    start = last[0]
    if start is None or not math.isfinite(float(case.true_cost(start))):
        start = scen.start(final)
    first = float(case.true_cost(start))
    scale = first - optimum
    gradient = float(case.gradient_norm(start))
    target = optimum + max(ACCURACY * scale, 1e-9 * max(1.0, abs(first)))
    quota = 0
    for f in final["faults"]:
        quota = max(quota, f["nth"] + f["count"])
    region_until = final.get("region_until", 0) if final.get("region") else 0
    quota = max(quota, region_until)
    useless = len(spec["opt"].get("late", ()))
    bound = BOUND[kind]
    allowed = bound + 3 * quota + useless
    set_limits(allowed)
    c = final.get("clock") or {"tick": 1e-6}
    world = scenario.World(
        tick=c.get("tick", 0.0), durations=c.get("durations"), jumps=c.get("jumps"),
        cap=60 * allowed + 5000,
    )
    faults = {}
    for f in final["faults"]:
        value = faultlib.number(f["value"])
        for n in range(f["nth"], f["nth"] + f["count"]):
            faults[n] = value
    known = {}
    consistent = final.get("consistent") or unbounded(fam)

    def truthful(event):
        """Whether this point has to keep its value."""
        if not consistent:
            return False
        n = world.counters["cost"] - 1
        return known.setdefault(event.arg_digest, n) != n or n == 0

    for n, value in faults.items():
        def act(world, event, old, value=value):
            if truthful(event):
                return old
            world.note(f"{faultlib.fault_label(value)} returned by cost")
            return float(value)

        world.add_fault("cost.value", n, act)
    region = None
    if final.get("region"):
        plain = scenario.make_region(final["region"], scen.starts_as_args(start))

        def region(cost, args):
            if world.counters["cost"] > region_until:
                return cost
            return plain(cost, args)

        region.hits = plain.hits
        region.plan = final["region"]
    marks = {"iterates": 0, "seen": 0, "best": math.inf, "history": []}

    def arrive(world, event, args, value):
        if event.kind == "cost":
            known.setdefault(event.arg_digest, -1)
        if event.kind != "gradient":
            return
        marks["iterates"] += 1
        if case.deriv == "riemannian":
            point = args[0]
        else:
            point = _structure(fam, list(args[:n_values]))
        true = float(fam.cost(*fam.flat_point(point)))
        marks["point"] = copy_value(point)
        if world.counters[steps] > allowance[0] + 1:
            raise Enough
        marks["best"] = min(marks["best"], true)
        if marks["iterates"] % 64 == 1:
            marks["history"].append(marks["best"])
        if true <= target:
            raise Reached

    world.hooks.append(arrive)
    plan = {
        k: v for k, v in final.items()
        if k not in ("faults", "region", "region_until", "consistent")
    }
    kwargs = {"region": region} if region is not None else {}
    outcome, world = scen.run(plan, report=report, start=start, world=world, **kwargs)
    aged += sum(world.fired.values()) + (region.hits[0] if region is not None else 0)
    report.nontrivial = aged > 0
    used = marks["iterates"] if kind != "TR" else world.counters["cost"]
    if isinstance(outcome.error, Reached):
        report.probes["reached"] += 1
        if DEBUG is not None:
            DEBUG.append((fam.name, kind, used, quota, useless, bound))
        return report
    if outcome.error is not None and not isinstance(outcome.error, Enough):
        if isinstance(outcome.error, np.linalg.LinAlgError):
            report.probes["LinAlgError"] += 1
            return report
        if isinstance(outcome.error, StepCap):
            report.violation(
                f"{kind}:{search_name(spec)}:stuck", f"more than {world.cap} events: best cost "
                f"{marks['best']!r}, optimum {optimum!r}, started at {first!r}",
            )
            return report
        report.violation(f"exception:{type(outcome.error).__name__}", outcome.trace)
        return report
    norm = float(case.gradient_norm(marks["point"]))
    ended = outcome.result.stopping_criterion if outcome.result else "no end"
    if norm <= 1e-7 * gradient or norm <= 1e-9:
        report.probes["critical point"] += 1
        return report
    gaps = [f - optimum for f in marks["history"]]
    if gaps and gaps[-1] <= 0.8 * gaps[len(gaps) // 2]:
        report.probes["slow"] += 1
        return report
    report.violation(
        f"{kind}:{search_name(spec)}:stuck",
        f"{fam.name}: after {used} iterations ({allowed} allowed, the last fault at "
        f"evaluation {quota}): {ended!r}, cost {marks['best']!r}, "
        f"optimum {optimum!r}, started at {first!r}; gradient norm {norm:g}, was {gradient:g}",
    )
    return report


def unbounded(fam):
    """Steps accepted by mistake can leave what is representable."""
    if isinstance(fam, zoo.Product):
        return any(unbounded(part) for part in fam.parts)
    return fam.name in UNBOUNDED


def search_name(spec):
    return spec["opt"].get("search", {}).get("type", "default")


DEBUG = None


def _structure(fam, values):
    """Groups flattened arguments into a point of the family."""
    if isinstance(fam, zoo.Product):
        point, i = [], 0
        for part in fam.parts:
            point.append(_structure(part, values[i:i + part.values]))
            i += part.values
        return point
    if fam.values == 1:
        return values[0]
    return values


# ------------------------------------------------- derivative-free optimizers


def generate_population(rng):
    while True:
        case = zoo.generate_case(rng, small=True, precond=False)
        fam = zoo.make(case["problem"], np.random.RandomState(0))
        kinds = [k for k in zoo.supports(case["problem"]) if k in ("NM", "PSO")]
        # centroids by matrix logarithms are too slow for that many
        if fam.name in ("so", "unitary") and "NM" in kinds:
            kinds.remove("NM")
        dim = fam.manifold().dim
        kinds = [k for k in kinds if dim <= DIMENSION[k]]
        if fam.known and kinds:
            break
    kind = rng.choice(kinds)
    opt = {"kind": kind, "options": {"log_verbosity": rng.choice([0, 1])}}
    if kind == "PSO":
        opt["options"]["population_size"] = POPULATION
    runs = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        r = {
            "np_seed": rng.randrange(1 << 30), "start": rng.randrange(1 << 20),
            "length": rng.choice([1, 3, 10]), "faults": [],
        }
        if rng.random() < 0.3:
            r["clock"] = scenario.generate_clock(rng)
        if rng.random() < 0.4:
            r["region"] = scenario.generate_region(rng)
        for _ in range(rng.choice([0, 1, 2])):
            f = fault(rng, kind)
            f["kind"] = "cost"
            r["faults"].append(f)
        runs.append(r)
    final = {
        "np_seed": rng.randrange(1 << 30), "start": rng.randrange(1 << 20), "faults": [],
    }
    if rng.random() < 0.3:
        final["clock"] = scenario.generate_clock(rng)
    if not runs or rng.random() < 0.6:
        for _ in range(rng.choice([1, 1, 2])):
            final["faults"].append({
                "do": "burst", "value": rng.choice(BAD_COSTS),
                "nth": int(rng.expovariate(0.05)) % 100,
                "count": rng.choice([1, 2, 6, 12, 30]),
            })
    return {"case": case, "opt": opt, "runs": runs, "final": final}


def execute_population(spec):
    report = Report()
    opt = dict(spec["opt"])
    kind = opt["kind"]
    final = spec["final"]
    quota = max([f["nth"] + f["count"] for f in final["faults"]] or [0])
    iterations = SWARM if kind == "PSO" else SIMPLEX
    opt["options"] = dict(
        opt["options"], max_time="inf", max_cost_evaluations="inf",
        max_iterations=iterations + quota // (POPULATION if kind == "PSO" else 1),
    )
    scen = scenario.Scenario(spec["case"], opt)
    case, fam = scen.case, scen.case.family
    optimum = float(fam.optimum())
    report.probes[fam.name] += 1
    aged = 0
    for r in spec["runs"]:
        cap = r["length"] * POPULATION
        c = r.get("clock") or {"tick": 1e-6}
        world = scenario.World(
            tick=c.get("tick", 0.0), durations=c.get("durations"), jumps=c.get("jumps"),
            cap=20000,
        )

        def stop(world, event, args, value, cap=cap):
            if world.counters["cost"] > cap:
                raise Enough

        world.hooks.append(stop)
        plan = {k: v for k, v in r.items() if k != "length"}
        outcome, world = scen.run(plan, report=report, world=world)
        aged += sum(world.fired.values()) + (
            case.region.hits[0] if case.region is not None else 0
        )
        case.region = None
        if outcome.error is not None and world.injected is None and not isinstance(
            outcome.error, (StepCap, Enough, np.linalg.LinAlgError)
        ):
            report.violation(f"exception:{type(outcome.error).__name__}", outcome.trace)
            return report
    # swarms and simplices may collapse before they are there: try again
    tries = []
    for attempt in range(ATTEMPTS):
        again = dict(
            final, start=final["start"] + 1000 * attempt,
            np_seed=final["np_seed"] + attempt,
        )
        what, used, gap, aged_now = attempt_population(
            report, scen, again, quota, iterations, optimum
        )
        aged += aged_now
        if what is None:
            tries.append(gap)
            continue
        report.probes[what] += 1
        report.nontrivial = aged > 0
        if DEBUG is not None and what == "reached":
            DEBUG.append((fam.name, kind, used, quota, gap, attempt))
        return report
    report.nontrivial = aged > 0
    report.violation(
        f"{kind}:stuck",
        f"{fam.name} of dimension {case.manifold.dim}: {ATTEMPTS} runs without faults after cost "
        f"evaluation {quota} leave {tries} of the gap to the optimum, more than {ROUGH[kind]}",
    )
    return report


def attempt_population(report, scen, final, quota, iterations, optimum):
    """One run; returns (what happened or None, evaluations, gap, faults)."""
    case, kind = scen.case, scen.kind
    start = scen.start(final)
    costs = [float(case.true_cost(p)) for p in start]
    scale = max(costs) - optimum
    target = optimum + max(ROUGH[kind] * scale, 1e-9 * max(1.0, abs(optimum)))
    c = final.get("clock") or {"tick": 1e-6}
    world = scenario.World(
        tick=c.get("tick", 0.0), durations=c.get("durations"), jumps=c.get("jumps"),
        cap=40 * iterations * POPULATION + 50000,
    )
    lies = {}
    for f in final["faults"]:
        for n in range(f["nth"], f["nth"] + f["count"]):
            lies[n] = faultlib.number(f["value"])
    # a swarm whose members all failed at the start has nothing to go by
    first = len(start)
    if kind == "PSO" and all(n in lies for n in range(first)):
        lies.pop(0)
    for n, value in lies.items():
        def act(world, event, old, value=value):
            world.note(f"{faultlib.fault_label(value)} returned by cost")
            return float(value)

        world.add_fault("cost.value", n, act)
    best = [math.inf]

    def arrive(world, event, args, value):
        if event.kind == "cost" and world.counters["cost"] - 1 not in lies:
            best[0] = min(best[0], float(value))
            if best[0] <= target and world.counters["cost"] > quota:
                raise Reached

    world.hooks.append(arrive)
    plan = {k: v for k, v in final.items() if k != "faults"}
    outcome, world = scen.run(plan, report=report, start=start, world=world)
    aged = sum(world.fired.values())
    gap = (best[0] - optimum) / scale
    used = world.counters["cost"]
    if isinstance(outcome.error, Reached):
        return "reached", used, gap, aged
    if isinstance(outcome.error, np.linalg.LinAlgError):
        return "LinAlgError", used, gap, aged
    if outcome.error is not None and not isinstance(outcome.error, StepCap):
        report.violation(f"exception:{type(outcome.error).__name__}", outcome.trace)
        return "exception", used, gap, aged
    return None, used, gap, aged
