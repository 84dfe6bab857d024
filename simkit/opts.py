"""Optimizers and line searchers from JSON specs; running them in a world."""
import copy
import traceback

import numpy as np

from pymanopt.optimizers import (
    ConjugateGradient, NelderMead, ParticleSwarm, SteepestDescent, TrustRegions,
)
from pymanopt.optimizers.line_search import (
    AdaptiveLineSearcher, BackTrackingLineSearcher,
)

from world import copy_value, digest

CLASSES = {
    "SD": SteepestDescent,
    "CG": ConjugateGradient,
    "TR": TrustRegions,
    "NM": NelderMead,
    "PSO": ParticleSwarm,
}
BETA_RULES = [
    "FletcherReeves", "HagerZhang", "HestenesStiefel", "PolakRibiere", "LiuStorey",
]
INF = float("inf")


def decode(value):
    """JSON has no infinities: "inf" strings stand for them."""
    if value == "inf":
        return INF
    return value


class Holder:
    """Gives callbacks access to the current world."""

    def __init__(self, world):
        self.world = world


class ScriptedSearch:
    """A user-made line searcher that follows a script of step sizes.

    A number t retracts t * d / |d|; "keep" refuses to move; "same" returns
    the very same point object with a positive step.
    """

    def __init__(self, script):
        self.script = list(script)
        self.calls = 0

    def search(self, objective, manifold, x, d, f0, df0):
        t = self.script[self.calls % len(self.script)]
        self.calls += 1
        norm = manifold.norm(x, d)
        if t == "keep" or norm == 0 or not np.isfinite(norm):
            return 0, x
        if t == "same":
            return 0.25, x
        if t == "eval":
            objective(x)
            return 0, x
        # rounding errors must not be blown up to full steps
        newx = manifold.retraction(x, float(t / max(norm, 1e-6 * max(1.0, abs(t)))) * d)
        return abs(float(t)), newx


class RecordingSearch:
    """Passes each search through the simulated world as a user plug-in."""

    def __init__(self, holder, inner):
        self.holder = holder
        self.inner = inner
        self.returned = []

    def __deepcopy__(self, memo):
        # like any plug-in: its own state is copied, the world is not
        new = RecordingSearch(self.holder, copy.deepcopy(self.inner, memo))
        new.returned = list(self.returned)
        return new

    def search(self, objective, manifold, x, d, f0, df0):
        def run(x, d, f0, df0):
            result = self.inner.search(objective, manifold, x, d, f0, df0)
            self.returned.append((result[0], digest(result[1])))
            searches = getattr(self.holder.world, "searches", None)
            if searches is not None:
                searches.append((result[0], copy_value(result[1])))
            return result

        return self.holder.world.call("search", run, (x, d, f0, df0))


def build_search(spec, holder):
    if spec is None:
        return None
    kind = spec["type"]
    kw = {k: decode(v) for k, v in spec.get("kw", {}).items()}
    if kind == "backtracking":
        inner = BackTrackingLineSearcher(**kw)
    elif kind == "adaptive":
        inner = AdaptiveLineSearcher(**kw)
    else:
        inner = ScriptedSearch(spec["script"])
    if spec.get("record"):
        return RecordingSearch(holder, inner)
    return inner


def build(spec, holder):
    options = {k: decode(v) for k, v in spec.get("options", {}).items()}
    options.setdefault("verbosity", 0)
    search = build_search(spec.get("search"), holder)
    if search is not None:
        options["line_searcher"] = search
    return CLASSES[spec["kind"]](**options)


def generate_search(rng, *, record=None, scripted=True):
    kind = rng.choice(["backtracking", "adaptive"] + (["scripted"] if scripted else []))
    spec = {"type": kind, "record": rng.random() < 0.6 if record is None else record}
    if kind == "scripted":
        spec["script"] = [
            rng.choice([0.5, 0.1, 1.0, 0.01, 2.0, 1e-3, "keep", "same", "eval", -0.1])
            for _ in range(rng.randint(1, 5))
        ]
        return spec
    kw = {}
    if rng.random() < 0.5:
        kw["contraction_factor"] = rng.choice([0.25, 0.5, 0.7])
    if rng.random() < 0.5:
        kw["max_iterations"] = rng.choice([1, 2, 5, 10, 25])
    if rng.random() < 0.5:
        kw["initial_step_size"] = rng.choice([0.1, 1, 4, 0.5])
    if rng.random() < 0.5:
        kw["sufficient_decrease"] = rng.choice([1e-4, 0.1, 0.3, 0.5])
    if kind == "backtracking" and rng.random() < 0.5:
        kw["optimism"] = rng.choice([1, 2, 1.1])
    if kw:
        spec["kw"] = kw
    return spec


def generate_optimizer(
    rng, kinds, *, max_iterations=12, search=True, scripted=True, record=None,
    log=None, verbosity=None,
):
    kind = rng.choice(kinds)
    options = {"max_iterations": rng.randint(1, max_iterations)}
    if kind in ("NM", "PSO"):
        options["max_iterations"] = rng.randint(1, min(6, max_iterations))
    if log is None:
        options["log_verbosity"] = rng.choice([0, 1])
    elif log:
        options["log_verbosity"] = log
    if verbosity:
        options["verbosity"] = rng.choice(verbosity)
    spec = {"kind": kind, "options": options}
    if kind in ("SD", "CG", "TR") and rng.random() < 0.25:
        options["min_gradient_norm"] = rng.choice([1e-3, 0.1, 0.0])
    if kind in ("SD", "CG"):
        if rng.random() < 0.25:
            options["min_step_size"] = rng.choice([0.0, 1e-3, 1e-10])
        if search and rng.random() < 0.7:
            spec["search"] = generate_search(rng, scripted=scripted, record=record)
    if kind == "CG":
        options["beta_rule"] = rng.choice(BETA_RULES)
        if rng.random() < 0.4:
            options["orth_value"] = rng.choice([0.1, 0.5, 2.0, "inf"])
    if kind == "TR":
        if rng.random() < 0.3:
            options["kappa"] = rng.choice([0.01, 0.1, 0.5])
        if rng.random() < 0.3:
            options["theta"] = rng.choice([0.5, 1.0, 2.0])
        if rng.random() < 0.3:
            options["rho_prime"] = rng.choice([0.0, 0.05, 0.1, 0.2])
        if rng.random() < 0.2:
            options["use_rand"] = True
        run = {}
        if rng.random() < 0.3:
            run["Delta_bar"] = rng.choice([0.1, 1.0, 5.0])
        if rng.random() < 0.3:
            run["Delta0"] = rng.choice([0.01, 0.05, 0.1])
        if rng.random() < 0.2:
            run["maxinner"] = rng.randint(1, 4)
        if rng.random() < 0.2:
            run["mininner"] = rng.randint(0, 3)
        if run:
            spec["run"] = run
    if kind == "NM" and rng.random() < 0.3:
        options["expansion"] = rng.choice([1.5, 2, 3])
    if kind == "PSO":
        options["population_size"] = rng.randint(2, 6)
        if rng.random() < 0.3:
            options["nostalgia"] = rng.choice([0.5, 1.4, 2.0])
    return spec


def supply_start(spec, case, run_spec):
    """The initial_point argument of a run, or None.

    run_spec: {"start": seed or None}; populations get one seed per point.
    """
    seed = run_spec.get("start")
    if seed is None:
        return None
    kind = spec["kind"]
    if kind == "NM":
        return [case.start(seed + i) for i in range(int(case.manifold.dim) + 1)]
    if kind == "PSO":
        size = run_spec.get("population") or spec["options"].get("population_size", 4)
        return [case.start(seed + i) for i in range(size)]
    return case.start(seed)


class Outcome:
    def __init__(self):
        self.result = None
        self.error = None
        self.trace = None
        self.first = 0
        self.last = 0
        self.text_first = 0
        self.start_reads = 0
        self.world = None
        self.broken = False  # whether gradients failed at some points

    def events(self, kind=None):
        events = self.world.events[self.first:self.last]
        if kind is None:
            return events
        return [e for e in events if e.kind == kind]

    def text(self):
        return "".join(self.world.stdout.text[self.text_first:self.text_last])

    def summary(self):
        """Comparable form of result or exception."""
        if self.error is not None:
            return ["error", type(self.error).__name__, str(self.error)]
        return result_form(self.result)


def result_form(result):
    log = result.log
    iterations = log["iterations"] if log else None
    return [
        "result", digest(result.point), digest(float(result.cost)),
        int(result.iterations), result.stopping_criterion,
        digest(float(result.time)), _maybe_int(result.cost_evaluations),
        None if result.step_size is None else digest(float(result.step_size)),
        None if result.gradient_norm is None else digest(float(result.gradient_norm)),
        None if not iterations else digest(
            {k: list(v) for k, v in iterations.items()}
        ),
        None if not log else {k: repr(v) for k, v in log["stopping_criteria"].items()},
    ]


def _maybe_int(value):
    return None if value is None else int(value)


def call_run(world, optimizer, problem, kwargs):
    """One run inside the world; never raises for exceptions of the run."""
    outcome = Outcome()
    outcome.world = world
    outcome.first = len(world.events)
    outcome.text_first = len(world.stdout.text)
    outcome.first_read = len(world.reads)
    outcome.begin = world.now
    try:
        with world:
            outcome.result = optimizer.run(problem, **kwargs)
    except BaseException as error:  # noqa: B902
        if type(error).__name__ == "Hang":
            raise
        outcome.error = error
        outcome.trace = traceback.format_exc()
    outcome.end = world.now
    outcome.last = len(world.events)
    outcome.text_last = len(world.stdout.text)
    return outcome
