"""C16: plug-in searchers and preconditioners get consistent data; CG's rule."""
import copy
import math

import numpy as np

import opts
import scenario
import zoo
from engine import Report
from world import StepCap, World, copy_value, digest, flat

ID = "C16"
COUNT = {"quick": 8000, "thorough": 100000}
RULE = (
    "each execution makes one or two runs of an optimizer with a plug-in line "
    "searcher that misbehaves by script (zero, huge, ascending steps, jumps to "
    "unrelated points, copies of points) and a preconditioner that depends on "
    "the point, and compares everything the plug-ins get with an independent "
    "recomputation and a reference model of the conjugate gradient recurrence; "
    "it is nontrivial if at least two searches were judged and its history is "
    "new"
)
REAL = [
    "pymanopt optimizers, line searchers, Problem, manifolds, autodiff (autograd, numpy)",
    "numpy, scipy, autograd",
]
STUB = ["clock (time.*)", "stdout", "user callbacks (scripted problems, searcher)"]
ASSUMPTIONS = [
    "preconditioners are symmetric and positive definite",
    "a beta that cancellation leaves without accurate digits is only required "
    "to combine the transported direction and the preconditioned gradient",
    "a direction that a jump of the searcher transports to zero leaves "
    "rounding errors that are not judged",
    "ratios within rounding error of orth_value may restart or not",
]
SHRINK_LISTS = ("faults", "runs", "script")


class ChaosSearch:
    """A user-made searcher that does as its script says."""

    def __init__(self, script, case):
        self.script = script
        self.case = case
        self.calls = 0

    def __deepcopy__(self, memo):
        new = ChaosSearch(self.script, self.case)
        new.calls = self.calls
        return new

    def search(self, objective, manifold, x, d, f0, df0):
        t = self.script[self.calls % len(self.script)]
        self.calls += 1
        norm = float(manifold.norm(x, d))
        if t == "keep" or norm == 0 or not math.isfinite(norm):
            return 0, x
        if t == "same":
            return 0.25, x
        if t == "copy":
            return 0.5, copy.deepcopy(x)
        if t == "eval":
            objective(manifold.retraction(x, 0.1 / max(norm, 1e-6) * d))
            return 0, x
        if isinstance(t, list):
            if t[0] == "jump":
                return 1.0, self.case.start(t[1])
            newx = manifold.retraction(x, t[1] / max(norm, 1e-6) * d)
            return t[2], newx
        newx = manifold.retraction(x, t / max(norm, 1e-6 * max(1.0, abs(t))) * d)
        return abs(t), newx


def generate(rng, tier, index):
    while True:
        case = zoo.generate_case(rng)
        kinds = [k for k in zoo.supports(case["problem"]) if k in ("SD", "CG", "TR")]
        if "CG" in kinds:
            kinds += ["CG"] * 6
        if kinds != ["SD"] or rng.random() < 0.2:
            break
    opt = opts.generate_optimizer(rng, kinds, record=True)
    o = opt["options"]
    o["max_iterations"] = rng.choice([4, 10, 30])
    o["min_gradient_norm"] = 1e-4
    if opt["kind"] in ("SD", "CG"):
        o["min_step_size"] = 0.0
        kind = rng.choice(["chaos", "chaos", "adaptive", "backtracking"])
        opt["search"] = {"type": kind, "record": True}
        if kind == "chaos":
            def step():
                what = rng.random()
                if what < 0.5:
                    return rng.choice([0.5, 0.1, 1.0, 0.01, 0.3, 0.03, 1e-3])
                if what < 0.7:
                    return rng.choice([2.0, -0.1, -1.0, -1e-3, 1e-6])
                if what < 0.85:
                    return rng.choice(["keep", "same", "copy", "eval"])
                if what < 0.95:
                    return ["jump", rng.randrange(1 << 20)]
                return ["lie", rng.choice([0.1, 0.5]), rng.choice([1e3, 1e-9, 7, 0])]

            opt["search"]["script"] = [step() for _ in range(rng.randint(1, 8))]
        elif rng.random() < 0.5:
            opt["search"]["kw"] = {"initial_step_size": rng.choice([0.01, 0.1, 2.0])}
    if opt["kind"] == "CG":
        o["orth_value"] = rng.choice(["inf", "inf", 0.1, 0.5, 1.0, 2.0, 0.0])
    case.pop("precond", None)
    if rng.random() < 0.6:
        case["precond"] = rng.choice([0.25, 1.0, 3.0])
        case["precond_rule"] = {
            "seed": rng.randrange(1 << 20),
            "spread": rng.choice([0.0, 0.0, 1.0]),
            "rank": rng.choice([0.0, 0.5, 4.0]) if opt["kind"] != "TR" else 0.0,
        }
    runs = []
    for _ in range(rng.choice([1, 1, 2])):
        r = {"np_seed": rng.randrange(1 << 30), "start": rng.randrange(1 << 20), "faults": []}
        if rng.random() < 0.3:
            r["region"] = scenario.generate_region(rng)
        if rng.random() < 0.3:
            for _ in range(rng.choice([1, 3])):
                r["faults"].append({
                    "do": "value", "kind": "cost",
                    "nth": min(int(rng.expovariate(0.1)), 60),
                    "value": rng.choice(["nan", "inf", 1e10, -1e3, 0.0]),
                })
        runs.append(r)
    return {"case": case, "opt": opt, "runs": runs}


def preconditioner(case, rule):
    """A positive definite operator that depends on the point.

    It scales by a number that jumps from point to point, and stretches along
    one tangent direction.
    """
    man = case.manifold
    scale = case.spec["precond"]

    def precondition(point, vector):
        factor = scale
        if rule["spread"]:
            word = int(digest(list(flat(point)), rule["seed"])[:8], 16)
            factor *= math.exp(rule["spread"] * (word / 0x7FFFFFFF - 1))
        if not rule["rank"]:
            return factor * vector
        # all of it has to be a function of the point, never of the generator
        state = np.random.get_state()
        try:
            np.random.seed(rule["seed"] ^ 0x5A5A5A)
            u = man.random_tangent_vector(point)
        finally:
            np.random.set_state(state)
        weight = rule["rank"] * float(man.inner_product(point, u, vector))
        return factor * (vector + weight * u)

    return precondition


def execute(spec):
    report = Report()
    scen = scenario.Scenario(spec["case"], {**spec["opt"], "search": None})
    if spec["opt"].get("search"):
        search = spec["opt"]["search"]
        if search["type"] == "chaos":
            inner = ChaosSearch(search["script"], zoo.Case(spec["case"], World()))
            inner.case.world.enabled = False
            searcher = opts.RecordingSearch(scen.holder, inner)
        else:
            searcher = opts.build_search(search, scen.holder)
        options = {k: opts.decode(v) for k, v in spec["opt"]["options"].items()}
        options.setdefault("verbosity", 0)
        scen.optimizer = opts.CLASSES[scen.kind](line_searcher=searcher, **options)
    twin = zoo.Case(spec["case"], World())
    twin.world.enabled = False
    rule = spec["case"].get("precond_rule")
    if rule:
        scen.case.precondition = preconditioner(scen.case, rule)
        twin.precondition = preconditioner(twin, rule)
    for run in spec["runs"]:
        judge = Judge(spec, scen, twin, report)
        world = World(tick=1e-6, cap=12000)
        world.hooks.append(judge.hook)
        outcome, world = scen.run(run, report=report, world=world)
        if report.violations:
            break
        if outcome.error is not None:
            # scipy refuses to solve equations at points that are not finite
            refused = "infs or NaNs" in str(outcome.error)
            if not (
                isinstance(outcome.error, StepCap) or scenario.excusable(outcome) or refused
            ):
                report.violation(f"exception:{type(outcome.error).__name__}", outcome.trace)
            break
        judge.finish(outcome.result)
        if report.violations:
            break
    return report


class Judge:
    """Watches one run."""

    def __init__(self, spec, scen, twin, report):
        self.spec = spec
        self.kind = scen.kind
        self.fam = scen.case.family
        self.twin = twin
        self.man = twin.manifold
        self.report = report
        self.n = len(self.fam.flat_point(scen.case.start(1)))
        self.costs = {}  # point -> values the cost callback gave there
        self.expected = None  # digest of the point to continue from
        self.judged = 0
        self.previous = None
        self.lost = False
        self.current = None  # where the latest gradient was evaluated

    def fail(self, key, text):
        self.report.violation(f"{self.kind}:{key}", f"{self.fam.name}: {text}")

    def hook(self, world, event, args, value):
        if self.report.violations:
            return
        if event.kind == "cost":
            self.costs.setdefault(digest(list(args)), []).append(float(value))
        elif event.kind == "gradient":
            self.current = digest(list(args))
        elif event.kind == "preconditioner":
            self.preconditioned(event, *args)
        elif event.kind == "search":
            self.searched(event, args, value)

    # -- preconditioners
    def preconditioned(self, event, point, vector):
        where = f"event {event.seq}"
        if self.current is not None and self.spec["case"]["deriv"] != "autograd":
            if digest(list(flat(point))) != self.current:
                self.fail("precond-point", f"{where}: preconditioner at a point "
                          "that is not the current one")
                return
        size = float(self.man.norm(point, vector))
        if not size < 1e10:
            self.report.probes["blown up"] += 1
            return
        r = self.fam.tangent(point, vector)
        if not r <= 1e-6:
            self.fail("precond-tangent", f"{where}: preconditioner got a vector "
                      f"with tangency residual {r:g}")
            return
        if self.kind == "CG":
            g = self.twin.problem.riemannian_gradient(point)
            error = float(self.man.norm(point, vector - g))
            if not error <= 1e-8 * (1e-3 + float(self.man.norm(point, g))):
                self.fail("precond-gradient", f"{where}: the vector to precondition "
                          f"is off the gradient by {error:g}")

    # -- line searches
    def searched(self, event, args, value):
        x, d, f0, df0 = args
        man = self.man
        self.judged += 1
        where = f"search {self.judged} (event {event.seq})"
        here = digest(list(flat(x)))
        if self.expected is not None and here != self.expected:
            self.fail("continuation", f"{where}: not at the point that the "
                      "previous search returned")
            return
        known = self.costs.get(here, [])
        if not any(v == f0 or (v != v and f0 != f0) for v in known):
            self.fail("cost", f"{where}: f0 = {f0!r}, the cost there was {known}")
            return
        g = self.twin.problem.riemannian_gradient(x)
        norm_g, norm_d = float(man.norm(x, g)), float(man.norm(x, d))
        slope = float(man.inner_product(x, g, d))
        scale = norm_g * norm_d
        if not scale < 1e10:
            # points about to leave the floating point numbers
            self.report.probes["blown up"] += 1
            self.expected = digest(list(flat(value[1])))
            self.previous, self.lost = None, True
            return
        if not abs(slope - float(df0)) <= 1e-8 * scale + 1e-300:
            self.fail("slope", f"{where}: df0 = {df0!r}, the directional "
                      f"derivative is {slope!r}")
            return
        if not float(df0) <= 0 or (float(df0) == 0 and scale > 1e-12):
            self.fail("ascent", f"{where}: df0 = {df0!r} (|g| {norm_g:g}, |d| {norm_d:g})")
            return
        if self.previous is not None:
            old, _, _, oldd = self.previous
            size = float(man.norm(x, man.transport(old, x, oldd)))
            if not size > 1e-5 * float(man.norm(old, oldd)):
                # a jump right across: only rounding errors are transported
                self.report.probes["direction lost in transport"] += 1
                self.previous, self.lost = None, True
                self.expected = digest(list(flat(value[1])))
                return
        r = self.fam.tangent(x, d)
        if not r <= 1e-6:
            self.fail("tangent", f"{where}: direction with tangency residual {r:g}")
            return
        if self.kind == "SD":
            error = float(man.norm(x, d + g))
            if not error <= 1e-8 * norm_g:
                self.fail("direction", f"{where}: off the negative gradient by {error:g}")
                return
        else:
            self.conjugate(where, x, d, g)
            if self.report.violations:
                return
        self.report.probes["searches judged"] += 1
        self.expected = digest(list(flat(value[1])))

    def apply(self, x, v):
        if self.spec["case"].get("precond") is None:
            return v
        return self.twin.precondition(x, v)

    def conjugate(self, where, x, d, g):
        man = self.man
        Pg = self.apply(x, g)
        if self.lost:
            self.lost = False
            self.previous = copy_point(x), g, Pg, copy_tangent(d)
            return
        candidates = [("steepest descent", -1.0 * Pg, 0.0)]
        loose = False
        if self.previous is not None:
            candidates, loose = self.reference(x, g, Pg)
        size = float(man.norm(x, Pg))
        best = []
        for name, c, slack in candidates:
            error = float(man.norm(x, d - c))
            tolerance = 1e-6 * (size + float(man.norm(x, c))) + slack
            if error <= tolerance:
                self.report.probes[name] += 1
                break
            best.append(f"{name}: off by {error:g} (tolerance {tolerance:g})")
        else:
            if not loose:
                self.fail(
                    f"direction:{self.spec['opt']['options']['beta_rule']}",
                    f"{where}: " + "; ".join(best),
                )
                return
            # at least a combination of the two
            rest = d + Pg
            Td = self.transported
            weight = float(man.inner_product(x, Td, Td))
            if weight > 0:
                rest = rest - float(man.inner_product(x, rest, Td)) / weight * Td
            error = float(man.norm(x, rest))
            if not error <= 1e-5 * (size + float(man.norm(x, d))):
                self.fail("direction:span", f"{where}: off the span by {error:g}")
                return
            self.report.probes["only the span judged"] += 1
        self.previous = copy_point(x), g, Pg, copy_tangent(d)

    def reference(self, x, g, Pg):
        """Directions the rules allow after the previous search."""
        man = self.man
        old, oldg, oldPg, oldd = self.previous
        opt = self.spec["opt"]["options"]
        orth = float(opts.decode(opt.get("orth_value", "inf")))
        Tg = man.transport(old, x, oldg)
        Td = self.transported = man.transport(old, x, oldd)
        TPg = man.transport(old, x, oldPg)
        gPg = float(man.inner_product(x, g, Pg))
        steepest = ("steepest descent", -1.0 * Pg, 0.0)
        ratio = abs(float(man.inner_product(x, Tg, Pg))) / gPg if gPg else math.inf
        noise = 1e-9 * (
            float(man.norm(x, Tg)) * float(man.norm(x, Pg)) / gPg if gPg else 1.0
        )
        if ratio >= orth + noise or gPg == 0:
            return [steepest], False
        slopes = [float(man.inner_product(old, oldg, oldd))]
        if opt["beta_rule"] == "LiuStorey":
            # Manopt and pymanopt take the transported direction here
            slopes.append(float(man.inner_product(old, oldg, Td)))
        candidates, loose = [], False
        for old_slope in slopes:
            beta, slack = self.beta(x, g, Pg, Tg, Td, TPg, old_slope)
            if beta is None:
                return [steepest], True
            more, vague = self.combine(x, g, Pg, Td, beta, slack, steepest, ratio >= orth - noise)
            candidates += more
            loose = loose or vague
        return candidates, loose

    def combine(self, x, g, Pg, Td, beta, slack, steepest, may_restart):
        man = self.man
        direction = -1.0 * Pg + beta * Td
        size = float(man.norm(x, Td))
        slope = float(man.inner_product(x, g, direction))
        margin = float(man.norm(x, g)) * (
            1e-8 * (float(man.norm(x, Pg)) + abs(beta) * size) + slack * size
        )
        candidates = []
        if slope < margin:
            candidates.append(("conjugate direction", direction, slack * size))
        if slope > -margin or may_restart:
            candidates.append(steepest)
        loose = slack * size > 1e-4 * float(man.norm(x, Pg))
        return candidates, loose

    def beta(self, x, g, Pg, Tg, Td, TPg, slope):
        """The number the rule gives, and how far off rounding may take it."""
        old, oldg, oldPg, oldd = self.previous
        man = self.man
        name = self.spec["opt"]["options"]["beta_rule"]

        def inner(u, v):
            return float(man.inner_product(x, u, v))

        gPg = inner(g, Pg)
        before = float(man.inner_product(old, oldg, oldPg))
        old_norm = float(man.norm(old, oldg))

        def rule(y_Pg, y_d, y_Py, g_d, gPg, before, slope):
            if name == "FletcherReeves":
                return gPg / before
            if name == "PolakRibiere":
                return max(0.0, y_Pg / before)
            if name == "HestenesStiefel":
                # a gradient that did not change says nothing
                return max(0.0, y_Pg / y_d)
            if name == "LiuStorey":
                return max(0.0, min(y_Pg / -slope, gPg / -slope))
            eta = -1 / (float(man.norm(x, Td)) * min(0.01, old_norm))
            return max((y_Pg - 2 * y_Py * g_d / y_d) / y_d, eta)

        y = g - Tg
        values = [
            inner(y, Pg), inner(y, Td), inner(y, Pg - TPg), inner(g, Td),
            gPg, before, slope,
        ]
        total = float(man.norm(x, g)) + float(man.norm(x, Tg))
        p = float(man.norm(x, Pg))
        size = float(man.norm(x, Td))
        errors = [
            total * p, total * size, total * (p + float(man.norm(x, TPg))),
            float(man.norm(x, g)) * size, 0.0, 0.0, 0.0,
        ]
        try:
            beta = rule(*values)
            slack = 0.0
            for i, e in enumerate(errors):
                for sign in (-1, 1):
                    moved = list(values)
                    moved[i] += sign * 1e-9 * e
                    slack = max(slack, abs(rule(*moved) - beta))
        except ZeroDivisionError:
            return None, math.inf
        # the sign of a denominator that is nothing but rounding errors
        if abs(values[1]) <= 1e-5 * errors[1] and name in ("HestenesStiefel", "HagerZhang"):
            return None, math.inf
        if not math.isfinite(beta) or not math.isfinite(slack):
            return None, math.inf
        return beta, 10 * slack

    def finish(self, result):
        point = digest(list(flat(result.point)))
        if self.expected is not None and point != self.expected:
            self.fail("result", "the returned point is not the one the last search returned")
        self.report.nontrivial = self.judged >= 2
        if self.kind == "TR":
            self.report.nontrivial = True


def copy_point(x):
    return copy_value(x) if not isinstance(x, np.ndarray) else x.copy()


def copy_tangent(d):
    return 1.0 * d
