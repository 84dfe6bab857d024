"""C02: callers' data and already published results are never modified."""
import numpy as np

import faults
import opts
import scenario
import zoo
from engine import Report
from world import LineInterrupt, StepCap, World, digest

ID = "C02"
COUNT = {"quick": 2200, "thorough": 60000}
RULE = (
    "each execution performs one to five uses (runs, runs aborted in a "
    "callback or at an arbitrary line, direct Problem and manifold "
    "operations, refilled caller buffers) and compares digests of every array "
    "seen (supplied, passed to or returned by callbacks, returned, logged) "
    "with the first sight; it is nontrivial if more than ten arrays were "
    "tracked and its history is new"
)
REAL = [
    "pymanopt optimizers, line searchers, Problem, autodiff (autograd, numpy), manifolds",
    "numpy, scipy, autograd",
]
STUB = ["clock (time.*)", "stdout", "user callbacks (scripted problems)"]
ASSUMPTIONS = [
    "a result may be the very object that the caller supplied as the start",
]
OPS = [
    "dist", "inner_product", "projection", "norm", "random_tangent_vector",
    "zero_vector", "euclidean_to_riemannian_gradient",
    "euclidean_to_riemannian_hessian", "retraction", "exp", "log", "transport",
    "pair_mean", "to_tangent_space", "embedding", "weingarten",
]
SHRINK_LISTS = ("faults", "history", "names")


def generate(rng, tier, index):
    case = zoo.generate_case(rng)
    kinds = zoo.supports(case["problem"])
    opt = opts.generate_optimizer(rng, kinds, max_iterations=10)
    opt["options"]["log_verbosity"] = rng.choice([0, 1, 1])
    history = []
    for _ in range(rng.randint(1, 5)):
        op = {"op": rng.choice(["run", "run", "run", "problem", "manifold"]),
              "start": rng.randrange(1 << 20), "np_seed": rng.randrange(1 << 30)}
        if op["op"] == "run":
            op["layout"] = rng.choice(["C", "C", "F", "view"])
            op["refill"] = rng.random() < 0.4
            if rng.random() < 0.15:
                op["start"] = None
            if opt["kind"] in ("SD", "CG") and rng.random() < 0.3:
                op["reuse"] = True
            if rng.random() < 0.25:
                op["faults"] = [{
                    "do": "raise", "kind": rng.choice(["cost", "gradient", "hessian", "search"]),
                    "nth": min(int(rng.expovariate(0.1)), 60), "exc": "Injected",
                }]
            elif rng.random() < 0.2:
                op["interrupt"] = min(int(rng.expovariate(1 / 300)), 5000)
            elif rng.random() < 0.3 and op["start"] is not None:
                op["region"] = scenario.generate_region(rng)
            if opt["kind"] in ("NM", "PSO") and rng.random() < 0.3:
                op["form"] = "tuple"
        elif op["op"] == "manifold":
            op["names"] = [rng.choice(OPS) for _ in range(rng.randint(4, 16))]
        else:
            op["names"] = [
                rng.choice(["cost", "gradient", "euclidean_gradient", "hessian",
                            "euclidean_hessian", "preconditioner"])
                for _ in range(rng.randint(2, 8))
            ]
        history.append(op)
    return {"case": case, "opt": opt, "history": history}


class Ledger:
    """Everything published so far, with its content at first sight."""

    def __init__(self):
        self.arrays = []  # (label, array, digest)
        self.lists = []  # (label, list, ids)
        self.logs = []

    def add(self, label, obj):
        if isinstance(obj, np.ndarray):
            self.arrays.append((label, obj, digest(obj)))
        elif isinstance(obj, (list, tuple)):
            self.lists.append((label, obj, [(id(o), o) for o in obj]))
            for item in obj:
                self.add(label, item)

    def add_log(self, label, log):
        if log is None:
            return
        self.logs.append((label, log, log_form(log)))
        iterations = log.get("iterations")
        if iterations is not None:
            for k, point in enumerate(iterations["point"]):
                self.add(f"point {k + 1} in the log of {label}", point)

    def forget(self, ids):
        """The caller writes to its own objects."""
        self.arrays = [
            (l, a, digest(a) if id(a) in ids else d) for l, a, d in self.arrays
        ]
        self.logs = [
            (l, log, log_form(log) if touches(log, ids) else f)
            for l, log, f in self.logs
        ]

    def changed(self):
        for label, array, d in self.arrays:
            if digest(array) != d:
                return label
        for label, lst, ids in self.lists:
            if len(lst) != len(ids) or any(a is not o for a, (_, o) in zip(lst, ids)):
                return f"the list of {label}"
        for label, log, form in self.logs:
            if log_form(log) != form:
                return f"the log of {label}"
        return None


def log_form(log):
    iterations = log.get("iterations")
    return digest(
        {k: repr(v) for k, v in log["stopping_criteria"].items()},
        None if iterations is None else {k: list(v) for k, v in iterations.items()},
    )


def arrays_of(obj):
    if isinstance(obj, np.ndarray):
        yield obj
    elif isinstance(obj, (list, tuple)):
        for item in obj:
            yield from arrays_of(item)


def touches(log, ids):
    iterations = log.get("iterations")
    return iterations is not None and any(
        id(a) in ids for p in iterations["point"] for a in arrays_of(p)
    )


def relayout(obj, layout, bases):
    """The same values in another memory layout, within a larger buffer."""
    if isinstance(obj, np.ndarray):
        if layout == "F":
            return np.asfortranarray(obj)
        if layout == "view":
            base = np.full((obj.shape[0] * 2,) + obj.shape[1:], 7.5, dtype=obj.dtype)
            base[::2] = obj
            bases.append(base)
            return base[::2]
        return obj.copy()
    return type(obj)(relayout(o, layout, bases) for o in obj)


def execute(spec):
    report = Report()
    scen = scenario.Scenario(spec["case"], spec["opt"])
    kind = scen.kind
    # the plug-in as the caller knows it
    search = spec["opt"].get("search")
    ledger = Ledger()
    plugin = None
    if search is not None:
        plugin = opts.build_search(search, scen.holder)
        options = {k: opts.decode(v) for k, v in spec["opt"].get("options", {}).items()}
        options.setdefault("verbosity", 0)
        scen.optimizer = opts.CLASSES[kind](line_searcher=plugin, **options)
        plugin_before = plugin_form(plugin)
    for number, op in enumerate(spec["history"]):
        label = f"use {number} ({op['op']})"
        if op["op"] == "run":
            ok = run(report, scen, ledger, op, label)
        elif op["op"] == "problem":
            problem_ops(report, scen, ledger, op)
        else:
            manifold_ops(report, scen, ledger, op)
        where = ledger.changed()
        if where:
            report.violation(
                f"{kind if op['op'] == 'run' else op['op']}:changed",
                f"{label} modifies {where}",
            )
            break
        if plugin is not None and plugin_form(plugin) != plugin_before:
            report.violation(f"{kind}:plugin", f"{label} modifies the line searcher template")
            break
    report.nontrivial = len(ledger.arrays) > 10
    report.probes["arrays tracked"] += len(ledger.arrays)
    return report


def plugin_form(plugin):
    out = []
    seen = [plugin]
    for obj in seen:
        state = {
            k: v for k, v in vars(obj).items() if k not in ("holder", "inner")
        }
        out.append(sorted((k, repr(v)) for k, v in state.items()))
        if hasattr(obj, "inner"):
            seen.append(obj.inner)
    return repr(out)


def run(report, scen, ledger, op, label):
    bases = []
    start = scen.start(op)
    if start is not None:
        if scen.kind in ("NM", "PSO"):
            start = [relayout(p, op["layout"], bases) for p in start]
            if op.get("form") == "tuple":
                start = tuple(start)
        else:
            start = relayout(start, op["layout"], bases)
        ledger.add(f"the start supplied to {label}", start)
        for base in bases:
            ledger.add(f"the buffer around the start of {label}", base)
    world = World(tick=1e-6, cap=6000, track=True)
    if op.get("interrupt") is not None:
        with LineInterrupt(world, op["interrupt"], KeyboardInterrupt("async")):
            outcome, world = scen.run(op, report=report, start=start, world=world)
    else:
        outcome, world = scen.run(op, report=report, start=start, world=world)
    ledger.arrays.extend(world.tracked)
    if outcome.error is not None:
        if not (
            isinstance(outcome.error, (StepCap, KeyboardInterrupt))
            or scenario.excusable(outcome)
        ):
            report.violation(f"exception:{type(outcome.error).__name__}", outcome.trace)
    else:
        ledger.add(f"the point returned by {label}", outcome.result.point)
        ledger.add_log(label, outcome.result.log)
    if op.get("refill") and start is not None:
        where = ledger.changed()
        if where:
            report.violation(f"{scen.kind}:changed", f"{label} modifies {where}")
            return
        own = {id(a) for a in arrays_of(list(start) if isinstance(start, tuple) else start)}
        own |= {id(b) for b in bases}
        for a in arrays_of(list(start) if isinstance(start, tuple) else start):
            a[...] = a * 0 + 0.25
        # whatever of this reaches published data other than by identity stays
        # visible to the ledger; callbacks may have been given the start itself
        # or views of it while the run was going on
        callbacks = [
            i for i, (l, a, d) in enumerate(ledger.arrays)
            if l.startswith(("argument of", "value returned by"))
            and any(np.shares_memory(a, b) for b in arrays_of(start))
        ]
        ledger.forget(own | {id(ledger.arrays[i][1]) for i in callbacks})
        where = ledger.changed()
        if where:
            report.violation(
                f"{scen.kind}:aliased", f"after {label} the caller's refilled buffer reaches {where}",
            )


def problem_ops(report, scen, ledger, op):
    """Direct use of the operators of a Problem."""
    case = scen.case
    problem = case.problem
    world = World(tick=1e-6, cap=6000, track=True)
    scen.holder.world = case.world = world
    case.region = None
    x = case.start(op["start"])
    np.random.seed(op["np_seed"])
    ledger.add("a point given to Problem operators", x)
    v = case.manifold.random_tangent_vector(x)
    ledger.add("a vector given to Problem operators", v)
    with world:
        for name in op["names"]:
            value = None
            if name == "cost":
                problem.cost(x)
            elif name == "gradient":
                value = problem.riemannian_gradient(x)
            elif name == "preconditioner":
                value = problem.preconditioner(x, v)
                if case.spec.get("precond") is None:
                    continue
            elif name == "hessian" and case.family.hess:
                value = problem.riemannian_hessian(x, v)
            elif name == "euclidean_gradient" and case.deriv != "riemannian":
                value = problem.euclidean_gradient(x)
            elif name == "euclidean_hessian" and case.family.hess and case.deriv in (
                "euclidean", "autograd"
            ):
                value = problem.euclidean_hessian(x, v)
            if value is not None:
                ledger.add(f"the value of problem {name}", value)
    ledger.arrays.extend(world.tracked)
    report.absorb(world, runs=0)


def manifold_ops(report, scen, ledger, op):
    """Direct use of manifold operations, outputs fed back as inputs."""
    man = scen.case.manifold
    fam = scen.case.family
    np.random.seed(op["np_seed"])
    x = scen.case.start(op["start"])
    y = scen.case.start(op["start"] + 1)
    u = man.random_tangent_vector(x)
    w = man.random_tangent_vector(x)
    g = egrad_like(fam, x)
    for label, obj in (("x", x), ("y", y), ("u", u), ("w", w), ("g", g)):
        ledger.add(f"argument {label} of manifold operations", obj)
    for name in op["names"]:
        method = getattr(man, name, None)
        if method is None:
            continue
        args = {
            "dist": (x, y), "inner_product": (x, u, w), "projection": (x, g),
            "norm": (x, u), "random_tangent_vector": (x,), "zero_vector": (x,),
            "euclidean_to_riemannian_gradient": (x, g),
            "euclidean_to_riemannian_hessian": (x, g, g, u),
            "retraction": (x, u), "exp": (x, u), "log": (x, y),
            "transport": (x, y, u), "pair_mean": (x, y),
            "to_tangent_space": (x, u), "embedding": (x, u),
            "weingarten": (x, u, g),
        }[name]
        try:
            value = method(*args)
        except (NotImplementedError, np.linalg.LinAlgError):
            report.probes["unavailable"] += 1
            continue
        except Exception:
            # whether an operation works at all is not this property's matter
            report.probes["operation failed"] += 1
            continue
        report.probes[f"manifold.{name}"] += 1
        ledger.add(f"the value of manifold.{name}", value)
        where = ledger.changed()
        if where:
            report.violation(
                f"manifold:{name}", f"{name} on {man} modifies {where}",
            )
            return
    report.runs += 1


def egrad_like(fam, x):
    return fam.egrad(*fam.flat_point(x)) if not isinstance(fam, zoo.Product) else _grouped(fam, x)


def _grouped(fam, x):
    egrad = fam.egrad(*fam.flat_point(x))
    grouped, i = [], 0
    for q in fam.parts:
        grouped.append(egrad[i] if q.values == 1 else egrad[i:i + q.values])
        i += q.values
    return grouped
