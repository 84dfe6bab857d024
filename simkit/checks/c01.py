"""C01: a run does not depend on what its objects were used for before."""
import numpy as np

import faults
import opts
import zoo
from engine import Report
from world import LineInterrupt, World, digest, first_difference

ID = "C01"
COUNT = {"quick": 1600, "thorough": 60000}
RULE = (
    "each execution draws an optimizer, one or two problems and a history of "
    "up to 6 uses (runs, runs aborted in a callback or at an arbitrary line, "
    "runs with NaN/infinite costs, direct operator calls, refilled buffers, "
    "runs of other optimizers) of those same objects, then one final run; it "
    "is nontrivial if the history had at least one use, the final run made at "
    "least three callback calls, and its history shape is new"
)
REAL = [
    "pymanopt optimizers, line searchers, Problem, autodiff (autograd, numpy), manifolds",
    "numpy, scipy, autograd",
]
STUB = ["clock (time.*)", "stdout", "OS entropy", "user callbacks (scripted problems)"]
ASSUMPTIONS = [
    "user callbacks are pure functions of their arguments apart from the injected faults",
    "the optimizer's behaviour is observed through its callbacks, stdout, numpy.random state and result",
]
ABORTS = [
    "KeyboardInterrupt", "ValueError", "Injected", "LinAlgError",
    "FloatingPointError", "MemoryError", "InjectedBase",
]
OPS = ["retraction", "transport", "inner_product", "norm"]


def generate(rng, tier, index):
    kinds = None
    cases = []
    n_cases = rng.choice([1, 2, 2])
    for _ in range(n_cases):
        cases.append(zoo.generate_case(rng))
    if rng.random() < 0.15 and n_cases == 2:
        cases[1] = dict(cases[0], seed=rng.randrange(1 << 30))
    kinds = zoo.supports(cases[0]["problem"])
    opt = opts.generate_optimizer(rng, kinds, max_iterations=10, verbosity=[0, 0, 2, 3])
    if rng.random() < 0.3 and opt["kind"] in ("NM", "PSO"):
        opt["options"].pop("population_size", None)
        if opt["kind"] == "NM":
            opt["options"]["max_cost_evaluations"] = rng.choice([8, 20, 60])
    spec = {
        "cases": cases, "opt": opt, "np_seed": rng.randrange(1 << 30),
        "final": {
            "start": rng.choice([None, rng.randrange(1 << 20), rng.randrange(1 << 20)]),
            "np_seed": rng.randrange(1 << 30),
        },
        "second_problem": rng.random() < 0.2,
        "intercept": opt["kind"] != "NM" and rng.random() < 0.3,
    }
    reuse_mode = opt["kind"] in ("SD", "CG") and rng.random() < 0.25
    history = []
    for _ in range(rng.randint(1, 6)):
        history.append(_op(rng, spec, reuse_mode))
    spec["history"] = history
    if reuse_mode:
        spec["final"]["reuse"] = True
    return spec


def _op(rng, spec, reuse_mode):
    j = rng.randrange(len(spec["cases"]))
    supported = zoo.supports(spec["cases"][j]["problem"])
    what = rng.choice(["run", "run", "run", "run", "eval", "other", "buffer"])
    if what in ("run", "buffer") and spec["opt"]["kind"] not in supported:
        j = 0
        supported = zoo.supports(spec["cases"][0]["problem"])
    op = {"op": what, "case": j, "start": rng.randrange(1 << 20)}
    if what == "eval":
        op["what"] = rng.choice(["gradient", "euclidean_gradient", "hessian", "cost"])
        if op["what"] == "hessian" and "TR" not in supported:
            op["what"] = "gradient"
    if what == "other":
        if spec["intercept"]:
            supported = [k for k in supported if k != "NM"]
        op["opt"] = opts.generate_optimizer(rng, supported, max_iterations=5)
    if what == "run" and rng.random() < 0.3:
        op["start"] = None
    if reuse_mode and what == "run":
        op["reuse"] = rng.random() < 0.6
    if what != "eval" and rng.random() < 0.6:
        faults_ = []
        for _ in range(rng.choice([1, 1, 2])):
            kind = rng.choice(["cost", "cost", "gradient", "hessian", "search", "preconditioner"])
            if spec["intercept"] and rng.random() < 0.3:
                kind = "manifold." + rng.choice(OPS)
            if rng.random() < 0.6:
                faults_.append({
                    "do": "raise", "kind": kind,
                    "nth": min(int(rng.expovariate(0.15)), 60),
                    "exc": rng.choice(ABORTS),
                })
            else:
                faults_.append({
                    "do": "value", "kind": rng.choice(["cost", "cost", "gradient"]),
                    "nth": min(int(rng.expovariate(0.15)), 60),
                    "value": rng.choice(["nan", "inf", 1e30]),
                })
        op["faults"] = faults_
    elif what in ("run", "other") and not reuse_mode and rng.random() < 0.3:
        op["interrupt"] = min(int(rng.expovariate(1 / 250)), 4000)
    return op


def shrink(spec):
    for i, op in enumerate(spec["history"]):
        for key in ("faults", "interrupt"):
            if key in op:
                new = dict(op)
                del new[key]
                yield dict(spec, history=spec["history"][:i] + [new] + spec["history"][i + 1:])


class Setup:
    def __init__(self, spec):
        self.holder = opts.Holder(World())
        self.cases = []
        for case_spec in spec["cases"]:
            case = zoo.Case(case_spec, self.holder.world)
            if spec["intercept"]:
                case.intercept(OPS)
            self.cases.append(case)
        self.optimizer = opts.build(spec["opt"], self.holder)
        self.problems = [case.problem for case in self.cases]

    def use(self, world):
        self.holder.world = world
        for case in self.cases:
            case.world = world


def new_world(cap=20000):
    return World(cap=cap, tick=1e-4, durations={"cost": [0.001, 0.002]})


def perform(setup, spec, op, report):
    world = new_world()
    setup.use(world)
    case = setup.cases[op["case"]]
    problem = setup.problems[op["case"]]
    faults.install(world, op.get("faults"))
    np.random.seed((op["start"] or 7) & 0xFFFFFFFF)
    what = op["op"]
    if what == "eval":
        x = case.start(op["start"])
        with world:
            if op["what"] == "cost":
                problem.cost(x)
            elif op["what"] == "gradient":
                problem.riemannian_gradient(x)
            elif op["what"] == "euclidean_gradient":
                if case.deriv == "riemannian":
                    problem.riemannian_gradient(x)
                else:
                    problem.euclidean_gradient(x)
            else:
                g = problem.riemannian_gradient(x)
                problem.riemannian_hessian(x, g)
        report.absorb(world, runs=0)
        return
    opt_spec = op.get("opt", spec["opt"])
    optimizer = setup.optimizer
    if what == "other":
        optimizer = opts.build(opt_spec, setup.holder)
    start = opts.supply_start(opt_spec, case, op)
    kwargs = dict(opt_spec.get("run", {}))
    if start is not None:
        kwargs["initial_point"] = start
    if op.get("reuse"):
        kwargs["reuse_line_searcher"] = True
    if op.get("interrupt") is not None:
        with LineInterrupt(world, op["interrupt"], KeyboardInterrupt("async")):
            outcome = opts.call_run(world, optimizer, problem, kwargs)
    else:
        outcome = opts.call_run(world, optimizer, problem, kwargs)
    report.probes["history run ended in " + (
        "result" if outcome.error is None else type(outcome.error).__name__
    )] += 1
    if outcome.error is not None and world.injected is None and op.get("interrupt") is None \
            and not op.get("faults"):
        report.violation(
            f"exception:{type(outcome.error).__name__}",
            f"a run of the history failed: {outcome.trace}",
        )
    if what == "buffer" and start is not None:
        # the caller refills its buffers in place
        fresh = opts.supply_start(opt_spec, case, dict(op, start=op["start"] + 1))
        _refill(start, fresh)
    report.absorb(world)


def _refill(buffers, values):
    if isinstance(buffers, list):
        for b, v in zip(buffers, values):
            _refill(b, v)
    else:
        buffers[...] = values


def final(setup, spec, report):
    world = new_world()
    setup.use(world)
    case = setup.cases[0]
    problem = setup.problems[0]
    np.random.seed(spec["final"]["np_seed"])
    kwargs = dict(spec["opt"].get("run", {}))
    start = opts.supply_start(spec["opt"], case, spec["final"])
    if start is not None:
        kwargs["initial_point"] = start
    if spec["final"].get("reuse"):
        kwargs["reuse_line_searcher"] = True
    outcome = opts.call_run(world, setup.optimizer, problem, kwargs)
    report.absorb(world)
    state = np.random.get_state()
    return outcome, world, digest(state[1].astype(float), int(state[2]))


def execute(spec):
    report = Report()
    aged = Setup(spec)
    for op in spec["history"]:
        perform(aged, spec, op, report)
    if spec["second_problem"]:
        # another Problem over the same manifold and decorated functions
        aged.problems[0] = aged.cases[0].another_problem()
    outcome, world, state = final(aged, spec, report)

    fresh = Setup(spec)
    if spec["final"].get("reuse"):
        runs = [op for op in spec["history"] if op["op"] in ("run", "buffer")]
        begin = 0
        for i, op in enumerate(runs):
            if not op.get("reuse"):
                begin = i
        for op in runs[begin:]:
            perform(fresh, spec, op, Report())
    reference, ref_world, ref_state = final(fresh, spec, report)

    report.nontrivial = bool(spec["history"]) and len(world.events) >= 3
    if reference.error is not None:
        report.violation(
            f"exception:{type(reference.error).__name__}",
            f"a run on fresh objects failed: {reference.trace}",
        )
        return report
    kind = spec["opt"]["kind"]
    if outcome.error is not None:
        report.violation(
            f"{kind}:aged-run-fails",
            f"works on fresh objects, but after the history: {outcome.trace}",
        )
        return report
    difference = first_difference(world.trace(), ref_world.trace())
    if difference:
        report.violation(
            f"{kind}:evaluations",
            f"the run makes other evaluations than on fresh objects: {difference}",
        )
    if outcome.summary() != reference.summary():
        report.violation(
            f"{kind}:result",
            f"other result than on fresh objects: {outcome.summary()} vs {reference.summary()}",
        )
    if outcome.text() != reference.text():
        report.violation(
            f"{kind}:output",
            f"other output than on fresh objects: {outcome.text()[:400]!r} vs {reference.text()[:400]!r}",
        )
    if state != ref_state:
        report.violation(f"{kind}:random-state", "numpy.random ends in another state")
    return report
