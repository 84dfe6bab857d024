"""C09: concurrent and nested runs that share objects do not interfere."""
import numpy as np
from autograd.tracer import trace_stack

import faults
import opts
import zoo
from engine import Report
from opts import Outcome
from sched import Router, Scheduler, TaskWorld
from world import digest, first_difference

ID = "C09"
COUNT = {"quick": 6000, "thorough": 120000}
RULE = (
    "each execution draws two to four tasks (runs of separate optimizer "
    "objects, or direct operator calls) that share a Problem, decorated "
    "functions, a manifold, a line searcher template or nothing, further runs "
    "nested inside their callbacks, exceptions and NaN values in some of them, "
    "and a schedule of preemptions at line granularity; every task must do "
    "exactly what it does alone on fresh objects; it is nontrivial if the "
    "schedule really switched between unfinished tasks or a run was nested, "
    "and its history is new"
)
REAL = [
    "pymanopt optimizers, line searchers, Problem, autodiff (autograd, numpy), manifolds",
    "threads of the interpreter, numpy, scipy, autograd",
]
STUB = [
    "thread scheduler (one thread runs at a time, preempted at lines of pymanopt and at callbacks)",
    "locks created by pymanopt", "clock (time.*)", "stdout", "user callbacks (scripted problems)",
]
ASSUMPTIONS = [
    "preemption between lines of pymanopt and at callback boundaries, not inside numpy, scipy or autograd",
    "no switch while autograd records a tape, which is one per process",
    "every task has its own state of numpy.random, which is global by design",
]
SHRINK_LISTS = ("schedule", "nested", "faults", "tasks", "ops")
SHRINK_DROP = ("precond", "search", "clock")
SEEDED = ("sphere_subspace", "sphere_complement")


def generate_schedule(rng):
    style = rng.choice(["fine", "mixed", "mixed", "coarse", "few", "opening"])
    out = []
    if style == "few":
        at = sorted(min(int(rng.expovariate(1 / 300)) + 1, 6000) for _ in range(rng.randint(1, 5)))
        last = 0
        for a in at:
            out.append([max(1, a - last), rng.randrange(4)])
            last = a
        return out
    if style == "fine":
        mean, n = 1.5, 400
    elif style == "opening":
        mean, n = 3, 60
    elif style == "coarse":
        mean, n = 120, 80
    else:
        mean, n = None, 200
    for i in range(n):
        m = mean or rng.choice([1, 3, 10, 40, 200])
        out.append([1 + min(int(rng.expovariate(1 / m)), 2000), rng.randrange(4)])
    return out


def _has_seeded(problem):
    return problem["name"] in SEEDED or any(
        _has_seeded(p) for p in problem.get("parts", ())
    )


def generate_task(rng, case, supported, depth=0):
    task = {
        "start": rng.choice([None, rng.randrange(1 << 20), rng.randrange(1 << 20)]),
        "np_seed": rng.randrange(1 << 30),
        "share": rng.choice(["problem"] * 5 + ["functions", "functions", "manifold", "separate"]),
    }
    if task["share"] in ("manifold", "separate"):
        if _has_seeded(case["problem"]) and task["share"] == "manifold":
            task["share"] = "problem"
        else:
            task["seed"] = rng.randrange(1 << 30)
    if rng.random() < 0.15:
        task["ops"] = [
            [rng.choice(["gradient", "euclidean_gradient", "hessian", "cost", "precondition"]), rng.randrange(1 << 20)]
            for _ in range(rng.randint(1, 4))
        ]
        if "TR" not in supported:
            task["ops"] = [o if o[0] != "hessian" else ["gradient", o[1]] for o in task["ops"]]
    else:
        task["opt"] = opts.generate_optimizer(
            rng, supported, max_iterations=5, verbosity=[0, 0, 0, 1, 2, 3],
        )
        if task["opt"]["kind"] in ("SD", "CG") and rng.random() < 0.4:
            task["template"] = True
        if rng.random() < 0.15:
            task["twice"] = True
    if rng.random() < 0.35:
        plan = []
        for _ in range(rng.choice([1, 1, 2])):
            nth = min(int(rng.expovariate(0.2)), 30)
            if rng.random() < 0.5:
                plan.append({
                    "do": "raise", "kind": rng.choice(["cost", "gradient", "search", "hessian"]),
                    "nth": nth, "exc": rng.choice(["ValueError", "KeyboardInterrupt", "Injected", "LinAlgError"]),
                })
            else:
                plan.append({
                    "do": "value", "kind": rng.choice(["cost", "cost", "gradient"]),
                    "nth": nth, "value": rng.choice(["nan", "inf", 1e30]),
                })
        task["faults"] = plan
    task["clock"] = {"tick": rng.choice([0.0, 1e-4]), "epoch": rng.choice([0.0, 1000.0, 1e9])}
    if depth < 2 and rng.random() < (0.35 if depth == 0 else 0.2):
        task["nested"] = [
            {
                "kind": rng.choice(["cost", "cost", "gradient", "hessian", "search", "preconditioner", "stdout"]),
                "nth": min(int(rng.expovariate(0.25)), 20),
                "task": generate_task(rng, case, supported, depth + 1),
            }
            for _ in range(rng.choice([1, 1, 2]))
        ]
    return task


def generate_first_use(rng, case, supported):
    """Operators of one Problem used by several tasks for the first time."""
    tasks = []
    for _ in range(rng.choice([2, 2, 3])):
        task = generate_task(rng, case, supported)
        for key in ("opt", "template", "twice", "seed", "nested"):
            task.pop(key, None)
        task["share"] = rng.choice(["problem", "problem", "problem", "functions"])
        what = ["gradient", "euclidean_gradient"]
        if "TR" in supported:
            what += ["hessian", "hessian", "hessian"]
        task["ops"] = [
            [rng.choice(what), rng.randrange(1 << 20)] for _ in range(rng.randint(1, 2))
        ]
        tasks.append(task)
    mean = rng.choice([1.5, 3, 8])
    return {
        "case": case, "template": None, "tasks": tasks,
        "schedule": [
            [1 + int(rng.expovariate(1 / mean)), rng.randrange(4)] for _ in range(80)
        ],
        "intercept": False, "np_seed": rng.randrange(1 << 30),
    }


def generate(rng, tier, index):
    case = zoo.generate_case(rng, small=rng.random() < 0.5)
    wanted = rng.choice([None, None, "product", "autograd", "both"])
    for _ in range(200):
        # products and generated derivatives have the most lazy operators
        product = case["problem"]["name"] == "product"
        if (product or wanted not in ("product", "both")) and (
            case["deriv"] == "autograd" or wanted not in ("autograd", "both")
        ):
            break
        case = zoo.generate_case(rng, small=True)
    supported = zoo.supports(case["problem"])
    if rng.random() < 0.15:
        return generate_first_use(rng, case, supported)
    template = opts.generate_search(rng)
    mode = rng.choice(["threads", "threads", "threads", "nested"])
    n = rng.choice([2, 2, 3, 4]) if mode == "threads" else 1
    tasks = [generate_task(rng, case, supported) for _ in range(n)]
    if mode == "nested" and "nested" not in tasks[0]:
        tasks[0]["nested"] = [{
            "kind": rng.choice(["cost", "gradient"]), "nth": rng.randrange(8),
            "task": generate_task(rng, case, supported, 1),
        }]
    if n >= 2 and rng.random() < 0.3:
        # the same kind of optimizer with the same settings
        for t in tasks:
            if "opt" in tasks[0]:
                t.pop("ops", None)
                t["opt"] = tasks[0]["opt"]
                t["template"] = tasks[0].get("template", False)
    return {
        "case": case, "template": template, "tasks": tasks,
        "schedule": generate_schedule(rng) if n > 1 else [],
        "intercept": rng.random() < 0.2,
        "np_seed": rng.randrange(1 << 30),
    }


OPS = ["retraction", "transport", "inner_product", "norm"]


class Setup:
    """The objects that tasks share."""

    def __init__(self, spec, router):
        self.router = router
        self.spec = spec
        self.holder = opts.Holder(router)
        self.case = zoo.Case(spec["case"], router)
        if spec["intercept"]:
            self.case.intercept(OPS)
        self.template = opts.build_search(spec["template"], self.holder)

    def prepare(self, task):
        """Objects of one task: (case, problem, optimizer)."""
        share = task["share"]
        case = self.case
        problem = case.problem
        if share == "functions":
            problem = case.another_problem()
        elif share in ("manifold", "separate"):
            spec = dict(self.spec["case"], seed=task["seed"])
            manifold = self.case.manifold if share == "manifold" else None
            case = zoo.Case(spec, self.router, manifold=manifold)
            if self.spec["intercept"] and manifold is None:
                case.intercept(OPS)
            problem = case.problem
        optimizer = None
        if "opt" in task:
            opt = task["opt"]
            if task.get("template"):
                opt = dict(opt)
                opt.pop("search", None)
                options = dict(opt.get("options", {}))
                options = {k: opts.decode(v) for k, v in options.items()}
                options.setdefault("verbosity", 0)
                optimizer = opts.CLASSES[opt["kind"]](
                    **options, line_searcher=self.template
                )
            else:
                optimizer = opts.build(opt, self.holder)
        return case, problem, optimizer


class Performance:
    """One task performed once; collects everything it did."""

    def __init__(self, setup, task, alone, path="0"):
        self.setup = setup
        self.task = task
        self.path = path
        self.prepared = setup.prepare(task)
        clock = task["clock"]
        self.world = world = TaskWorld(
            tick=clock["tick"], epoch=clock["epoch"], cap=20000,
            durations={"cost": [0.001, 0.002]},
        )
        self.outcomes = []
        self.inner = []
        self.boundary = None
        self.reset_random = False
        faults.install(world, task.get("faults"))
        for i, nested in enumerate(task.get("nested", ())):
            inner = Performance(setup, nested["task"], alone, f"{path}.{i}")
            self.inner.append(inner)
            if not alone:
                world.add_fault(nested["kind"], nested["nth"], inner.as_fault())

    def as_fault(self):
        def act(world, event):
            if trace_stack.top >= 0 or self.outcomes:
                return
            state = np.random.get_state()
            self.world.on_boundary = world.on_boundary
            self.run()
            np.random.set_state(state)

        return act

    def run(self):
        np.random.seed(self.task["np_seed"])
        case, problem, optimizer = self.prepared
        router = self.setup.router
        router.push(self.world)
        try:
            for _ in range(2 if self.task.get("twice") else 1):
                if optimizer is None:
                    self.outcomes.append(self.operate(case, problem))
                    continue
                run_spec = dict(self.task, start=self.task["start"])
                start = opts.supply_start(self.task["opt"], case, run_spec)
                kwargs = dict(self.task["opt"].get("run", {}))
                if start is not None:
                    kwargs["initial_point"] = start
                outcome = opts.call_run(self.world, optimizer, problem, kwargs)
                self.outcomes.append(outcome)
        finally:
            router.pop()
        state = np.random.get_state()
        self.random = digest(state[1].astype(float), int(state[2]))

    def operate(self, case, problem):
        values = []
        outcome = Outcome()
        outcome.world = self.world
        try:
            for what, seed in self.task["ops"]:
                x = case.start(seed)
                if what == "cost":
                    values.append(digest(problem.cost(x)))
                elif what == "gradient":
                    values.append(digest(problem.riemannian_gradient(x)))
                elif what == "euclidean_gradient":
                    if case.deriv != "riemannian":
                        values.append(digest(problem.euclidean_gradient(x)))
                elif what == "precondition":
                    g = problem.riemannian_gradient(x)
                    values.append(digest(problem.preconditioner(x, g)))
                else:
                    g = problem.riemannian_gradient(x)
                    values.append(digest(problem.riemannian_hessian(x, g)))
        except BaseException as error:
            if type(error).__name__ in ("Hang", "Deadlock"):
                raise
            outcome.error = error
            import traceback

            outcome.trace = traceback.format_exc()
        outcome.values = values
        return outcome

    def all(self):
        yield self
        for inner in self.inner:
            yield from inner.all()

    def form(self):
        forms = []
        for outcome in self.outcomes:
            values = getattr(outcome, "values", None)
            if values is not None:
                forms.append([values, outcome.error and repr(outcome.error)])
            else:
                forms.append(outcome.summary())
        return forms


def execute(spec):
    report = Report()
    router = Router()
    setup = Setup(spec, router)
    performances = [
        Performance(setup, task, False, str(i)) for i, task in enumerate(spec["tasks"])
    ]
    scheduler = Scheduler([p.run for p in performances], spec["schedule"])
    for performance in performances:
        performance.world.on_boundary = lambda kind: scheduler.step()
    base = np.random.get_state()
    for task in scheduler.tasks:
        task.rng = base
    with router:
        scheduler.run()
    report.probes["preemptions"] += scheduler.switches
    report.probes["executed lines and boundaries"] += scheduler.steps
    nested = 0
    for top in performances:
        for performance in top.all():
            if not performance.outcomes:
                continue
            nested += performance is not top
            report.absorb(performance.world, runs=len(performance.outcomes))
            alone(report, spec, performance)
    # one state per interleaving really taken
    report.states.add(digest(scheduler.taken, [p.world.shape_digest() for p in performances]))
    report.fired["preemption"] += scheduler.switches
    report.fired["run nested in a callback"] += nested
    report.nontrivial = scheduler.switches > 0 or nested > 0
    return report


def alone(report, spec, performance):
    """Compares one task with the same task on objects nobody else uses."""
    task = performance.task
    router = Router()
    setup = Setup(spec, router)
    reference = Performance(setup, task, True)
    state = np.random.get_state()
    with router:
        reference.run()
    np.random.set_state(state)
    kind = task["opt"]["kind"] if "opt" in task else "operators"
    name = f"task {performance.path} ({kind}, shares {task['share']})"
    for outcome in reference.outcomes:
        error = outcome.error
        if error is not None and outcome.world.injected is None and not isinstance(
            error, np.linalg.LinAlgError
        ) and not task.get("faults"):
            report.violation(
                f"exception:{type(error).__name__}", f"{name} fails alone: {outcome.trace}",
            )
            return
    difference = first_difference(
        performance.world.trace(), reference.world.trace()
    )
    if difference:
        report.violation(
            f"{kind}:evaluations", f"{name} evaluates otherwise than alone: {difference}"
            + failure(performance),
        )
    elif performance.form() != reference.form():
        report.violation(
            f"{kind}:result",
            f"{name}: {performance.form()} instead of {reference.form()}" + failure(performance),
        )
    elif performance.world.stdout.getvalue() != reference.world.stdout.getvalue():
        report.violation(
            f"{kind}:output",
            f"{name} prints {performance.world.stdout.getvalue()[:400]!r} instead of "
            f"{reference.world.stdout.getvalue()[:400]!r}",
        )
    elif performance.random != reference.random:
        report.violation(f"{kind}:random-state", f"{name} draws other random numbers")


def failure(performance):
    for outcome in performance.outcomes:
        if outcome.error is not None:
            return "; it ended in " + str(outcome.trace)[-900:]
    return ""
