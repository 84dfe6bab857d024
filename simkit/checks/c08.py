"""C08: exceptions from user code reach the caller unchanged, at once."""
import opts
import scenario
import zoo
from engine import Report
from world import EXCEPTIONS, StepCap

ID = "C08"
COUNT = {"quick": 1600, "thorough": 50000}
RULE = (
    "each execution counts the calls of every kind (cost, trace, gradient, "
    "Hessian, preconditioner, line searcher, each manifold operation, stdout) "
    "in an undisturbed run and then repeats the run up to eight times, each "
    "time raising one of 31 exception types at one of those calls; it is "
    "nontrivial if at least one exception was raised and its history is new"
)
REAL = [
    "pymanopt optimizers, line searchers, printer, Problem, autodiff (autograd, numpy), manifolds",
    "numpy, scipy, autograd",
]
STUB = ["clock (time.*)", "stdout", "user callbacks (scripted problems)"]
ASSUMPTIONS = [
    "manifold operations are user code when replaced on the instance; "
    "typical_dist may raise NotImplementedError to say that it is unknown",
]
METHODS = [
    "inner_product", "norm", "retraction", "transport", "dist", "log", "exp",
    "random_point", "random_tangent_vector", "zero_vector", "pair_mean",
    "to_tangent_space", "projection", "euclidean_to_riemannian_gradient",
    "euclidean_to_riemannian_hessian", "embedding",
]
SHRINK_LISTS = ("shots",)


def generate(rng, tier, index):
    case = zoo.generate_case(rng)
    kinds = zoo.supports(case["problem"])
    opt = opts.generate_optimizer(rng, kinds, max_iterations=8, verbosity=[0, 1, 2, 3])
    if opt["kind"] in ("NM", "PSO"):
        opt["options"]["max_iterations"] = rng.randint(1, 4)
    run = {
        "start": rng.choice([None, rng.randrange(1 << 20)]),
        "np_seed": rng.randrange(1 << 30), "clock": {"tick": 1e-6},
    }
    if run["start"] is not None and rng.random() < 0.3:
        run["region"] = scenario.generate_region(rng)
    names = sorted(EXCEPTIONS)
    shots = []
    for _ in range(8):
        shots.append({
            "kind": rng.random(), "position": rng.random(), "exc": rng.choice(names),
            "aged": rng.random() < 0.2,
        })
    return {
        "case": case, "opt": opt, "run": run, "shots": shots,
        "manifold": rng.random() < 0.6,
    }


def build(spec):
    methods = list(METHODS)
    return scenario.Scenario(
        spec["case"], spec["opt"], intercept=methods if spec["manifold"] else None
    )


def execute(spec):
    report = Report()
    kind = spec["opt"]["kind"]
    outcome, world = build(spec).run(spec["run"], report=report, cap=30000)
    if isinstance(outcome.error, StepCap):
        return report
    if outcome.error is not None:
        # not of our making: the run must fail in the same way, no more
        if not scenario.excusable(outcome):
            report.violation(f"exception:{type(outcome.error).__name__}", outcome.trace)
        return report
    counts = dict(world.counters)
    if world.stdout.writes:
        counts["stdout"] = world.stdout.writes
    kinds = sorted(counts)
    if not kinds:
        return report
    for shot in spec["shots"]:
        name = kinds[int(shot["kind"] * len(kinds))]
        n = counts[name]
        nth = int(shot["position"] * n)
        scen = build(spec)
        if shot["aged"]:
            scen.run(spec["run"], report=report, cap=30000)
            if spec["run"].get("start") is None:
                pass
        run = dict(spec["run"])
        run["faults"] = [{"do": "raise", "kind": name, "nth": nth, "exc": shot["exc"]}]
        outcome, world = scen.run(run, report=report, cap=30000)
        label = f"{shot['exc']} raised at call {nth} of {name}"
        key = f"{kind}:{name.split('.')[0]}"
        if world.injected is None:
            report.violation(
                f"{kind}:unreached", f"{label}: the call is not made although it was before",
            )
            continue
        report.nontrivial = True
        report.probes[shot["exc"]] += 1
        if outcome.error is None:
            report.violation(
                f"{key}:swallowed", f"{label}: run() returns {outcome.summary()[3:5]}",
            )
        elif outcome.error is not world.injected:
            report.violation(
                f"{key}:replaced",
                f"{label}: run() raises {outcome.error!r} instead: {outcome.trace[-1500:]}",
            )
        limit = world.injected_seq + (0 if name == "stdout" else 1)
        late = [e.kind for e in world.events if e.seq >= limit]
        if late:
            report.violation(
                f"{key}:continues", f"{label}: then calls {late[:5]}",
            )
        if name == "stdout" and world.stdout.writes > nth + 1:
            report.violation(f"{key}:continues", f"{label}: then prints more")
    return report
