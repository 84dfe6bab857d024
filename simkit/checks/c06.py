"""C06: seeded runs repeat exactly; only NumPy's global random state matters."""
import json
import os
import random
import re
import subprocess
import sys

import numpy as np

import opts
import scenario
import zoo
from boot import PKG
from engine import Report
from world import StepCap, World, digest, first_difference

ID = "C06"
COUNT = {"quick": 3000, "thorough": 80000}
RULE = (
    "each execution performs the same seeded optimization twice with fresh "
    "objects under different clock schedules, Python random states, operating "
    "system entropy and unrelated work in between (a sample also in a new "
    "process with another PYTHONHASHSEED); it is nontrivial if the run made "
    "at least three callback calls and its history is new"
)
REAL = [
    "pymanopt optimizers, line searchers, Problem, autodiff (autograd, numpy), manifolds",
    "numpy (including its global random generator), scipy, autograd",
]
STUB = [
    "clock (time.*)", "OS entropy (os.urandom)", "stdout",
    "user callbacks (scripted problems)",
]
ASSUMPTIONS = ["no time limit is reached during the compared runs"]


def generate(rng, tier, index):
    case = zoo.generate_case(rng)
    kinds = zoo.supports(case["problem"])
    opt = opts.generate_optimizer(rng, kinds, verbosity=[0, 0, 2, 3])
    opt["options"]["max_time"] = "inf"
    run = {
        "start": rng.choice([None, None, rng.randrange(1 << 20)]),
        "np_seed": rng.randrange(1 << 30),
    }
    if run["start"] is not None and rng.random() < 0.3:
        run["region"] = scenario.generate_region(rng)
    variants = []
    for _ in range(2):
        clock = scenario.generate_clock(rng, tick=rng.choice([0.0, 1e-6, 0.013, 7.3]))
        clock["epoch"] = rng.choice([0.0, 1.7e6, 1.79e9])
        variants.append({
            "clock": clock, "py_seed": rng.randrange(1 << 30),
            "entropy": rng.randrange(1 << 30),
        })
    spec = {"case": case, "opt": opt, "run": run, "variants": variants}
    if rng.random() < 0.4:
        other = zoo.generate_case(rng, small=True)
        spec["between"] = {
            "case": other,
            "opt": opts.generate_optimizer(rng, zoo.supports(other["problem"]), max_iterations=4),
            "run": {"start": None, "np_seed": rng.randrange(1 << 30)},
        }
    # the first executions of a batch also pay for a new interpreter
    if index % 40 == 7:
        spec["hash_seed"] = rng.randrange(1, 1 << 20)
    if run["start"] is not None and opt["kind"] in ("SD", "CG", "TR"):
        spec["other_seed"] = rng.randrange(1 << 30)
    return spec


def one(spec, variant, np_seed=None, report=None):
    scen = scenario.Scenario(spec["case"], spec["opt"])
    clock = variant["clock"]
    world = World(
        tick=clock["tick"], durations=clock["durations"], jumps=clock.get("jumps"),
        epoch=clock["epoch"],
    )
    world.entropy = random.Random(variant["entropy"])
    random.seed(variant["py_seed"])
    run = dict(spec["run"])
    if np_seed is not None:
        run["np_seed"] = np_seed
    np.random.seed(run.get("np_seed", 99))
    before = state()
    outcome, world = scen.run(run, report=report, world=world)
    return outcome, world, before, state()


def state():
    s = np.random.get_state()
    return digest(s[0], s[1].astype(float), int(s[2]), int(s[3]), float(s[4]))


def form(outcome):
    """The result without anything that tells the time."""
    if outcome.error is not None:
        return ["error", type(outcome.error).__name__, str(outcome.error)]
    r = outcome.result
    log = r.log["iterations"] if r.log else None
    return [
        digest(r.point), digest(float(r.cost)), int(r.iterations),
        re.sub(r"-?[\d.]+ seconds", "", str(r.stopping_criterion)),
        None if r.cost_evaluations is None else int(r.cost_evaluations),
        None if r.step_size is None else digest(float(r.step_size)),
        None if r.gradient_norm is None else digest(float(r.gradient_norm)),
        None if not log else digest({k: list(v) for k, v in log.items() if k != "time"}),
    ]


def whole(spec, variant):
    """Everything that must be the same in every process."""
    outcome, world, _, after = one(spec, variant)
    return digest(form(outcome), [list(map(str, t)) for t in world.trace()], after)


def execute(spec):
    report = Report()
    kind = spec["opt"]["kind"]
    first, w1, before, after1 = one(spec, spec["variants"][0], report=report)
    report.nontrivial = len(w1.events) >= 3
    if first.error is not None:
        if isinstance(first.error, StepCap):
            return report
        if not scenario.excusable(first):
            report.violation(f"exception:{type(first.error).__name__}", first.trace)
            return report
    between = spec.get("between")
    if between:
        scenario.Scenario(between["case"], between["opt"]).run(between["run"], report=report)
    second, w2, _, after2 = one(spec, spec["variants"][1], report=report)
    report.fired["different clock schedule"] += 1
    report.fired["different OS entropy"] += 1
    report.fired["different random module state"] += 1
    difference = first_difference(w1.trace(), w2.trace())
    if difference:
        report.violation(f"{kind}:evaluations", f"the second run differs: {difference}")
    elif form(first) != form(second):
        report.violation(f"{kind}:result", f"{form(first)} vs {form(second)}")
    elif after1 != after2:
        report.violation(f"{kind}:random-state", "numpy.random ends in another state")
    if kind in ("SD", "CG", "TR") and spec["run"]["start"] is not None and not (
        spec["opt"]["options"].get("use_rand")
    ):
        if before != after1:
            report.violation(
                f"{kind}:disturbs", "a deterministic run changes numpy's random state",
            )
        if spec.get("other_seed") is not None:
            third, w3, _, _ = one(
                spec, spec["variants"][0], np_seed=spec["other_seed"], report=report
            )
            difference = first_difference(w1.trace(), w3.trace())
            if difference or form(first) != form(third):
                report.violation(
                    f"{kind}:depends",
                    f"a deterministic run depends on numpy's random state: {difference}",
                )
    if spec.get("hash_seed"):
        report.fired["new process with another hash seed"] += 1
        mine = whole(spec, spec["variants"][1])
        other = elsewhere(spec)
        if mine != other:
            report.violation(f"{kind}:process", "another process gives another result")
    return report


def elsewhere(spec):
    env = dict(os.environ, PYTHONHASHSEED=str(spec["hash_seed"]))
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    code = (
        "import sys, json; sys.path.insert(0, sys.argv[1]); import boot; boot.boot(())\n"
        "import checks.c06 as c\n"
        "spec = json.load(sys.stdin)\n"
        "sys.__stdout__.write('DIGEST ' + c.whole(spec, spec['variants'][1]) + '\\n')\n"
        "sys.__stdout__.flush()\n"
    )
    done = subprocess.run(
        [sys.executable, "-B", "-c", code, here], input=json.dumps(spec),
        capture_output=True, text=True, env=env, timeout=300,
    )
    for line in done.stdout.splitlines():
        if line.startswith("DIGEST "):
            return line.split()[1]
    raise RuntimeError(f"the other process failed: {done.stderr[-2000:]}")
