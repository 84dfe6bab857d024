"""C07: verbosity and logging never change the outcome; output is truthful."""
import re

import numpy as np

import opts
import scenario
import zoo
from engine import Report
from scenario import close
from world import StepCap, digest, first_difference

ID = "C07"
COUNT = {"quick": 1800, "thorough": 50000}
RULE = (
    "each execution performs the same seeded run with verbosity 0 to 3 and "
    "log_verbosity 0 and 1 on fresh objects (costs may be NaN or infinite, "
    "limits zero or infinite, clocks arbitrary) and compares evaluations, "
    "results and output; it is nontrivial if the run made at least two "
    "iterations and its history is new"
)
REAL = [
    "pymanopt optimizers, line searchers, printer, Problem, autodiff (autograd, numpy), manifolds",
    "numpy, scipy, autograd",
]
STUB = ["clock (time.*)", "stdout", "user callbacks (scripted problems)"]
ASSUMPTIONS = [
    "the clock advances only by the durations of callbacks and jumps, so that "
    "additional clock readings do not change the time",
    "a printed row of SteepestDescent and ConjugateGradient shows iteration, cost, gradient norm",
]

NUMBER = r"[-+]?(?:\d+(?:\.\d*)?(?:[eE][-+]?\d+)?|nan|inf)"


def generate(rng, tier, index):
    case = zoo.generate_case(rng)
    kinds = zoo.supports(case["problem"])
    opt = opts.generate_optimizer(rng, kinds)
    o = opt["options"]
    o.pop("log_verbosity", None)
    if rng.random() < 0.3:
        o["max_iterations"] = rng.choice([0, 1, "inf"])
        if o["max_iterations"] == "inf":
            o["max_cost_evaluations"] = rng.choice([1, 10, 30])
            if opt["kind"] in ("SD", "CG"):
                opt.pop("search", None)
    if rng.random() < 0.15:
        o["max_time"] = rng.choice([0, 0.107, 2.03])
    clock = scenario.generate_clock(rng, tick=0.0)
    clock["epoch"] = rng.choice([0.0, 1.7e6])
    run = {
        "start": rng.choice([None, rng.randrange(1 << 20), rng.randrange(1 << 20)]),
        "np_seed": rng.randrange(1 << 30), "clock": clock,
    }
    if rng.random() < 0.4 and run["start"] is not None:
        run["region"] = scenario.generate_region(rng)
    if rng.random() < 0.2:
        run["faults"] = [{
            "do": rng.choice(["value", "raise"]), "kind": rng.choice(["cost", "gradient"]),
            "nth": rng.randrange(12), "exc": "Injected",
            "value": rng.choice(["nan", "inf", 0.0]),
        }]
    if rng.random() < 0.15 and run["start"] is not None:
        run["broken"] = scenario.generate_region(rng, values=["nan"])
    if opt["kind"] == "TR" and rng.random() < 0.3:
        # many rejected steps in a row, and much left to do afterwards
        o["max_iterations"] = 45
        opt["run"] = {"Delta_bar": rng.choice([0.02, 0.1, 0.3])}
        if rng.random() < 0.5:
            opt["run"]["Delta0"] = opt["run"]["Delta_bar"] * rng.choice([1, 0.3, 1e-4])
        first = rng.randint(1, 8)
        run["faults"] = [
            {"do": "value", "kind": "cost", "nth": nth, "value": rng.choice(["nan", "inf"])}
            for nth in range(first, first + rng.randint(4, 8))
        ]
    pairs = [[v, l] for v in (1, 2, 3) for l in (0, 1)] + [[0, 1]]
    rng.shuffle(pairs)
    keep = [[2, 1]] + [p for p in pairs if p != [2, 1]][:4]
    return {"case": case, "opt": opt, "run": run, "pairs": keep}


def perform(spec, verbosity, log, report):
    options = dict(spec["opt"]["options"], verbosity=verbosity, log_verbosity=log)
    scen = scenario.Scenario(spec["case"], dict(spec["opt"], options=options))
    outcome, world = scen.run(spec["run"], report=report, cap=4000)
    return scen, outcome, world


def form(outcome):
    summary = outcome.summary()
    if summary[0] == "result":
        summary = summary[:9]
    return summary


def execute(spec):
    report = Report()
    kind = spec["opt"]["kind"]
    scen, silent, w0 = perform(spec, 0, 0, report)
    if isinstance(silent.error, StepCap):
        return report
    if silent.error is not None and not scenario.excusable(silent):
        report.violation(f"exception:{type(silent.error).__name__}", silent.trace)
        return report
    if silent.text():
        report.violation(f"{kind}:noise", f"verbosity 0 prints {silent.text()[:200]!r}")
    if silent.error is None:
        report.nontrivial = silent.result.iterations >= 2
    final_state = digest(np.random.get_state()[1].astype(float), int(np.random.get_state()[2]))
    for verbosity, log in spec["pairs"]:
        label = f"verbosity {verbosity}, log_verbosity {log}"
        _, loud, w = perform(spec, verbosity, log, report)
        report.probes[label] += 1
        if loud.error is not None and silent.error is None:
            report.violation(f"{kind}:fails", f"{label}: {loud.trace}")
            continue
        difference = first_difference(w0.trace(), w.trace())
        if difference:
            report.violation(f"{kind}:evaluations", f"{label}: {difference}")
            continue
        if form(loud) != form(silent):
            report.violation(
                f"{kind}:result", f"{label}: {form(loud)} instead of {form(silent)}",
            )
        state = digest(np.random.get_state()[1].astype(float), int(np.random.get_state()[2]))
        if state != final_state:
            report.violation(f"{kind}:random-state", label)
        if verbosity == 0 and loud.text():
            report.violation(f"{kind}:noise", f"{label} prints {loud.text()[:200]!r}")
        if loud.error is None:
            truthful(report, kind, verbosity, log, loud, scen)
    return report


def rows_of(kind, verbosity, text):
    """Values printed for the iterations, in order."""
    rows = []
    lines = text.split("\n")
    if kind in ("SD", "CG"):
        pattern = re.compile(rf"^\s*(\d+)\s+({NUMBER})\s+({NUMBER})\s*$")
        for line in lines:
            m = pattern.match(line)
            if m:
                rows.append((int(m[1]), float(m[2]), float(m[3])))
    elif kind == "PSO":
        pattern = re.compile(rf"^\s*(\d+)\s+(\d+)\s+({NUMBER})\s*$")
        for line in lines:
            m = pattern.match(line)
            if m:
                rows.append((int(m[1]), float(m[3]), int(m[2])))
    elif kind == "NM":
        pattern = re.compile(rf"^Cost evals:\s*(\d+)\s+Best cost:\s*({NUMBER})\s*$")
        for line in lines:
            m = pattern.match(line)
            if m:
                rows.append((None, float(m[2]), int(m[1])))
    elif kind == "TR":
        number = None
        for line in lines:
            m = re.search(r"\bk:\s*(\d+)", line)
            if m:
                number = int(m[1])
            m = re.search(rf"\bf(?:\(x\))?\s*:\s*({NUMBER})\s+\|grad\|\s*:\s*({NUMBER})", line)
            if m:
                rows.append((number, float(m[1]), float(m[2])))
        rows = rows[1:] if rows and rows[0][0] is None else rows
    return rows


def truthful(report, kind, verbosity, log, outcome, scen):
    text = outcome.text()
    result = outcome.result
    if verbosity >= 1 and str(result.stopping_criterion) not in text:
        report.violation(
            f"{kind}:message",
            f"verbosity {verbosity} does not print {result.stopping_criterion!r}",
        )
    if verbosity < 2:
        return
    rows = rows_of(kind, verbosity, text)
    if len(rows) != result.iterations:
        report.violation(
            f"{kind}:rows",
            f"{len(rows)} rows printed in {result.iterations} iterations: {text[-600:]!r}",
        )
        return
    if rows and not close(rows[-1][1], result.cost, rel=1e-5, abs_=1e-12):
        report.violation(
            f"{kind}:values", f"last row {rows[-1]}, result cost {result.cost!r}",
        )
    if not log:
        return
    iterations = result.log["iterations"]
    for k, row in enumerate(rows):
        number, cost = row[0], row[1]
        if number is not None and number != iterations["iteration"][k]:
            report.violation(f"{kind}:values", f"row {k + 1} is numbered {number}")
        if not close(cost, iterations["cost"][k], rel=1e-5, abs_=1e-300):
            report.violation(
                f"{kind}:values",
                f"row {k + 1} shows cost {cost!r}, the iteration had {iterations['cost'][k]!r}",
            )
        if kind in ("SD", "CG", "TR"):
            shown = iterations["gradient_norm"][k]
            if not close(row[2], shown, rel=1e-5, abs_=1e-300):
                report.violation(
                    f"{kind}:values",
                    f"row {k + 1} shows gradient norm {row[2]!r}, the iteration had {shown!r}",
                )
    if kind in ("NM", "PSO"):
        counts = [row[2] for row in rows]
        if counts != sorted(counts) or counts[-1] != result.cost_evaluations:
            report.violation(
                f"{kind}:values",
                f"rows show cost evaluations {counts}, the result {result.cost_evaluations}",
            )
