"""C12: line searches honour their contract on any landscape."""
import copy
import math

import numpy as np

import opts
import zoo
from engine import Report
from world import EXCEPTIONS, World, copy_value, digest, flat

ID = "C12"
COUNT = {"quick": 6000, "thorough": 200000}
RULE = (
    "each execution drives up to three searchers through up to fourteen "
    "searches from points of a real manifold, with objectives scripted trial "
    "by trial (values around the thresholds, NaN, infinities, exceptions, "
    "searches by another searcher in the middle), and compares all trials and "
    "results with a reference model; it is nontrivial if at least one search "
    "backtracked or was disturbed and its history is new"
)
REAL = ["pymanopt.optimizers.line_search", "pymanopt manifolds", "numpy, scipy"]
STUB = ["objective function (scripted)", "clock (time.*)", "stdout"]
ASSUMPTIONS = [
    "a trial value closer than 1e-6 of the decrease to the threshold is not "
    "generated, except for values equal to the cost at the start",
    "what an aborted search leaves in the searcher's memory may be the state "
    "before it or that after a rejected step",
]
SHRINK_LISTS = ("ops", "script")
FAMILIES = {
    "euclidean", "sphere", "stiefel", "spd", "grassmann", "oblique", "fixed_rank",
    "positive", "product", "symmetric", "unitary", "so", "circle",
}
# decrease as a multiple of what the directional derivative predicts, or a value
MOODS = {
    "good": [3.0, 1.5, 1.0],
    "poor": ["just", "short", "half", "tiny", 0.0, "equal"],
    "bad": [-1.0, -1e-9, -1e3, "nan", "inf", "huge"],
}


def generate_script(rng, limit):
    script = []
    style = rng.choice(["backtrack", "random", "exhaust", "one", "exhaust"])
    if style == "one":
        script = [rng.choice(MOODS["good"] + ["just", "-inf"])]
    elif style == "backtrack":
        for _ in range(rng.randint(1, max(1, min(limit, 8)))):
            script.append(rng.choice(MOODS["bad"] + ["short", "equal"]))
        script.append(rng.choice(MOODS["good"] + ["just"]))
    elif style == "exhaust":
        for _ in range(limit + 1):
            script.append(rng.choice(MOODS["bad"] + ["short", "half", "tiny", "equal"]))
        script.append(rng.choice(["short", "tiny", "equal", "half", "nan", -1e-9, 2.0]))
    else:
        for _ in range(rng.randint(1, 10)):
            script.append(rng.choice(MOODS[rng.choice(["good", "poor", "bad"])]))
    return script


def generate(rng, tier, index):
    case = zoo.generate_case(rng)
    while case["problem"]["name"] not in FAMILIES:
        case = zoo.generate_case(rng)
    searchers = []
    for _ in range(rng.randint(1, 3)):
        spec = opts.generate_search(rng, record=False, scripted=False)
        kw = spec.setdefault("kw", {})
        if rng.random() < 0.3:
            kw["max_iterations"] = rng.choice([0, 1, 2, 3, 4])
        if rng.random() < 0.1:
            kw["contraction_factor"] = rng.choice([0.9, 0.1])
        if rng.random() < 0.1:
            kw["sufficient_decrease"] = rng.choice([0.0, 0.9])
        spec["record"] = False
        searchers.append(spec)
    ops = []
    for _ in range(rng.randint(1, 14)):
        i = rng.randrange(len(searchers))
        limit = searchers[i]["kw"].get("max_iterations", 10)
        op = {
            "do": "search", "who": i, "script": generate_script(rng, limit),
            "point": rng.randrange(1 << 20),
            "scale": rng.choice([1.0, 1.0, 0.1, 5.0, 1e-3]),
            "slope": rng.choice([1.0, 1.0, 0.3]),
            "f0": rng.choice(["down", "down", "down", "same", "up", "inf", "nan", 0.0, 1e3]),
        }
        p = rng.random()
        if p < 0.05:
            op["scale"] = 0.0
        elif p < 0.15:
            op["raise"] = [rng.randrange(4), rng.choice(sorted(EXCEPTIONS))]
        elif p < 0.3:
            op["inner"] = {
                "at": rng.randrange(4),
                "op": dict(op, who=rng.randrange(len(searchers)), point=rng.randrange(1 << 20)),
            }
        elif p < 0.35:
            op = {"do": "copy", "who": i, "to": rng.randrange(len(searchers))}
        ops.append(op)
    return {
        "case": case,
        "searchers": searchers, "ops": ops,
    }


DEFAULTS = {
    "backtracking": {
        "contraction_factor": 0.5, "optimism": 2, "sufficient_decrease": 1e-4,
        "max_iterations": 25, "initial_step_size": 1,
    },
    "adaptive": {
        "contraction_factor": 0.5, "sufficient_decrease": 0.5,
        "max_iterations": 10, "initial_step_size": 1,
    },
}


class Model:
    """What a searcher remembers: a set of possible memories."""

    def __init__(self, spec):
        self.kind = spec["type"]
        self.o = dict(DEFAULTS[self.kind], **spec["kw"])
        self.memory = {None}
        self.last_f0 = 0.0

    def first(self, norm, f0, df0):
        found = {}
        for m in self.memory:
            fresh = self.o["initial_step_size"] / norm
            if self.kind == "backtracking":
                if m is not None and f0 < m < math.inf:
                    alpha = 2 * (f0 - m) / df0 * self.o["optimism"]
                else:
                    alpha = fresh
            else:
                alpha = fresh if m is None else m
            found[m] = float(alpha)
        return found

    def finish(self, f0, alpha, trials, used, progress):
        if self.kind == "backtracking":
            self.memory = {f0}
        elif not progress:
            # start over, or look closer if that is what was just done
            self.memory = {
                self.o["contraction_factor"] * alpha if m is None else None
                for m in used
            }
        else:
            self.memory = {alpha if trials == 2 else 2 * alpha}

    def abort(self, f0):
        if self.kind == "backtracking":
            self.memory = self.memory | {f0}
        else:
            self.memory = self.memory | {None}


class Drive:
    def __init__(self, spec, report):
        self.report = report
        self.world = World(cap=5000)
        self.case = zoo.Case(spec["case"], self.world)
        self.manifold = self.case.manifold
        self.searchers = [opts.build_search(s, None) for s in spec["searchers"]]
        self.models = [Model(s) for s in spec["searchers"]]
        self.busy = set()

    def bad(self, model, what, message):
        self.report.violation(f"{model.kind}:{what}", message)

    def value(self, mood, f0, df0, alpha, sd):
        base = 0.0 if not math.isfinite(f0) else f0
        step = alpha * df0  # negative
        if mood == "nan":
            return math.nan
        if mood == "inf":
            return math.inf
        if mood == "-inf":
            return -math.inf
        if mood == "huge":
            return 1e300
        if mood == "equal":
            return f0
        ratio = {
            "just": sd + 1e-3, "short": sd - 1e-3, "half": sd / 2, "tiny": 1e-9,
        }.get(mood, mood)
        return base + ratio * step

    def search(self, op, depth=0):
        i = op["who"]
        if i in self.busy:
            return
        report, manifold, model = self.report, self.manifold, self.models[i]
        o = model.o
        rs = np.random.RandomState(op["point"])
        x = self.case.family.start(rs)
        state = np.random.get_state()
        np.random.seed(op["point"] ^ 0x5A5A5)
        d = manifold.random_tangent_vector(x)
        np.random.set_state(state)
        d = (op["scale"] / float(manifold.norm(x, d))) * d
        norm = float(manifold.norm(x, d))
        df0 = -op["slope"] * max(norm, 1e-3) ** 2
        f0 = op["f0"]
        if f0 == "down":
            f0 = model.last_f0 - abs(rs.uniform(0.01, 1)) * max(norm, 1e-2) ** 2
        elif f0 == "same":
            f0 = model.last_f0
        elif f0 == "up":
            f0 = model.last_f0 + rs.uniform(0.01, 1)
        elif f0 == "inf":
            f0 = math.inf
        elif f0 == "nan":
            f0 = math.nan
        f0 = float(f0)
        if math.isfinite(f0):
            model.last_f0 = f0
        candidates = model.first(norm, f0, df0) if norm > 0 else {}
        sd, c, limit = o["sufficient_decrease"], o["contraction_factor"], o["max_iterations"]
        before = digest(list(flat(x)), list(flat(d)))
        trials = []  # (alpha, value, digest of the point, ambiguous)
        exc = None
        label = f"search {len(self.world.events)} of {model.kind} {o}"

        def objective(point):
            k = len(trials)

            def run(*args):
                nonlocal candidates, exc
                if norm == 0:
                    trials.append((0.0, f0, None, True))
                    return f0
                matches = {}
                want = None
                for m, a0 in candidates.items():
                    alpha = a0 * c ** k
                    want = manifold.retraction(x, alpha * d)
                    if near(want, point):
                        matches[m] = a0
                if not matches:
                    self.bad(
                        model, "trial" if k else "first-trial",
                        f"{label}: trial {k} at {point!r}, expected {want!r} "
                        f"(first step {list(candidates.values())}, f0 {f0}, df0 {df0})",
                    )
                    matches = candidates
                candidates = matches
                alpha = next(iter(matches.values())) * c ** k
                if op.get("raise") and op["raise"][0] == k:
                    trials.append((alpha, None, None, False))
                    exc = EXCEPTIONS[op["raise"][1]]("injected")
                    self.world.note("exception")
                    raise exc
                inner = op.get("inner")
                if inner and inner["at"] == k and depth < 2:
                    self.world.note("nested search")
                    self.search(inner["op"], depth + 1)
                script = op["script"] or [1.0]
                mood = script[min(k, len(script) - 1)]
                if isinstance(mood, str) and mood in ("nan", "inf", "-inf", "huge"):
                    self.world.fired[f"cost {mood}"] += 1
                value = self.value(mood, f0, df0, alpha, sd)
                threshold = f0 + sd * alpha * df0
                close = (
                    math.isfinite(value) and math.isfinite(threshold)
                    and abs(value - threshold) <= 1e-9 * abs(alpha * df0)
                    + 1e-15 * abs(f0)
                )
                trials.append((alpha, value, digest(list(flat(point))), close))
                return value

            if len(trials) > limit + 1 or report.violations:
                # enough evidence; end the search
                raise Enough()
            return self.world.call("cost", run, tuple(flat(point)))

        self.busy.add(i)
        try:
            with np.errstate(all="ignore"):
                result = self.searchers[i].search(objective, manifold, x, d, f0, df0)
        except Enough:
            self.bad(model, "evaluations", f"{label}: more than {limit + 1} trials")
            return
        except BaseException as error:  # noqa: B902
            if exc is None or error is not exc:
                if error.__class__.__name__ == "Hang":
                    raise
                self.bad(model, "exception", f"{label}: {error!r}")
            model.abort(f0)
            report.nontrivial = True
            report.runs += 1
            return
        finally:
            self.busy.discard(i)
        report.runs += 1
        step, new = result
        step = float(step)
        if digest(list(flat(x)), list(flat(d))) != before:
            self.bad(model, "modified", f"{label}: point or direction modified")
        if exc is not None:
            self.bad(model, "swallowed", f"{label}: {exc!r} swallowed")
            return
        stayed = step == 0 and digest(list(flat(new))) == digest(list(flat(x)))
        if norm == 0:
            if not stayed:
                self.bad(model, "zero-direction", f"{label}: step {step} along zero")
            return
        if len(trials) > limit + 1:
            self.bad(model, "evaluations", f"{label}: {len(trials)} trials")
        if not trials:
            self.bad(model, "no-trial", f"{label}: nothing was tried")
            return
        if len(trials) > 1:
            report.nontrivial = True
            report.probes["backtracking searches"] += 1
        alpha, value, point, close = trials[-1]
        # several memories may explain the trials equally well
        for a0 in candidates.values():
            if abs(step - a0 * c ** (len(trials) - 1) * norm) <= 1e-9 * abs(step):
                alpha = a0 * c ** (len(trials) - 1)
        enough = [
            v <= f0 + sd * a * df0 for a, v, _, _ in trials
        ]
        for k, (a, v, _, ambiguous) in enumerate(trials[:-1]):
            if enough[k] and not ambiguous:
                self.bad(
                    model, "went-on",
                    f"{label}: trial {k} with {v} achieved the decrease from {f0} "
                    f"(slope {df0}, step {a}) but the search went on",
                )
        exhausted = len(trials) == limit + 1
        if not enough[-1] and not close and not exhausted:
            self.bad(
                model, "gave-up",
                f"{label}: ended after {len(trials)} of {limit + 1} trials without "
                f"the decrease: {value} from {f0}",
            )
        if enough[-1] and not close or exhausted and value <= f0:
            moved = True
        elif not value <= f0:
            moved = False
        else:
            moved = None
        if moved is not False and not (
            digest(list(flat(new))) == point
            and abs(step - alpha * norm) <= 1e-9 * abs(alpha * norm)
        ):
            if moved or not stayed:
                self.bad(
                    model, "result",
                    f"{label}: returned step {step}, expected {alpha * norm} and the "
                    f"last trial point (cost {value} from {f0}, {len(trials)} trials)",
                )
        if moved is False and not stayed:
            self.bad(
                model, "accepted",
                f"{label}: returned step {step} although the last cost is {value} "
                f"after {f0}",
            )
        model.finish(f0, alpha, len(trials), list(candidates), value < f0)


class Enough(BaseException):
    pass


def near(a, b):
    for p, q in zip(flat(a), flat(b)):
        p, q = np.asarray(p), np.asarray(q)
        if p.shape != q.shape:
            return False
        scale = 1e-12 + np.max(np.abs(p), initial=0.0)
        if not np.all(np.abs(p - q) <= 1e-9 * scale):
            return False
    return True


def execute(spec):
    report = Report()
    drive = Drive(spec, report)
    with drive.world:
        for op in spec["ops"]:
            if report.violations:
                break
            if op["do"] == "copy":
                if op["who"] != op["to"] and (
                    drive.models[op["who"]].kind == drive.models[op["to"]].kind
                ):
                    # an independent searcher with the same history
                    drive.searchers[op["to"]] = copy.deepcopy(drive.searchers[op["who"]])
                    drive.models[op["to"]] = copy.deepcopy(drive.models[op["who"]])
                    drive.world.note("deepcopy")
                continue
            drive.search(op)
    runs = report.runs
    report.absorb(drive.world, runs=0)
    report.runs = runs
    return report
