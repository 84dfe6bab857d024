"""A case, an optimizer and a holder built together; runs in fresh worlds."""
import numpy as np

import faults
import opts
import zoo
from world import World, digest, flat

BAD = {"nan": float("nan"), "inf": float("inf")}


def vectorize(args):
    """All real coordinates of a point as one vector."""
    parts = []
    for a in flat(list(args)):
        a = np.asarray(a)
        parts.append(a.real.ravel())
        if np.iscomplexobj(a):
            parts.append(a.imag.ravel())
    return np.concatenate(parts)


def make_region(spec, exempt):
    """A pure transformation of cost values that depends on the point only.

    Args:
        spec: {"type": "half" | "shell" | "hash" | "noise", "value": .., ...}
        exempt: Points (as argument tuples) that keep their value.
    """
    value = BAD.get(spec.get("value"), spec.get("value"))
    kept = {digest(list(args)) for args in exempt}
    kind = spec["type"]
    hits = [0]
    if kind in ("half", "shell"):
        center = vectorize(exempt[0])
    if kind == "half":
        a = np.random.RandomState(spec["seed"]).normal(size=center.shape)
        a /= np.linalg.norm(a)

        def inside(args):
            return float(a @ (vectorize(args) - center)) > spec["level"]
    elif kind == "shell":
        def inside(args):
            r = float(np.linalg.norm(vectorize(args) - center))
            return spec["level"] < r < spec["level"] + spec["width"]
    else:
        def uniform(args):
            return int(digest(list(args), spec["seed"])[:8], 16) / 0xFFFFFFFF

        def inside(args):
            return kind == "noise" or uniform(args) < spec["level"]

    def region(cost, args):
        if digest(list(args)) not in kept and inside(args):
            hits[0] += 1
            if kind == "noise":
                # like rounding errors: a pure function of the point
                return cost + spec["level"] * (uniform(args) - 0.5)
            return value
        return cost

    region.hits = hits
    region.inside = inside
    return region


def generate_region(rng, values=("nan", "inf", 1e30)):
    kind = rng.choice(["half", "half", "shell", "hash"])
    spec = {
        "type": kind, "value": rng.choice(list(values)),
        "seed": rng.randrange(1 << 30),
    }
    if kind == "hash":
        spec["level"] = rng.choice([0.1, 0.3, 0.6, 0.9])
    else:
        spec["level"] = rng.choice([0.0, 0.01, 0.1, 0.3, 1.0])
        spec["width"] = rng.choice([0.01, 0.1, 0.5])
    return spec


def generate_noise(rng):
    """Errors of the cost, such as those of iterative or randomized codes."""
    return {
        "type": "noise", "seed": rng.randrange(1 << 30),
        "level": rng.choice([1e-8, 1e-6, 1e-4, 1e-2]),
    }


def generate_clock(rng, tick=1e-6, back=True):
    """Durations of callbacks, stalls and jumps of the clock."""
    spec = {"tick": tick, "durations": {}}
    style = rng.choice(["zero", "uniform", "mixed", "mixed"])
    if style == "uniform":
        spec["durations"]["cost"] = rng.choice([0.01037, 0.10391, 1.0093])
    elif style == "mixed":
        for kind in ("cost", "gradient", "hessian"):
            spec["durations"][kind] = [
                rng.choice([0.0, 0.00217, 0.0513, 0.307, 2.013])
                for _ in range(rng.randint(1, 7))
            ]
    jumps = {}
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        at = min(int(rng.expovariate(0.06)), 300)
        amount = rng.choice([3600.7713, 1e5 + 0.117, 0.5031, 10.0717])
        if back and rng.random() < 0.5:
            amount = -amount
        jumps[str(at)] = amount * (1 + rng.random() * 1e-3)
    if jumps:
        spec["jumps"] = jumps
    return spec


class Scenario:
    def __init__(self, case_spec, opt_spec, *, intercept=None):
        self.holder = opts.Holder(World())
        self.case = zoo.Case(case_spec, self.holder.world)
        if intercept:
            self.case.intercept(intercept)
        self.opt_spec = opt_spec
        self.optimizer = opts.build(opt_spec, self.holder)
        self.kind = opt_spec["kind"]

    @property
    def searches(self):
        """What the recorded line searcher of the latest run returned."""
        return self.holder.world.searches

    def start(self, run_spec):
        return opts.supply_start(self.opt_spec, self.case, run_spec)

    def starts_as_args(self, start):
        points = start if self.kind in ("NM", "PSO") else [start]
        return [self.case.family.flat_point(p) for p in points]

    def run(self, run_spec, *, report=None, start="default", keep=False,
            track=False, cap=20000, world=None, region=None, **kwargs):
        """One run in a fresh world; returns (outcome, world)."""
        clock = run_spec.get("clock") or {"tick": 1e-6}
        if world is None:
            world = World(
                tick=clock.get("tick", 0.0), durations=clock.get("durations"),
                jumps=clock.get("jumps"), epoch=clock.get("epoch", 1000.0),
                keep=keep, track=track, cap=cap,
            )
        self.holder.world = world
        self.case.world = world
        world.searches = []
        if isinstance(start, str):
            start = self.start(run_spec)
        self.case.region = region
        if region is None and run_spec.get("region") and start is not None:
            self.case.region = make_region(
                run_spec["region"], self.starts_as_args(start)
            )
        self.case.broken = None
        if run_spec.get("broken") and start is not None and self.case.deriv != "autograd":
            self.case.broken = make_region(
                run_spec["broken"], self.starts_as_args(start)
            ).inside
        faults.install(world, run_spec.get("faults"))
        np.random.seed(run_spec.get("np_seed", 99))
        options = dict(self.opt_spec.get("run", {}))
        options.update(run_spec.get("run", {}))
        options = {k: opts.decode(v) for k, v in options.items()}
        options.update(kwargs)
        if start is not None:
            options["initial_point"] = start
        if run_spec.get("reuse"):
            options["reuse_line_searcher"] = True
        outcome = opts.call_run(world, self.optimizer, self.case.problem, options)
        outcome.broken = self.case.broken is not None
        if report is not None:
            report.absorb(world)
            if self.case.region is not None and self.case.region.hits[0]:
                plan = run_spec.get("region") or region.plan
                name = plan.get("value", plan["type"])
                report.fired[f"{name} cost region"] += (
                    self.case.region.hits[0]
                )
        return outcome, world


def close(a, b, rel=1e-9, abs_=0.0):
    a, b = float(a), float(b)
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    return abs(a - b) <= abs_ + rel * max(abs(a), abs(b))


def spoilt(outcome):
    """Whether a gradient or Hessian with NaN or infinities was returned."""
    return outcome.broken or any(
        label.endswith(("returned by gradient", "returned by hessian"))
        for label in outcome.world.fired
    )


def excusable(outcome):
    """Exceptions that say nothing about most properties.

    Injected ones, and numerical breakdown of a factorisation: steps without
    bounds (particle swarms, user-made step sizes) can leave a cone such as
    the positive definite matrices in floating point arithmetic.
    """
    return (
        outcome.world.injected is not None
        # SciPy refuses matrices with NaN
        or (spoilt(outcome) and isinstance(outcome.error, ValueError))
        or isinstance(outcome.error, np.linalg.LinAlgError)
    )
