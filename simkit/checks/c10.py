"""C10: automatic derivatives stay correct whatever was evaluated before."""
import numpy as np

import pymanopt
import pymanopt.manifolds as M

from engine import Report
from world import EXCEPTIONS, World, copy_value, digest, flat, same

ID = "C10"
COUNT = {"quick": 4000, "thorough": 40000}
RULE = (
    "each execution drives up to three decorated functions of one backend "
    "through a sequence of evaluations of cost, gradients and Hessians in "
    "which the traced functions raise, arguments are reused buffers in odd "
    "memory layouts that are overwritten between calls, and evaluations nest "
    "in one another; every value is compared with the analytic one and every "
    "earlier output with its copy; it is nontrivial if a fault fired or a "
    "buffer was overwritten and its history is new"
)
REAL = [
    "pymanopt Function, autodiff backends (autograd, PyTorch, JAX, TensorFlow), "
    "Problem, manifolds",
    "autograd, torch, jax, tensorflow, numpy",
]
STUB = ["user functions (scripted)"]
ASSUMPTIONS = [
    "threads inside XLA, Eigen and the PyTorch engine are set to one and are "
    "otherwise not controlled",
    "values are accurate to 1e-9 relative to the sum of the terms",
]
SHRINK_LISTS = ("ops", "functions")
BUDGET = {"quick": 240.0, "thorough": 780.0}
LAYOUTS = ["C", "C", "C", "F", "reversed", "strided", "readonly", "broadcast"]
NAMES = {"autograd": "autograd", "torch": "pytorch", "jax": "jax", "tensorflow": "tensorflow"}


def manifold_of(spec):
    kind = spec["type"]
    if kind == "product":
        return M.Product([manifold_of(s) for s in spec["parts"]])
    n = spec["n"]
    return {
        "euclidean": lambda: M.Euclidean(*n),
        "sphere": lambda: M.Sphere(*n),
        "stiefel": lambda: M.Stiefel(*n),
        "fixed_rank": lambda: M.FixedRankEmbedded(*n),
        "circle": lambda: M.ComplexCircle(*n),
        "complex_grassmann": lambda: M.ComplexGrassmann(*n),
        "positive": lambda: M.Positive(*n),
        "so": lambda: M.SpecialOrthogonalGroup(*n),
        "unitary": lambda: M.UnitaryGroup(*n),
    }[kind]()


REAL_PARTS = [
    {"type": "euclidean", "n": [3]}, {"type": "euclidean", "n": [2, 2]},
    {"type": "euclidean", "n": [1]}, {"type": "sphere", "n": [3]},
    {"type": "stiefel", "n": [4, 2]}, {"type": "positive", "n": [2, 1]},
    {"type": "euclidean", "n": [2, 1, 3]},
    {"type": "so", "n": [3]},
]
COMPLEX_PARTS = [
    {"type": "circle", "n": [3]}, {"type": "complex_grassmann", "n": [3, 2]},
    {"type": "circle", "n": [1]}, {"type": "unitary", "n": [2]},
]
FIXED = {"type": "fixed_rank", "n": [3, 4, 2]}


def generate(rng, tier, index):
    backend = rng.choice(["autograd"] * 18 + ["torch"] * 12 + ["jax", "tensorflow"])
    functions = []
    for _ in range(rng.choice([1, 2, 3])):
        complex_ = rng.random() < 0.25
        parts = COMPLEX_PARTS if complex_ else REAL_PARTS
        what = rng.random()
        if what < 0.4:
            man = rng.choice(parts)
        elif what < 0.55 and not complex_:
            man = FIXED
        else:
            pool = parts + ([FIXED] if not complex_ else [])
            man = {
                "type": "product",
                "parts": [rng.choice(pool) for _ in range(rng.choice([1, 2, 2, 3]))],
            }
        functions.append({
            "manifold": man, "complex": complex_, "seed": rng.randrange(1 << 30),
            "square": rng.random() < 0.8, "linear": rng.random() < 0.7,
            "wave": rng.random() < 0.6 and not complex_,
            "cross": rng.random() < 0.6, "unused": rng.random() < 0.15,
            "star": rng.random() < 0.3,
        })
    ops = []
    slots = 3
    for _ in range(rng.choice([4, 10, 25]) if backend in ("autograd", "torch") else rng.choice([6, 12])):
        op = {
            "op": rng.choice(["cost", "gradient", "gradient", "hessian", "hessian",
                              "rgradient", "rhessian"]),
            "f": rng.randrange(len(functions)),
            "x": rng.randrange(slots), "v": rng.randrange(slots),
        }
        if rng.random() < 0.2:
            op["raise"] = {"at": rng.randrange(3), "exc": rng.choice([
                "Injected", "InjectedBase", "KeyboardInterrupt", "ZeroDivisionError",
                "ValueError", "TypeError", "NotImplementedError", "AttributeError",
                "RuntimeError", "AssertionError",
            ])}
        elif rng.random() < 0.15:
            op["nested"] = {
                "f": rng.randrange(len(functions)), "x": rng.randrange(slots),
                "v": rng.randrange(slots), "at": rng.randrange(3),
                "op": rng.choice(["cost", "gradient", "hessian"]),
            }
        if rng.random() < 0.4:
            op["refill"] = rng.randrange(1 << 30)
        ops.append(op)
    return {
        "backend": backend, "functions": functions, "ops": ops,
        "seed": rng.randrange(1 << 30),
        "layouts": [rng.choice(LAYOUTS) for _ in range(slots)],
    }


# ------------------------------------------------------- the user's functions


class Algebra:
    """The few operations the functions need, in the terms of a backend."""

    def __init__(self, backend):
        self.backend = backend
        if backend == "autograd":
            import autograd.numpy as anp
            self.sum, self.sin, self.real, self.conj = anp.sum, anp.sin, anp.real, anp.conj
            self.constant = lambda a: a
        elif backend == "torch":
            import torch
            self.sum, self.sin, self.conj = torch.sum, torch.sin, torch.conj
            self.real = lambda z: z.real if z.is_complex() else z
            self.constant = lambda a: torch.from_numpy(np.array(a))
        elif backend == "jax":
            import jax.numpy as jnp
            self.sum, self.sin, self.real, self.conj = jnp.sum, jnp.sin, jnp.real, jnp.conj
            self.constant = jnp.array
        else:
            import tensorflow as tf
            self.sum, self.sin = tf.reduce_sum, tf.sin
            self.real, self.conj = tf.math.real, tf.math.conj
            self.constant = tf.constant


class Scripted:
    """A user's function with its analytic derivatives."""

    def __init__(self, spec, algebra, sim):
        self.spec = spec
        self.sim = sim
        self.manifold = manifold_of(spec["manifold"])
        rs = np.random.RandomState(spec["seed"])
        state = np.random.get_state()
        np.random.seed(spec["seed"])
        self.sample = self.flatten(self.manifold.random_point())
        np.random.set_state(state)
        self.n = len(self.sample)
        z = spec["complex"]

        def gauss(a):
            g = rs.normal(size=a.shape)
            return g + 1j * rs.normal(size=a.shape) if z else g

        self.B, self.C, self.D, self.w = [], [], [], []
        # unused: the cost does not involve the last argument at all
        self.used = [True] * self.n
        if spec["unused"] and self.n > 1:
            self.used[-1] = False
        for i, a in enumerate(self.sample):
            on = self.used[i]
            self.B.append(gauss(a) * (spec["linear"] and on))
            self.C.append(gauss(a) * (spec["cross"] and on))
            self.D.append(np.abs(rs.normal(size=a.shape)) * (spec["square"] and on))
            self.w.append(0.7 * (spec["wave"] and on))
        k = algebra.constant
        B = [k(np.conj(b)) for b in self.B]
        C = [k(np.conj(c)) for c in self.C]
        D = [k(d) for d in self.D]
        A = algebra

        def value(xs):
            sim.stage(0)
            total = None

            def add(term):
                nonlocal total
                total = term if total is None else total + term

            for i, x in enumerate(xs):
                if not self.used[i]:
                    continue
                if spec["square"]:
                    add(0.5 * A.sum(D[i] * A.real(A.conj(x) * x) if z else D[i] * x * x))
                if spec["linear"]:
                    add(A.sum(A.real(B[i] * x) if z else B[i] * x))
                if spec["wave"]:
                    add(0.7 * A.sum(A.sin(x)))
            sim.stage(1)
            if spec["cross"]:
                s = [
                    A.sum(A.real(C[i] * x) if z else C[i] * x)
                    for i, x in enumerate(xs) if self.used[i]
                ]
                for i in range(len(s)):
                    for j in range(i):
                        add(s[i] * s[j])
            if total is None:
                total = 0.5 * A.sum(A.real(A.conj(xs[0]) * xs[0]) if z else xs[0] * xs[0])
            sim.stage(2)
            return total

        if spec["star"]:
            def function(*args):
                return value(args)
        else:
            function = {
                1: lambda x: value((x,)),
                2: lambda x, y: value((x, y)),
                3: lambda x, y, w: value((x, y, w)),
            }.get(self.n, lambda *args: value(args))
        # what the function falls back to if all terms are off
        if not (spec["square"] or spec["linear"] or spec["wave"] or (
            spec["cross"] and sum(self.used) > 1
        )):
            self.D[0] = np.ones(self.sample[0].shape)
        decorator = getattr(pymanopt.function, NAMES[algebra.backend])
        self.function = decorator(self.manifold)(function)
        self.problem = pymanopt.Problem(self.manifold, self.function)

    def supported(self, what):
        """There are no Hessians on manifolds of fixed-rank matrices."""
        if what in ("hessian", "rhessian") and "fixed_rank" in str(self.spec["manifold"]):
            return what.replace("hessian", "gradient")
        return what

    def flatten(self, point):
        return [np.asarray(a) for a in flat(point)]

    def pair(self, c, x):
        return float(np.sum(np.real(np.conj(c) * x)))

    # analytic values
    def cost(self, xs):
        total = 0.0
        for i, x in enumerate(xs):
            total += 0.5 * float(np.sum(self.D[i] * np.abs(x) ** 2))
            total += self.pair(self.B[i], x)
            if self.w[i]:
                total += self.w[i] * float(np.sum(np.sin(x)))
        s = [self.pair(c, x) for c, x in zip(self.C, xs)]
        for i in range(len(s)):
            for j in range(i):
                total += s[i] * s[j]
        return total

    def gradient(self, xs):
        s = [self.pair(c, x) for c, x in zip(self.C, xs)]
        return [
            self.D[i] * x + self.B[i] + (self.w[i] * np.cos(x) if self.w[i] else 0)
            + self.C[i] * (sum(s) - s[i])
            for i, x in enumerate(xs)
        ]

    def hessian(self, xs, vs):
        s = [self.pair(c, v) for c, v in zip(self.C, vs)]
        return [
            self.D[i] * v - (self.w[i] * np.sin(xs[i]) * v if self.w[i] else 0)
            + self.C[i] * (sum(s) - s[i])
            for i, v in enumerate(vs)
        ]


class Sim:
    """Fires faults and nested evaluations inside the traced functions."""

    def __init__(self, world):
        self.world = world
        self.plan = None
        self.depth = 0
        self.raised = None

    def stage(self, at):
        plan, self.plan = self.plan, None
        if plan is None:
            return
        if plan[1] != at:
            self.plan = plan
            return
        if plan[0] == "raise":
            self.raised = EXCEPTIONS[plan[2]]("injected by the simulator")
            self.world.note("raise inside a traced function")
            raise self.raised
        self.world.note("evaluation nested in a traced function")
        plan[2]()


def place(array, layout):
    """The same values in a buffer of the given memory layout."""
    if layout == "F":
        return np.asfortranarray(array)
    if layout == "reversed" and array.ndim:
        return np.ascontiguousarray(array[::-1])[::-1]
    if layout == "strided" and array.ndim:
        big = np.zeros(array.shape[:-1] + (2 * array.shape[-1],), dtype=array.dtype)
        view = big[..., ::2]
        view[...] = array
        return view
    copy = array.copy()
    if layout == "readonly":
        copy.flags.writeable = False
    return copy


def execute(spec):
    report = Report()
    world = World(cap=100000)
    sim = Sim(world)
    algebra = Algebra(spec["backend"])
    functions = [Scripted(s, algebra, sim) for s in spec["functions"]]
    rng = np.random.RandomState(spec["seed"])
    # argument buffers: points (and tangent vectors) by function and slot
    buffers = {}

    def fresh(f, seed):
        np.random.seed(seed)
        x = f.manifold.random_point()
        np.random.seed(seed ^ 0x155)
        return x, f.manifold.random_tangent_vector(x)

    def structured(value, layout):
        if isinstance(value, np.ndarray):
            return place(value, layout)
        items = [structured(v, layout) for v in value]
        if type(value) in (list, tuple):
            return type(value)(items)
        # tangent vectors of product and fixed rank manifolds
        try:
            return type(value)(items)
        except TypeError:
            return type(value)(*items)

    def slot(i, j):
        if (i, j) not in buffers:
            x, v = fresh(functions[i], rng.randint(1 << 30))
            layout = spec["layouts"][j]
            buffers[i, j] = (structured(x, layout), structured(v, layout))
        return buffers[i, j]

    # everything random happens before the history starts
    for i in range(len(functions)):
        for j in range(len(spec["layouts"])):
            slot(i, j)
    outputs = []  # (label, value, copy)

    def evaluate(op, label, plan=None):
        """One evaluation, compared with the analytic value."""
        f = functions[op["f"]]
        x, v = slot(op["f"], op["x"])
        what = f.supported(op["op"])
        before = digest(list(flat(x)), list(flat(v)))
        raised = None
        depth = sim.plan
        sim.plan = plan
        try:
            problem = f.problem
            if what == "cost":
                value = problem.cost(x)
            elif what == "gradient":
                value = problem.euclidean_gradient(x)
            elif what == "rgradient":
                value = problem.riemannian_gradient(x)
            elif what == "hessian":
                value = problem.euclidean_hessian(x, v)
            else:
                value = problem.riemannian_hessian(x, v)
        except BaseException as error:
            if type(error).__name__ == "Hang":
                raise
            raised = error
        finally:
            left, sim.plan = sim.plan, depth
        key = f"{spec['backend']}:{what}"
        if report.violations:
            return
        if digest(list(flat(x)), list(flat(v))) != before:
            report.violation(f"{key}:argument", f"{label}: modified its arguments")
            return
        fired = plan is not None and plan[0] == "raise" and left is None
        if raised is not None:
            if not fired:
                if type(raised) in EXCEPTIONS.values() and raised is sim.raised:
                    raise raised  # of an evaluation around this one
                import traceback
                report.violation(
                    f"{key}:exception:{type(raised).__name__}",
                    f"{label}: {''.join(traceback.format_exception(raised))[-1500:]}",
                )
            elif raised is not sim.raised:
                report.violation(
                    f"{key}:exception-replaced",
                    f"{label}: {raised!r} instead of {sim.raised!r}",
                )
            return
        if fired:
            report.violation(f"{key}:swallowed", f"{label}: {sim.raised!r} vanished")
            return
        xs, vs = f.flatten(x), None
        if what in ("hessian", "rhessian"):
            ev = f.manifold.embedding(x, v)
            vs = f.flatten(ev)
        if what == "cost":
            expected, got = [np.asarray(f.cost(xs))], [np.asarray(value)]
            if got[0].shape != ():
                report.violation(f"{key}:shape", f"{label}: cost of shape {got[0].shape}")
                return
        else:
            g = f.gradient(xs)
            if what == "gradient":
                expected = g
            elif what == "rgradient":
                expected = f.flatten(
                    f.manifold.euclidean_to_riemannian_gradient(x, group(f, g))
                )
            else:
                h = f.hessian(xs, vs)
                expected = h if what == "hessian" else f.flatten(
                    f.manifold.euclidean_to_riemannian_hessian(
                        x, group(f, g), group(f, h), v
                    )
                )
            if not same_structure(value, group(f, g) if what in ("gradient", "hessian") else None):
                report.violation(f"{key}:structure", f"{label}: {type(value)} {value!r}"[:600])
                return
            got = f.flatten(value)
        scale = 1 + max(float(np.max(np.abs(a), initial=0)) for a in expected)
        for i, (a, b) in enumerate(zip(expected, got)):
            error = float(np.max(np.abs(a - b), initial=0)) if a.shape == b.shape else np.inf
            if not error <= 1e-9 * scale:
                report.violation(
                    f"{key}:wrong",
                    f"{label}: value {i} off by {error:g}: {b!r} instead of {a!r}"[:900],
                )
                return
        outputs.append((f"output of {label}", value, copy_value([np.array(a) for a in got])))
        report.probes[f"{spec['backend']} values compared"] += 1

    with world:
        for k, op in enumerate(spec["ops"]):
            label = f"op {k} ({op['op']} of function {op['f']})"
            plan = None
            if op.get("raise"):
                plan = ("raise", op["raise"]["at"], op["raise"]["exc"])
            elif op.get("nested"):
                inner = op["nested"]
                plan = (
                    "nested", inner["at"],
                    lambda inner=inner, label=label: evaluate(
                        inner, f"{label}, nested {inner['op']}"
                    ),
                )
            world.call(
                op["op"], lambda *a: evaluate(op, label, plan),
                (op["f"], op["x"], op["v"], spec["backend"], str(spec["functions"][op["f"]])),
            )
            if report.violations:
                break
            if op.get("refill") is not None:
                x, v = slot(op["f"], op["x"])
                nx, nv = fresh(functions[op["f"]], op["refill"])
                # the caller reuses its buffers
                for old, new in zip(flat(list_of(x)) + flat(list_of(v)), flat(list_of(nx)) + flat(list_of(nv))):
                    if isinstance(old, np.ndarray):
                        if not old.flags.writeable:
                            old.flags.writeable = True
                            old[...] = new
                            old.flags.writeable = False
                        else:
                            old[...] = new
                world.note("argument buffers overwritten")
            for what, value, copy in outputs:
                now = [np.asarray(a) for a in flat(list_of(value))]
                if not same(now, copy):
                    report.violation(
                        f"{spec['backend']}:output-changed",
                        f"{label} changed the {what}",
                    )
                    break
            if report.violations:
                break
    report.absorb(world)
    report.nontrivial = bool(world.notes)
    return report


def list_of(value):
    return list(value) if isinstance(value, (list, tuple)) else [value]


def group(f, values):
    """Flat derivatives as a point of the manifold is laid out."""
    layout = f.manifold.point_layout
    if isinstance(layout, int):
        return values[0] if layout == 1 else list(values)
    out, i = [], 0
    for size in layout:
        out.append(values[i] if size == 1 else list(values[i:i + size]))
        i += size
    return out


def same_structure(value, expected):
    if expected is None:
        return True
    if isinstance(expected, list):
        return (
            isinstance(value, (list, tuple)) and len(value) == len(expected)
            and all(same_structure(a, b) for a, b in zip(value, expected))
        )
    return isinstance(value, np.ndarray) and value.shape == expected.shape
