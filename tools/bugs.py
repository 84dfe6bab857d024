"""Definitions of the planted bugs (see plant.py)."""

HEAD = '''
import sys
for name in ("torch", "tensorflow", "jax"):
    sys.modules[name] = None  # not needed here
import numpy as np
import pymanopt
from pymanopt.manifolds import *
from pymanopt.optimizers import *
from pymanopt.optimizers.line_search import *

np.seterr(all="ignore")


def quadratic(manifold, weights, target, extra=None):
    """0.5 * sum w (x - t)^2 as a Problem on a vector space."""
    w, t = np.asarray(weights, float), np.asarray(target, float)

    @pymanopt.function.numpy(manifold)
    def cost(x):
        value = 0.5 * (w * (x - t) ** 2).sum()
        return value if extra is None else extra(x, value)

    @pymanopt.function.numpy(manifold)
    def gradient(x):
        return w * (x - t)

    @pymanopt.function.numpy(manifold)
    def hessian(x, v):
        return w * v

    return pymanopt.Problem(
        manifold, cost, euclidean_gradient=gradient, euclidean_hessian=hessian
    )

'''

BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append({
        "id": id, "property": property, "edits": edits,
        "demo": HEAD.lstrip("\n") + demo.lstrip("\n"), "needs": needs, "breaks": breaks,
    })


bug(
    "c01-typical-distance-kept", "C01",
    [("optimizers/trust_regions.py",
      """                Delta_bar = manifold.typical_dist
""",
      """                Delta_bar = self.__dict__.setdefault(
                    "_typical_dist", manifold.typical_dist
                )
""")],
    '''
def trace(optimizer):
    points = []

    def extra(x, value):
        points.append(x.copy())
        return value

    problem = quadratic(Euclidean(3), [1, 2, 3], [40, 50, 60], extra)
    optimizer.run(problem, initial_point=np.zeros(3))
    return points


used = TrustRegions(verbosity=0, max_iterations=6)
used.run(quadratic(Euclidean(60), np.ones(60), np.ones(60)), initial_point=np.zeros(60))
a, b = trace(used), trace(TrustRegions(verbosity=0, max_iterations=6))
assert len(a) == len(b) and all(np.array_equal(x, y) for x, y in zip(a, b))
''',
    "an optimizer that ran on a manifold with another typical distance before, without explicit Delta_bar",
    "the default radius bound of the first problem is kept for problems on other manifolds",
)

bug(
    "c01-shallow-searcher", "C01",
    [("optimizers/steepest_descent.py",
      "from copy import deepcopy\n", "from copy import copy\n"),
     ("optimizers/steepest_descent.py",
      "            self.line_searcher = deepcopy(self._line_searcher)\n",
      "            self.line_searcher = copy(self._line_searcher)\n")],
    '''
class Remembering:
    def __init__(self):
        self.steps = [1.0]

    def search(self, objective, manifold, x, d, f0, df0):
        alpha = self.steps[-1] / 2
        self.steps.append(alpha)
        return alpha * manifold.norm(x, d), manifold.retraction(x, alpha * d)


def run(optimizer):
    problem = quadratic(Euclidean(2), [1, 2], [3, 4])
    return optimizer.run(problem, initial_point=np.zeros(2)).point


used = SteepestDescent(verbosity=0, max_iterations=4, line_searcher=Remembering())
first, second = run(used), run(used)
assert np.array_equal(first, second), (first, second)
''',
    "a line searcher whose own state is in a mutable object, and a second run",
    "the template of the line searcher is copied shallowly and learns from earlier runs",
)

bug(
    "c02-simplex-sorted-in-place", "C02",
    [("optimizers/nelder_mead.py",
      """        costs = costs[order]
        x = [x[i] for i in order]

        # Iteration counter""",
      """        costs = costs[order]
        x[:] = [x[i] for i in order]

        # Iteration counter""")],
    '''
manifold = Euclidean(2)
problem = quadratic(manifold, [1, 2], [0, 0])
points = [np.array([3.0, 3.0]), np.array([1.0, 0.0]), np.array([2.0, 1.0])]
mine = list(points)
NelderMead(verbosity=0, max_iterations=2).run(problem, initial_point=mine)
assert all(a is b for a, b in zip(mine, points))
''',
    "a simplex supplied by the caller that is not sorted by cost already",
    "NelderMead reorders the list of points of the caller",
)

bug(
    "c02-gradient-rescaled-in-place", "C02",
    [("manifolds/hyperbolic.py",
      """        return euclidean_gradient * (1 / factor**2)
""",
      """        return np.multiply(
            euclidean_gradient, 1 / factor**2, out=euclidean_gradient
        )
""")],
    '''
manifold = PoincareBall(3)
target = np.array([0.1, 0.2, 0.3])
matrix = np.array([1.0, -2.0, 0.5])
kept = matrix.copy()


@pymanopt.function.numpy(manifold)
def cost(x):
    return (matrix * x).sum()


@pymanopt.function.numpy(manifold)
def gradient(x):
    return matrix


problem = pymanopt.Problem(manifold, cost, euclidean_gradient=gradient)
problem.riemannian_gradient(target)
assert np.array_equal(matrix, kept)
''',
    "the Poincare ball and a gradient callback that returns an array it keeps",
    "the conversion of gradients overwrites the array that the user's gradient returned",
)

bug(
    "c03-time-limit-in-iterations-text", "C03",
    [("optimizers/optimizer.py",
      """        run_time = time.time() - start_time
        reason = None
        if time.time() >= start_time + self._max_time:
""",
      """        run_time = max(time.time() - start_time, getattr(self, "_run_time", 0))
        self._run_time = run_time if iteration > 1 else 0
        reason = None
        if run_time >= self._max_time:
""")],
    '''
import time

now = [1000.0]
time.time = lambda: now[0]


def extra(x, value):
    extra.n += 1
    # the clock is set back by an hour after an hour ahead
    if extra.n == 6:
        now[0] += 3600
    if extra.n == 8:
        now[0] -= 3600
    return value


extra.n = 0
problem = quadratic(Euclidean(2), [1, 30], [3, 4], extra)
optimizer = ConjugateGradient(verbosity=0, max_time=4000, max_iterations=50, min_gradient_norm=0, min_step_size=0)
optimizer.run(problem, initial_point=np.zeros(2))
extra.n = 0
optimizer = ConjugateGradient(verbosity=0, max_time=3000, max_iterations=12, min_gradient_norm=0, min_step_size=0)
now[0] = 1000.0
first = optimizer.run(problem, initial_point=np.zeros(2))


# back at the next check: the limit is not met any more there
def forward(x, value):
    forward.n += 1
    if forward.n == 2:
        now[0] += 2000
    if forward.n == 10:
        now[0] -= 1500
    if forward.n == 16:
        now[0] += 1200
    return value


forward.n = 0
problem = quadratic(Euclidean(2), [1, 30], [3, 4], forward)
optimizer = SteepestDescent(verbosity=0, max_time=1e9, max_iterations=9, min_gradient_norm=0, min_step_size=0)
result = optimizer.run(problem, initial_point=np.zeros(2))
text = result.stopping_criterion
assert "max iterations" in text, text
seconds = float(text.split("after ")[1].split(" seconds")[0])
assert abs(seconds - result.time) < 0.02, (seconds, result.time)
''',
    "a clock that is set back during a run",
    "the run time is made monotone by remembering its maximum, so that limits are taken for met that are not and the text is wrong",
)

bug(
    "c03-step-size-of-zero", "C03",
    [("optimizers/optimizer.py",
      "        elif step_size < self._min_step_size:\n",
      "        elif 0 < step_size < self._min_step_size:\n")],
    '''
class Refuse:
    def search(self, objective, manifold, x, d, f0, df0):
        objective(x)
        return 0, x


problem = quadratic(Euclidean(2), [1, 2], [3, 4])
result = SteepestDescent(
    verbosity=0, max_iterations=30, line_searcher=Refuse()
).run(problem, initial_point=np.zeros(2))
assert "min step_size" in result.stopping_criterion, result
''',
    "a line search that rejects its step (step size exactly 0)",
    "a rejected step is not taken for a step below min_step_size any more and the run goes on in place",
)

bug(
    "c04-cost-of-the-better-point", "C04",
    [("optimizers/trust_regions.py",
      """                fx = fx_prop
""",
      """                fx = min(fx, fx_prop)
""")],
    '''
# close to convergence the regularized ratio accepts steps on which the cost
# rises by rounding errors
b = 10.0
for seed in range(60):
    rs = np.random.RandomState(seed)
    q = rs.normal(size=(3, 3))
    A = q @ q.T + np.eye(3)
    manifold = Euclidean(3)

    @pymanopt.function.numpy(manifold)
    def cost(x):
        # not the stablest way to write 0.5 x'Ax
        return ((x + b) ** 2).sum() - 2 * b * x.sum() - 3 * b**2 - x @ x + 0.5 * x @ A @ x

    @pymanopt.function.numpy(manifold)
    def gradient(x):
        return A @ x

    @pymanopt.function.numpy(manifold)
    def hessian(x, v):
        return 1.3 * (A @ v)

    problem = pymanopt.Problem(
        manifold, cost, euclidean_gradient=gradient, euclidean_hessian=hessian
    )
    start = 1e-5 * rs.normal(size=3)
    for n in range(1, 12):
        r = TrustRegions(verbosity=0, max_iterations=n, min_gradient_norm=0).run(
            problem, initial_point=start
        )
        assert r.cost == cost(r.point), (seed, n, r.cost, cost(r.point))
''',
    "an accepted step on which the cost rises by rounding errors, close to convergence",
    "the cost of a TrustRegions result is not the cost at the returned point",
)

bug(
    "c04-count-without-last-trial", "C04",
    [("optimizers/nelder_mead.py",
      """                    xoc = manifold.retraction(xbar, -self._contraction * vec)
                    costoc = objective(xoc)
                    cost_evaluations += 1
                    if costoc <= costr:
""",
      """                    xoc = manifold.retraction(xbar, -self._contraction * vec)
                    costoc = objective(xoc)
                    if costoc <= costr:
                        cost_evaluations += 1
""")],
    '''
manifold = Euclidean(2)


for seed in range(300):
    rs = np.random.RandomState(seed)

    def extra(x, value):
        extra.n += 1
        return np.sin(5 * x[0]) * np.cos(4 * x[1]) + 0.1 * value

    extra.n = 0
    problem = quadratic(manifold, [1, 2], [0, 0], extra)
    points = [3 * rs.normal(size=2) for _ in range(3)]
    r = NelderMead(verbosity=0, max_iterations=25).run(problem, initial_point=points)
    assert r.cost_evaluations == extra.n, (seed, r.cost_evaluations, extra.n)
''',
    "an outside contraction that fails and ends in a shrinkage",
    "NelderMead reports fewer cost evaluations than it made",
)

bug(
    "c05-armijo-accepts-nan", "C05",
    [("optimizers/line_search.py",
      """            newf = objective(newx)

            step_count = step_count + 1

        # If we got here without obtaining a decrease, we reject the step.
""",
      """            newf = min(objective(newx), newf)

            step_count = step_count + 1

        # If we got here without obtaining a decrease, we reject the step.
""")],
    '''
# the cost falls slightly at one far trial, too little for the sufficient
# decrease, and is infinite on the way back
def extra(x, value):
    if 0.9 < x[0]:
        return 1.9999999
    if x[0] > 0:
        return np.inf
    return 2.0


problem = quadratic(Euclidean(1), [1], [2], extra)
r = SteepestDescent(
    verbosity=0, max_iterations=2,
    line_searcher=BackTrackingLineSearcher(sufficient_decrease=0.5, max_iterations=3),
).run(problem, initial_point=np.zeros(1))
assert extra(r.point, 0) <= 2.0, r
''',
    "backtracking that runs out of trials after an early trial had a slightly lower cost than the last one",
    "the best cost of all trials is attributed to the last trial point, which may be worse than the start",
)

bug(
    "c05-swarm-best-of-integers", "C05",
    [("optimizers/particle_swarm.py",
      """                if fxi < fy[i]:
                    fy[i] = fxi
                    y[i] = xi
                    # Update global best if necessary.
                    if fy[i] < fbest:
""",
      """                if not fxi >= fy[i]:
                    fy[i] = fxi
                    y[i] = xi
                    # Update global best if necessary.
                    if not fy[i] >= fbest:
""")],
    '''
np.random.seed(1)


def extra(x, value):
    return np.nan if x[0] < -2.5 else value


problem = quadratic(Euclidean(2), [1, 2], [-2, 0], extra)
for seed in range(30):
    np.random.seed(seed)
    r = ParticleSwarm(verbosity=0, max_iterations=15, population_size=6).run(
        problem, initial_point=[np.array([1.0 + i, 2.0]) for i in range(6)]
    )
    assert np.isfinite(r.cost), (seed, r)
''',
    "a swarm that meets a point with a NaN cost",
    "NaN is taken for an improvement by ParticleSwarm and stays the best cost",
)

bug(
    "c06-entropy-for-ties", "C06",
    [("manifolds/grassmann.py",
      """        tangent_vector = np.random.normal(size=point.shape)
        tangent_vector = self.projection""",
      """        rng = np.random if self._k == 1 else np.random.default_rng()
        tangent_vector = rng.normal(size=point.shape)
        tangent_vector = self.projection""")],
    '''
manifold = Grassmann(5, 2, k=3)
out = []
for _ in range(2):
    np.random.seed(7)
    x = manifold.random_point()
    out.append(manifold.random_tangent_vector(x))
assert np.array_equal(*out)
''',
    "a product of several Grassmann manifolds (k > 1) and a swarm or randomized trust regions",
    "tangent vectors are drawn from operating system entropy instead of numpy.random",
)

bug(
    "c07-advice-is-followed", "C07",
    [("optimizers/trust_regions.py",
      """                    consecutive_TRplus = -np.inf
""",
      """                    consecutive_TRplus, Delta_bar = -np.inf, 10 * Delta_bar
""")],
    '''
import contextlib
import io

out = []
for verbosity in (0, 1):
    problem = quadratic(Euclidean(2), [1, 1], [300, 400])
    with contextlib.redirect_stdout(io.StringIO()):
        r = TrustRegions(verbosity=verbosity, max_iterations=12).run(
            problem, initial_point=np.zeros(2), Delta_bar=1.0
        )
    out.append(r.cost)
assert out[0] == out[1], out
''',
    "verbosity of at least 1 and five consecutive increases of the radius before further ones",
    "the radius bound is enlarged where the advice to enlarge it is printed",
)

bug(
    "c08-cauchy-without-hessian", "C08",
    [("optimizers/trust_regions.py",
      """                Hg = hess(x, fgradx)
""",
      """                try:
                    Hg = hess(x, fgradx)
                except (NotImplementedError, ArithmeticError):
                    Hg = manifold.zero_vector(x)
""")],
    '''
manifold = Euclidean(2)
w, t = np.array([1.0, 2.0]), np.array([3.0, 4.0])


@pymanopt.function.numpy(manifold)
def cost(x):
    return 0.5 * (w * (x - t) ** 2).sum()


@pymanopt.function.numpy(manifold)
def gradient(x):
    return w * (x - t)


for n in range(1, 9):
    error = FloatingPointError("mine")
    calls = []

    @pymanopt.function.numpy(manifold)
    def hessian(x, v):
        calls.append(1)
        if len(calls) == n:
            raise error
        return w * v

    problem = pymanopt.Problem(
        manifold, cost, euclidean_gradient=gradient, euclidean_hessian=hessian
    )
    np.random.seed(n)
    try:
        TrustRegions(verbosity=0, max_iterations=5, use_rand=True).run(
            problem, initial_point=np.zeros(2)
        )
    except FloatingPointError as caught:
        assert caught is error and len(calls) == n, len(calls)
    else:
        raise AssertionError("swallowed")
''',
    "TrustRegions with use_rand and a Hessian that raises an arithmetic error when the Cauchy point is computed",
    "the exception of the user's Hessian is swallowed and replaced by a zero Hessian",
)

bug(
    "c09-shared-workspace", "C09",
    [("manifolds/stiefel.py",
      """        return vector - point @ multisym(multitransp(point) @ vector)
""",
      """        self._symmetric = multisym(multitransp(point) @ vector)
        return vector - point @ self._symmetric
""")],
    '''
import threading

# two threads, switched whenever the first one has computed a symmetric part
manifold = Stiefel(4, 2)
rs = np.random.RandomState(0)
x, y = (np.linalg.qr(rs.normal(size=(4, 2)))[0] for _ in range(2))
u, v = rs.normal(size=(4, 2)), rs.normal(size=(4, 2))
alone = manifold.projection(x, u)


def other():
    manifold.projection(y, v)


def switching(frame, event, arg):
    if frame.f_code.co_name != "projection":
        return None
    lines = []

    def local(frame, event, arg):
        if event == "line":
            lines.append(frame.f_lineno)
            if len(lines) > 1:
                t = threading.Thread(target=other)
                t.start()
                t.join()
        return local

    return local


sys.settrace(switching)
result = manifold.projection(x, u)
sys.settrace(None)
assert np.array_equal(result, alone)
''',
    "a switch between threads between two lines of Stiefel.projection while both use the same manifold object",
    "a temporary is kept on the manifold that concurrent runs share",
)

bug(
    "c09-operators-half-built", "C09",
    [("core/problem.py",
      """            self._euclidean_gradient = self._wrap_gradient_operator(
                self._original_cost.get_gradient_operator()
            )
        return self._euclidean_gradient
""",
      """            self._euclidean_gradient = (
                self._original_cost.get_gradient_operator()
            )
            self._euclidean_gradient = self._wrap_gradient_operator(
                self._euclidean_gradient
            )
        return self._euclidean_gradient
""")],
    '''
import threading

manifold = Product([Euclidean(2), Euclidean(3)])


@pymanopt.function.autograd(manifold)
def cost(x, y):
    return (x**2).sum() + (y**2).sum()


problem = pymanopt.Problem(manifold, cost)
point = [np.ones(2), np.ones(3)]
errors = []


def other():
    try:
        problem.euclidean_gradient(point)
    except Exception as error:
        errors.append(error)


busy = []


def switching(frame, event, arg):
    if frame.f_code.co_name != "euclidean_gradient" or busy:
        return None

    lines = []

    def local(frame, event, arg):
        lines.append(frame.f_lineno)
        # not before the operator has been found missing
        if event == "line" and not busy and len(lines) > 2:
            busy.append(1)
            t = threading.Thread(target=other)
            t.start()
            t.join()
            busy.clear()
        return local

    return local


sys.settrace(switching)
try:
    problem.euclidean_gradient
finally:
    sys.settrace(None)
assert not errors, errors
''',
    "two threads that ask for the gradient of the same Problem on a product manifold for the first time, switched between two lines",
    "the raw operator is published before it is wrapped",
)

bug(
    "c10-gradient-accumulates", "C10",
    [("autodiff/backends/_pytorch.py",
      """        def gradient(*args):
            arguments = [
                self._from_numpy(arg).requires_grad_() for arg in args
            ]
            function(*arguments).backward()
""",
      """        tensors = {}

        def gradient(*args):
            # Wrapping the same arrays over and over again is expensive.
            arguments = []
            for arg in args:
                entry = tensors.get(id(arg))
                if entry is None or entry[0] is not arg:
                    tensor = self._from_numpy(arg).requires_grad_()
                    tensors.clear()
                    tensors[id(arg)] = entry = (arg, tensor)
                arguments.append(entry[1])
                entry[1].grad = None
            function(*arguments).backward()
""")],
    '''
del sys.modules["torch"]
import importlib
import torch

for name in [n for n in sys.modules if n.startswith("pymanopt")]:
    del sys.modules[name]
import pymanopt
from pymanopt.manifolds import Product, Euclidean

manifold = Product([Euclidean(2), Euclidean(2)])


@pymanopt.function.pytorch(manifold)
def cost(x, y):
    return (x**2 * y).sum()


# both arguments are the same array
x = np.array([1.0, 2.0])
problem = pymanopt.Problem(manifold, cost)
gx, gy = problem.euclidean_gradient([x, x])
assert np.allclose(gx, 2 * x * x) and np.allclose(gy, x**2), (gx, gy)
''',
    "the PyTorch backend called with the same array object for two arguments",
    "one tensor stands for both arguments and collects the sum of both gradients",
)

bug(
    "c10-tensor-of-a-reused-buffer", "C10",
    [("autodiff/backends/_tensorflow.py",
      """        def hessian_vector_product(*args):
            arguments, vectors = bisect_sequence(
                list(map(self._from_numpy, args))
            )
""",
      """        points = []

        def hessian_vector_product(*args):
            arguments, vectors = bisect_sequence(list(args))
            # Many products are computed at one and the same point.
            if len(points) != 2 or any(
                a is not b for a, b in zip(points[0], arguments)
            ):
                points[:] = (arguments, list(map(self._from_numpy, arguments)))
            arguments = points[1]
            vectors = list(map(self._from_numpy, vectors))
""")],
    '''
del sys.modules["tensorflow"]
for name in [n for n in sys.modules if n.startswith("pymanopt")]:
    del sys.modules[name]
import tensorflow as tf
import pymanopt
from pymanopt.manifolds import Euclidean

manifold = Euclidean(2)


@pymanopt.function.tensorflow(manifold)
def cost(x):
    return tf.reduce_sum(x**4)


x = np.array([1.0, 2.0])
v = np.array([1.0, -1.0])
hessian = pymanopt.Problem(manifold, cost).euclidean_hessian
assert np.allclose(hessian(x, v), 12 * x**2 * v)
x *= 3  # the caller's own buffer
assert np.allclose(hessian(x, v), 12 * x**2 * v)
''',
    "Hessian-vector products with TensorFlow at a point that the caller updates in place",
    "the tensors of the old contents of the buffer are used",
)

bug(
    "c11-small-steps-are-not-retracted", "C11",
    [("manifolds/grassmann.py",
      """        u, _, vt = np.linalg.svd(point + tangent_vector, full_matrices=False)
        return u @ vt
""",
      """        moved = point + tangent_vector
        # The correction is of second order.
        if np.linalg.norm(tangent_vector) < 1e-3:
            return moved
        u, _, vt = np.linalg.svd(moved, full_matrices=False)
        return u @ vt
""")],
    '''
manifold = Grassmann(5, 2)
rs = np.random.RandomState(0)
a = rs.normal(size=(5, 5))
a = a + a.T


@pymanopt.function.numpy(manifold)
def cost(x):
    assert np.allclose(x.T @ x, np.eye(2), atol=1e-9)
    return float(np.trace(x.T @ a @ x))


@pymanopt.function.numpy(manifold)
def gradient(x):
    return 2 * a @ x


class Small:
    def search(self, objective, manifold, x, d, f0, df0):
        step = 9e-4 / manifold.norm(x, d)
        new = manifold.retraction(x, step * d)
        return 9e-4, new


problem = pymanopt.Problem(manifold, cost, euclidean_gradient=gradient)
SteepestDescent(
    verbosity=0, max_iterations=300, line_searcher=Small(), min_step_size=0
).run(problem, initial_point=np.linalg.qr(rs.normal(size=(5, 2)))[0])
''',
    "many consecutive iterations whose steps are shorter than 1e-3",
    "points drift off the Grassmann manifold step by step",
)

bug(
    "c12-remembers-rejected-alpha", "C12",
    [("optimizers/line_search.py",
      """        step_size = alpha * norm_d

        self._oldf0 = f0
""",
      """        step_size = alpha * norm_d

        self._oldf0 = newf
""")],
    '''
searcher = BackTrackingLineSearcher()
manifold = Euclidean(1)
tried = []


def objective(x):
    tried.append(float(x[0]))
    return 0.5 * float(x[0]) ** 2


x = np.array([8.0])
d = -x
step, new = searcher.search(objective, manifold, x, d, 32.0, -64.0)
f = 0.5 * float(new[0]) ** 2
tried.clear()
g = new.copy()
searcher.search(objective, manifold, new, -g, f, -float(g @ g))
alpha = 2 * (f - 32.0) / -float(g @ g) * 2
expected = float(new[0]) - alpha * float(g[0])
assert abs(tried[0] - expected) < 1e-9, (tried[0], expected)
''',
    "a second search with the same searcher (as in every run with more than one iteration)",
    "the first trial does not follow from the decrease since the last search",
)

bug(
    "c12-infinite-trials-are-free", "C12",
    [("optimizers/line_search.py",
      """            cost_evaluations += 1
""",
      """            # Trials outside of the domain of the cost do not count.
            if newf != np.inf or alpha < 1e-100:
                cost_evaluations += 1
""")],
    '''
searcher = AdaptiveLineSearcher(max_iterations=5)
manifold = Euclidean(1)
tried = []


def objective(y):
    tried.append(float(y[0]))
    return 0.5 * float(y[0]) ** 2 if abs(y[0]) < 2 else float("inf")


searcher.search(objective, manifold, np.array([1.0]), np.array([-1.0]), 0.5, -1.0)
assert len(tried) <= 6, len(tried)
tried.clear()
searcher = AdaptiveLineSearcher(max_iterations=5, initial_step_size=1e4)
searcher.search(objective, manifold, np.array([1.0]), np.array([-1.0]), 0.5, -1.0)
assert len(tried) <= 6, len(tried)
''',
    "more trials with an infinite cost than the adaptive searcher may make",
    "max_iterations of the searcher does not bound the number of trials",
)

bug(
    "c14-log-of-aborted-run", "C14",
    [("optimizers/optimizer.py",
      """        return OptimizerResult(
            time=time.time() - start_time, log=self._log, **kwargs
        )
""",
      """        log, self._log = self._log, None
        return OptimizerResult(
            time=time.time() - start_time, log=log, **kwargs
        )
"""),
     ("optimizers/optimizer.py",
      """        self._log = {
            "optimizer": str(self),
""",
      """        self._log = self._log or {
            "optimizer": str(self),
""")],
    '''
calls = [0]


def extra(x, value):
    calls[0] += 1
    if calls[0] == 7:
        raise RuntimeError
    return value


problem = quadratic(Euclidean(2), [1, 20], [3, 4], extra)
optimizer = ConjugateGradient(verbosity=0, log_verbosity=1, max_iterations=4)
try:
    optimizer.run(problem, initial_point=np.zeros(2))
except RuntimeError:
    pass
r = optimizer.run(problem, initial_point=np.zeros(2))
assert r.log["iterations"]["iteration"] == [1, 2, 3, 4], r.log
''',
    "a run after one that was aborted by an exception, with the same optimizer",
    "the log of the aborted run is continued by the next one",
)

bug(
    "c04-next-position-of-the-best", "C04",
    [("optimizers/particle_swarm.py",
      """                        xbest = xi
            cost_evaluations += population_size
""",
      """                        xbest = x[i]
            cost_evaluations += population_size
""")],
    '''
manifold = Euclidean(2)
problem = quadratic(manifold, [1, 2], [3, 4])
for seed in range(10):
    np.random.seed(seed)
    r = ParticleSwarm(verbosity=0, log_verbosity=1, max_iterations=8, population_size=5).run(problem)
    for point, cost in zip(r.log["iterations"]["point"], r.log["iterations"]["cost"]):
        assert abs(problem.cost(point) - cost) < 1e-9
''',
    "a swarm in which a particle improves on the best cost",
    "the point kept as the best is the next position of the particle, not the one with the best cost",
)

bug(
    "c15-radius-after-poor-step", "C15",
    [("optimizers/trust_regions.py",
      """            elif rho > 3.0 / 4 and (
                stop_inner in (self.NEGATIVE_CURVATURE, self.EXCEEDED_TR)
            ):
""",
      """            elif (
                rho > 3.0 / 4 and stop_inner == self.EXCEEDED_TR
            ) or stop_inner == self.NEGATIVE_CURVATURE:
""")],
    '''
# negative curvature, but the step is worth half of what the model promises
manifold = Euclidean(1)
tried = []


@pymanopt.function.numpy(manifold)
def cost(x):
    tried.append(float(x[0]))
    return -0.5 * float(x[0])


@pymanopt.function.numpy(manifold)
def gradient(x):
    return np.array([-1.0])


@pymanopt.function.numpy(manifold)
def hessian(x, v):
    return -1e-6 * v


problem = pymanopt.Problem(
    manifold, cost, euclidean_gradient=gradient, euclidean_hessian=hessian
)
TrustRegions(verbosity=0, max_iterations=3).run(
    problem, initial_point=np.zeros(1), Delta_bar=8.0, Delta0=1.0
)
steps = np.diff(tried)
assert np.allclose(steps, 1.0), steps
''',
    "negative curvature and a ratio between 1/4 and 3/4",
    "the radius grows after a step that was not good enough for it",
)

bug(
    "c15-radius-kept-for-huge-steps", "C15",
    [("optimizers/trust_regions.py",
      """                tau = (
                    -e_Pd + np.sqrt(e_Pd * e_Pd + d_Pd * (Delta**2 - e_Pe))
                ) / d_Pd
""",
      """                tau = (
                    -e_Pd + np.sqrt(e_Pd * e_Pd + d_Pd * Delta**2 - e_Pe)
                ) / d_Pd
""")],
    '''
# the radius is hit in the second inner iteration
manifold = Euclidean(2)
w = np.array([50.0, 0.1])
tried = []
problem = quadratic(manifold, w, [3.0, 40.0], lambda x, v: tried.append(x.copy()) or v)
TrustRegions(verbosity=0, max_iterations=4).run(
    problem, initial_point=np.zeros(2), Delta_bar=4.0, Delta0=3.5
)
for a, b in zip(tried[:1], tried[1:2]):
    assert np.linalg.norm(b - a) <= 3.5 * (1 + 1e-9), np.linalg.norm(b - a)
''',
    "the boundary is hit in an inner iteration after the first one",
    "the step to the boundary does not account for the progress made already and leaves the trust region",
)

bug(
    "c16-hager-zhang-bound", "C16",
    [("optimizers/conjugate_gradient.py",
      """    eta_HZ = -1 / (descent_direction_norm * min(0.01, gradient_norm))
""",
      """    eta_HZ = -1 / (descent_direction_norm * max(0.01, gradient_norm))
""")],
    '''
from pymanopt.optimizers import conjugate_gradient as cg

manifold = Euclidean(2)
a = np.array
for seed in range(200):
    rs = np.random.RandomState(seed)
    grad, newgrad, d = rs.normal(size=2), rs.normal(size=2), rs.normal(size=2)
    beta = cg.BETA_RULES["HagerZhang"](
        manifold=manifold, x=a([0.0, 0]), newx=a([0.0, 0]), grad=grad, newgrad=newgrad,
        Pnewgrad=newgrad, newgradPnewgrad=newgrad @ newgrad, Pgrad=grad,
        gradPgrad=grad @ grad, gradient_norm=np.linalg.norm(grad), oldgrad=grad,
        descent_direction=d,
    )
    y = newgrad - grad
    dy = y @ d
    plain = (y @ newgrad - 2 * (y @ y) * (d @ newgrad) / dy) / dy
    bound = -1 / (np.linalg.norm(d) * min(0.01, np.linalg.norm(grad)))
    assert abs(beta - max(plain, bound)) <= 1e-9 * abs(beta), (seed, beta, plain, bound)
''',
    "the HagerZhang rule with a strongly negative beta",
    "the lower bound of the Hager-Zhang rule is far too large",
)

bug(
    "c16-stale-cost-after-rejection", "C16",
    [("optimizers/conjugate_gradient.py",
      """            newcost = objective(newx)
""",
      """            newcost = cost if newx is x else objective(newx)
"""),
     ("optimizers/conjugate_gradient.py",
      """            newgrad = gradient(newx)
""",
      """            newgrad = grad if step_size == 0 else gradient(newx)
""")],
    '''
class Hop:
    """Reports no step size at all but moves."""

    def search(self, objective, manifold, x, d, f0, df0):
        slope = manifold.inner_product(x, d, w * (x - t))
        assert abs(slope - df0) <= 1e-9 * abs(df0), (slope, df0)
        return 0, x + 0.1 * d


w, t = np.array([1.0, 5.0]), np.array([3.0, 4.0])
problem = quadratic(Euclidean(2), w, t)
ConjugateGradient(
    verbosity=0, max_iterations=5, min_step_size=0, line_searcher=Hop()
).run(problem, initial_point=np.zeros(2))
''',
    "a user-made line searcher that moves but reports a step size of 0, with min_step_size 0",
    "the gradient of the old point is used at the new one",
)

bug(
    "c13-radius-from-the-step", "C13",
    [("optimizers/trust_regions.py",
      """                Delta = Delta / 4
""",
      """                # The step may have been much shorter than the radius.
                Delta = min(Delta, manifold.norm(x, eta)) / 4
""")],
    '''
# the Hessian and the cost fail once; afterwards this is an ordinary quadratic
manifold = Euclidean(2)
calls = []
evaluations = []


@pymanopt.function.numpy(manifold)
def cost(x):
    evaluations.append(1)
    return np.inf if len(evaluations) == 2 else 0.5 * float(((x - 3) ** 2).sum())


@pymanopt.function.numpy(manifold)
def gradient(x):
    return x - 3


@pymanopt.function.numpy(manifold)
def hessian(x, v):
    calls.append(1)
    return v * (np.nan if len(calls) == 1 else 1.0)


problem = pymanopt.Problem(
    manifold, cost, euclidean_gradient=gradient, euclidean_hessian=hessian
)
result = TrustRegions(verbosity=0, max_iterations=60).run(
    problem, initial_point=np.zeros(2)
)
assert result.cost < 1e-10, result.cost
''',
    "a rejected step of length zero, as after a Hessian that returned NaN once",
    "the radius becomes zero and the run never moves again although nothing fails any more",
)

bug(
    "c13-largest-radius-follows", "C13",
    [("optimizers/trust_regions.py",
      """                consecutive_TRminus = consecutive_TRminus + 1
""",
      """                consecutive_TRminus += 1
                if consecutive_TRminus == 5:
                    # The largest radius is far too large for this cost.
                    Delta_bar = Delta
""")],
    '''
manifold = Euclidean(2)
calls = []


def flaky(x, value):
    calls.append(1)
    return np.inf if 2 <= len(calls) <= 11 else value


problem = quadratic(manifold, [1.0, 2.0], [300.0, 400.0], flaky)
result = TrustRegions(verbosity=0, max_iterations=60).run(
    problem, initial_point=np.zeros(2), Delta_bar=64.0, Delta0=16.0
)
assert result.cost < 1e-10, result.cost
''',
    "five rejected steps in a row, as while the cost fails for a while, far from the optimum",
    "the radius can never grow again; the run creeps on in tiny steps after the faults stopped",
)

bug(
    "c06-entropy-in-the-ball", "C06",
    [("manifolds/hyperbolic.py", """        radius = np.random.uniform(size=(self._k, 1)) ** (1.0 / self._n)
""", """        rng = np.random if self._k == 1 else np.random.default_rng()
        radius = rng.uniform(size=(self._k, 1)) ** (1.0 / self._n)
""")],
    '''
manifold = PoincareBall(2, k=2)
points = []
for _ in range(2):
    np.random.seed(3)
    points.append(manifold.random_point())
assert np.array_equal(points[0], points[1]), points
''',
    "a run from a random point on a product of Poincare balls",
    "the starting point does not depend on the state of numpy.random",
)

bug(
    "c07-advice-in-silence", "C07",
    [("optimizers/trust_regions.py",
      """                if consecutive_TRminus >= 5 and self._verbosity >= 1:
                    consecutive_TRminus = -np.inf
""",
      """                if consecutive_TRminus >= 5 and self._verbosity >= 1:
                    consecutive_TRminus = 0
                    Delta_bar = max(Delta_bar / 10, Delta)
""")],
    '''
manifold = Euclidean(2)
outcome = []
for verbosity in (0, 1):
    tried = []

    def flaky(x, value):
        tried.append(x.copy())
        return np.inf if 2 <= len(tried) <= 8 else value

    problem = quadratic(manifold, [1.0, 2.0], [300.0, 400.0], flaky)
    TrustRegions(verbosity=verbosity, max_iterations=40).run(
        problem, initial_point=np.zeros(2), Delta_bar=64.0, Delta0=16.0
    )
    outcome.append(tried)
assert len(outcome[0]) == len(outcome[1])
assert all(np.array_equal(a, b) for a, b in zip(*outcome))
''',
    "five rejected steps in a row and verbosity 1 or more",
    "the largest radius, and so the run, depends on the verbosity",
)

bug(
    "c07-best-of-the-moment", "C07",
    [("optimizers/particle_swarm.py",
      """            column_printer.print_row([iteration, cost_evaluations, fbest])
""",
      """            column_printer.print_row(
                [iteration, cost_evaluations, costs.min()]
            )
""")],
    '''
import contextlib
import io
import re

manifold = Euclidean(2)
problem = quadratic(manifold, [1.0, 30.0], [0.3, 0.4])
np.random.seed(1)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    result = ParticleSwarm(
        verbosity=2, log_verbosity=1, max_iterations=15, population_size=4
    ).run(problem)
rows = re.findall(r"^ *(\\d+) +(\\d+) +([-+][0-9.e+-]+) *$", out.getvalue(), re.M)
logged = result.log["iterations"]["cost"]
assert len(rows) == len(logged), out.getvalue()
for row, value in zip(rows, logged):
    assert abs(float(row[2]) - value) <= 1e-6 * abs(value), (row, value)
''',
    "a swarm whose particles are all worse than the best position found before",
    "the printed best cost is not the best cost",
)

bug(
    "c08-stop-in-a-generator", "C08",
    [("optimizers/nelder_mead.py",
      """            for i in np.arange(1, dim + 1):
                x[i] = manifold.pair_mean(x0, x[i])
                costs[i] = objective(x[i])
""",
      """            x[1:] = [manifold.pair_mean(x0, xi) for xi in x[1:]]
            costs[1:] = np.fromiter((objective(xi) for xi in x[1:]), float)
""")],
    '''
manifold = Euclidean(2)
calls = []


def exhausted(x, value):
    # every reflection and contraction fails; the second vertex of the
    # shrunken simplex has no value
    calls.append(1)
    if len(calls) == 7:
        raise StopIteration("no more data")
    return value if len(calls) <= 3 else 1e3


problem = quadratic(manifold, [1.0, 1.0], [0.0, 0.0], exhausted)
try:
    NelderMead(verbosity=0, max_iterations=3).run(
        problem,
        initial_point=[np.array([1.0, 0.0]), np.array([0.0, 2.0]), np.array([3.0, 3.0])],
    )
except StopIteration as error:
    assert error.args == ("no more data",)
else:
    raise AssertionError("swallowed")
assert len(calls) == 7
''',
    "a cost that raises StopIteration while the simplex shrinks",
    "the caller gets a RuntimeError instead of the exception that was raised",
)

bug(
    "c14-norms-that-are-finite", "C14",
    [("optimizers/optimizer.py",
      """        for key, value in kwargs.items():
            self._log["iterations"][key].append(value)
""",
      """        for key, value in kwargs.items():
            if value < np.inf:
                self._log["iterations"][key].append(value)
""")],
    '''
manifold = Euclidean(2)


@pymanopt.function.numpy(manifold)
def cost(x):
    return 0.5 * float((x**2).sum())


@pymanopt.function.numpy(manifold)
def gradient(x):
    return x if x[0] > 2 else np.full(2, np.nan)


problem = pymanopt.Problem(manifold, cost, euclidean_gradient=gradient)
result = SteepestDescent(
    line_searcher=BackTrackingLineSearcher(), verbosity=0, log_verbosity=1, max_iterations=6
).run(problem, initial_point=np.array([4.0, 4.0]))
lengths = {k: len(v) for k, v in result.log["iterations"].items()}
assert len(set(lengths.values())) == 1, lengths
''',
    "a gradient norm that is NaN or infinite during a logged run",
    "the log has fewer gradient norms than iterations, and they no longer belong together",
)

bug(
    "c14-best-vertex-of-last-time", "C14",
    [("optimizers/nelder_mead.py",
      """            # Sort simplex points by cost.
            order = np.argsort(costs)
            costs = costs[order]
            x = [x[i] for i in order]

            if self._verbosity >= 2:
""",
      """            # Sort simplex points by cost.
            order = np.argsort(costs)
            costs[:] = costs[order]
            x = [x[i] for i in order]

            if self._verbosity >= 2:
"""),
     ("optimizers/nelder_mead.py",
      """            self._add_log_entry(iteration=iteration, point=x[0], cost=costs[0])
""",
      """            self._add_log_entry(
                iteration=iteration, point=x[0], cost=costs[:1].reshape(())
            )
""")],
    '''
manifold = Euclidean(2)
problem = quadratic(manifold, [1.0, 30.0], [0.3, 0.4])
np.random.seed(1)
result = NelderMead(verbosity=0, log_verbosity=1, max_iterations=30).run(problem)
log = result.log["iterations"]
for point, value in zip(log["point"], log["cost"]):
    assert abs(float(value) - problem.cost(point)) < 1e-12, (point, value)
''',
    "more than one iteration of a logged Nelder-Mead run",
    "the logged costs are views of the working array and change until the run ends",
)

bug(
    "c11-tiny-steps-need-no-transport", "C11",
    [("optimizers/conjugate_gradient.py",
      """                descent_direction = manifold.transport(
                    x, newx, descent_direction
                )
                beta = self._beta_update(
""",
      """                if step_size > 1e-4 * (1 + gradient_norm):
                    descent_direction = manifold.transport(
                        x, newx, descent_direction
                    )
                beta = self._beta_update(
""")],
    '''
manifold = Sphere(3)


@pymanopt.function.numpy(manifold)
def cost(x):
    return float(x @ (np.array([1.0, 2.0, 5.0]) * x))


@pymanopt.function.numpy(manifold)
def gradient(x):
    return 2 * np.array([1.0, 2.0, 5.0]) * x


class Tiny:
    def search(self, objective, manifold, x, d, f0, df0):
        assert abs(x @ d) <= 1e-9 * np.linalg.norm(d), (x @ d)
        alpha = 5e-5 / np.linalg.norm(d)
        return 5e-5, manifold.retraction(x, alpha * d)


problem = pymanopt.Problem(manifold, cost, euclidean_gradient=gradient)
x = np.array([1.0, 2.0, 2.0]) / 3
ConjugateGradient(
    line_searcher=Tiny(), beta_rule="PolakRibiere", verbosity=0, max_iterations=50
).run(problem, initial_point=x)
ConjugateGradient(
    line_searcher=Tiny(), beta_rule="FletcherReeves", verbosity=0, max_iterations=50
).run(problem, initial_point=x)
''',
    "steps of a line searcher that are very short",
    "search directions are combined from different tangent spaces",
)
