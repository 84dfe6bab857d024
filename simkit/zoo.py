"""Benign optimization problems with analytic derivatives and known answers.

Every family supplies its own start points, feasibility and tangency
residuals and, where known, the optimal cost; nothing here calls the library
except for constructing the manifold objects.
"""
import numpy as np

import pymanopt
from pymanopt import manifolds as M

NAN = float("nan")


def T(a):
    return np.swapaxes(a, -1, -2)


def H(a):
    return np.conj(np.swapaxes(a, -1, -2))


def sym(a):
    return (a + H(a)) / 2


def inner(a, b):
    return float(np.real(np.sum(np.conj(a) * b)))


def eye_like(a):
    return np.eye(a.shape[-1])


def gauss(rs, shape, cplx=False):
    a = rs.normal(size=shape)
    if cplx:
        a = a + 1j * rs.normal(size=shape)
    return a


def orth(rs, shape, cplx=False):
    q, r = np.linalg.qr(gauss(rs, shape, cplx))
    d = np.diagonal(r, axis1=-2, axis2=-1)
    return np.ascontiguousarray(q * (d / np.abs(d))[..., None, :])


def spd(rs, n, lo, hi, cplx=False):
    q = orth(rs, (n, n), cplx)
    w = rs.uniform(lo, hi, size=n)
    return sym((q * w) @ H(q))


def opnorm(a):
    return float(np.max(np.abs(a))) if np.size(a) else 0.0


class Family:
    """A problem on a manifold whose points are single arrays by default."""

    name = None
    values = 1
    cg = True  # ConjugateGradient usable
    hess = True  # TrustRegions usable
    pso = True
    nm = True
    known = True  # optimal cost known and reachable
    autograd = False  # cost() works under autograd tracing
    vector_space = False
    complex = False

    def __init__(self, p, rs):
        self.p = p
        self.setup(p, rs)

    # -- flattened interface
    def cost(self, *args):
        try:
            return self.f(*args)
        except np.linalg.LinAlgError:
            return NAN

    def egrad(self, *args):
        try:
            return self.g(*args)
        except np.linalg.LinAlgError:
            return args[0] * NAN

    def ehess(self, *args):
        try:
            return self.h(*args)
        except np.linalg.LinAlgError:
            return args[0] * NAN

    def rgrad(self, manifold, point):
        return manifold.euclidean_to_riemannian_gradient(point, self.egrad(point))

    def rhess(self, manifold, point, vector):
        return manifold.euclidean_to_riemannian_hessian(
            point,
            self.egrad(point),
            self.ehess(point, manifold.embedding(point, vector)),
            vector,
        )

    def optimum(self):
        return None

    def in_space(self, point):
        return 0.0

    # default shape and finiteness checks on top of residuals
    def feasible(self, point):
        a = np.asarray(point)
        if not np.all(np.isfinite(a)):
            return np.inf
        if a.shape != self.shape or np.iscomplexobj(a) > self.complex:
            return np.inf
        return self.residual(a)

    def tangent(self, point, vector):
        v = np.asarray(vector)
        if not np.all(np.isfinite(v)):
            return np.inf
        if v.shape != self.shape or np.iscomplexobj(v) > self.complex:
            return np.inf
        return self.tangent_residual(point, v)

    def tangent_residual(self, point, v):
        return 0.0

    def residual(self, point):
        return 0.0

    def flat_point(self, point):
        return [point]


# ------------------------------------------------------------- linear spaces


class _LeastSquares(Family):
    vector_space = True
    autograd = True

    def setup(self, p, rs):
        self.shape = tuple(p["shape"])
        self.target = self.element(rs)
        w = rs.uniform(0.5, 3.0, size=self.shape)
        self.w = self.weights(w)

    def weights(self, w):
        return w

    def element(self, rs):
        return gauss(rs, self.shape, self.complex)

    def start(self, rs):
        return self.target + 2 * self.element(rs)

    def f(self, x):
        d = x - self.target
        return 0.5 * np.sum(self.w * (d.real**2 + d.imag**2)) if self.complex else 0.5 * (self.w * d**2).sum()

    def g(self, x):
        return self.w * (x - self.target)

    def h(self, x, v):
        return self.w * v

    def optimum(self):
        return 0.0


class Euclidean(_LeastSquares):
    name = "euclidean"

    def manifold(self):
        return M.Euclidean(*self.shape)


class ComplexEuclidean(_LeastSquares):
    name = "complex_euclidean"
    complex = True
    autograd = False

    def manifold(self):
        return M.ComplexEuclidean(*self.shape)


class Symmetric(_LeastSquares):
    name = "symmetric"
    sign = 1

    def weights(self, w):
        return (w + T(w)) / 2

    def element(self, rs):
        a = gauss(rs, self.shape)
        return (a + self.sign * T(a)) / 2

    def kn(self):
        return (self.shape[0] if len(self.shape) == 3 else 1), self.shape[-1]

    def manifold(self):
        k, n = self.kn()
        return M.Symmetric(n, k)

    def residual(self, a):
        return opnorm(a - self.sign * T(a)) / (1 + opnorm(a))

    def tangent_residual(self, point, v):
        return opnorm(v - self.sign * T(v)) / (1 + opnorm(v))


class SkewSymmetric(Symmetric):
    name = "skew"
    sign = -1

    def manifold(self):
        k, n = self.kn()
        return M.SkewSymmetric(n, k)


# ------------------------------------------------------------------- spheres


class Sphere(Family):
    name = "sphere"
    autograd = True

    def setup(self, p, rs):
        n = int(np.prod(p["shape"]))
        self.shape = tuple(p["shape"])
        self.basis = self.make_basis(n, rs)
        q = orth(rs, (n, n))
        # well separated spectrum with a unique smallest eigenvalue
        w = np.concatenate([[rs.uniform(-2, -1)], rs.uniform(0, 3, size=n - 1)])
        self.A = (q * w) @ q.T
        self.A = (self.A + self.A.T) / 2

    def make_basis(self, n, rs):
        return None

    def manifold(self):
        return M.Sphere(*self.shape)

    def start(self, rs):
        n = int(np.prod(self.shape))
        if self.basis is None:
            x = gauss(rs, (n,))
        else:
            x = self.basis @ gauss(rs, (self.basis.shape[1],))
        x = x / np.linalg.norm(x)
        return x.reshape(self.shape)

    def f(self, x):
        x = x.reshape(-1)
        return 0.5 * (x @ (self.A @ x))

    def g(self, x):
        return (self.A @ x.reshape(-1)).reshape(self.shape)

    def h(self, x, v):
        return (self.A @ v.reshape(-1)).reshape(self.shape)

    def optimum(self):
        A = self.A if self.basis is None else self.basis.T @ self.A @ self.basis
        return 0.5 * float(np.linalg.eigvalsh(A)[0])

    def residual(self, x):
        r = abs(np.linalg.norm(x) - 1)
        if self.basis is not None:
            r = max(r, opnorm(x - self.basis @ (self.basis.T @ x)))
        return r

    def tangent_residual(self, x, v):
        r = abs(inner(x, v))
        if self.basis is not None:
            r = max(r, opnorm(v - self.basis @ (self.basis.T @ v)))
        return r / (1 + np.linalg.norm(v))


class SphereSubspace(Sphere):
    name = "sphere_subspace"

    def make_basis(self, n, rs):
        self.span = gauss(rs, (n, self.p["r"]))
        return np.linalg.qr(self.span)[0]

    def manifold(self):
        return M.SphereSubspaceIntersection(self.span.copy())


class SphereComplement(Sphere):
    name = "sphere_complement"

    def make_basis(self, n, rs):
        self.span = gauss(rs, (n, self.p["r"]))
        q = np.linalg.qr(self.span, mode="complete")[0]
        return q[:, self.p["r"]:]

    def manifold(self):
        return M.SphereSubspaceComplementIntersection(self.span.copy())


class Oblique(Family):
    name = "oblique"
    autograd = True

    def setup(self, p, rs):
        self.shape = tuple(p["shape"])
        self.C = gauss(rs, self.shape)
        self.C /= np.linalg.norm(self.C, axis=0) / rs.uniform(0.5, 2, size=self.shape[1])

    def manifold(self):
        return M.Oblique(*self.shape)

    def start(self, rs):
        x = gauss(rs, self.shape)
        return x / np.linalg.norm(x, axis=0)

    def f(self, x):
        return -(self.C * x).sum()

    def g(self, x):
        return -self.C

    def h(self, x, v):
        return np.zeros(self.shape)

    def optimum(self):
        return -float(np.linalg.norm(self.C, axis=0).sum())

    def residual(self, x):
        return opnorm(np.linalg.norm(x, axis=0) - 1)

    def tangent_residual(self, x, v):
        return opnorm((x * v).sum(0)) / (1 + np.linalg.norm(v))


class ComplexCircle(Family):
    name = "circle"
    complex = True

    def setup(self, p, rs):
        self.shape = tuple(p["shape"])
        self.C = np.exp(1j * rs.uniform(-3, 3, size=self.shape)) * rs.uniform(
            0.5, 2, size=self.shape
        )

    def manifold(self):
        return M.ComplexCircle(*self.shape)

    def start(self, rs):
        return np.exp(1j * rs.uniform(-np.pi, np.pi, size=self.shape))

    def f(self, x):
        return -inner(self.C, x)

    def g(self, x):
        return -self.C

    def h(self, x, v):
        return np.zeros(self.shape, dtype=complex)

    def optimum(self):
        return -float(np.abs(self.C).sum())

    def residual(self, x):
        return opnorm(np.abs(x) - 1)

    def tangent_residual(self, x, v):
        return opnorm(np.real(np.conj(x) * v)) / (1 + np.linalg.norm(v))


# -------------------------------------------------------- orthonormal frames


class Stiefel(Family):
    name = "stiefel"
    nm = False
    pso = False
    autograd = True

    def setup(self, p, rs):
        self.shape = tuple(p["shape"])
        u = orth(rs, self.shape)
        s = rs.uniform(1, 3, size=self.shape[:-2] + (self.shape[-1],))
        v = orth(rs, self.shape[:-2] + (self.shape[-1],) * 2)
        self.C = (u * s[..., None, :]) @ T(v)

    def kw(self):
        kw = {"retraction": self.p.get("retraction", "qr")}
        if len(self.shape) == 3:
            kw["k"] = self.shape[0]
        return kw

    def manifold(self):
        return M.Stiefel(*self.shape[-2:], **self.kw())

    def start(self, rs):
        return orth(rs, self.shape)

    def f(self, x):
        return -(self.C * x).sum()

    def g(self, x):
        return -self.C

    def h(self, x, v):
        return np.zeros(self.shape)

    def optimum(self):
        return -float(np.linalg.svd(self.C, compute_uv=False).sum())

    def residual(self, x):
        return opnorm(H(x) @ x - np.eye(x.shape[-1]))

    def tangent_residual(self, x, v):
        a = H(x) @ v
        return opnorm(a + H(a)) / (1 + np.linalg.norm(v))


class SpecialOrthogonal(Stiefel):
    name = "so"
    nm = True
    pso = True

    def setup(self, p, rs):
        self.shape = tuple(p["shape"])
        q = self.rotation(rs)
        n = self.shape[-1]
        s = rs.uniform(1, 3, size=self.shape[:-2] + (n,))
        v = self.rotation(rs)
        self.C = q @ ((v * s[..., None, :]) @ H(v))

    def rotation(self, rs):
        q = orth(rs, self.shape)
        d = np.sign(np.linalg.det(q))
        q[..., :, 0] = q[..., :, 0] * np.reshape(d, np.shape(d) + (1,))
        return q

    def manifold(self):
        return M.SpecialOrthogonalGroup(self.shape[-1], **self.kw())

    def start(self, rs):
        return self.rotation(rs)

    def residual(self, x):
        r = super().residual(x)
        if np.any(np.linalg.det(x) < 0):
            return np.inf
        return r

    def tangent_residual(self, x, v):
        return opnorm(v + H(v)) / (1 + np.linalg.norm(v))


class Unitary(Stiefel):
    name = "unitary"
    complex = True
    nm = True
    pso = True
    autograd = False

    def setup(self, p, rs):
        self.shape = tuple(p["shape"])
        n = self.shape[-1]
        q = orth(rs, self.shape, True)
        v = orth(rs, self.shape, True)
        s = rs.uniform(1, 3, size=self.shape[:-2] + (n,))
        self.C = q @ ((v * s[..., None, :]) @ H(v))

    def manifold(self):
        return M.UnitaryGroup(self.shape[-1], **self.kw())

    def start(self, rs):
        return orth(rs, self.shape, True)

    def f(self, x):
        return -inner(self.C, x)

    def h(self, x, v):
        return np.zeros(self.shape, dtype=complex)

    def tangent_residual(self, x, v):
        return opnorm(v + H(v)) / (1 + np.linalg.norm(v))


class Grassmann(Family):
    name = "grassmann"
    nm = False
    autograd = True

    def setup(self, p, rs):
        self.shape = tuple(p["shape"])
        n, q = self.shape[-2:]
        batch = self.shape[:-2]
        u = orth(rs, batch + (n, n), self.complex)
        w = np.concatenate(
            [rs.uniform(-3, -1, size=batch + (q,)), rs.uniform(0, 2, size=batch + (n - q,))],
            axis=-1,
        )
        self.A = sym((u * w[..., None, :]) @ H(u))
        self.opt = 0.5 * float(w[..., :q].sum())

    def manifold(self):
        kw = {"k": self.shape[0]} if len(self.shape) == 3 else {}
        return M.Grassmann(*self.shape[-2:], **kw)

    def start(self, rs):
        return orth(rs, self.shape, self.complex)

    def f(self, x):
        if self.complex:
            return 0.5 * inner(x, self.A @ x)
        return 0.5 * (x * (self.A @ x)).sum()

    def g(self, x):
        return self.A @ x

    def h(self, x, v):
        return self.A @ v

    def optimum(self):
        return self.opt

    def residual(self, x):
        return opnorm(H(x) @ x - np.eye(x.shape[-1]))

    def tangent_residual(self, x, v):
        return opnorm(H(x) @ v) / (1 + np.linalg.norm(v))


class ComplexGrassmann(Grassmann):
    name = "complex_grassmann"
    complex = True
    autograd = False

    def manifold(self):
        kw = {"k": self.shape[0]} if len(self.shape) == 3 else {}
        return M.ComplexGrassmann(*self.shape[-2:], **kw)


# ------------------------------------------------------------------ positive


class Positive(Family):
    name = "positive"
    nm = False

    def setup(self, p, rs):
        self.shape = tuple(p["shape"])
        self.t = np.exp(rs.normal(size=self.shape))

    def manifold(self):
        kw = {"k": self.shape[0]} if len(self.shape) == 3 else {}
        if self.p.get("parallel"):
            kw["use_parallel_transport"] = True
        return M.Positive(*self.shape[-2:], **kw)

    def start(self, rs):
        return self.t * np.exp(rs.normal(size=self.shape))

    def f(self, x):
        return 0.5 * float((np.log(x / self.t) ** 2).sum())

    def g(self, x):
        return np.log(x / self.t) / x

    def h(self, x, v):
        return v * (1 - np.log(x / self.t)) / x**2

    def optimum(self):
        return 0.0

    def residual(self, x):
        return 0.0 if np.all(x > 0) else np.inf


class SPD(Family):
    name = "spd"
    nm = False
    lo, hi = 0.5, 3.0

    def setup(self, p, rs):
        self.shape = tuple(p["shape"])
        n = self.shape[-1]
        if len(self.shape) == 3:
            self.t = np.stack([spd(rs, n, self.lo, self.hi, self.complex) for _ in range(self.shape[0])])
        else:
            self.t = spd(rs, n, self.lo, self.hi, self.complex)

    def kw(self):
        return {"k": self.shape[0]} if len(self.shape) == 3 else {}

    def manifold(self):
        return M.SymmetricPositiveDefinite(self.shape[-1], **self.kw())

    def start(self, rs):
        n = self.shape[-1]
        if len(self.shape) == 3:
            return np.stack([spd(rs, n, self.lo, self.hi, self.complex) for _ in range(self.shape[0])])
        return spd(rs, n, self.lo, self.hi, self.complex)

    def f(self, x):
        sign, logdet = np.linalg.slogdet(x)
        if np.any(np.real(sign) <= 0):
            return np.inf
        return float(np.sum(logdet) + np.real(np.trace(np.linalg.solve(x, self.t), axis1=-2, axis2=-1)).sum())

    def g(self, x):
        xi = np.linalg.inv(x)
        return sym(xi - xi @ self.t @ xi)

    def h(self, x, v):
        xi = np.linalg.inv(x)
        a = xi @ v @ xi
        b = xi @ self.t @ xi
        return sym(-a + a @ self.t @ xi + xi @ self.t @ a)

    def optimum(self):
        logdet = np.linalg.slogdet(self.t)[1]
        return float(np.sum(logdet) + self.shape[-1] * np.size(logdet))

    def residual(self, x):
        r = opnorm(x - H(x)) / (1 + opnorm(x))
        if np.any(np.linalg.eigvalsh(sym(x)) <= 0):
            return np.inf
        return r

    def tangent_residual(self, x, v):
        return opnorm(v - H(v)) / (1 + np.linalg.norm(v))


class HPD(SPD):
    name = "hpd"
    complex = True

    def manifold(self):
        return M.HermitianPositiveDefinite(self.shape[-1], **self.kw())


class SHPD(HPD):
    name = "shpd"
    hess = False

    def manifold(self):
        return M.SpecialHermitianPositiveDefinite(self.shape[-1], **self.kw())

    def _unit(self, x):
        n = self.shape[-1]
        det = np.real(np.linalg.det(x))
        return x / (det ** (1 / n))[..., None, None] if len(self.shape) == 3 else x / det ** (1 / n)

    def start(self, rs):
        return self._unit(super().start(rs))

    def f(self, x):
        return float(np.real(np.trace(np.linalg.solve(x, self.t), axis1=-2, axis2=-1)).sum())

    def g(self, x):
        xi = np.linalg.inv(x)
        return sym(-xi @ self.t @ xi)

    def optimum(self):
        n = self.shape[-1]
        det = np.real(np.linalg.det(self.t))
        return float(np.sum(n * det ** (1 / n)))

    def residual(self, x):
        r = super().residual(x)
        # the determinant is only defined up to eps times the condition
        condition = max(1.0, 1e-4 * float(np.max(np.linalg.cond(x))))
        return max(r, opnorm(np.linalg.det(x) - 1) / condition)

    def tangent_residual(self, x, v):
        r = super().tangent_residual(x, v)
        tr = np.trace(np.linalg.solve(x, v), axis1=-2, axis2=-1)
        condition = max(1.0, 1e-4 * float(np.max(np.linalg.cond(x))))
        return max(r, opnorm(tr) / (1 + np.linalg.norm(v)) / condition)


# ------------------------------------------------------------------ low rank


class PSDFixedRank(Family):
    name = "psd"
    nm = False

    def setup(self, p, rs):
        self.shape = tuple(p["shape"])
        y = orth(rs, self.shape, self.complex) * rs.uniform(1, 2, size=self.shape[1])
        self.A = y @ H(y)

    def manifold(self):
        return M.PSDFixedRank(*self.shape)

    def start(self, rs):
        return orth(rs, self.shape, self.complex) * rs.uniform(0.5, 2, size=self.shape[1])

    def f(self, y):
        return 0.25 * float(np.sum(np.abs(y @ H(y) - self.A) ** 2))

    def g(self, y):
        return (y @ H(y) - self.A) @ y

    def h(self, y, v):
        return (v @ H(y) + y @ H(v)) @ y + (y @ H(y) - self.A) @ v

    def optimum(self):
        return 0.0

    def tangent_residual(self, y, v):
        a = H(y) @ v
        return opnorm(a - H(a)) / (1 + np.linalg.norm(v)) / (1 + opnorm(y))


class PSDFixedRankComplex(PSDFixedRank):
    name = "psd_complex"
    complex = True

    def manifold(self):
        return M.PSDFixedRankComplex(*self.shape)


class Elliptope(PSDFixedRank):
    name = "elliptope"
    pso = False
    known = False

    def setup(self, p, rs):
        self.shape = tuple(p["shape"])
        y = self.start(rs)
        self.A = y @ T(y)

    def manifold(self):
        return M.Elliptope(*self.shape)

    def start(self, rs):
        y = gauss(rs, self.shape)
        return y / np.linalg.norm(y, axis=1)[:, None]

    def residual(self, y):
        return opnorm(np.linalg.norm(y, axis=1) - 1)

    def tangent_residual(self, y, v):
        return max(
            super().tangent_residual(y, v),
            opnorm((y * v).sum(1)) / (1 + np.linalg.norm(v)),
        )


class FixedRank(Family):
    name = "fixed_rank"
    values = 3
    hess = False
    pso = False
    nm = False

    def setup(self, p, rs):
        self.m, self.n, self.k = p["shape"]
        self.shape = None
        self.A = (orth(rs, (self.m, self.k)) * rs.uniform(1, 3, size=self.k)) @ orth(rs, (self.n, self.k)).T

    def manifold(self):
        return M.FixedRankEmbedded(self.m, self.n, self.k)

    def start(self, rs):
        s = np.sort(rs.uniform(0.5, 2, size=self.k))[::-1].copy()
        return [
            orth(rs, (self.m, self.k)), s,
            np.ascontiguousarray(orth(rs, (self.n, self.k)).T),
        ]

    def f(self, u, s, vt):
        return 0.5 * float((((u * s) @ vt - self.A) ** 2).sum())

    def g(self, u, s, vt):
        d = (u * s) @ vt - self.A
        return (d @ (vt.T * s), np.einsum("ik,ij,kj->k", u, d, vt), (u * s).T @ d)

    def egrad(self, *args):
        return self.g(*args)

    def optimum(self):
        return 0.0

    def feasible(self, point):
        u, s, vt = point
        for a, shape in zip((u, s, vt), ((self.m, self.k), (self.k,), (self.k, self.n))):
            if np.shape(a) != shape or not np.all(np.isfinite(a)):
                return np.inf
        if np.any(s <= 0):
            return np.inf
        eye = np.eye(self.k)
        return max(opnorm(u.T @ u - eye), opnorm(vt @ vt.T - eye))

    def tangent(self, point, vector):
        u, s, vt = point
        up, mid, vp = vector
        for a, shape in zip((up, mid, vp), ((self.m, self.k), (self.k, self.k), (self.n, self.k))):
            if np.shape(a) != shape or not np.all(np.isfinite(a)):
                return np.inf
        scale = 1 + np.linalg.norm(up) + np.linalg.norm(mid) + np.linalg.norm(vp)
        return max(opnorm(u.T @ up), opnorm(vt @ vp)) / scale

    def flat_point(self, point):
        return list(point)


class PoincareBall(Family):
    name = "poincare"
    cg = False
    autograd = True

    def setup(self, p, rs):
        self.shape = tuple(p["shape"])
        self.t = self.start(rs) * 0.6

    def manifold(self):
        kw = {"k": self.shape[0]} if len(self.shape) == 2 else {}
        return M.PoincareBall(self.shape[-1], **kw)

    pso = False
    nm = True

    def start(self, rs):
        x = gauss(rs, self.shape)
        x = x / np.linalg.norm(x, axis=-1, keepdims=True)
        return x * rs.uniform(0.1, 0.9, size=self.shape[:-1] + (1,))

    def f(self, x):
        d = x - self.t
        return 0.5 * (d * d).sum()

    def g(self, x):
        return x - self.t

    def h(self, x, v):
        return v

    def optimum(self):
        return 0.0

    def residual(self, x):
        r = float(np.max(np.linalg.norm(x, axis=-1)))
        return 0.0 if r <= 1 + 1e-12 else np.inf


# ------------------------------------------------------------------ products


class Product(Family):
    name = "product"
    nm = False

    def setup(self, p, rs):
        self.parts = [make(q, rs) for q in p["parts"]]
        self.values = [q.values for q in self.parts]
        self.hess = all(q.hess for q in self.parts)
        self.cg = all(q.cg for q in self.parts)
        self.pso = all(q.pso for q in self.parts)
        self.known = all(q.known for q in self.parts)
        self.autograd = all(q.autograd for q in self.parts)

    def manifold(self):
        return M.Product([q.manifold() for q in self.parts])

    def start(self, rs):
        return [q.start(rs) for q in self.parts]

    def split(self, args):
        out, i = [], 0
        for q in self.parts:
            out.append(args[i:i + q.values])
            i += q.values
        return out

    def f(self, *args):
        total = 0.0
        for q, a in zip(self.parts, self.split(args)):
            total = total + q.cost(*a)
        return total

    def egrad(self, *args):
        out = []
        for q, a in zip(self.parts, self.split(args)):
            g = q.egrad(*a)
            out.extend(g if q.values > 1 else [g])
        return out

    def ehess(self, *args):
        half = len(args) // 2
        out = []
        for q, a, v in zip(self.parts, self.split(args[:half]), self.split(args[half:])):
            out.append(q.ehess(*a, *v))
        return out

    def optimum(self):
        return sum(q.optimum() for q in self.parts)

    def feasible(self, point):
        if len(point) != len(self.parts):
            return np.inf
        return max(q.feasible(x) for q, x in zip(self.parts, point))

    def tangent(self, point, vector):
        if len(vector) != len(self.parts):
            return np.inf
        return max(q.tangent(x, v) for q, x, v in zip(self.parts, point, vector))

    def flat_point(self, point):
        out = []
        for q, x in zip(self.parts, point):
            out.extend(q.flat_point(x))
        return out


CLASSES = {
    cls.name: cls
    for cls in (
        Euclidean, ComplexEuclidean, Symmetric, SkewSymmetric, Sphere,
        SphereSubspace, SphereComplement, Oblique, ComplexCircle, Stiefel,
        SpecialOrthogonal, Unitary, Grassmann, ComplexGrassmann, Positive, SPD,
        HPD, SHPD, PSDFixedRank, PSDFixedRankComplex, Elliptope, FixedRank,
        PoincareBall, Product,
    )
}


def make(params, rs):
    return CLASSES[params["name"]](params, rs)


# -------------------------------------------------------------- generation


def generate(rng, *, names=None, small=False, product=True):
    """Random problem parameters (JSON-able). ``rng`` is random.Random."""
    pool = list(names or CLASSES)
    if not product and "product" in pool:
        pool.remove("product")
    name = rng.choice(pool)
    k = rng.choice([None, None, 2])

    def batch(*shape):
        return [k, *shape] if k else list(shape)

    top = 3 if small else 5
    n = rng.randint(2, top)
    p = {"name": name}
    if name in ("euclidean", "complex_euclidean"):
        p["shape"] = rng.choice([[n], [n], [n, 2], [1]] if not small else [[n], [1], [2]])
    elif name in ("symmetric", "skew"):
        p["shape"] = batch(n, n) if not small else [2, 2]
    elif name == "sphere":
        p["shape"] = rng.choice([[n + 1], [n + 1], [2, n]]) if not small else [n]
    elif name in ("sphere_subspace", "sphere_complement"):
        p["shape"] = [n + 3]
        p["r"] = rng.randint(2, n + 1) if name == "sphere_subspace" else rng.randint(1, n)
    elif name == "oblique":
        p["shape"] = [n, rng.randint(1, 3)]
    elif name == "circle":
        p["shape"] = [n]
    elif name == "stiefel":
        p["shape"] = batch(n + 1, rng.randint(1, min(3, n)))
        p["retraction"] = rng.choice(["qr", "polar"])
    elif name in ("so", "unitary"):
        p["shape"] = batch(rng.randint(2, 3), 0)
        p["shape"][-1] = p["shape"][-2]
        # the polar retraction is only meant for single matrices there
        p["retraction"] = rng.choice(["qr", "polar"])
    elif name in ("grassmann", "complex_grassmann"):
        p["shape"] = batch(n + 1, rng.randint(1, min(2, n)))
    elif name == "positive":
        p["shape"] = batch(rng.randint(1, 3), rng.randint(1, 3))
        p["parallel"] = rng.random() < 0.4
    elif name in ("spd", "hpd", "shpd"):
        p["shape"] = batch(rng.randint(2, 3), 0)
        p["shape"][-1] = p["shape"][-2]
    elif name in ("psd", "psd_complex"):
        p["shape"] = [n + 1, rng.randint(1, 2)]
    elif name == "elliptope":
        p["shape"] = [n + 1, 2]
    elif name == "fixed_rank":
        r = rng.randint(1, 2)
        p["shape"] = [r + rng.randint(1, 3), r + rng.randint(1, 3), r]
    elif name == "poincare":
        p["shape"] = batch(n)
    elif name == "product":
        inner_pool = [q for q in pool if q != "product"]
        p["parts"] = [
            generate(rng, names=inner_pool, small=True, product=False)
            for _ in range(rng.randint(1, 3))
        ]
    return p


def _first_nan(value):
    if isinstance(value, (list, tuple)):
        return [_first_nan(v) for v in value]
    value = np.array(value)
    value.flat[0] = np.nan
    return value


class Case:
    """A built problem: fresh manifold, callbacks and pymanopt.Problem."""

    def __init__(self, spec, world, *, names=None, manifold=None):
        """
        Args:
            spec: {"problem": params, "seed": int, "deriv": how derivatives
                are supplied, "precond": scale or None}
        """
        self.spec = spec
        self.world = world
        rs = np.random.RandomState(spec["seed"])
        self.family = make(spec["problem"], rs)
        self.manifold = self.family.manifold() if manifold is None else manifold
        self.deriv = spec.get("deriv", "euclidean")
        self.region = None  # optional value transform by point
        self.broken = None  # tells the points at which the gradient fails
        self._build()

    def start(self, seed):
        # salted: must not repeat the draws of numpy.random under that seed
        return self.family.start(np.random.RandomState((seed + 0x5EED0000) & 0xFFFFFFFF))

    def _value(self, value, args):
        if self.region is not None:
            return self.region(value, args)
        return value

    def _slope(self, gradient, args):
        """The gradient as the user's code returns it at a point."""
        if self.broken is None or not self.broken(args):
            return gradient
        return _first_nan(gradient)

    def _build(self):
        fam = self.family
        man = self.manifold
        case = self

        def plain_cost(*args):
            return case._value(fam.cost(*args), args)

        def cost(*args):
            if not all(isinstance(a, np.ndarray) for a in args):
                return case.world.call("trace", fam.cost, args)
            return case.world.call("cost", plain_cost, args)

        def gradient(*args):
            return case.world.call(
                "gradient", lambda *a: case._slope(fam.egrad(*a), a), args
            )

        def hessian(*args):
            return case.world.call("hessian", fam.ehess, args)

        def rgradient(*args):
            return case.world.call(
                "gradient", lambda *a: case._slope(fam.rgrad(man, a[0]), a), args
            )

        def rhessian(*args):
            return case.world.call(
                "hessian", lambda *a: fam.rhess(man, a[0], a[1]), args
            )

        def preconditioner(point, vector):
            return case.world.call(
                "preconditioner",
                case.precondition, (point, vector),
            )

        F = pymanopt.function
        kwargs = {}
        if self.deriv == "autograd":
            wrapped = F.autograd(man)(cost)
        else:
            wrapped = F.numpy(man)(cost)
            if self.deriv == "euclidean":
                kwargs["euclidean_gradient"] = F.numpy(man)(gradient)
                if fam.hess:
                    kwargs["euclidean_hessian"] = F.numpy(man)(hessian)
            elif self.deriv == "riemannian":
                kwargs["riemannian_gradient"] = F.numpy(man)(rgradient)
                if fam.hess:
                    kwargs["riemannian_hessian"] = F.numpy(man)(rhessian)
            elif self.deriv == "mixed":
                kwargs["euclidean_gradient"] = F.numpy(man)(gradient)
                if fam.hess:
                    kwargs["riemannian_hessian"] = F.numpy(man)(rhessian)
        if self.spec.get("precond") is not None:
            kwargs["preconditioner"] = preconditioner
        self.cost_function = wrapped
        self.problem_kwargs = kwargs
        self.problem = pymanopt.Problem(man, wrapped, **kwargs)

    def another_problem(self):
        """A second Problem sharing manifold and decorated functions."""
        return pymanopt.Problem(
            self.manifold, self.cost_function, **self.problem_kwargs
        )

    def precondition(self, point, vector):
        return self.spec["precond"] * vector

    # -- independent evaluation (no events)
    def true_cost(self, point):
        args = self.family.flat_point(point)
        return self._value(self.family.cost(*args), args)

    def gradient_norm(self, point):
        """Norm of the Riemannian gradient from fresh objects."""
        man = self.family.manifold()
        args = self.family.flat_point(point)
        egrad = self._slope(self.family.egrad(*args), args)
        if isinstance(self.family, Product):
            grouped, i = [], 0
            for q in self.family.parts:
                grouped.append(egrad[i] if q.values == 1 else egrad[i:i + q.values])
                i += q.values
            egrad = grouped
        try:
            return man.norm(point, man.euclidean_to_riemannian_gradient(point, egrad))
        except (ValueError, np.linalg.LinAlgError):
            if self.broken is None:
                raise
            return float("nan")

    # -- interception of manifold operations
    def intercept(self, methods):
        for name in methods:
            original = getattr(self.manifold, name, None)
            if original is None:
                continue

            def wrapper(*args, _original=original, _name=name):
                return self.world.call("manifold." + _name, _original, args)

            setattr(self.manifold, name, wrapper)


def generate_case(rng, *, names=None, small=False, derivs=None, precond=True, product=True):
    problem = generate(rng, names=names, small=small, product=product)
    fam = make(problem, np.random.RandomState(0))
    options = ["euclidean", "euclidean"]
    if fam.values == 1:
        options += ["riemannian", "mixed"]
    if fam.autograd:
        options += ["autograd"]
    if derivs is not None:
        options = [d for d in options if d in derivs] or ["euclidean"]
    spec = {
        "problem": problem,
        "seed": rng.randrange(1 << 30),
        "deriv": rng.choice(options),
    }
    if precond and rng.random() < 0.3:
        spec["precond"] = rng.choice([0.25, 0.5, 2.0, 3.0])
    return spec


def supports(problem):
    """Optimizers that the family can be used with."""
    fam = make(problem, np.random.RandomState(0))
    kinds = ["SD"]
    if fam.cg:
        kinds.append("CG")
    if fam.hess:
        kinds.append("TR")
    # centroids by matrix logarithms are too slow in higher dimensions
    if fam.nm and not (
        problem["name"] in ("so", "unitary") and fam.manifold().dim > 2
    ):
        kinds.append("NM")
    if fam.pso:
        kinds.append("PSO")
    return kinds
