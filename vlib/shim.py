"""Replacements for numpy / scipy / sksparse names used by the code under test.

Arrays are real numpy arrays of dtype object holding Sym values, so indexing,
broadcasting, in-place semantics and views are numpy's own.  Only what numpy
cannot do on objects is modelled here.
"""
import functools
import math
import types
from fractions import Fraction

import numpy as np

from . import alg
from .alg import R, rconst, rgen, rmul, radd, rdiv
from . import sym
from .sym import has_vars, F_atom, Sym, SymC, Unsupported, branch, const, ctx, evalf, lift, psign, r_log, rsign, uf


class _ArrMeta(type):
    def __instancecheck__(cls, x):
        if cls is SymArray:
            return isinstance(x, np.ndarray)
        return type.__instancecheck__(cls, x)

    def __subclasscheck__(cls, c):
        if cls is SymArray:
            return issubclass(c, np.ndarray)
        return type.__subclasscheck__(cls, c)


class SymBytes:
    """image of an array's bytes: equal iff all entries are equal"""

    def __init__(self, a):
        self.v = tuple(np.asarray(a, dtype=object).ravel().tolist())

    def __hash__(self):
        return len(self.v)

    def __eq__(self, o):
        if not isinstance(o, SymBytes) or len(self.v) != len(o.v):
            return False
        for x, y in zip(self.v, o.v):
            if not (x == y):
                return False
        return True

    def __ne__(self, o):
        return not self == o


def is_float_dtype(dt):
    if dt is None:
        return False
    if isinstance(dt, type) and issubclass(dt, float):
        return True
    try:
        k = np.dtype(dt)
    except TypeError:
        return False
    return k.kind in "fcO"


def _short(a, v):
    """any (v) / all (not v) deciding no more elements than needed, known ones first"""
    xs = list(np.asarray(a).ravel())
    xs.sort(key=lambda x: isinstance(x, Sym) and bool(has_vars(x.r)))
    for x in xs:
        if bool(x) == v:
            return v
    return not v


class SymArray(np.ndarray, metaclass=_ArrMeta):
    def __new__(cls, shape, dtype=float, buffer=None, offset=0, strides=None, order=None):
        if buffer is not None:
            return buffer.as_array(cls, shape, dtype, order or "C")
        if is_float_dtype(dtype):
            return _fill(shape, 0).view(cls)
        return np.ndarray(shape, dtype).view(cls)

    @property
    def real(self):
        return self._part("real")

    @property
    def imag(self):
        return self._part("imag")

    def _part(self, k):
        if self.dtype != object:
            return getattr(np.asarray(self), k)
        if k == "real" and not any(isinstance(x, SymC) for x in self.flat):
            return self
        out = np.empty(self.shape, object)
        for i, x in np.ndenumerate(self):
            out[i] = lift_arr(getattr(x, k)).item()
        return out.view(SymArray)

    def tobytes(self, order="C"):
        if self.dtype == object:
            return SymBytes(self)
        return np.asarray(self).tobytes()

    def astype(self, dtype, *a, **k):
        if self.dtype == object:
            if is_float_dtype(dtype):
                return lift_arr(self).view(type(self))
            dt = np.dtype(dtype)
            if dt.kind in "iu":
                out = np.empty(self.shape, dt)
                for i, x in np.ndenumerate(self):
                    out[i] = int(x)
                return out
            if dt.kind == "b":
                return np.array([bool(x) for x in self.ravel()], bool).reshape(self.shape)
        return np.ndarray.astype(self, dtype, *a, **k)

    def __setitem__(self, k, v):
        if self.dtype == object:
            if isinstance(v, (int, float, np.number)) and not isinstance(v, bool):
                if math.isfinite(v):
                    v = const(v)
            elif isinstance(v, np.ndarray) and v.dtype.kind in "fiu" or isinstance(v, (list, tuple)):
                v = lift_arr(v)
        np.ndarray.__setitem__(self, k, v)

    def __float__(self):
        raise Unsupported("float() of an array")

    def any(self, axis=None, out=None, **k):
        if self.dtype == object and axis is None and out is None and not k:
            return _short(self, True)
        return np.ndarray.any(self, axis, out, **k)

    def all(self, axis=None, out=None, **k):
        if self.dtype == object and axis is None and out is None and not k:
            return _short(self, False)
        return np.ndarray.all(self, axis, out, **k)

    def std(self, *a, **k):
        raise Unsupported("std")

    def argsort(self, axis=-1, kind=None, order=None, **k):
        return loose_argsort(self, axis, kind, order, **k)


_argsort = np.argsort


def loose_argsort(a, axis=-1, kind=None, order=None, stable=None, **k):
    """a sort that is not asked to be stable may return ties in any order: here, last first
    (used in the concrete runs as well)"""
    if isinstance(a, SymArray):
        a = a.view(np.ndarray)
    a = np.asarray(a)
    if a.ndim == 1 and kind not in ("mergesort", "stable") and not stable and order is None:
        return len(a) - 1 - _argsort(a[::-1], kind="stable")
    return _argsort(a, axis=axis, kind="stable", order=order)


def _unwrap(name):
    base = getattr(np.ndarray, name)

    def f(self, *a, **k):
        r = base(self, *a, **k)
        return r[()] if isinstance(r, np.ndarray) and r.ndim == 0 and r.dtype == object else r

    f.__name__ = name
    return f


for _n in ("sum", "max", "min", "mean", "prod", "dot", "trace"):
    setattr(SymArray, _n, _unwrap(_n))


def _fill(shape, v):
    a = np.empty(shape, dtype=object)
    if a.ndim == 0:
        a[()] = const(v)
    else:
        a[...] = const(v)
    return a.view(SymArray)


def _garbage(shape):
    """uninitialised memory: every entry is a value of its own"""
    c = ctx()
    a = np.empty(shape, dtype=object)
    f = a.ravel()
    for i in range(f.size):
        name = "uninitialised_%d" % c.__dict__.setdefault("nuninit", 0)
        c.nuninit += 1
        g = alg.T.gen(("var", name), name, "var", (None, None), False)
        c.vars[name] = (g, (-90.0, -30.0))
        f[i] = Sym(rgen(g))
    return f.reshape(shape).view(SymArray)


def real_empty(real):
    """numpy.empty for the real code: memory holding nonsense"""
    def f(*a, **k):
        r = real(*a, **k)
        if type(r) is np.ndarray and r.dtype.kind in "fc":
            r[...] = -57.25 - np.arange(r.size).reshape(r.shape)
        return r

    return f


def lift_arr(x):
    """array-like -> SymArray of Sym (floats / ints lifted exactly)"""
    a = np.array(x, dtype=object)
    out = np.empty(a.shape, dtype=object)
    for i, v in np.ndenumerate(a):
        if isinstance(v, (Sym, SymC)):
            out[i] = v
        elif isinstance(v, complex):
            out[i] = SymC.of(v)
        elif isinstance(v, float) and not math.isfinite(v):
            out[i] = float(v)
        else:
            r = lift(v)
            out[i] = Sym(r) if r is not None else v
    return out.view(SymArray)


def symbolic(*xs):
    for x in xs:
        if isinstance(x, (Sym, SymC)):
            return True
        if isinstance(x, np.ndarray) and x.dtype == object:
            return True
        if isinstance(x, (list, tuple)) and symbolic(*x):
            return True
    return False


def needs_lift(x):
    return isinstance(x, np.ndarray) and x.dtype.kind in "fc"


# ---------------------------------------------------------------- linear algebra on exact terms
def O(a):
    return lift_arr(a).view(np.ndarray) if not (isinstance(a, np.ndarray) and a.dtype == object) else np.asarray(a)


def gauss_solve(A, B):
    """A X = B exactly (any nonsingular A)"""
    A = O(A).copy()
    B = O(B).copy()
    vec = B.ndim == 1
    if vec:
        B = B[:, None]
    n = A.shape[0]
    if A.ndim != 2 or A.shape[1] != n or B.shape[0] != n:
        raise ValueError("incompatible dimensions")
    M = np.concatenate([A, B], axis=1)
    for k in range(n):
        # fraction-free pivoting: smallest certainly non-zero pivot
        best = None
        for i in range(k, n):
            r = lift(M[i, k])
            if r.n and (best is None or len(r.n) < best[0]):
                sgn = rsign(r)
                if r.is_const() or sgn or not _zero_possible(r):
                    best = (len(r.n), i)
        if best is None:
            for i in range(k, n):
                if M[i, k] != 0:
                    best = (0, i)
                    break
        if best is None:
            raise np.linalg.LinAlgError("Singular matrix")
        p = best[1]
        if p != k:
            M[[k, p]] = M[[p, k]]
        inv = 1 / M[k, k] if isinstance(M[k, k], (Sym, SymC)) else const(1) / M[k, k]
        M[k, k:] = M[k, k:] * inv
        for i in range(n):
            if i != k:
                f = M[i, k]
                if not (isinstance(f, Sym) and not f.r.n):
                    M[i, k:] = M[i, k:] - f * M[k, k:]
    X = M[:, n:]
    return (X[:, 0] if vec else X).view(SymArray)


def _zero_possible(r):
    # treat symbolic pivots as generically non-zero: SPD / invertible contract of the
    # linear algebra stubs; the non-zero condition is added to the path condition
    c = ctx()
    if c is not None:
        f = F_atom("!=", R(r.n, 1, ()))
        k = ("nz", frozenset(r.n.items()))
        if k not in c.cache:
            c.cache[k] = True
            c.pc.append(f)
    return False


def det(A):
    A = O(A).copy()
    n = A.shape[0]
    d = const(1)
    for k in range(n):
        p = None
        for i in range(k, n):
            if lift(A[i, k]).n:
                p = i
                break
        if p is None:
            return const(0)
        if p != k:
            A[[k, p]] = A[[p, k]]
            d = -d
        d = d * A[k, k]
        for i in range(k + 1, n):
            if lift(A[i, k]).n:
                f = A[i, k] / A[k, k]
                A[i, k:] = A[i, k:] - f * A[k, k:]
    return d if isinstance(d, Sym) else const(d)


def assume_positive(x):
    """stub contract: this pivot is positive (the non-positive case raises in the real library)"""
    c = ctx()
    r = lift(x)
    if r.is_const():
        if r.const() <= 0:
            raise np.linalg.LinAlgError("matrix is not positive definite")
        return
    if rsign(r) == 1 or c is None:
        return
    cc, fs = alg.rfactors(r)
    sgn = 1 if cc > 0 else -1
    unknown = []
    for f, e in fs.items():
        if e & 1:
            p = alg.T.factors[f][0]
            s = psign(p)
            if not s:
                key = ("<", alg.rneg(R(p, 1, ())).key())
                h = c.cache.get(key)
                if h is None:
                    unknown.append((p, key))
                    continue
                s = 1 if h else -1
            sgn *= s
    if len(unknown) == 1:
        c.cache[unknown[0][1]] = sgn > 0
        c.pc.append(F_atom(">" if sgn > 0 else "<", R(unknown[0][0], 1, ())))
    elif unknown:
        if not branch(">", r):
            raise np.linalg.LinAlgError("matrix is not positive definite")
    elif sgn < 0:
        raise np.linalg.LinAlgError("matrix is not positive definite")


def chol_lower(A):
    """Cholesky factor using only the lower triangle of A"""
    A = O(A)
    n = A.shape[0]
    # LDL^T first (rational), then multiply by sqrt of pivots
    L = np.array([[const(int(i == j)) for j in range(n)] for i in range(n)], dtype=object)
    D = [None] * n
    C = {}
    for j in range(n):
        for i in range(j, n):
            s = A[i, j]
            for k in range(j):
                s = s - L[i, k] * C[j, k]
            C[i, j] = s
        D[j] = C[j, j]
        assume_positive(D[j])
        for i in range(j + 1, n):
            L[i, j] = C[i, j] / D[j]
    S = [(d if isinstance(d, Sym) else const(d)).sqrt() for d in D]
    out = _fill((n, n), 0)
    for i in range(n):
        for j in range(i + 1):
            out[i, j] = L[i, j] * S[j]
    return out


class CholArray(SymArray):
    pass


def cho_factor(a, lower=False, overwrite_a=False, check_finite=True):
    A = O(a)
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise ValueError("Input array a is not square")
    tri = A if lower else A.T
    L = chol_lower(tri)
    c = lift_arr(A)
    n = A.shape[0]
    full = _fill((n, n), 0)
    for i in range(n):
        for j in range(i + 1):
            if lower:
                c[i, j] = L[i, j]
                full[i, j] = full[j, i] = A[i, j]
            else:
                c[j, i] = L[i, j]
                full[i, j] = full[j, i] = A[j, i]
    out = c.view(CholArray)
    out._A = full
    out._snap = [x for x in np.asarray(c).ravel().tolist()]
    return out, lower


def tri_solve(T, b, lower):
    T = O(T)
    B = O(b).copy()
    vec = B.ndim == 1
    if vec:
        B = B[:, None]
    n = T.shape[0]
    X = B.copy()
    # scale to a unit diagonal first (columns of a lower factor, rows of an upper one): the square roots of the pivots of a
    # Cholesky factor cancel and the substitution itself stays rational
    if lower:
        for i in range(n):
            s = X[i]
            for k in range(i):
                s = s - (T[i, k] / T[k, k]) * X[k]
            X[i] = s
        for i in range(n):
            X[i] = X[i] / T[i, i]
    else:
        for i in range(n):
            X[i] = X[i] / T[i, i]
        for i in range(n - 1, -1, -1):
            s = X[i]
            for k in range(i + 1, n):
                s = s - (T[i, k] / T[i, i]) * X[k]
            X[i] = s
    return (X[:, 0] if vec else X).view(SymArray)


def cho_solve(c_and_lower, b, overwrite_b=False, check_finite=True):
    c, lower = c_and_lower
    bb = O(b)
    if bb.shape[0] != c.shape[0]:
        raise ValueError("incompatible dimensions (%s and %s)" % (c.shape, bb.shape))
    A = getattr(c, "_A", None)
    if A is not None and all(x is y for x, y in zip(c._snap, np.asarray(c).ravel().tolist())):
        return gauss_solve(A, bb)
    C = O(c)
    if lower:
        y = tri_solve(C, bb, True)
        return tri_solve(C.T, y, False)
    y = tri_solve(C.T, bb, True)
    return tri_solve(C, y, False)


def solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False, overwrite_b=False, check_finite=True):
    A = O(a)
    if trans in (1, "T", 2, "C"):
        A, lower = A.T, not lower
    if unit_diagonal:
        A = A.copy()
        for i in range(len(A)):
            A[i, i] = const(1)
    return tri_solve(A, b, lower)


def block_diag(*arrs):
    arrs = [np.atleast_2d(O(a)) for a in arrs]
    if not arrs:
        arrs = [O(np.zeros((0, 0)))]
    out = _fill((sum(a.shape[0] for a in arrs), sum(a.shape[1] for a in arrs)), 0)
    r = c = 0
    for a in arrs:
        out[r : r + a.shape[0], c : c + a.shape[1]] = a
        r += a.shape[0]
        c += a.shape[1]
    return out


def svd(a, full_matrices=True, compute_uv=True, **k):
    """svd of a matrix whose decomposition has been registered by the harness"""
    c = ctx()
    A = O(a)
    for (M, u, s, vt) in getattr(c, "svds", []):
        if M.shape == A.shape and all(_same(x, y) for x, y in zip(M.ravel(), A.ravel())):
            u = u if full_matrices else u[:, :len(s)]
            vt = vt if full_matrices else vt[:len(s)]
            return u.copy().view(SymArray), s.copy().view(SymArray), vt.copy().view(SymArray)
    n = A.shape[0]
    if A.ndim == 2 and A.shape[1] == n and all(
        i == j or not lift(A[i, j]).n for i in range(n) for j in range(n)
    ):
        d = [A[i, i] for i in range(n)]
        if all(rsign(lift(x)) == 1 for x in d):
            order = sorted(range(n), key=functools.cmp_to_key(lambda i, j: -1 if d[i] > d[j] else 1))
            u = _fill((n, n), 0)
            for k2, i in enumerate(order):
                u[i, k2] = const(1)
            return u, lift_arr([d[i] for i in order]), u.T.copy()
    # no decomposition is known: any result is considered (a counterexample then counts only
    # when the real decomposition confirms it)
    k2 = min(A.shape)
    u, s, vt = _garbage((A.shape[0], A.shape[0] if full_matrices else k2)), _garbage((k2,)), _garbage((A.shape[1] if full_matrices else k2, A.shape[1]))
    return (u, s, vt) if compute_uv else s


def _same(x, y):
    return not radd(lift(x), lift(y), -1).n


def inv(a, *_a, **_k):
    A = O(a)
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise np.linalg.LinAlgError("square matrix expected")
    return gauss_solve(A, eye(A.shape[0]))


def qr(a, *_a, **k):
    """square, full-rank matrices: Gram-Schmidt (signs of the columns are not specified)"""
    A = O(a)
    n = A.shape[0]
    if _a or k or A.shape != (n, n):
        raise Unsupported("qr")
    Q, R = _fill((n, n), 0), _fill((n, n), 0)
    for j in range(n):
        v = A[:, j].copy()
        for i in range(j):
            R[i, j] = np.dot(Q[:, i], A[:, j])
            v = v - R[i, j] * Q[:, i]
        R[j, j] = np.dot(v, v).sqrt()
        Q[:, j] = v / R[j, j]
    return Q, R


def eye(n, m=None, k=0, dtype=None, **kw):
    m = n if m is None else m
    out = _fill((n, m), 0)
    for i in range(n):
        if 0 <= i + k < m:
            out[i, i + k] = const(1)
    return out


def slogdet(a):
    d = det(a)
    if d > 0:
        return 1, d.log()
    return -1, (-d).log()


# ---------------------------------------------------------------- sparse matrices
class SymCSC:
    """csc_matrix contract on a dense store"""

    __array_priority__ = 100.0

    def __init__(self, a, shape=None, dtype=None, copy=False):
        if isinstance(a, SymCSC):
            self.a = a.a.copy()
        elif isinstance(a, tuple) and len(a) == 2 and all(isinstance(x, (int, np.integer)) for x in a):
            self.a = _fill(a, 0)
        elif isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], tuple):
            data, (row, col) = a
            shp = shape or (max(row) + 1, max(col) + 1)
            self.a = _fill(shp, 0)
            for v, i, j in zip(data, row, col):
                self.a[i, j] = self.a[i, j] + v
        elif isinstance(a, tuple):
            raise Unsupported("csc construction")
        else:
            self.a = np.atleast_2d(lift_arr(a))

    @classmethod
    def _new(cls, a):
        o = cls.__new__(cls)
        o.a = a
        return o

    @property
    def shape(self):
        return self.a.shape

    ndim = 2

    @property
    def T(self):
        return type(self)._new(self.a.T)

    def transpose(self):
        return self.T

    def toarray(self):
        return self.a.copy()

    todense = toarray

    @property
    def A(self):
        return self.toarray()

    def tocsc(self):
        return self

    tocsr = tocoo = tocsc

    def asformat(self, *a, **k):
        return self

    def multiply(self, o):
        return type(self)._new(self.a * (o.a if isinstance(o, SymCSC) else o))

    def copy(self):
        return type(self)._new(self.a.copy())

    def diagonal(self):
        return np.diag(self.a).copy()

    def __getitem__(self, k):
        r = self.a[k]
        return SymCSC._new(r) if isinstance(r, np.ndarray) and r.ndim == 2 else r

    def __setitem__(self, k, v):
        self.a[k] = v.a if isinstance(v, SymCSC) else v

    def _binopt(self, other, op):
        if op not in ("_plus_", "_minus_"):
            raise Unsupported("_binopt " + op)
        return type(self)._new(self.a + other.a if op == "_plus_" else self.a - other.a)

    def __add__(self, o):
        if isinstance(o, SymCSC):
            if o.shape != self.shape:
                raise ValueError("inconsistent shapes")
            return type(self)._new(self.a + o.a)
        if isinstance(o, np.ndarray):
            return self.a + o
        if isinstance(o, (int, float)) and o == 0:
            return self.copy()
        raise NotImplementedError("adding a nonzero scalar to a sparse array is not supported")

    __radd__ = __add__

    def __sub__(self, o):
        return type(self)._new(self.a - o.a) if isinstance(o, SymCSC) else self.a - o

    def __mul__(self, o):
        if isinstance(o, SymCSC):
            return SymCSC._new(np.dot(self.a, o.a))
        if isinstance(o, np.ndarray) and o.ndim:
            return np.dot(self.a, o)
        return type(self)._new(self.a * o)

    def __rmul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return np.dot(o, self.a)
        return type(self)._new(self.a * o)

    def __matmul__(self, o):
        return self * o

    def dot(self, o):
        return self * o

    def __neg__(self):
        return type(self)._new(-self.a)

    def sum(self, axis=None):
        return self.a.sum(axis=axis)

    @property
    def nnz(self):
        return len(self._pattern())

    # the structure of a sparse matrix: everything but literal zeros is an entry
    def _pattern(self):
        lit = lambda x: not x.r.n if isinstance(x, Sym) else x == 0
        return [(i, j) for j in range(self.a.shape[1]) for i in range(self.a.shape[0]) if not lit(self.a[i, j])]

    @property
    def indices(self):
        return np.array([i for i, j in self._pattern()], dtype=int)

    @property
    def indptr(self):
        cols = [j for i, j in self._pattern()]
        return np.array([sum(1 for c in cols if c < k) for k in range(self.a.shape[1] + 1)], dtype=int)


class SymDia(SymCSC):
    def __init__(self, data_off, shape=None, dtype=None, copy=False):
        if not isinstance(data_off, tuple):
            SymCSC.__init__(self, data_off)
            return
        data, off = data_off
        data = np.atleast_2d(lift_arr(data))
        off = np.atleast_1d(np.asarray(off))
        self.a = _fill(shape, 0)
        for d, k in zip(data, off):
            k = int(k)
            for j in range(shape[1]):
                i = j - k
                if 0 <= i < shape[0] and j < len(d):
                    self.a[i, j] = d[j]


def sp_block_diag(mats, format=None, dtype=None):
    return SymCSC._new(block_diag(*[m.a if isinstance(m, SymCSC) else m for m in mats]))


_dense = lambda m: m.a if isinstance(m, SymCSC) else lift_arr(m)


class CholmodNotPositiveDefiniteError(Exception):
    pass


def check_pattern(factor, pattern):
    """CHOLMOD precondition: a symbolic analysis is only valid for (subsets of) its pattern"""
    pattern = set(pattern)
    if factor._pattern is None:
        factor._pattern = pattern
    elif not pattern <= factor._pattern:
        raise RuntimeError("CHOLMOD factor updated with a matrix outside the analysed sparsity pattern")


class CheckedCholmod:
    """the real Factor with the precondition above checked (replays)"""

    def __init__(self, A, factor):
        self._pattern, self._f = None, factor
        check_pattern(self, self._of(A))

    @staticmethod
    def _of(A):
        A = A.tocoo()
        return zip(A.row.tolist(), A.col.tolist())

    def cholesky_inplace(self, A, beta=0):
        check_pattern(self, self._of(A))
        return self._f.cholesky_inplace(A, beta)

    def __call__(self, b):
        return self._f(b)

    def __getattr__(self, k):
        return getattr(self._f, k)


def install_checked_cholmod():
    import sksparse.cholmod as cm

    real = cm.cholesky
    if getattr(real, "_checked", False):
        return

    def cholesky(A, *a, **k):
        return CheckedCholmod(A, real(A, *a, **k))

    cholesky._checked = True
    cm.cholesky = cholesky


class SymCholmod:
    """sksparse.cholmod.Factor contract with a non-trivial fill-reducing permutation"""

    def __init__(self, A):
        self._pattern = None
        self.cholesky_inplace(A)

    def cholesky_inplace(self, A, beta=0):
        if not isinstance(A, SymCSC):
            raise TypeError("CSC matrix expected")
        check_pattern(self, A._pattern())
        M = np.asarray(A.a)
        n = M.shape[0]
        # CHOLMOD reads only the lower triangle of a symmetric matrix
        full = _fill((n, n), 0)
        for i in range(n):
            for j in range(i + 1):
                full[i, j] = full[j, i] = M[i, j]
        self._A = full
        self._p = np.arange(n)[::-1].copy() if n > 1 else np.arange(n)
        self._L = None

    def _low(self):
        if self._L is None:
            self._L = chol_lower(np.asarray(self._A)[np.ix_(self._p, self._p)])
        return self._L

    def copy(self):
        return SymCholmod(SymCSC._new(self._A.copy()))

    def __call__(self, b):
        if isinstance(b, SymCSC):
            return SymCSC._new(gauss_solve(self._A, b.a))
        return gauss_solve(self._A, b)

    solve_A = __call__

    def inv(self):
        return SymCSC._new(inv(self._A))

    def logdet(self):
        return det(self._A).log()

    def slogdet(self):
        return 1, self.logdet()

    def det(self):
        return det(self._A)

    def P(self):
        return self._p.copy()

    def L(self):
        return SymCSC._new(self._low().copy())

    def apply_P(self, b):
        return b[self._p]

    def apply_Pt(self, b):
        out = b.copy()
        out[self._p] = b
        return out

    def solve_L(self, b, use_LDLt_decomposition=True):
        if use_LDLt_decomposition:
            raise Unsupported("LDLt solve")
        return tri_solve(self._low(), b.a if isinstance(b, SymCSC) else b, True)

    def solve_Lt(self, b, use_LDLt_decomposition=True):
        if use_LDLt_decomposition:
            L = np.asarray(self._low())
            L = L / np.diag(L)[None, :]
            return tri_solve(L.T, b, False)
        return tri_solve(self._low().T, b.a if isinstance(b, SymCSC) else b, False)


def cholmod_cholesky(A, beta=0, mode="auto", ordering_method="default", use_long=None):
    if not isinstance(A, SymCSC):
        A = SymCSC(A)
    return SymCholmod(A)


class FastShermanMorrison:
    """contract of fastshermanmorrison.FastShermanMorrison: N = diag(nvec) + sum_k j_k 1 1^T on
    each index set with more than one entry"""

    def __init__(self, jvec, slices, nvec=0.0):
        self._jvec, self._slices, self._nvec = jvec, slices, nvec
        self._idxs = [np.asarray(s) if isinstance(s, np.ndarray) else np.arange(s.start, s.stop) for s in slices]

    def __add__(self, other):
        return FastShermanMorrison(self._jvec, self._slices, self._nvec + other)

    def __radd__(self, other):
        if isinstance(other, (int, float)) and other == 0:
            return self.__add__(other)
        raise TypeError

    def _dense(self):
        n = len(self._nvec)
        N = _fill((n, n), 0)
        for i in range(n):
            N[i, i] = self._nvec[i]
        for idx, j in zip(self._idxs, self._jvec):
            if len(idx) > 1:
                for a in idx:
                    for b in idx:
                        N[a, b] = N[a, b] + j
        return N

    def solve(self, other, left_array=None, logdet=False):
        N = self._dense()
        if other.ndim == 2 and left_array is None:
            raise NotImplementedError("FastShermanMorrison does not implement _solve_D2")
        if other.ndim == 2 and left_array.ndim == 1:
            r = np.dot(other.T, gauss_solve(N, left_array))
        else:
            r = gauss_solve(N, other)
            if left_array is not None:
                r = np.dot(left_array.T, r)
        return (r, det(N).log()) if logdet else r


# ---------------------------------------------------------------- numpy namespace
def lift_any(x):
    if isinstance(x, np.ndarray):
        return lift_arr(x) if x.dtype.kind in "fciubO" else x
    if isinstance(x, (list, tuple)):
        return lift_arr(x)
    r = lift(x)
    return x if r is None else (x if isinstance(x, Sym) else Sym(r))


def _sc(x):
    return x[()] if isinstance(x, np.ndarray) and x.ndim == 0 else x


def elementwise(meth, fn=None):
    def f(x, *a, out=None, where=None, dtype=None, **k):
        if where is not None and where is not True:
            raise Unsupported("ufunc where=")
        y = lift_any(x)
        if isinstance(y, np.ndarray):
            r = np.empty(y.shape, dtype=object)
            for i, v in np.ndenumerate(np.asarray(y)):
                r[i] = getattr(v, meth)() if hasattr(v, meth) else getattr(const(v), meth)()
            r = r.view(type(y) if isinstance(y, SymArray) else SymArray)
            if isinstance(x, SymArray) and type(x) is not SymArray:
                r = r.view(type(x))
        else:
            r = getattr(y, meth)()
        if out is not None:
            out[...] = r
            return out
        return r

    f.__name__ = meth
    return f


def _shape(s):
    return tuple(int(x) for x in s) if isinstance(s, (tuple, list)) else int(s)


def _arange(*a, dtype=None, **k):
    if not any(isinstance(x, (Sym, float, np.floating)) for x in a):
        return np.arange(*a, dtype=dtype, **k)
    a = [const(x) if not isinstance(x, Sym) else x for x in a]
    if len(a) == 1:
        a = [const(0), a[0]]
    if len(a) == 2:
        a.append(const(1))
    n = math.ceil(_sc((a[1] - a[0]) / a[2]))
    return lift_arr([a[0] + i * a[2] for i in range(n)])


def _linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, **k):
    num = int(num)
    a, b = const(a) if not isinstance(a, Sym) else a, const(b) if not isinstance(b, Sym) else b
    div = num - 1 if endpoint else num
    step = (b - a) / div if div > 0 else None
    r = lift_arr([a + i * step if div > 0 else a for i in range(num)])
    if num == 0:
        r = _fill((0,), 0)
    return (r, step) if retstep else r


def _heaviside(x, h):
    def one(v):
        return const(0) if v < 0 else (const(h) if not isinstance(h, Sym) else h) if v == 0 else const(1)

    y = lift_any(x)
    if isinstance(y, np.ndarray):
        return lift_arr([one(v) for v in y.ravel()]).reshape(y.shape)
    return one(y)


def _interp(x, xp, fp, left=None, right=None, period=None):
    xp, fp = lift_any(xp), lift_any(fp)
    if len(xp) != len(fp):
        raise ValueError("fp and xp are not of the same length.")

    def one(v):
        n = len(xp)
        if v < xp[0]:
            return fp[0] if left is None else left
        if v > xp[n - 1]:
            return fp[n - 1] if right is None else right
        # numpy: largest j with xp[j] <= v
        j = 0
        for i in range(1, n):
            if xp[i] <= v:
                j = i
            else:
                break
        if j == n - 1:
            return fp[n - 1]
        return fp[j] + (fp[j + 1] - fp[j]) / (xp[j + 1] - xp[j]) * (v - xp[j])

    y = lift_any(x)
    if isinstance(y, np.ndarray):
        return lift_arr([one(v) for v in y.ravel()]).reshape(y.shape)
    return one(y)


def _norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2, "fro"):
        raise Unsupported("norm order")
    y = lift_any(x)
    if axis is None:
        return np.sum(y * y).sqrt()
    if ord == 2 and y.ndim > 1 and axis is None:
        raise Unsupported("matrix 2-norm")
    s = np.sum(y * y, axis=axis, keepdims=keepdims)
    return NPX.sqrt(s)


def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = lift_any(a), lift_any(b)
    r = np.frompyfunc(lambda x, y: bool(abs(x - y) <= atol + rtol * abs(y)), 2, 1)(a, b)
    return np.asarray(r, bool) if isinstance(r, np.ndarray) else r


def _wrapmod(name, table, fallback):
    m = types.ModuleType(name)
    m.__dict__.update(table)
    m.__getattr__ = lambda a: getattr(fallback, a)
    return m


def _searchsorted(a, v, side="left", sorter=None):
    if not symbolic(a, v):
        return np.searchsorted(a, v, side, sorter)
    aa = list(a) if sorter is None else [a[i] for i in sorter]

    def one(x):
        k = 0
        for y in aa:
            if (y < x) if side == "left" else (y <= x):
                k += 1
            else:
                break
        return k

    if np.ndim(v):
        return np.array([one(x) for x in v])
    return one(v)


def _array(x, dtype=None, copy=True, **k):
    k.pop("like", None)
    if isinstance(x, SymCSC):
        raise Unsupported("np.array of a sparse matrix")
    if dtype is None:
        sub = k.pop("subok", False)
        a = np.array(x, copy=copy, subok=True, **k)
        if a.dtype.kind in "fc":
            a = lift_arr(a)
        elif a.dtype == object and not isinstance(a, SymArray):
            if any(isinstance(v, (Sym, SymC)) for v in a.ravel()):
                a = lift_arr(a)
        if type(a) is not SymArray and isinstance(a, SymArray) and not sub:
            a = a.view(SymArray)
        return a
    if is_float_dtype(dtype) and not (np.dtype(dtype).kind == "O" if not isinstance(dtype, type) or not issubclass(dtype, float) else False):
        return lift_arr(x)
    if symbolic(x):
        return lift_arr(x).astype(dtype)
    return np.array(x, dtype=dtype, **{a: b for a, b in k.items() if a in ("ndmin", "order")})


def _asarray(x, dtype=None, **k):
    if isinstance(x, np.ndarray) and (x.dtype == object and (dtype is None or is_float_dtype(dtype))):
        return x.view(SymArray) if type(x) is not SymArray else x
    if isinstance(x, np.ndarray) and dtype is None and x.dtype.kind not in "fc":
        return x
    return _array(x, dtype)


def _like(v):
    def f(x, dtype=None, shape=None, **k):
        if v is None and (dtype is None and getattr(x, "dtype", np.dtype(float)).kind in "fcO" or is_float_dtype(dtype)):
            r = _garbage(np.shape(x) if shape is None else shape)
            return r.view(type(x)) if isinstance(x, SymArray) and type(x) is not SymArray else r
        a = np.asarray(x) if not isinstance(x, np.ndarray) else x
        shp = a.shape if shape is None else shape
        if dtype is None:
            if a.dtype.kind in "fcO":
                r = _fill(shp, v if v is not None else 0)
                return r.view(type(a)) if isinstance(a, SymArray) and type(a) is not SymArray else r
            return (np.ones if v == 1 else np.zeros)(shp, a.dtype)
        if is_float_dtype(dtype):
            return _fill(shp, v if v is not None else 0)
        return (np.ones if v == 1 else np.zeros)(shp, dtype)

    return f


def _full_like(x, val, dtype=None, **k):
    a = np.asarray(x)
    if dtype is None and a.dtype.kind not in "fcO":
        return np.full_like(a, val)
    if dtype is not None and not is_float_dtype(dtype):
        return np.full(a.shape, val, dtype)
    r = np.empty(a.shape, dtype=object)
    r[...] = val
    return lift_arr(r)


def _create(v):
    def f(shape, dtype=float, **k):
        if dtype is None or is_float_dtype(dtype):
            return _garbage(_shape(shape)) if v is None else _fill(_shape(shape), v)
        return (np.ones if v == 1 else np.zeros)(_shape(shape), dtype)

    return f


def _full(shape, val, dtype=None, **k):
    if dtype is None and not symbolic(val) and not isinstance(val, float):
        return np.full(shape, val)
    if dtype is not None and not is_float_dtype(dtype):
        return np.full(shape, val, dtype)
    r = np.empty(_shape(shape), dtype=object)
    r[...] = val
    return lift_arr(r)


def _diag(v, k=0):
    if isinstance(v, (list, tuple)):
        v = _array(v)
    a = np.asarray(v)
    if a.dtype != object:
        return np.diag(v, k)
    if a.ndim == 1:
        n = len(a) + abs(k)
        out = _fill((n, n), 0)
        for i, x in enumerate(a):
            out[i + max(-k, 0), i + max(k, 0)] = x
        # numpy's diag does not preserve subclasses for 1-d input
        return out
    return np.diag(a, k).view(type(v) if isinstance(v, SymArray) else SymArray)


def _tri(which):
    def f(m, k=0):
        a = lift_any(m)
        if not isinstance(a, np.ndarray) or a.dtype != object:
            return getattr(np, which)(m, k)
        out = lift_arr(a)
        for i, j in np.ndindex(*a.shape):
            if (j > i + k) if which == "tril" else (j < i + k):
                out[i, j] = const(0)
        return out

    return f


def _sum(a, *args, **k):
    dt = k.get("dtype")
    if dt is not None and is_float_dtype(dt):
        k.pop("dtype")
    if isinstance(a, SymCSC):
        return a.sum(*args, **k)
    if "where" in k:
        k.setdefault("initial", 0)
    r = np.sum(a, *args, **k)
    return const(r) if isinstance(r, float) and math.isfinite(r) else r


def _average(a, axis=None, weights=None, **k):
    a = lift_any(a)
    if weights is None:
        return np.mean(a, axis=axis)
    w = lift_any(weights)
    return np.sum(a * w, axis=axis) / np.sum(w, axis=axis)


def _dot(a, b, out=None):
    if isinstance(a, SymCSC) or isinstance(b, SymCSC):
        if isinstance(a, SymCSC):
            return a * b
        return b.__rmul__(a)
    return np.dot(a, b)


def _einsum(spec, *ops, **k):
    k.pop("optimize", None)
    return np.einsum(spec, *[lift_any(o) if isinstance(o, np.ndarray) and o.dtype.kind == "f" else o for o in ops], **k)


def _median(a, axis=None, **k):
    a = lift_any(a)
    if axis is not None or a.ndim != 1:
        raise Unsupported("median")
    b = sorted(a.tolist())
    n = len(b)
    return b[n // 2] if n % 2 else (b[n // 2 - 1] + b[n // 2]) / 2


def _var(a, axis=None, ddof=0, **k):
    a = lift_any(a)
    n = a.size if axis is None else a.shape[axis]
    d = a - (np.sum(a) / n if axis is None else np.expand_dims(np.sum(a, axis=axis) / n, axis))
    return np.sum(d * d, axis=axis) / (n - ddof)


def _binary(name, meth):
    real = getattr(np, name)

    def f(a, b, *r, **k):
        k.pop("dtype", None)
        return real(lift_any(a) if not symbolic(a) else a, lift_any(b) if not symbolic(b) else b, *r, **k)

    for m in ("reduce", "outer", "accumulate", "at", "reduceat"):
        setattr(f, m, getattr(real, m))
    return f


def _round(x, decimals=0, out=None):
    y = lift_any(x)
    f = lambda v: v.__round__(int(decimals)) if decimals else v.rint()
    return np.frompyfunc(f, 1, 1)(y).view(type(y)) if isinstance(y, np.ndarray) and y.ndim else f(y if isinstance(y, Sym) else y[()])


def _predicate(v):
    def f(x, *a, **k):
        y = lift_any(x)
        return np.full(y.shape, v) if isinstance(y, np.ndarray) else v

    return f


class _Elt:
    """np.float64-like scalar types"""


def make_np(rng):
    t = {}
    for n in ("sqrt", "sin", "cos", "tan", "exp", "log", "log10", "log2", "log1p", "expm1", "arccos", "arcsin", "arctan",
              "rint", "floor", "ceil", "fabs", "deg2rad", "radians", "sign", "square", "reciprocal", "cbrt", "exp2"):
        t[n] = elementwise(n)
    t["round"] = t["around"] = t["round_"] = _round
    t["abs"] = t["absolute"] = elementwise("__abs__")
    t.update(
        pi=Sym(rgen(alg.PI)), e=Sym(const(1).exp().r), zeros=_create(0), ones=_create(1), empty=_create(None), full=_full,
        zeros_like=_like(0), ones_like=_like(1), empty_like=_like(None), full_like=_full_like, array=_array, asarray=_asarray,
        asanyarray=lambda x, dtype=None: x if isinstance(x, np.ndarray) and dtype is None else _asarray(x, dtype),
        ascontiguousarray=_asarray, eye=eye, identity=lambda n, dtype=None: eye(n), diag=_diag, tril=_tri("tril"), triu=_tri("triu"),
        arange=_arange, linspace=_linspace,
        logspace=lambda a, b, num=50, endpoint=True, base=10.0, dtype=None, **k: lift_any(const(base) if not isinstance(base, Sym) else base) ** _linspace(a, b, num, endpoint),
        geomspace=lambda a, b, num=50, endpoint=True, **k: lift_any(const(10)) ** _linspace(t["log10"](a), t["log10"](b), num, endpoint),
        heaviside=_heaviside, interp=_interp, isclose=_isclose, allclose=lambda *a, **k: bool(np.all(_isclose(*a, **k))),
        searchsorted=_searchsorted, argsort=loose_argsort, sum=_sum, dot=_dot, einsum=_einsum, average=_average, ndarray=SymArray,
        isnan=_predicate(False), isinf=_predicate(False), isfinite=_predicate(True),
        float64=_NpFloatT, double=_NpFloatT, float_=_NpFloatT, floating=_NpFloatT, longdouble=_NpFloatT,
        arctan2=lambda y, x: np.frompyfunc(lambda a, b: Sym(uf("arctan2", [lift(a), lift(b)])), 2, 1)(lift_any(y), lift_any(x)),
        hypot=lambda a, b: t["sqrt"](lift_any(a) * lift_any(a) + lift_any(b) * lift_any(b)),
        divide=_binary("divide", 0), true_divide=_binary("divide", 0), power=_binary("power", 0), multiply=_binary("multiply", 0),
        fill_diagonal=np.fill_diagonal, std=lambda *a, **k: t["sqrt"](_var(*a, **k)), var=_var, median=_median, float_power=_binary("power", 0),
        rad2deg=lambda x: lift_any(x) * 180 / t["pi"], degrees=lambda x: lift_any(x) * 180 / t["pi"],
        clip=lambda a, lo, hi, **k: np.minimum(np.maximum(a, lo), hi),
        array_equal=lambda a, b, **k: np.shape(a) == np.shape(b) and bool(np.all(np.asarray(a) == np.asarray(b))),
        matmul=lambda a, b: _dot(a, b) if max(np.ndim(a), np.ndim(b)) <= 2 else np.matmul(lift_any(a), lift_any(b)),
    )
    lin = _wrapmod("numpy.linalg", dict(inv=inv, det=det, slogdet=slogdet, solve=lambda a, b: gauss_solve(a, b), svd=svd, norm=_norm,
                                        cholesky=lambda a: chol_lower(a), pinv=_unsup("pinv"), eigh=_unsup("eigh"), qr=qr,
                                        lstsq=_unsup("lstsq")), np.linalg)
    t["linalg"] = lin
    t["random"] = rng
    return _wrapmod("numpy", t, np)


def _unsup(n):
    def f(*a, **k):
        raise Unsupported(n)

    return f


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, Sym))

    def __subclasscheck__(cls, c):
        return issubclass(c, float) or c is Sym


class _FloatT(float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, np.ndarray) and x.dtype == object:
            if x.size != 1:
                raise TypeError("only length-1 arrays can be converted to Python scalars")
            if x.ndim > 0:
                # numpy still allows this (deprecated)
                pass
            return x.ravel()[0]
        v = float(x)
        try:
            return const(v)
        except Exception:
            return v


class _NpFloatT(_FloatT):
    """numpy's scalar type: converts arrays too (those of one entry to a scalar)"""

    def __new__(cls, x=0.0):
        if isinstance(x, (list, tuple, np.ndarray)) and np.size(x) != 1:
            return lift_arr(x)
        return _FloatT.__new__(cls, x)


# ---------------------------------------------------------------- scipy
def _erf1(x):
    x = x if isinstance(x, Sym) else const(x)
    if not x.r.n:
        return const(0)
    if x.r.n[max(x.r.n)] < 0:
        return -Sym(uf("erf", [(-x).r]))
    return Sym(uf("erf", [x.r]))


def vec(fn):
    def f(*xs):
        ys = [lift_any(x) for x in xs]
        if any(isinstance(y, np.ndarray) for y in ys):
            r = np.frompyfunc(fn, len(ys), 1)(*ys)
            return lift_arr(r)
        return fn(*ys)

    return f


def _jn(n, x):
    x = x if isinstance(x, Sym) else const(x)
    return Sym(uf("jn", [lift(n), x.r]))


class _Frozen:
    """distribution with fixed location and scale"""

    def __init__(self, loc=0, scale=1):
        self.k = dict(loc=loc, scale=scale)

    def __getattr__(self, n):
        f, k = getattr(self.dist, n), self.k
        return lambda x: f(x, **k)


class _Uniform:
    def __new__(cls, loc=0, scale=1):
        o = _Frozen(loc, scale)
        o.dist = cls
        return o

    @staticmethod
    def logpdf(x, loc=0, scale=1):
        return vec(lambda a: a.log() if a.r.n else -np.inf)(_Uniform.pdf(x, loc, scale))

    @staticmethod
    def cdf(x, loc=0, scale=1):
        return vec(lambda a, b, c: const(0) if a < b else const(1) if a > b + c else (a - b) / c)(x, loc, scale)

    @staticmethod
    def ppf(q, loc=0, scale=1):
        return vec(lambda a, b, c: b + c * a)(q, loc, scale)

    @staticmethod
    def pdf(x, loc=0, scale=1):
        return vec(lambda a, b, c: 1 / c if (a >= b and a <= b + c) else const(0))(x, loc, scale)


class _Norm:
    def __new__(cls, loc=0, scale=1):
        o = _Frozen(loc, scale)
        o.dist = cls
        return o

    @staticmethod
    def logpdf(x, loc=0, scale=1):
        return vec(lambda a, b, c: -((a - b) / c) ** 2 / 2 - (2 * Sym(rgen(alg.PI))).log() / 2 - c.log())(x, loc, scale)

    @staticmethod
    def cdf(x, loc=0, scale=1):
        return vec(lambda a, b, c: (1 + _erf1((a - b) / c / const(2).sqrt())) / 2)(x, loc, scale)

    @staticmethod
    def ppf(q, loc=0, scale=1):
        return vec(lambda a, b, c: b + c * Sym(uf("ndtri", [a.r])))(q, loc, scale)

    @staticmethod
    def pdf(x, loc=0, scale=1):
        return vec(lambda a, b, c: (-((a - b) / c) ** 2 / 2).exp() / (2 * Sym(rgen(alg.PI))).sqrt() / c)(x, loc, scale)


class _InvGamma:
    @staticmethod
    def pdf(x, a, loc=0, scale=1):
        return vec(lambda x, a, l, s: Sym(uf("invgamma_pdf", [(x - l).r, a.r, s.r])))(x, a, loc, scale)

    rng = None

    @staticmethod
    def rvs(a, loc=0, scale=1, size=None, **k):
        return _InvGamma.rng.invgamma(a, loc, scale, size)


# ---------------------------------------------------------------- random source
class SymRng:
    """np.random contract: every draw is a fresh symbolic value of the documented support; after
    seed(s) the sequence is a function of s and of the kinds drawn since"""

    stream, base = "", 0

    def __init__(self):
        self.n = 0
        self.limit = None

    feed = None
    earlier = None  # (source of the fixed draws of an earlier evaluation)

    def _fresh(self, kind, lo, hi):
        c = ctx()
        if self.feed is not None and kind == "z":
            return lift_any(self.feed.pop(0))
        if self.earlier is not None:
            return const(self.earlier(kind))
        if self.limit is not None and self.n >= self.limit:
            raise sym.Infeasible()
        name = "rng_%s%s%d" % (self.stream, kind, self.n - self.base)
        self.n += 1
        g = alg.T.gen(("var", name), name, "var", (lo, hi), kind == "g")
        if c is not None:
            c.vars[name] = (g, (0.02, 0.98) if kind == "u" else (0.3, 2.0) if kind == "g" else (-2.0, 2.0))
            c.draws = getattr(c, "draws", [])
            c.draws.append((kind, name))
        return Sym(rgen(g))

    def _shape(self, size, *args):
        b = np.broadcast(*[np.empty(np.shape(a)) for a in args]) if args else None
        if size is None:
            return b.shape if b is not None else ()
        return (size,) if not isinstance(size, (tuple, list)) else tuple(size)

    def _draw(self, kind, shape, lo=None, hi=None):
        shape = tuple(int(s) for s in shape)
        if shape == ():
            return self._fresh(kind, lo, hi)
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            out[i] = self._fresh(kind, lo, hi)
        return out.view(SymArray)

    def seed(self, s=None):
        if s is not None:
            self.stream, self.base = "seed%d_" % int(s), self.n

    def uniform(self, low=0.0, high=1.0, size=None):
        u = self._draw("u", self._shape(size, low, high), 0, 1)
        low, high = lift_any(low), lift_any(high)
        return low + (high - low) * u

    def random(self, size=None):
        return self.uniform(size=size)

    random_sample = random

    def rand(self, *s):
        return self.uniform(size=s if s else None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        z = self._draw("z", self._shape(size, loc, scale))
        return lift_any(loc) + lift_any(scale) * z

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def randn(self, *s):
        return self.normal(size=s if s else None)

    def multivariate_normal(self, mean, cov, size=None, **k):
        if size is not None:
            raise Unsupported("multivariate_normal size")
        mean = lift_any(mean)
        L = chol_lower(cov)
        z = self._draw("z", (len(mean),))
        return mean + np.dot(L, z)

    def invgamma(self, a, loc, scale, size):
        g = self._draw("g", self._shape(size, a, loc, scale))
        return lift_any(loc) + lift_any(scale) * g

    def __getattr__(self, k):
        raise Unsupported("np.random." + k)


class RealRng:
    """the same contract on concrete floats: draws come from the replay assignment"""

    stream, base = "", 0

    def __init__(self, env):
        self.env, self.n = env, 0
        self.limit, self.log = None, []
        import random

        self._r = random.Random(7)

    feed = None
    earlier = None  # (source of the fixed draws of an earlier evaluation)

    def _fresh(self, kind):
        if self.feed is not None and kind == "z":
            return float(self.feed.pop(0))
        if self.earlier is not None:
            return self.earlier(kind)
        if self.limit is not None and self.n >= self.limit:
            raise sym.Infeasible()
        name = "rng_%s%s%d" % (self.stream, kind, self.n - self.base)
        self.n += 1
        v = self.env.get(name)
        if v is None:
            v = self._r.uniform(0.02, 0.98) if kind == "u" else self._r.uniform(0.3, 2) if kind == "g" else self._r.uniform(-2, 2)
            self.env[name] = v
        self.log.append((kind, float(v)))
        return float(v)

    def _draw(self, kind, shape):
        if shape == ():
            return self._fresh(kind)
        out = np.empty(shape)
        for i in np.ndindex(*shape):
            out[i] = self._fresh(kind)
        return out

    _shape = SymRng._shape

    seed = SymRng.seed

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (np.asarray(high) - low) * self._draw("u", self._shape(size, low, high))

    def random(self, size=None):
        return self.uniform(size=size)

    random_sample = random

    def rand(self, *s):
        return self.uniform(size=s if s else None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + np.asarray(scale) * self._draw("z", self._shape(size, loc, scale))

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def randn(self, *s):
        return self.normal(size=s if s else None)

    def multivariate_normal(self, mean, cov, size=None, **k):
        z = self._draw("z", (len(mean),))
        return mean + np.dot(np.linalg.cholesky(cov), z)

    def invgamma(self, a, loc=0, scale=1, size=None, **k):
        return loc + np.asarray(scale) * self._draw("g", self._shape(size, a, loc, scale))

    NAMES = ("seed", "uniform", "random", "random_sample", "rand", "normal", "standard_normal", "randn", "multivariate_normal")


RNG = SymRng()
_InvGamma.rng = RNG
NPX = None
NPX = make_np(RNG)


def reset():
    """new term table: rebuild everything that holds terms"""
    global NPX
    alg.reset()
    RNG.n = 0
    RNG.limit = RNG.feed = RNG.earlier = None
    RNG.stream, RNG.base = "", 0
    NPX = make_np(RNG)
    return NPX


def _interp1d(x, y, kind="linear", **k):
    if kind != "linear":
        raise Unsupported("interp1d kind")

    def f(v):
        return _interp(v, x, y)

    return f


def scalar_fn(name, meth):
    def f(x):
        return getattr(x if isinstance(x, Sym) else const(x), meth)()

    f.__name__ = name
    return f


def modules():
    """the substitution table for one run"""
    real = __import__
    import importlib

    R_ = lambda n: importlib.import_module(n)
    sl = _wrapmod("scipy.linalg", dict(
        cho_factor=cho_factor, cho_solve=cho_solve, solve_triangular=solve_triangular, block_diag=block_diag, svd=svd, inv=inv,
        solve=lambda a, b, *r, **k: gauss_solve(a, b), det=det, cholesky=lambda a, lower=False, **k: chol_lower(a) if lower else chol_lower(np.asarray(O(a)).T).T,
        lu_factor=lambda a, *r, **k: (np.array(O(a)), None), lu_solve=lambda f, b, *r, **k: gauss_solve(f[0], b),
        qr=qr, eigh=_unsup("eigh"), lstsq=_unsup("lstsq"), pinv=_unsup("pinv"), sqrtm=_unsup("sqrtm"), norm=_norm), R_("scipy.linalg"))
    spl = _wrapmod("scipy.sparse.linalg", dict(inv=lambda a: SymCSC._new(inv(a.a)), spsolve=lambda A, b: gauss_solve(A.a, b.a if isinstance(b, SymCSC) else b), splu=_unsup("splu")), R_("scipy.sparse.linalg"))
    sps = _wrapmod("scipy.sparse", dict(
        csc_matrix=SymCSC, csr_matrix=SymCSC, coo_matrix=SymCSC, csc_array=SymCSC, csr_array=SymCSC, dia_matrix=SymDia, block_diag=sp_block_diag, linalg=spl,
        diags=_diags, eye=lambda n, *a, **k: SymCSC._new(eye(n)), identity=lambda n, *a, **k: SymCSC._new(eye(n)),
        vstack=lambda ms, *a, **k: SymCSC._new(np.vstack([_dense(m) for m in ms])), hstack=lambda ms, *a, **k: SymCSC._new(np.hstack([_dense(m) for m in ms])),
        kron=lambda a, b, *r, **k: SymCSC._new(np.kron(_dense(a), _dense(b))), lil_matrix=SymCSC, coo_array=SymCSC,
        issparse=lambda x: isinstance(x, SymCSC), spmatrix=SymCSC, isspmatrix=lambda x: isinstance(x, SymCSC)), R_("scipy.sparse"))
    ss = _wrapmod("scipy.special", dict(erf=vec(_erf1), jn=vec(_jn), jv=vec(_jn), ndtri=vec(lambda p: Sym(uf("ndtri", [p.r]))),
        ndtr=_Norm.cdf, erfc=vec(lambda x: 1 - _erf1(x)), erfinv=vec(lambda x: Sym(uf("ndtri", [((x + 1) / 2).r])) / const(2).sqrt())), R_("scipy.special"))
    st = _wrapmod("scipy.stats", dict(uniform=_Uniform, norm=_Norm, invgamma=_InvGamma), R_("scipy.stats"))
    itp = _wrapmod("scipy.interpolate", dict(interp1d=_interp1d), R_("scipy.interpolate"))
    itg = _wrapmod("scipy.integrate", dict(odeint=_unsup("odeint"), solve_ivp=_unsup("solve_ivp"), quad=_unsup("quad")), R_("scipy.integrate"))
    sp = _wrapmod("scipy", dict(linalg=sl, sparse=sps, special=ss, stats=st, interpolate=itp, integrate=itg), R_("scipy"))
    cm = types.ModuleType("sksparse.cholmod")
    from sksparse.cholmod import CholmodError

    cm.cholesky, cm.CholmodError = cholmod_cholesky, CholmodError
    cm.CholmodNotPositiveDefiniteError = CholmodNotPositiveDefiniteError
    sk = types.ModuleType("sksparse")
    sk.cholmod = cm
    fsm = types.ModuleType("fastshermanmorrison.fastshermanmorrison")
    fsm.FastShermanMorrison = FastShermanMorrison
    fs = types.ModuleType("fastshermanmorrison")
    fs.fastshermanmorrison = fsm
    m = _wrapmod("math", {n: scalar_fn(n, k) for n, k in dict(
        sqrt="sqrt", sin="sin", cos="cos", tan="tan", exp="exp", log10="log10", log2="log2", log1p="log1p", expm1="expm1",
        acos="arccos", asin="arcsin", atan="arctan", radians="radians").items()}, math)
    m.pi = Sym(rgen(alg.PI))
    m.e = const(1).exp()
    m.log = lambda x, b=None: const(x).log() if b is None else const(x).log() / const(b).log()
    m.floor = lambda x: math.floor(x)
    m.ceil = lambda x: math.ceil(x)
    m.isnan = m.isinf = lambda x: False
    m.isfinite = lambda x: True
    m.pow = lambda a, b: const(a) ** b
    m.atan2 = lambda a, b: Sym(uf("arctan2", [lift(a), lift(b)]))
    return {"numpy": NPX, "numpy.linalg": NPX.linalg, "numpy.random": RNG, "scipy": sp, "scipy.linalg": sl, "scipy.sparse": sps,
            "scipy.sparse.linalg": spl, "scipy.special": ss, "scipy.stats": st, "scipy.interpolate": itp, "scipy.integrate": itg,
            "sksparse": sk, "sksparse.cholmod": cm, "fastshermanmorrison": fs,
            "fastshermanmorrison.fastshermanmorrison": fsm, "math": m}


def _diags(d, offsets=0, shape=None, **k):
    a = lift_any(d)
    if isinstance(offsets, (list, tuple)):
        if len(offsets) != 1 or offsets[0] != 0:
            raise Unsupported("diags")
        a = a[0] if a.ndim == 2 else a
    elif offsets != 0:
        raise Unsupported("diags")
    return SymCSC._new(_diag(a))


def sym_hash(x):
    if isinstance(x, SymBytes):
        return x
    if isinstance(x, tuple):
        return SymBytes(np.array([len(x)], dtype=object)) if False else tuple(sym_hash(y) for y in x)
    if isinstance(x, (Sym, SymC)):
        return x
    return hash(x)
