"""Harness environments.  A harness is a function h(E); it is run once per path in
symbolic mode (shadow modules, Sym values) and, for replay and for validation of the
encoding, in concrete mode (the installed enterprise, floats)."""
import contextlib
import importlib
import random
import sys
import types
import zlib
from fractions import Fraction

import numpy as np

from . import alg, load, shim, sym
from .sym import Ctx, F_and, F_atom, F_not, F_or, Formula, Infeasible, Sym, SymC, Unsupported, lift

INSTANCES = []


class Instance:
    def __init__(self, prop, name, fn, tier, kw):
        self.prop, self.name, self.fn, self.tier, self.kw = prop, name, fn, tier, kw


def instance(prop, name=None, tier="quick", **kw):
    """register a harness; kw: tmo (s), maxpaths, bounds (str), expand_trig, rtol"""

    def deco(fn):
        INSTANCES.append(Instance(prop, name or fn.__name__, fn, tier, kw))
        return fn

    return deco


class ClaimFailed(Exception):
    pass


class _Base:
    def claim_list(self):
        return self.claims

    # oracles usable in both modes
    def inv(self, A):
        return self.np.linalg.inv(A)

    def logdet(self, A):
        return self.np.linalg.slogdet(A)[1]

    def psr(self, name="psr", **kw):
        return FakePulsar(self, name, **kw)

    def vec(self, name, n, *a, **k):
        return self.array([self.real("%s%d" % (name, i), *a, **k) for i in range(n)])

    def mat(self, name, n, m, *a, **k):
        return self.array([[self.real("%s%d_%d" % (name, i, j), *a, **k) for j in range(m)] for i in range(n)])

    def spd(self, name, n):
        """symmetric, diagonally dominant by sampling; positivity of pivots is assumed by the stubs"""
        A = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1):
                A[i][j] = A[j][i] = self.real("%s%d_%d" % (name, i, j), s=(1.5, 3.0)) if i == j else self.real("%s%d_%d" % (name, i, j), s=(-0.4, 0.4))
        return self.array(A)

    def ortho(self, name, n, m):
        """n x m matrix with orthonormal columns built from Givens rotations of angles given
        by half-tangents (every rational rotation)"""
        Q = self.np.eye(n)
        k = 0
        for i in range(n):
            for j in range(i + 1, n):
                if j < m or i < m:
                    t = self.real("%s_t%d" % (name, k), s=(-0.9, 0.9))
                    k += 1
                    c, s = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
                    G = self.np.eye(n)
                    G[i, i] = c
                    G[j, j] = c
                    G[i, j] = -s
                    G[j, i] = s
                    Q = self.np.dot(Q, G)
        return Q[:, :m]

    def known_svd(self, U, s, Vt):
        """the tall matrix U[:, :m] diag(s) Vt, with its decomposition known to svd (s positive, decreasing)"""
        np = self.np
        M = np.dot(U[:, :len(s)] * s[None, :], Vt)
        if self.symbolic:
            self.ctx.svds = getattr(self.ctx, "svds", []) + [(np.asarray(M), U, s, Vt)]
        return M

    @contextlib.contextmanager
    def feed(self, values):
        """normal deviates drawn inside are these values"""
        rng = shim.RNG if self.symbolic else self.rng
        rng.feed = list(values)
        try:
            yield
        finally:
            rng.feed = None

    def raises(self, exc, fn, *a, **k):
        try:
            fn(*a, **k)
        except exc:
            return True
        except (Unsupported, alg.AlgError, Infeasible, sym.PathLimit):
            raise
        except Exception as e:
            self.note("raised %r instead of %r" % (e, exc))
            return False
        return False

    def patch(self, obj, attr, val):
        old = getattr(obj, attr, _MISSING)
        self._patches.append((obj, attr, old))
        setattr(obj, attr, val)

    def unpatch(self):
        for obj, attr, old in reversed(self._patches):
            if old is _MISSING:
                delattr(obj, attr)
            else:
                setattr(obj, attr, old)
        self._patches = []

    def note(self, s):
        pass

    def eq(self, label, got, exp, **k):
        """every entry of got equals exp"""
        if isinstance(got, dict) or isinstance(exp, dict):
            ok = isinstance(got, dict) and isinstance(exp, dict) and list(got) == list(exp)
            self.true(label + ".keys", ok)
            if ok:
                for kk in exp:
                    self.eq("%s[%s]" % (label, kk), got[kk], exp[kk], **k)
            return
        g, e = _flat(got), _flat(exp)
        if g[0] != e[0]:
            self.true("%s: shape %s, expected %s" % (label, g[0], e[0]), False)
            return
        scale = None
        for idx, (x, y) in enumerate(zip(g[1], e[1])):
            self._eq1(label, idx, x, y, e[1], **k)

    def close(self, *a, **k):
        return self.eq(*a, **k)


_MISSING = object()


def _flat(x):
    if isinstance(x, shim.SymCSC):
        x = x.toarray()
    if hasattr(x, "toarray"):
        x = x.toarray()
    if isinstance(x, (list, tuple)):
        x = np.array(x, dtype=object) if not any(isinstance(v, (list, tuple, np.ndarray)) for v in x) else np.array([list(np.asarray(v).ravel()) if np.ndim(v) <= 1 else v for v in x], dtype=object)
    if isinstance(x, np.ndarray):
        return x.shape, list(np.asarray(x).ravel())
    return (), [x]


def _num(x):
    return isinstance(x, (int, float, complex, np.number, Sym, SymC, Fraction)) and not isinstance(x, (bool, np.bool_))


class SymEnv(_Base):
    mode = "sym"
    symbolic = True

    def __init__(self, ctx, extra=None):
        self.ctx = ctx
        self.shadow = load.Shadow(extra)
        self.np = shim.NPX
        self.claims = []
        self.trues = []
        self._patches = []
        self.inputs = {}

    def mod(self, name):
        return self.shadow.load("enterprise." + name if name else "enterprise")

    def real(self, name, lo=None, hi=None, s=None, pos=False):
        c = self.ctx
        if name not in c.vars:
            if s is None:
                s = (lo if lo is not None else (0.3 if pos else -2.0), hi if hi is not None else 3.0 if pos else 2.0)
                if s[0] >= s[1]:
                    s = (lo, lo + 3.0) if lo is not None else (hi - 3.0, hi)
            flo = Fraction(str(lo)) if lo is not None else None
            fhi = Fraction(str(hi)) if hi is not None else None
            g = alg.T.gen(("var", name), name, "var", (flo, fhi), pos or (lo is not None and lo > 0))
            c.vars[name] = (g, s)
        return Sym(alg.rgen(c.vars[name][0]))

    def pos(self, name, lo=None, hi=None, s=None):
        return self.real(name, lo, hi, s or (0.4, 2.5) if lo is None else s, pos=True)

    def choose(self, name, n):
        """structural choice 0..n-1, explored exhaustively"""
        c = self.ctx
        if name in c.choices:
            return c.choices[name]
        p = len(c.trace)
        if p < len(c.prefix):
            v = c.prefix[p]
        else:
            v = 0
            for k in range(n - 1, 0, -1):
                c.todo.append(c.trace + [k])
        c.trace.append(v)
        c.choices[name] = v
        return v

    def array(self, x):
        return shim.lift_arr(x)

    def const(self, x):
        return sym.const(x)

    def unit_vector(self, name):
        """three components on the unit sphere: c^2 is rewritten to 1-a^2-b^2"""
        a, b, c_ = (self.real(name + k, -1, 1, s=(-0.6, 0.6)) for k in "xyz")
        gx, gy, gz = (self.ctx.vars[name + k][0] for k in "xyz")
        if gz.i not in alg.T.red:
            alg.T.add_red(gz, 2, {0: 1, 2 * gx.mono: -1, 2 * gy.mono: -1})
        self.ctx.derived[name + "z"] = lambda env, n=name: (1 - env[n + "x"] ** 2 - env[n + "y"] ** 2) ** 0.5
        return self.array([a, b, c_])

    def assume(self, cond_fn):
        """cond_fn() -> bool under forking: keep only the paths where it holds"""
        if not cond_fn():
            raise Infeasible()

    def assume_lt(self, *xs):
        """x0 < x1 < ... without forking"""
        for a, b in zip(xs, xs[1:]):
            r = alg.radd(lift(a), lift(b), -1)
            self._assume_atom("<", r)

    def assume_le(self, *xs):
        for a, b in zip(xs, xs[1:]):
            self._assume_atom("<=", alg.radd(lift(a), lift(b), -1))

    def assume_ne(self, a, b):
        self._assume_atom("!=", alg.radd(lift(a), lift(b), -1))

    def assume_pd(self, A):
        """the matrix is positive definite (all pivots positive)"""
        try:
            shim.chol_lower(np.asarray(A))
        except np.linalg.LinAlgError:
            raise Infeasible()

    def _assume_atom(self, op, r):
        if r.is_const():
            q = r.const()
            if not sym._holds(op, (q > 0) - (q < 0)):
                raise Infeasible()
            return
        self.ctx.pc.append(F_atom(op, r))
        if op == "!=":
            rr = r if r.n[max(r.n)] > 0 else alg.rneg(r)
            g = alg.pcontent(rr.n)
            self.ctx.cache[("==", alg.R({m: v // g for m, v in rr.n.items()}, 1, ()).key())] = False
        else:
            self.ctx.cache[(op, r.key())] = True

    def true(self, label, cond):
        if isinstance(cond, Formula):
            self.claims.append(("formula", label, 0, cond, None))
        else:
            self.claims.append(("bool", label, 0, bool(cond), True))

    def _eq1(self, label, idx, x, y, alle, **k):
        if x is None or y is None or isinstance(x, (str, bool, np.bool_)) or isinstance(y, (str, bool, np.bool_)):
            self.claims.append(("bool", label, idx, (x is None and y is None) if (x is None or y is None) else bool(x == y), True))
            return
        if isinstance(x, float) and (x in (np.inf, -np.inf) or x != x) or isinstance(y, float) and y in (np.inf, -np.inf):
            self.claims.append(("bool", label, idx, not isinstance(x, Sym) and not isinstance(y, Sym) and x == y, True))
            return
        if isinstance(x, (SymC, complex)) or isinstance(y, (SymC, complex)):
            a, b = SymC.of(x), SymC.of(y)
            self.claims.append(("eq", label + ".re", idx, lift(a.re), lift(b.re)))
            self.claims.append(("eq", label + ".im", idx, lift(a.im), lift(b.im)))
            return
        a, b = lift(x), lift(y)
        if a is None or b is None:
            self.claims.append(("bool", label, idx, bool(x == y), True))
        else:
            self.claims.append(("eq", label, idx, a, b))

    def among(self, label, x, ys):
        """x equals one of ys"""
        self.claims.append(("formula", label, 0, F_or(*[F_atom("==", alg.radd(lift(x), lift(y), -1)) for y in ys]), None))

    def draws(self, kind=None):
        """values drawn from the random source so far"""
        return [Sym(alg.rgen(self.ctx.vars[n][0])) for k, n in getattr(self.ctx, "draws", []) if kind in (None, k)]

    def max_draws(self, k):
        """bound: paths drawing more than k values are outside"""
        shim.RNG.limit = k

    def sci(self, name):
        return self.shadow.sub[name]

    def le(self, label, a, b):
        """a <= b entrywise"""
        aa, bb = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        for i, (x, y) in enumerate(zip(aa.ravel(), bb.ravel())):
            self.claims.append(("formula", label, i, F_atom("<=", alg.radd(lift(x), lift(y), -1)), None))

    def lt(self, label, a, b):
        aa, bb = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        for i, (x, y) in enumerate(zip(aa.ravel(), bb.ravel())):
            self.claims.append(("formula", label, i, F_atom("<", alg.radd(lift(x), lift(y), -1)), None))

    def snapshot(self, x):
        return x.copy() if isinstance(x, np.ndarray) else x


class Stub(types.SimpleNamespace):
    """stands for a module of the environment; asking it for something it does not provide gives no verdict"""

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported("stub has no " + a)


class RealEnv(_Base):
    mode = "real"
    symbolic = False

    def __init__(self, env, choices=None, rtol=1e-6, seed=0):
        self.env = dict(env)
        self.choices = dict(choices or {})
        self.np = np
        self.rtol = rtol
        self.claims = []
        self.failures = []
        self._patches = []
        self.rnd = random.Random(seed)
        self.used = {}
        self.rng = shim.RealRng(self.env)
        self.extra_mods = {}

    def start(self):
        for n in shim.RealRng.NAMES:
            self.patch(np.random, n, getattr(self.rng, n))
        import scipy.stats

        self.patch(np, "argsort", shim.loose_argsort)
        self.patch(np, "empty", shim.real_empty(np.empty))
        self.patch(np, "empty_like", shim.real_empty(np.empty_like))
        self.patch(scipy.stats.invgamma, "rvs", self.rng.invgamma)

    def mod(self, name):
        return importlib.import_module("enterprise." + name if name else "enterprise")

    def real(self, name, lo=None, hi=None, s=None, pos=False):
        if name not in self.env:
            if s is None:
                s = (lo if lo is not None else (0.3 if pos else -2.0), hi if hi is not None else 3.0 if pos else 2.0)
                if s[0] >= s[1]:
                    s = (lo, lo + 3.0) if lo is not None else (hi - 3.0, hi)
            self.env[name] = self.rnd.uniform(*map(float, s))
        self.used[name] = self.env[name]
        return float(self.env[name])

    def pos(self, name, lo=None, hi=None, s=None):
        return self.real(name, lo, hi, s or (0.4, 2.5) if lo is None else s, pos=True)

    def choose(self, name, n):
        return self.choices.setdefault(name, 0)

    def array(self, x):
        return np.array(x, dtype=float) if not np.iscomplexobj(np.array(x)) else np.array(x)

    def const(self, x):
        return x

    def unit_vector(self, name):
        a, b = (self.real(name + k, -1, 1, s=(-0.6, 0.6)) for k in "xy")
        self.real(name + "z", -1, 1, s=(-0.6, 0.6))
        z = max(1 - a * a - b * b, 0.0) ** 0.5
        if name + "z" in self.env and self.env[name + "z"] < 0:
            z = -z
        return np.array([a, b, z])

    def assume(self, cond_fn):
        if not cond_fn():
            raise Infeasible()

    def assume_lt(self, *xs):
        for a, b in zip(xs, xs[1:]):
            if not a < b:
                raise Infeasible()

    def assume_le(self, *xs):
        for a, b in zip(xs, xs[1:]):
            if not a <= b:
                raise Infeasible()

    def assume_ne(self, a, b):
        if a == b:
            raise Infeasible()

    def assume_pd(self, A):
        if not np.all(np.linalg.eigvalsh(np.asarray(A, float)) > 0):
            raise Infeasible()

    def true(self, label, cond):
        ok = bool(cond)
        self.claims.append((label, 0, ok))
        if not ok:
            self.failures.append((label, 0, False, True))

    def _eq1(self, label, idx, x, y, alle, rtol=None, atol=None, **k):
        if not (_num(x) and _num(y)):
            ok = (x is None and y is None) or bool(x == y)
            self.claims.append((label, idx, ok))
        elif not (np.isfinite(x) and np.isfinite(y)):
            # both undefined: not a difference
            ok = bool(x == y) or bool(np.isnan(x) and np.isnan(y))
            self.claims.append((label, idx, x))
        else:
            scale = max([abs(complex(v)) for v in alle if _num(v) and np.isfinite(v)] or [0.0])
            tol = (atol or 0) + (rtol or self.rtol) * max(scale, abs(x) if scale == 0 else 0.0) + 1e-300
            if scale == 0:
                tol = max(tol, atol if atol is not None else 1e-9)
                ok = abs(x - y) <= tol
            else:
                ok = abs(x - y) <= tol
            if isinstance(x, complex) or isinstance(y, complex):
                self.claims.append((label + ".re", idx, x.real))
                self.claims.append((label + ".im", idx, x.imag))
            else:
                self.claims.append((label, idx, x))
        if not ok:
            self.failures.append((label, idx, x, y))

    def le(self, label, a, b):
        aa, bb = np.broadcast_arrays(np.asarray(a, float), np.asarray(b, float))
        for i, (x, y) in enumerate(zip(aa.ravel(), bb.ravel())):
            self.claims.append((label, i, None))
            if not x <= y + 1e-9 * max(abs(x), abs(y), 1e-9):
                self.failures.append((label, i, x, y))

    def among(self, label, x, ys):
        self.claims.append((label, 0, None))
        if not any(abs(x - y) <= self.rtol * max(abs(x), abs(y), 1e-300) for y in ys):
            self.failures.append((label, 0, x, list(ys)))

    def draws(self, kind=None):
        return [v for k, v in self.rng.log if kind in (None, k)]

    def max_draws(self, k):
        self.rng.limit = k

    def sci(self, name):
        return importlib.import_module(name)

    def lt(self, label, a, b):
        aa, bb = np.broadcast_arrays(np.asarray(a, float), np.asarray(b, float))
        for i, (x, y) in enumerate(zip(aa.ravel(), bb.ravel())):
            self.claims.append((label, i, None))
            if not x < y:
                self.failures.append((label, i, x, y))

    def snapshot(self, x):
        return x.copy() if isinstance(x, np.ndarray) else x


class Earlier(_Base):
    """environment of an evaluation made before the one claims are made about: the same structural choices,
    inputs with other (fixed) values, no claims"""

    def __init__(self, E):
        self._E = E
        self._patches = []
        self._log = []

    def __getattr__(self, a):
        if a.startswith("__") or a in ("_E",):
            raise AttributeError(a)
        return getattr(self._E, a)

    def real(self, name, lo=None, hi=None, s=None, pos=False):
        if s is None:
            s = (lo if lo is not None else (0.3 if pos else -2.0), hi if hi is not None else 3.0 if pos else 2.0)
            if s[0] >= s[1]:
                s = (lo, lo + 3.0) if lo is not None else (hi - 3.0, hi)
        k = 1 + zlib.crc32(name.encode()) % 61
        return self._E.const(float(s[0]) + (float(s[1]) - float(s[0])) * k / 64)

    def pos(self, name, lo=None, hi=None, s=None):
        return self.real(name, lo, hi, s or (0.4, 2.5) if lo is None else s, pos=True)

    def unit_vector(self, name):
        k = zlib.crc32(name.encode())
        v = ((2, 3, 6), (1, 4, 8), (2, 6, 9), (4, 4, 7))[k % 4]
        v = v[k // 4 % 3:] + v[:k // 4 % 3]
        n = int(round(sum(x * x for x in v) ** 0.5))
        return self._E.array([self._E.const(Fraction(x, n)) if self.symbolic else x / n for x in v])

    def assume(self, cond_fn):
        pass

    def assume_lt(self, *xs):
        pass

    assume_le = assume_ne = assume_pd = assume_lt

    def _claim(self, *a, **k):
        pass

    true = eq = close = le = lt = among = note = _claim


def after_earlier(fn):
    """fn, after the same with other values of the inputs"""

    def h(E):
        E0 = Earlier(E)
        rng = shim.RNG if E.symbolic else E.rng
        kept = rng.stream, rng.base, rng.limit
        rnd = random.Random(11)

        def draw(kind, left=[400]):
            left[0] -= 1
            if left[0] < 0:
                raise Unsupported("draws of the earlier evaluation")
            k = rnd.randrange(1, 64) / 64
            return k if kind == "u" else 0.25 + 2 * k if kind == "g" else 4 * k - 2

        rng.earlier = draw
        try:
            fn(E0)
        except (Infeasible, sym.PathLimit):
            raise
        except Exception:
            pass
        finally:
            E0.unpatch()
            rng.earlier, rng.feed = None, None
            rng.stream, rng.base, rng.limit = kept
        return fn(E)

    return h


def add_again(prop):
    """every instance once more, in a process that has made the same evaluation with other values before"""
    for i in [i for i in INSTANCES if i.prop == prop]:
        INSTANCES.append(Instance(prop, i.name + " (again)", after_earlier(i.fn), i.tier, dict(i.kw, bounds=i.kw.get("bounds", "") + "; after the same evaluation with other, fixed values in the same process")))


class FakePulsar:
    """stand-in for BasePulsar holding (symbolic) presented attributes"""

    def __init__(self, E, name="psr", toas=None, toaerrs=None, residuals=None, freqs=None, Mmat=None, flags=None,
                 backend_flags=None, pos=None, fitpars=None, telescope=None, **kw):
        n = len(toas)
        self.name = name
        self.toas = toas
        self.stoas = E.array([t - 120 - 7 * i for i, t in enumerate(toas)])  # (site times differ from barycentric ones)
        self.toaerrs = toaerrs
        self.residuals = residuals
        self.freqs = freqs
        self.Mmat = Mmat
        self.flags = flags if flags is not None else {}
        self.backend_flags = backend_flags if backend_flags is not None else np.array(["b0"] * n)
        self.telescope = telescope if telescope is not None else np.array(["tel"] * n)
        self.pos = pos
        if pos is not None:
            self.pos_t = E.array([list(pos)] * n)
        self.fitpars = fitpars if fitpars is not None else (["p%d" % i for i in range(Mmat.shape[1])] if Mmat is not None else [])
        for k, v in kw.items():
            setattr(self, k, v)
