"""model-building helpers shared by the harnesses (both modes)"""
import numpy as _np


def sb(E):
    return E.mod("signals.signal_base")


def par(E):
    return E.mod("signals.parameter")


def fn(E, f):
    return par(E).function(f)


def U(E):
    """a varying parameter class"""
    return par(E).Uniform(-10, 10)


def toas(E, n, name="t", t0=53000, step=10):
    """fixed, distinct, increasing observation times (days -> s)"""
    return E.array([(t0 + step * i) * 86400 for i in range(n)])


def sym_toas(E, n, name="t", span=None):
    """symbolic strictly increasing times"""
    t = [E.real("%s%d" % (name, i), s=(i * 1.0 + 0.05, i * 1.0 + 0.9)) for i in range(n)]
    E.assume_lt(*t)
    return E.array(t)


def pulsar(E, name, n, sel=None, **kw):
    kw.setdefault("toas", toas(E, n))
    kw.setdefault("toaerrs", E.array([E.pos("%s_err%d" % (name, i), s=(0.6, 1.6)) for i in range(n)]))
    kw.setdefault("residuals", E.vec(name + "_r", n))
    kw.setdefault("freqs", E.array([1400] * n))
    return E.psr(name, **kw)


def diag_prior(E, m):
    """prior function with m variance parameters"""
    if m == 1:
        return fn(E, lambda f, phi0: E.array([phi0]))
    if m == 2:
        return fn(E, lambda f, phi0, phi1: E.array([phi0, phi1]))
    if m == 3:
        return fn(E, lambda f, phi0, phi1, phi2: E.array([phi0, phi1, phi2]))
    raise ValueError


def diag_prior_class(E, m):
    return diag_prior(E, m)(**{"phi%d" % i: U(E) for i in range(m)})


def dense_prior_class(E, m, extra=0):
    """dense symmetric prior, entries as parameters"""
    if m == 2:
        def f(f, a, b, c):
            return E.array([[a, b], [b, c]])

        return fn(E, f)(a=U(E), b=U(E), c=U(E))
    raise ValueError


def basis_class(E, F, labels=None):
    """basis given entry by entry; restricted to the selection mask by row"""
    lab = labels if labels is not None else E.array([i + 1 for i in range(F.shape[1])])

    def basis(toas, rows=None):
        if len(toas) == F.shape[0]:
            return F.copy(), lab.copy()
        return F[[i for i in range(F.shape[0]) if any(bool(F_t == toas[k]) for k in range(len(toas)) for F_t in [rows[i]])]].copy(), lab.copy()

    return fn(E, basis)()


def delay_signal(E, n, name="det"):
    """deterministic signal with n delay parameters (one per TOA)"""
    ds = E.mod("signals.deterministic_signals")
    if n == 2:
        f = fn(E, lambda toas, d0, d1: E.array([d0, d1]))(d0=U(E), d1=U(E))
    elif n == 3:
        f = fn(E, lambda toas, d0, d1, d2: E.array([d0, d1, d2]))(d0=U(E), d1=U(E), d2=U(E))
    else:
        f = fn(E, lambda toas, d0, d1, d2, d3: E.array([d0, d1, d2, d3]))(d0=U(E), d1=U(E), d2=U(E), d3=U(E))
    return ds.Deterministic(f, name=name)


def params(E, pta_or_sc, pos=(), off=(), prefix=""):
    """assign a symbolic value to every parameter; names containing one of `pos` are positive,
    names ending in one of `off` are small off-diagonal entries"""
    out = {}
    for p in pta_or_sc.params:
        n = p.name
        def one(nm):
            if any(k in nm for k in off):
                return E.real(prefix + nm, s=(-0.25, 0.25))
            if any(k in nm for k in pos):
                return E.pos(prefix + nm, s=(0.6, 1.8))
            return E.real(prefix + nm)
        out[n] = E.array([one("%s_%d" % (n, i)) for i in range(p.size)]) if p.size else one(n)
    return out


def vecparams(E, pta, d):
    xs = []
    for p in pta.params:
        xs.extend(list(d[p.name]) if p.size else [d[p.name]])
    return E.array(xs)


def gauss_ll(E, d, C):
    """-1/2 d'C^-1 d - 1/2 log det C"""
    np = E.np
    return -0.5 * np.dot(d, np.dot(E.inv(C), d)) - 0.5 * E.logdet(C)


def half(E):
    return 0.5


def dot3(E, A, B, C):
    return E.np.dot(A, E.np.dot(B, C))
