"""P07: combining basis columns never changes the modelled covariance."""
from vlib.harness import instance
from . import common as c

ASSUMPTIONS = ["column identity is decided by the bytes of the column; equal columns have equal bytes (distinct values have distinct hashes)"]


def noise(E):
    return E.mod("signals.white_signals").MeasurementNoise(efac=c.par(E).Constant(1.0))


def plain(x):
    import numpy as np

    return np.array(x)


def check(E, sc, P, expected, ncol=None, tag=""):
    np = E.np
    T, phi = sc.get_basis(P), plain(sc.get_phi(P))
    Phi = np.diag(phi) if phi.ndim == 1 else phi
    E.eq("covariance" + tag, c.dot3(E, T, Phi, T.T), expected)
    columns = getattr(sc, "_idx", {})  # (no public name for it)
    for k, s in enumerate(sc.signals):
        if s in columns:
            E.eq("columns of signal %d%s" % (k, tag), T[:, columns[s]], s.get_basis(P))
    if ncol is not None:
        E.true("number of columns %d" % ncol + tag, T.shape[1] == ncol)
    inv = sc.get_phiinv(P)
    inv = plain(inv)
    Inv = np.diag(inv) if inv.ndim == 1 else inv
    E.eq("prior inverse" + tag, np.dot(Inv, Phi), np.eye(len(Phi)), atol=1e-9)


def cov(E, F, phi):
    np = E.np
    return c.dot3(E, F, np.diag(phi) if phi.ndim == 1 else phi, F.T)


def gp(E, F, name, dense=False, **kw):
    g = E.mod("signals.gp_signals")
    m = F.shape[1]
    return g.BasisGP(c.dense_prior_class(E, m) if dense else c.diag_prior_class(E, m), c.basis_class(E, F), name=name, **kw)


def phi_of(E, P, name, m, dense=False, psr="A"):
    if dense:
        a, b, d = (P["%s_%s_%s" % (psr, name, k)] for k in "abc")
        return E.array([[a, b], [b, d]])
    return E.array([P["%s_%s_phi%d" % (psr, name, i)] for i in range(m)])


def psr(E, n):
    return c.pulsar(E, "A", n, toaerrs=E.array([1] * n), residuals=E.array([1] * n))


def pairs(name, n, spec, combine=(True, True), tier="quick", shared=None):
    """spec: list of (columns, dense?)"""
    @instance("P07", name, bounds="%d TOAs, symbolic basis entries, columns %s, combine %s; every pattern of equal columns" % (n, [s[0] for s in spec], combine), maxpaths=300, tier=tier)
    def h(E):
        Fs = [E.mat("F%d_" % k, n, m) for k, (m, d) in enumerate(spec)]
        m = noise(E)
        for k, (F, (q, d), cb) in enumerate(zip(Fs, spec, combine)):
            m = m + gp(E, F, "g%d" % k, d, combine=cb)
        sc = m(psr(E, n))
        P = c.params(E, sc, pos=("phi", "_a", "_c"), off=("_b",))
        phis = [phi_of(E, P, "g%d" % k, q, d) for k, (q, d) in enumerate(spec)]
        for (q, d), ph in zip(spec, phis):
            if d:
                E.assume_pd(ph)
        check(E, sc, P, sum(cov(E, F, ph) for F, ph in zip(Fs, phis)))

    return h


pairs("diag-diag", 1, [(2, False), (2, False)])
pairs("diag-diag-2toas", 2, [(1, False), (2, False)])
pairs("three-signals", 1, [(1, False), (2, False), (1, False)], (True, True, True))
pairs("dense-diag", 1, [(2, True), (2, False)])
pairs("diag-dense", 1, [(1, False), (2, True)])
pairs("uncombined", 1, [(2, False), (2, False)], (False, False))
pairs("first-uncombined", 1, [(1, False), (2, False)], (False, True))
pairs("second-uncombined", 1, [(1, False), (2, False)], (True, False))
pairs("middle-uncombined", 1, [(1, False), (1, False), (1, False)], (True, False, True))
pairs("dense-dense", 1, [(2, True), (2, True)], tier="thorough")
pairs("three-signals-2", 1, [(2, False), (2, False), (2, False)], (True, True, True), tier="thorough")


@instance("P07", "identical-columns-shared", bounds="3 concrete signals with partly identical columns; number of combined columns")
def shared(E):
    F = E.array([[1, 0], [2, 1], [0, 3]])
    G = E.array([[4, 0], [2, 1], [1, 3]])
    H = E.array([[0, 1], [1, 2], [3, 0]])
    m = noise(E) + gp(E, F, "g0") + gp(E, G, "g1") + gp(E, H, "g2", dense=True)
    sc = m(psr(E, 3))
    P = c.params(E, sc, pos=("phi", "_a", "_c"), off=("_b",))
    phis = [phi_of(E, P, "g0", 2), phi_of(E, P, "g1", 2), phi_of(E, P, "g2", 2, True)]
    E.assume_pd(phis[2])
    check(E, sc, P, cov(E, F, phis[0]) + cov(E, G, phis[1]) + cov(E, H, phis[2]), 3)


def varying(E, name, n, coef=2):
    """signal whose two basis columns depend on a parameter"""
    def basis(toas, k):
        return E.array([[k, i] for i in range(n)]), E.array([1, 2])

    return E.mod("signals.gp_signals").BasisGP(c.diag_prior_class(E, 2), c.fn(E, basis)(k=c.U(E)), name=name)


def basis_param(order):
    @instance("P07", "basis-parameters-%s" % order, bounds="a signal with a basis parameter placed %s two signals with identical columns, two parameter values" % order)
    def h(E):
        np = E.np
        n = 2
        F = E.array([[0, 1], [1, 1]])
        v, a, b = varying(E, "v", n), gp(E, F, "g0"), gp(E, F, "g1")
        # the default evaluation of a varying basis needs a value for its parameter
        parts = {"before": [v, a, b], "after": [a, b, v], "between": [a, v, b]}[order]
        psr_ = psr(E, n)
        m = noise(E)
        for p in parts:
            m = m + p
        sc = m(psr_)
        for s in sc.signals:
            if s.signal_id == "v":
                E.patch(s, "_construct_basis", _default(s, E))
        P = c.params(E, sc, pos=("phi",))
        for tag, PP in (("", P), (" other", {**P, "A_v_k": E.real("k2"), "A_g0_phi0": E.pos("p2")})):
            Fv = E.array([[PP["A_v_k"], i] for i in range(n)])
            check(E, sc, PP, cov(E, F, phi_of(E, PP, "g0", 2)) + cov(E, F, phi_of(E, PP, "g1", 2)) + cov(E, Fv, phi_of(E, PP, "v", 2)), 4, tag)

    return h


def _default(s, E):
    orig = s._construct_basis

    def f(params={}):
        return orig(params if s.basis_params[0] in params else {**params, s.basis_params[0]: E.const(1.0)})

    return f


for o in ("before", "after", "between"):
    basis_param(o)


@instance("P07", "selected-signals", bounds="4 TOAs in two groups, per-group process combined with an all-TOA process; symbolic entries for one column")
def selected(E):
    np = E.np
    import numpy as rnp

    se, g = E.mod("signals.selections"), E.mod("signals.gp_signals")
    n = 4
    p = psr(E, n)
    p.backend_flags = rnp.array(["x", "y", "x", "y"])
    sel = se.Selection(se.by_backend)
    vals = [E.real("v%d" % i) for i in range(n)]
    full = E.array([[v] for v in vals])

    def basis(toas):
        rows = [i for i in range(n) if any(bool(p.toas[i] == t) for t in toas)]
        return E.array([[vals[i]] for i in rows]), E.array([1])

    m = noise(E) + g.BasisGP(c.diag_prior_class(E, 1), c.fn(E, basis)(), name="all") + g.BasisGP(c.diag_prior_class(E, 1), c.fn(E, basis)(), selection=sel, name="sel")
    sc = m(p)
    P = c.params(E, sc, pos=("phi",))
    ex = cov(E, full, E.array([P["A_all_phi0"]]))
    for b in "xy":
        v = E.array([[vals[i] if p.backend_flags[i] == b else 0] for i in range(n)])
        ex = ex + cov(E, v, E.array([P["A_sel_%s_phi0" % b]]))
    check(E, sc, P, ex)


@instance("P07", "kernel-matrix", bounds="accumulating diagonal and dense pieces by index lists and slices into a 3x3 kernel, any order")
def kernel(E):
    np = E.np
    import numpy as rnp

    K = E.mod("signals.utils").KernelMatrix
    d3, d2, D2 = E.vec("d", 3), E.vec("e", 2), E.array([[E.real("a"), E.real("b")], [E.real("b"), E.real("c")]])

    def emb(x, idx):
        out = np.zeros((3, 3))
        for i, p in enumerate(idx):
            for j, q in enumerate(idx):
                if x.ndim == 2:
                    out[p, q] = out[p, q] + x[i, j]
                elif i == j:
                    out[p, p] = out[p, p] + x[i]
        return out

    def full(k):
        k = plain(k)
        return np.diag(k) if k.ndim == 1 else k

    idx, sl = rnp.array([2, 0]), slice(1, 3)
    a = K(3).add(d3, rnp.arange(3))
    E.eq("diag", full(a), np.diag(d3))
    b = K(3).add(d3, rnp.arange(3)).add(d2, idx)
    E.eq("diag+diag", full(b), np.diag(d3) + emb(d2, idx))
    b = K(3).add(d3, rnp.arange(3)).add(D2, idx)
    E.eq("diag+dense", full(b), np.diag(d3) + emb(D2, idx))
    b = b.add(d2, idx)
    E.eq("dense+diag", full(b), np.diag(d3) + emb(D2, idx) + emb(d2, idx))
    b = b.add(D2, rnp.array([0, 1]))
    E.eq("dense+dense", full(b), np.diag(d3) + emb(D2, idx) + emb(d2, idx) + emb(D2, [0, 1]))
    b = K(3).set(D2, sl)
    E.eq("set dense", full(b), emb(D2, [1, 2]))
    b = b.set(E.array([d3[0]]), slice(0, 1))
    E.eq("then set diag", full(b), emb(D2, [1, 2]) + emb(E.array([d3[0]]), [0]))
    b = K(3).set(D2, sl).add(d2, sl)
    E.eq("dense slice + diag slice", full(b), emb(D2, [1, 2]) + emb(d2, [1, 2]))
    b = K(3).set(d3, slice(0, 3)).set(D2, slice(0, 2))
    E.eq("set over diag", full(b), emb(D2, [0, 1]) + emb(E.array([d3[2]]), [2]))
    b = K(3).set(D2, slice(0, 2)).set(E.array([d3[2]]), slice(2, 3)).set(d2, slice(0, 2))
    got = full(b)
    E.eq("set diag over dense: diagonal", E.array([got[0, 0], got[1, 1], got[2, 2]]), E.array([d2[0], d2[1], d3[2]]))
    E.eq("set diag over dense: elsewhere", E.array([got[2, 0], got[2, 1]]), E.array([0, 0]), atol=0)
