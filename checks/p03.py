"""P03: the inverse prior returned by the array inverts the prior covariance it returns."""
import numpy as rnp

from vlib.harness import instance
from . import common as c

ASSUMPTIONS = [
    "the array prior covariance is positive definite (its Cholesky pivots are positive)",
    "basis columns are concrete; priors, overlap values and hyperparameters are symbolic",
]


def block_diag(E, phis):
    np = E.np
    phis = [p if p.ndim == 2 else np.diag(p) for p in phis if p is not None]
    n = sum(p.shape[0] for p in phis)
    out = np.zeros((n, n))
    k = 0
    for p in phis:
        out[k:k + p.shape[0], k:k + p.shape[0]] = p
        k += p.shape[0]
    return out


def plain(x):
    import numpy as np

    return np.array(x) if not hasattr(x, "toarray") else np.array(x.toarray())


def check(E, pta, P, methods=("cliques", "sparse"), big=True, spos=("phi",), nolog=True):
    np = E.np
    phi = pta.get_phi(P)
    if isinstance(phi, list):
        E.true("list expected", not big)
        phis = [None if p is None else plain(p).copy() for p in phi]
        for meth in methods:
            a = pta.get_phiinv(P, logdet=True, method=meth)
            b = pta.get_phiinv(P, method=meth) if nolog else [None if x is None else x[0] for x in a]
            for k, p in enumerate(phis):
                if p is None:
                    E.true("%s none %d" % (meth, k), a[k] is None and b[k] is None)
                    continue
                D = np.diag(p) if p.ndim == 1 else p
                for lab, got in (("ld", a[k][0]), ("nold", b[k])):
                    G = plain(got)
                    G = np.diag(G) if G.ndim == 1 else G
                    E.eq("%s %s inv %d" % (meth, lab, k), np.dot(G, D), np.eye(len(D)), atol=1e-9)
                E.eq("%s logdet %d" % (meth, k), a[k][1], E.logdet(D))
        return
    E.true("matrix expected", big)
    D = plain(phi).copy()
    n = len(D)
    E.assume_pd(D)
    E.eq("symmetric", D, D.T)
    ld = E.logdet(D)
    for meth in methods:
        G, l = pta.get_phiinv(P, logdet=True, method=meth)
        E.eq("%s inv" % meth, np.dot(plain(G), D), np.eye(n), atol=1e-9)
        E.eq("%s logdet" % meth, l, ld)
        if nolog:
            G2 = pta.get_phiinv(P, method=meth)
            E.eq("%s inv, no logdet" % meth, np.dot(plain(G2), D), np.eye(n), atol=1e-9)


def models(E, np_psr, comps, orf=None):
    """comps: list per pulsar of lists of component specs; returns (PTA, pulsars)"""
    gp, ws = E.mod("signals.gp_signals"), E.mod("signals.white_signals")
    scs = []
    for p, comp in comps:
        m = ws.MeasurementNoise(efac=c.par(E).Constant(1.0))
        for s in comp:
            m = m + s
        scs.append(m(p))
    return c.sb(E).PTA(scs)


def psrs(E, k, n=3):
    np = E.np
    return [c.pulsar(E, "ABCD"[i], n, toaerrs=E.array([1] * n), residuals=E.array([1] * n), pos=E.array([[1, 0, 0], [0, 1, 0], [0, 0, 1]][i % 3])) for i in range(k)]


def orf_params(E, k, auto=1):
    """overlap: `auto` on the diagonal, one parameter for every pair of pulsars"""
    if k == 2:
        def f(pos1, pos2, g):
            return auto if all(bool(a == b) for a, b in zip(pos1, pos2)) else g

        return c.fn(E, f)(g=c.U(E))

    def f(pos1, pos2, g01, g02, g12):
        i, j = [[q for q in range(3) if bool(p[q] == 1)][0] for p in (pos1, pos2)]
        i, j = min(i, j), max(i, j)
        return auto if i == j else {(0, 1): g01, (0, 2): g02, (1, 2): g12}[(i, j)]

    return c.fn(E, f)(g01=c.U(E), g02=c.U(E), g12=c.U(E))


def bas(E, rows, labels=None):
    return c.basis_class(E, E.array(rows), labels)


F2 = [[1, 0], [2, 1], [0, 3]]
G2 = [[1, 5], [2, 4], [0, 7]]  # first column shared with F2
H2 = [[1, 1], [5, 2], [0, 1]]
ALLM = ("cliques", "sparse", "partition")
OFF = ("dd2_b", "gw_g", "gw_g01", "gw_g02", "gw_g12", "dd_b", "cd_b", "gx_g", "gx_g01")


def run(E, scs, methods=("cliques", "sparse"), big=True, nolog=True):
    pta = c.sb(E).PTA(scs)
    P = c.params(E, pta, pos=("phi", "dd_a", "dd_c", "cd_a", "cd_c", "dd2_a", "dd2_c"), off=OFF)
    check(E, pta, P, methods, big, nolog=nolog)


def noise(E):
    return E.mod("signals.white_signals").MeasurementNoise(efac=c.par(E).Constant(1.0))


def bare(E):
    return c.sb(E).SignalCollection([noise(E)])


def common(E, k, basis=F2, name="gw", prior=None, auto=2, m=2, **kw):
    gp = E.mod("signals.gp_signals")
    return gp.BasisCommonGP(prior or c.diag_prior_class(E, m), bas(E, basis), orf_params(E, k, auto), name=name, **kw)


def gpd(E, basis=F2, name="gp", **kw):
    return E.mod("signals.gp_signals").BasisGP(c.diag_prior_class(E, len(basis[0])), bas(E, basis), name=name, **kw)


def dens(E, basis=F2, name="dd", **kw):
    return E.mod("signals.gp_signals").BasisGP(c.dense_prior_class(E, 2), bas(E, basis), name=name, **kw)


@instance("P03", "no-common", bounds="3 pulsars: diagonal prior, dense 2x2 prior, no process")
def n1(E):
    p = psrs(E, 3)
    run(E, [(noise(E) + gpd(E))(p[0]), (noise(E) + dens(E))(p[1]), bare(E)(p[2])], ALLM, big=False)


@instance("P03", "no-common-overlap", bounds="2 pulsars, diagonal and dense priors overlapping in one column (3x3), both orders")
def n2(E):
    p = psrs(E, 2)
    run(E, [(noise(E) + gpd(E, G2) + dens(E))(p[0]), (noise(E) + dens(E) + gpd(E, G2))(p[1])], ALLM, big=False)


@instance("P03", "no-common-two-dense", bounds="1 pulsar, two dense priors sharing one column (3x3), plus a common signal on this pulsar only")
def n3(E):
    p = psrs(E, 1)
    run(E, [(noise(E) + dens(E) + dens(E, G2, "cd") + common(E, 2, H2))(p[0])], ALLM, big=False)


@instance("P03", "common-only", bounds="3 pulsars, 2 common columns each (6x6), free pair correlations")
def c1(E):
    p = psrs(E, 3)
    m = noise(E) + common(E, 3)
    run(E, [m(q) for q in p], ALLM)


@instance("P03", "common-shared-red", bounds="2 pulsars, common and per-pulsar diagonal priors on the same 2 columns plus a pulsar-only column")
def c2(E):
    p = psrs(E, 2)
    cm = common(E, 2)
    run(E, [(noise(E) + gpd(E) + cm)(p[0]), (noise(E) + cm + gpd(E, H2))(p[1])], ALLM)


@instance("P03", "common-uncombined", bounds="2 pulsars, same columns without column sharing (8x8)")
def c2b(E):
    p = psrs(E, 2)
    cm = common(E, 2, combine=False)
    run(E, [(noise(E) + gpd(E, combine=False) + cm)(q) for q in p], ALLM)


@instance("P03", "common-disjoint-dense", bounds="2 pulsars, 2 common columns plus a dense 2x2 per-pulsar prior on other columns (8x8)")
def c3(E):
    p = psrs(E, 2)
    cm = common(E, 2)
    run(E, [(noise(E) + dens(E, H2) + cm)(q) for q in p], ALLM)


@instance("P03", "common-mixed-dense", bounds="2 pulsars, dense prior on one of them only, listed after the common process")
def c3b(E):
    p = psrs(E, 2)
    cm = common(E, 2)
    run(E, [(noise(E) + gpd(E, H2) + cm)(p[0]), (noise(E) + cm + dens(E, H2))(p[1])], ALLM)


@instance("P03", "pulsar-without-process", bounds="3 pulsars, the middle one without any process")
def c4(E):
    p = psrs(E, 3)
    m = noise(E) + common(E, 3)
    run(E, [m(p[0]), bare(E)(p[1]), m(p[2])], ALLM)


@instance("P03", "common-missing-from-one", bounds="3 pulsars, common process on two of them, a diagonal prior on the other", )
def c5(E):
    p = psrs(E, 3)
    m = noise(E) + common(E, 3)
    run(E, [(noise(E) + gpd(E, G2))(p[0]), m(p[1]), m(p[2])])


@instance("P03", "dense-common", bounds="2 pulsars, dense 2x2 common prior")
def c6(E):
    p = psrs(E, 2)
    m = noise(E) + common(E, 2, name="cd", prior=c.dense_prior_class(E, 2))
    pta = c.sb(E).PTA([m(q) for q in p])
    P = c.params(E, pta, pos=("cd_a", "cd_c"), off=("cd_b", "cd_g"))
    check(E, pta, P)


@instance("P03", "dense-common-with-red", bounds="2 pulsars, dense 2x2 common prior overlapping a diagonal and a dense prior in one column")
def c6b(E):
    p = psrs(E, 2)
    m = noise(E) + common(E, 2, name="cd", prior=c.dense_prior_class(E, 2))
    pta = c.sb(E).PTA([(m + gpd(E, G2))(p[0]), (m + dens(E, G2))(p[1])])
    P = c.params(E, pta, pos=("cd_a", "cd_c", "phi", "dd_a", "dd_c"), off=("cd_b", "cd_g", "dd_b"))
    check(E, pta, P, nolog=False)


@instance("P03", "common-overlaps-dense", bounds="2 pulsars, common process sharing one column with a dense prior (6x6)")
def c7(E):
    p = psrs(E, 2)
    cm = common(E, 2)
    run(E, [(noise(E) + dens(E, G2) + cm)(p[0]), (noise(E) + cm)(p[1])])


@instance("P03", "common-overlaps-dense-fully", bounds="2 pulsars, both with a dense prior on the common columns")
def c7b(E):
    p = psrs(E, 2)
    cm = common(E, 2)
    run(E, [(noise(E) + dens(E) + cm)(p[0]), (noise(E) + dens(E) + cm)(p[1])])


@instance("P03", "two-commons", bounds="2 pulsars, two common processes sharing one column")
def c8(E):
    p = psrs(E, 2)
    m = noise(E) + common(E, 2) + common(E, 2, G2, name="gx")
    run(E, [m(q) for q in p])


@instance("P03", "two-commons-crossing", bounds="3 pulsars: one common process on the first two, another on the last two, shared column in the middle")
def c9(E):
    p = psrs(E, 3)
    one, two = common(E, 2, [[1], [2], [3]], m=1), common(E, 2, [[1], [2], [3]], m=1, name="gx")
    run(E, [(noise(E) + one)(p[0]), (noise(E) + one + two)(p[1]), (noise(E) + two)(p[2])])


@instance("P03", "two-commons-chain", bounds="4 pulsars; common processes A on pulsars 1-2, B on 3-4 and C on 2-3 with the same column")
def c10(E):
    p = psrs(E, 4)
    p[2].pos, p[3].pos = E.array([0, 0, 1]), E.array([1, 1, 0])
    def cm(nm):
        return common(E, 2, [[1], [2], [3]], m=1, name=nm)
    A, B, C = cm("gw"), cm("gx"), cm("gy")
    pta = c.sb(E).PTA([(noise(E) + A)(p[0]), (noise(E) + B)(p[3]), (noise(E) + A + C)(p[1]), (noise(E) + B + C)(p[2])])
    P = c.params(E, pta, pos=("phi",), off=("_g",))
    check(E, pta, P)


@instance("P03", "common-links-two-dense", bounds="2 pulsars, each with a dense 2x2 prior sharing one column with a 2-column common process (6x6)")
def c11(E):
    p = psrs(E, 2)
    cm = common(E, 2)
    run(E, [(noise(E) + dens(E, G2) + cm)(q) for q in p])


@instance("P03", "no-common-linked-dense", bounds="1 pulsar, three dense 2x2 priors, the last linking the other two through shared columns, plus a common process on 2 pulsars")
def c12(E):
    p = psrs(E, 2)
    cm = common(E, 2, [[1], [0], [0]], m=1)
    a, b, d = [[1, 0], [0, 1], [0, 0]], [[0, 1], [0, 1], [1, 1]], [[0, 0], [1, 0], [0, 1]]
    run(E, [(noise(E) + dens(E, a) + dens(E, b, "cd") + dens(E, d, "dd2") + cm)(p[0]), (noise(E) + cm)(p[1])])


@instance("P03", "svd-fallback", bounds="any symmetric positive 2x2 prior with rational-rotation eigenvectors whose Cholesky factorization fails: singular value path, with and without log-determinant; and a pulsar's dense prior inverted that way")
def svdfallback(E):
    np, ut = E.np, E.mod("signals.utils")
    U = E.ortho("U", 2, 2)
    s = E.array([E.pos("s0", s=(2.0, 3.0)), E.pos("s1", s=(0.5, 1.5))])
    E.assume_lt(s[1], s[0])
    A = E.known_svd(U, s, U.T)
    sl = E.sci("scipy.linalg")

    def fails(*a, **k):
        raise rnp.linalg.LinAlgError("not positive definite")

    E.patch(sl, "cho_factor", fails)
    K = ut.KernelMatrix(2)
    K = K.set(A, slice(0, 2)) if K.ndim == 2 else ut.KernelMatrix(np.array(A))
    inv, ld = K.inv(logdet=True)
    E.eq("inverse", np.dot(inv, A), np.eye(2), atol=1e-9)
    E.eq("log-determinant", ld, np.log(s[:1])[0] + np.log(s[1:])[0])
    inv = K.inv()
    E.eq("inverse alone", np.dot(A, inv), np.eye(2), atol=1e-9)
