"""instances for more groups, labels and pulsars than the small instances have"""
import numpy as rnp

from vlib.harness import instance
from . import common as c


@instance("P12", "every documented backend", bounds="8 TOAs: each of the seven NANOGrav backends with a prefix or suffix (two spellings), one other backend at any position; NANOGrav selection, also through the general dictionary", maxpaths=40)
def everybackend(E):
    from .p12 import NG, by, check, ps, se

    s = se(E)
    k = E.choose("position", 8)
    form = E.choose("form", 2)
    lab = ["L-wide_%s" % b if form == 0 else "%s_430" % b for b in NG]
    lab.insert(k, "PDFB4")
    p = ps(E, "A", 8, backend_flags=rnp.array(lab))
    check(E, "nanograv", s.Selection(s.nanograv_backends)(p).masks, by(lab, NG))
    check(E, "backend", s.Selection(s.by_backend)(p).masks, by(lab))
    check(E, "list", s.Selection(s.custom_backends(NG))(p).masks, by(lab, NG))
    check(E, "dict", s.Selection(s.custom_backends_dict({"backend": NG}))(p).masks, by(lab, NG))


GROUPS = "vwxyz"


def jit(method):
    @instance("P14", "five-groups-%s" % method, bounds="12 TOAs out of order in 5 groups, each group with one epoch of two TOAs (one with two epochs); each group's jitter any value in turn", ctmo=20000, maxpaths=40)
    def h(E):
        from .p14 import dense_of, jitter_cov, setup

        np, ws, gp, se = E.np, E.mod("signals.white_signals"), E.mod("signals.gp_signals"), E.mod("signals.selections")
        flags = [GROUPS[(2 * i) % 5] for i in range(10)] + ["v", "v"]
        day = [7, 3, 5, 1, 9, 7, 3, 5, 1, 9, 2, 2]
        t = E.array([4579200000 + 86400 * 14 * d + 0.05 * ((5 * i) % 12) for i, d in enumerate(day)])
        p = setup(E, 12, t, flags)
        sel = se.Selection(se.by_backend)
        s = ws.EcorrKernelNoise(log10_ecorr=c.U(E), selection=sel, method=method)(p)
        b = gp.EcorrBasisModel(log10_ecorr=c.U(E), selection=sel)(p)
        g = GROUPS[E.choose("group", 5)]
        vals = dict(zip(GROUPS, (0, 0.5, 0.25, -0.25, 0.125)))
        Q = {"A_%s_log10_ecorr" % k: E.const(v) for k, v in vals.items()}
        Q["A_%s_log10_ecorr" % g] = E.real("ecorr_" + g, s=(-0.4, 0.4))
        want = jitter_cov(E, t, flags, Q)
        E.eq("kernel", dense_of(E, s.get_ndiag(Q), 12), want)
        bp = {}
        for n in b.param_names:
            bp[n] = [Q["A_%s_log10_ecorr" % k] for k in GROUPS if "_%s_" % k in n or n.endswith("_" + k)][0]
        B = b.get_basis(bp)
        E.eq("basis model", c.dot3(E, B, np.diag(b.get_phi(bp)), B.T), want)

    return h


for meth in ("sherman-morrison", "block", "sparse", "fast-sherman-morrison"):
    jit(meth)


# ---------------------------------------------------------------- P17
@instance("P17", "anisotropic, six pulsars", bounds="6 pulsars at fixed positions (two on one line of sight from opposite sides), degree 0 to 2, any response matrices and coefficients")
def anis6(E):
    np, u = E.np, E.mod("signals.utils")
    pos = [E.array(x) for x in ([1, 0, 0], [0, 1, 0], [-1, 0, 0], [0, 0.6, 0.8], [0.6, 0, 0.8], [0, 0, -1])]
    l = E.choose("lmax", 3)
    n = (l + 1) ** 2
    B = [[[E.real("b%d_%d%d" % (k, min(i, j), max(i, j))) for j in range(6)] for i in range(6)] for k in range(9)]
    prm = E.array([E.real("c%d" % k) for k in range(n - 1)])
    kw = dict(anis_basis=E.array(B), psrs_pos=list(pos), lmax=l)
    for i in range(6):
        for j in range(6):
            w = 2 * np.sqrt(np.pi) * B[0][i][j]
            for k in range(1, n):
                w = w + prm[k - 1] * B[k][i][j]
            E.eq("overlap %d %d" % (i, j), u.anis_orf(pos[i], pos[j], prm, **kw), w)


# ---------------------------------------------------------------- P02, P03, P07, P17: shared columns in another order
PERMS = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]
F3 = [[1, 0, 2], [2, 1, 0], [0, 3, 1]]


def permuted(E, k):
    return [[r[j] for j in PERMS[k]] for r in F3]


def reordered(E, res=None):
    """A: own process first (any order of the columns), then the common one; B: the same, own process with two of the
    columns and one of its own; C: as A, the common process first"""
    gp, ws, pm = E.mod("signals.gp_signals"), E.mod("signals.white_signals"), c.par(E)
    np = E.np
    pos = [E.array(x) for x in ([1, 0, 0], [0, 1, 0], [0, 0.6, 0.8])]
    ps = [c.pulsar(E, "ABC"[k], 3, residuals=E.array([[1, 2, 3], [2, -1, 1], [0, 1, 1]][k]) if res is None else E.vec("r%d" % k, 3), toaerrs=E.array([1, 1, 1]), pos=pos[k]) for k in range(3)]
    k = E.choose("order", 6)
    A = permuted(E, k)
    B = [[r[PERMS[k][2]], 5 + i * i, r[PERMS[k][0]]] for i, r in enumerate(F3)]
    eq = ws.MeasurementNoise(efac=pm.Constant(1.0))
    cm = gp.BasisCommonGP(c.diag_prior_class(E, 3), c.basis_class(E, E.array(F3)),
                          c.fn(E, lambda pos1, pos2, g=0: 1 if bool(np.all(pos1 == pos2)) else g * (1 + pos1[0] + pos2[0]))(g=c.U(E)), name="gw")
    dense = E.choose("dense", 2)
    prior = c.fn(E, lambda f, phi0, phi1, phi2, b=0: E.array([[phi0, b, 0], [b, phi1, 3 * b], [0, 3 * b, phi2]]))(phi0=c.U(E), phi1=c.U(E), phi2=c.U(E), b=c.U(E)) if dense else c.diag_prior_class(E, 3)
    own = lambda M: gp.BasisGP(prior, c.basis_class(E, E.array(M)), name="own")
    pta = c.sb(E).PTA([(own(A) + eq + cm)(ps[0]), (own(B) + eq + cm)(ps[1]), (eq + cm + own(A))(ps[2])])
    P = c.params(E, pta, pos=("phi",), off=("gw_g", "own_b"))
    corr = lambda a, b: 1 if a == b else P["gw_g"] * (1 + pos[a][0] + pos[b][0])
    return np, pta, ps, P, A, B, corr


def spectrum(E, P, nm):
    b = P.get(nm + "_b", 0)
    return [[P["%s_phi%d" % (nm, i)] if i == j else b * (i + j) if i + j != 2 else 0 for j in range(3)] for i in range(3)]


@instance("P17", "reordered columns", bounds="3 pulsars: a common process of 3 columns that a pulsar's own process has in any order (before or after it), or shares in part (before it), diagonal or dense; any spectra and overlap", maxpaths=40)
def reordered17(E):
    from .p17 import expect

    np, pta, ps, P, A, B, corr = reordered(E)
    expect(E, pta, P, ps, [(F3, spectrum(E, P, "gw"), corr)], {0: (A, spectrum(E, P, "A_own")), 1: (B, spectrum(E, P, "B_own")), 2: (A, spectrum(E, P, "C_own"))})


@instance("P03", "reordered columns", bounds="3 pulsars: a common process of 3 columns that a pulsar's own process has in any order (before or after it), or shares in part (before it), diagonal or dense; one spectrum of each symbolic", maxpaths=40, ctmo=30000)
def reordered03(E):
    from .p03 import check

    np, pta, ps, P, A, B, corr = reordered(E)
    for n, v in P.items():
        if n[-1] in "12" and "phi" in n or n.endswith("own_b") and n[0] != "B":
            P[n] = E.const({"1": 0.75, "2": 1.25, "b": 0.125}[n[-1]])
        elif "B_own_b" in P and n not in ("B_own_b", "gw_phi0"):
            P[n] = E.const(0.25 if n == "gw_g" else 0.5)
    check(E, pta, P, methods=("cliques", "sparse") + (() if "B_own_b" in P else ("partition",)))


@instance("P02", "reordered columns", bounds="3 pulsars x 3 TOAs: a common process of 3 columns that a pulsar's own process has in any order (before or after it), or shares in part (before it), diagonal or dense; all residuals symbolic, fixed spectra and overlap", maxpaths=40, ctmo=60000)
def reordered02(E):
    np, pta, ps, P, A, B, corr = reordered(E, True)
    for n, v in P.items():
        P[n] = E.const({"0": 0.5, "1": 0.75, "2": 1.25}[n[-1]] if "phi" in n else 0.25 if n == "gw_g" else 0.125)
    S = lambda nm: E.array(spectrum(E, P, nm))
    f = E.array(F3)
    C = np.zeros((9, 9))
    for a in range(3):
        for b in range(3):
            K = np.dot(f, np.dot(S("gw"), f.T)) * corr(a, b)
            if a == b:
                K = K + np.eye(3)
                M = E.array(B if a == 1 else A)
                K = K + np.dot(M, np.dot(S("ABC"[a] + "_own"), M.T))
            C[3 * a:3 * a + 3, 3 * b:3 * b + 3] = K
    E.assume_pd(C)
    want = c.gauss_ll(E, E.array([x for p in ps for x in list(p.residuals)]), C)
    for kind in ("LogLikelihood", "LogLikelihoodDenseCholesky"):
        q = c.sb(E).PTA(pta.pulsarmodels, lnlikelihood=getattr(c.sb(E), kind))
        for meth in ("cliques", "sparse") + (() if "B_own_b" in P else ("partition",)):
            E.eq(kind + " " + meth, q.get_lnlikelihood(P, phiinv_method=meth), want)


@instance("P07", "reordered columns", bounds="1 pulsar: three processes of 3 columns, the second with the columns of the first in any order, the third with some of them twice over in another order, diagonal or dense priors; any priors", maxpaths=40)
def reordered07(E):
    np, gp, ws, pm = E.np, E.mod("signals.gp_signals"), E.mod("signals.white_signals"), c.par(E)
    k, dense = E.choose("order", 6), E.choose("dense", 3)
    A = permuted(E, k)
    B = [[r[PERMS[k][2]], 5 + i * i, r[PERMS[k][0]]] for i, r in enumerate(F3)]
    full = c.fn(E, lambda f, a, b, c: E.array([[a, b, 0], [b, c, 2 * b], [0, 2 * b, 2 * a]]))
    prior = lambda j: full(a=c.U(E), b=c.U(E), c=c.U(E)) if j + 1 == dense else c.diag_prior_class(E, 3)
    p = c.pulsar(E, "A", 3, toaerrs=E.array([1, 1, 1]), residuals=E.array([1, 2, 3]))
    sigs = [gp.BasisGP(prior(j), c.basis_class(E, E.array(M)), name="p%d" % j) for j, M in enumerate((F3, A, B))]
    sc = (ws.MeasurementNoise(efac=pm.Constant(1.0)) + sigs[0] + sigs[1] + sigs[2])(p)
    P = c.params(E, sc, pos=("phi", "_a", "_c"), off=("_b",))
    T, phi = sc.get_basis(P), sc.get_phi(P)
    phi = np.diag(np.array(phi)) if phi.ndim == 1 else np.array(phi)
    want = np.zeros((3, 3))
    for j, (M, s) in enumerate(zip((F3, A, B), [s for s in sc.signals if s.get_basis(P) is not None])):
        v = np.array(s.get_phi(P))
        want = want + c.dot3(E, E.array(M), np.diag(v) if v.ndim == 1 else v, E.array(M).T)
    E.true("columns shared", T.shape[1] == 4)
    E.eq("covariance", c.dot3(E, T, phi, T.T), want)
