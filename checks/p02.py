"""P02: likelihood of arrays with inter-pulsar correlations is the joint marginal Gaussian."""
from vlib.harness import instance
from . import common as c
from .p03 import bare

ASSUMPTIONS = [
    "the prior and the joint covariance are positive definite (their Cholesky pivots are positive)",
    "Laplace/sparse Cholesky factorisations are the SciPy/CHOLMOD contracts (exact, in real arithmetic)",
]
ALLM = ("cliques", "sparse", "partition")


def dot_orf(E):
    """overlap depending on both positions: 1 for the pulsar with itself, pos1.pos2/2 otherwise"""
    def f(pos1, pos2):
        return 1 if all(bool(a == b) for a, b in zip(pos1, pos2)) else 0.5 * E.np.dot(pos1, pos2)

    return c.fn(E, f)()


def joint(E, blocks):
    """block matrix from a dict {(i,j): array}, i<=j"""
    np = E.np
    ns = [blocks[i, i].shape[0] for i in range(len([k for k in blocks if k[0] == k[1]]))]
    off = [sum(ns[:i]) for i in range(len(ns) + 1)]
    C = np.zeros((off[-1], off[-1]))
    for (i, j), b in blocks.items():
        C[off[i]:off[i + 1], off[j]:off[j + 1]] = b
        if i != j:
            C[off[j]:off[j + 1], off[i]:off[i + 1]] = b.T
    return C


def evaluate(E, scs, P, expected, methods=ALLM, kinds=("sparse", "dense"), P2=None, expected2=None):
    S = c.sb(E)
    for kind in kinds:
        pta = S.PTA(scs, lnlikelihood=S.LogLikelihood if kind == "sparse" else S.LogLikelihoodDenseCholesky)
        for meth in methods:
            E.eq("%s %s" % (kind, meth), pta.get_lnlikelihood(P, phiinv_method=meth), expected)
        E.eq("%s default" % kind, pta.get_lnlikelihood(P), expected)
        if P2 is not None:
            E.eq("%s other parameters" % kind, pta.get_lnlikelihood(P2), expected2)
            E.eq("%s back again" % kind, pta.get_lnlikelihood(P), expected)


def gwclass(E, F, orf, prior=None, name="gw", labels=None):
    """F: dict pulsar name -> basis array; the basis is looked up through the pulsar's name"""
    gp = E.mod("signals.gp_signals")
    m = len(list(F.values())[0][0])

    def basis(toas, bkey):
        return F[bkey].copy(), labels if labels is not None else E.array([i + 1 for i in range(m)])

    return gp.BasisCommonGP(prior or c.diag_prior_class(E, m), c.fn(E, basis)(), orf, name=name)


def arrays(E, n=2, k=2, pos=None, bases=1, symres=True, symerr=True):
    psrs, F = [], {}
    for i in range(k):
        nm = "ABC"[i]
        kw = {} if symerr else {"toaerrs": E.array([1 + 0.5 * ((i + j) % 2) for j in range(n)])}
        if not symres:
            kw["residuals"] = E.array([[1, -2, 0.5], [0.25, 1, -1], [2, 1, 1]][i][:n])
        p = c.pulsar(E, nm, n, pos=pos[i], **kw)
        p.bkey = nm
        psrs.append(p)
    return psrs


@instance("P02", "symbolic-basis", bounds="2 pulsars x 2 TOAs, one common column with symbolic entries, symbolic residuals, errors, positions and spectrum", ctmo=60000)
def h1(E):
    np = E.np
    pos = [E.array([1, 0, 0]), E.vec("pos", 3, -1, 1, s=(-0.5, 0.5))]
    E.assume_ne(pos[1][0], 1)
    psrs = arrays(E, pos=pos)
    F = {p.name: E.mat("F" + p.name, 2, 1) for p in psrs}
    ws = E.mod("signals.white_signals")
    m = ws.MeasurementNoise(efac=c.par(E).Constant(1.0)) + gwclass(E, F, dot_orf(E))
    P = {"gw_phi0": E.pos("phi", s=(0.5, 1.5))}
    g = 0.5 * np.dot(pos[0], pos[1])
    E.assume_lt(g * g, 1)
    phi = P["gw_phi0"]
    C = joint(E, {(i, j): phi * (1 if i == j else g) * np.outer(F[psrs[i].name][:, 0], F[psrs[j].name][:, 0]) + (np.diag(psrs[i].toaerrs ** 2) if i == j else 0)
                  for i in range(2) for j in range(i, 2)})
    evaluate(E, [m(p) for p in psrs], P, c.gauss_ll(E, np.hstack([p.residuals for p in psrs]), C))


@instance("P02", "noise-delay-parameters", bounds="2 pulsars x 2 TOAs, one concrete common column, efac and per-TOA delay parameters, symbolic overlap; repeated evaluation", ctmo=60000)
def h2(E):
    np = E.np
    pos = [E.array([1, 0, 0]), E.array([0, 1, 0])]
    psrs = arrays(E, pos=pos, symres=False)
    F = {"A": E.array([[1], [2]]), "B": E.array([[-1], [1]])}
    ws = E.mod("signals.white_signals")
    orf = c.fn(E, lambda pos1, pos2, g: 1 if all(bool(a == b) for a, b in zip(pos1, pos2)) else g)(g=c.U(E))
    m = ws.MeasurementNoise(efac=c.U(E)) + c.delay_signal(E, 2) + gwclass(E, F, orf)
    scs = [m(p) for p in psrs]
    pta = c.sb(E).PTA(scs)

    def ex(P):
        E.assume_lt(P["gw_g"] ** 2, 1)
        d = np.hstack([p.residuals - E.array([P[p.name + "_det_d0"], P[p.name + "_det_d1"]]) for p in psrs])
        C = joint(E, {(i, j): P["gw_phi0"] * (1 if i == j else P["gw_g"]) * np.outer(F[psrs[i].name][:, 0], F[psrs[j].name][:, 0])
                      + (np.diag(P[psrs[i].name + "_efac"] ** 2 * psrs[i].toaerrs ** 2) if i == j else 0) for i in range(2) for j in range(i, 2)})
        return c.gauss_ll(E, d, C)

    P = c.params(E, pta, pos=("efac", "phi"), off=("_g",))
    P2 = dict(P)
    P2["gw_phi0"] = E.pos("other_phi")
    P2["A_efac"] = E.pos("other_efac")
    E.assume_ne(P2["A_efac"], P["A_efac"])
    evaluate(E, scs, P, ex(P), methods=("cliques",), P2=P2, expected2=ex(P2))


def red(E, F, name="red", dense=False, labels=None):
    gp = E.mod("signals.gp_signals")
    m = len(list(F.values())[0][0])

    def basis(toas, bkey):
        return F[bkey].copy(), labels if labels is not None else E.array([i + 1 for i in range(m)])

    return gp.BasisGP(c.dense_prior_class(E, m) if dense else c.diag_prior_class(E, m), c.fn(E, basis)(), name=name)


def structured(name, bounds, build, tier="quick"):
    """concrete bases/errors, symbolic residuals, spectra, correlations"""
    @instance("P02", name, bounds=bounds, ctmo=60000, tier=tier)
    def h(E):
        np = E.np
        ws = E.mod("signals.white_signals")
        noise = ws.MeasurementNoise(efac=c.par(E).Constant(1.0))
        psrs, scs, cov, methods = build(E, noise)
        pta = c.sb(E).PTA(scs)
        P = c.params(E, pta, pos=("phi", "_a", "_c"), off=("_b", "_g", "_g01", "_g02", "_g12"))
        blocks = cov(P)
        for i, p in enumerate(psrs):
            blocks[i, i] = blocks.get((i, i), np.zeros((len(p.toas),) * 2)) + np.diag(p.toaerrs ** 2)
        C = joint(E, blocks)
        phi = pta.get_phi(P)
        if not isinstance(phi, list):
            E.assume_pd(np.array(phi))
        evaluate(E, scs, P, c.gauss_ll(E, np.hstack([p.residuals for p in psrs]), C), methods=methods)

    return h


def two(E):
    return arrays(E, pos=[E.array([1, 0, 0]), E.array([0, 1, 0])], symerr=False)


def gorf(E, k=2):
    if k == 2:
        return c.fn(E, lambda pos1, pos2, g: 1 if all(bool(a == b) for a, b in zip(pos1, pos2)) else g)(g=c.U(E))

    def f(pos1, pos2, g01, g02, g12):
        i, j = sorted([q for q in range(3) if bool(p[q] == 1)][0] for p in (pos1, pos2))
        return 2 if i == j else {(0, 1): g01, (0, 2): g02, (1, 2): g12}[i, j]

    return c.fn(E, f)(g01=c.U(E), g02=c.U(E), g12=c.U(E))


FA, FB = [[1, 0], [2, 1]], [[0, 1], [1, -1]]


def outer_phi(E, Fi, ph, Fj):
    return c.dot3(E, Fi, ph, Fj.T)


def b_shared_red(E, noise):
    np = E.np
    psrs = two(E)
    F = {"A": E.array(FA), "B": E.array(FB)}
    m = noise + red(E, F) + gwclass(E, F, gorf(E))

    def cov(P):
        ph = np.diag(E.array([P["gw_phi0"], P["gw_phi1"]]))
        out = {(i, i): outer_phi(E, F[p.name], ph + np.diag(E.array([P[p.name + "_red_phi0"], P[p.name + "_red_phi1"]])), F[p.name]) for i, p in enumerate(psrs)}
        out[0, 1] = outer_phi(E, F["A"], P["gw_g"] * ph, F["B"])
        return out

    return psrs, [m(p) for p in psrs], cov, ALLM


structured("shared-red", "2 pulsars x 2 TOAs, common and per-pulsar process on the same 2 concrete columns", b_shared_red)


def b_extra_dense(E, noise):
    np = E.np
    psrs = two(E)
    F = {"A": E.array([[1], [2]]), "B": E.array([[-1], [1]])}
    G = {"A": E.array([[1, 1], [2, 0]]), "B": E.array([[-1, 2], [1, 2]])}  # first column shared
    gw = gwclass(E, F, gorf(E))
    m = noise + red(E, G, dense=True) + gw

    def cov(P):
        out = {}
        for i, p in enumerate(psrs):
            a, b, d = (P["%s_red_%s" % (p.name, k)] for k in "abc")
            out[i, i] = outer_phi(E, G[p.name], E.array([[a, b], [b, d]]), G[p.name]) + P["gw_phi0"] * np.outer(F[p.name][:, 0], F[p.name][:, 0])
        out[0, 1] = P["gw_g"] * P["gw_phi0"] * np.outer(F["A"][:, 0], F["B"][:, 0])
        return out

    return psrs, [m(p) for p in psrs], cov, ("cliques", "sparse")


structured("overlapping-dense", "2 pulsars x 2 TOAs, common column shared with a dense 2x2 prior in each pulsar", b_extra_dense)


def b_dense_common(E, noise):
    np = E.np
    psrs = two(E)
    F = {"A": E.array(FA), "B": E.array(FB)}
    m = noise + gwclass(E, F, gorf(E), prior=c.dense_prior_class(E, 2))

    def cov(P):
        ph = E.array([[P["gw_a"], P["gw_b"]], [P["gw_b"], P["gw_c"]]])
        out = {(i, i): outer_phi(E, F[p.name], ph, F[p.name]) for i, p in enumerate(psrs)}
        out[0, 1] = outer_phi(E, F["A"], P["gw_g"] * ph, F["B"])
        return out

    return psrs, [m(p) for p in psrs], cov, ("cliques", "sparse")


structured("dense-common", "2 pulsars x 2 TOAs, dense 2x2 common prior", b_dense_common)


def b_three(E, noise):
    np = E.np
    psrs = arrays(E, k=3, pos=[E.array([1, 0, 0]), E.array([0, 1, 0]), E.array([0, 0, 1])], symerr=False)
    F = {"A": E.array([[1], [2]]), "B": E.array([[-1], [1]]), "C": E.array([[2], [1]])}
    m = noise + gwclass(E, F, gorf(E, 3))

    def cov(P):
        ph = P["gw_phi0"]
        return {(i, j): (2 if i == j else P["gw_g%d%d" % (i, j)]) * ph * np.outer(F["ABC"[i]][:, 0], F["ABC"[j]][:, 0]) for i in range(3) for j in range(i, 3)}

    return psrs, [m(p) for p in psrs], cov, ALLM


structured("three-pulsars", "3 pulsars x 2 TOAs, one common column, three free pair correlations", b_three)


def b_missing(E, noise):
    np = E.np
    psrs = arrays(E, k=3, pos=[E.array([1, 0, 0]), E.array([0, 0, 1]), E.array([0, 1, 0])], symerr=False)
    F = {"A": E.array([[1], [2]]), "B": E.array([[-1], [1]]), "C": E.array([[2], [1]])}
    gw, rd = gwclass(E, F, gorf(E)), red(E, F)
    scs = [(noise + gw)(psrs[0]), (noise + rd)(psrs[1]), (noise + gw)(psrs[2])]

    def cov(P):
        return {(0, 0): P["gw_phi0"] * np.outer(F["A"], F["A"]), (1, 1): P["B_red_phi0"] * np.outer(F["B"], F["B"]), (2, 2): P["gw_phi0"] * np.outer(F["C"], F["C"]),
                (0, 2): P["gw_g"] * P["gw_phi0"] * np.outer(F["A"], F["C"])}

    return psrs, scs, cov, ("cliques", "sparse")


structured("common-missing-from-one", "3 pulsars x 2 TOAs, the middle one has its own process only", b_missing)


def b_none(E, noise):
    np = E.np
    psrs = arrays(E, k=3, pos=[E.array([1, 0, 0]), E.array([0, 0, 1]), E.array([0, 1, 0])], symerr=False)
    F = {"A": E.array([[1], [2]]), "C": E.array([[2], [1]])}
    gw = gwclass(E, F, gorf(E))
    scs = [(noise + gw)(psrs[0]), bare(E)(psrs[1]), (noise + gw)(psrs[2])]

    def cov(P):
        return {(0, 0): P["gw_phi0"] * np.outer(F["A"], F["A"]), (2, 2): P["gw_phi0"] * np.outer(F["C"], F["C"]), (0, 2): P["gw_g"] * P["gw_phi0"] * np.outer(F["A"], F["C"])}

    return psrs, scs, cov, ("cliques", "sparse")


structured("pulsar-without-process", "3 pulsars x 2 TOAs, the middle one has no process", b_none)


def b_two_commons(E, noise):
    np = E.np
    psrs = two(E)
    F = {"A": E.array([[1], [2]]), "B": E.array([[-1], [1]])}
    m = noise + gwclass(E, F, gorf(E)) + gwclass(E, F, gorf(E), name="gx")

    def cov(P):
        out = {(i, i): (P["gw_phi0"] + P["gx_phi0"]) * np.outer(F[p.name][:, 0], F[p.name][:, 0]) for i, p in enumerate(psrs)}
        out[0, 1] = (P["gw_g"] * P["gw_phi0"] + P["gx_g"] * P["gx_phi0"]) * np.outer(F["A"][:, 0], F["B"][:, 0])
        return out

    return psrs, [m(p) for p in psrs], cov, ("cliques", "sparse")


structured("two-common-processes", "2 pulsars x 2 TOAs, two common processes on the same column", b_two_commons)
