"""P19: timing-model bases preserve the design matrix column space."""
from vlib.harness import instance
from . import common as c

ASSUMPTIONS = ["design matrix entries are arbitrary reals; columns are not zero unless stated", "the singular value decomposition returns orthogonal factors (matrices are generated from every rational rotation)"]


def ut(E):
    return E.mod("signals.utils")


def M43(E, zero=False, n=3):
    M = E.mat("m", n, 4)
    for j in range(4):
        E.assume_ne(sum(M[i, j] ** 2 for i in range(n)), 0)
    if zero:
        for i in range(n):
            M[i, 1] = 0
    return M


EXC = (None, [], [0], [2, 1], [1, 3, 0])


def keep(ex):
    return [j for j in range(4) if j not in (ex or [])]


def scaled(E, M, k):
    np = E.np
    out = []
    for j in k:
        n2 = sum(M[i, j] ** 2 for i in range(M.shape[0]))
        z = all(str(M[i, j]) == str(E.const(0)) or not E.symbolic and M[i, j] == 0 for i in range(M.shape[0]))
        out.append([0 if z else M[i, j] / np.sqrt(E.array([n2]))[0] for i in range(M.shape[0])])
    return E.array([[out[j][i] for j in range(len(k))] for i in range(M.shape[0])])


@instance("P19", "functions", bounds="3x4 design matrix with any entries, optionally a zero column; every exclusion pattern listed")
def functions(E):
    u = ut(E)
    zero = bool(E.choose("zero column", 2))
    M = M43(E, zero)
    old = E.snapshot(M)
    ex = EXC[E.choose("excluded", len(EXC))]
    k = keep(ex)
    B, w = u.unnormed_tm_basis(M, idx_exclude=ex)
    E.eq("unnormed", B, E.array([[M[i, j] for j in k] for i in range(3)]))
    E.eq("prior", u.tm_prior(w) * E.array([1] * len(k)), E.array([E.const(10) ** 40] * len(k)))
    B, w = u.normed_tm_basis(M, idx_exclude=ex)
    E.eq("normed", B, scaled(E, M, k))
    E.eq("prior normed", u.tm_prior(w) * E.array([1] * len(k)), E.array([E.const(10) ** 40] * len(k)))
    nrm = E.array([E.pos("norm%d" % j) for j in k])
    if zero and 1 in k:
        nrm[k.index(1)] = 0
    B, w = u.normed_tm_basis(M, norm=nrm, idx_exclude=ex)
    E.eq("supplied norm", B, E.array([[0 if zero and j == 1 else M[i, j] / nrm[a] for a, j in enumerate(k)] for i in range(3)]))
    E.eq("design matrix unchanged", M, old)


@instance("P19", "stabilized", bounds="3x4 design matrix with any entries, optionally a zero column")
def stabilized(E):
    u = ut(E)
    M = M43(E, bool(E.choose("zero column", 2)))
    old = E.snapshot(M)
    S = u.create_stabletimingdesignmatrix(M)
    E.eq("normed", S, scaled(E, M, range(4)))
    E.eq("design matrix unchanged", M, old)


def rot_svd(E):
    U = E.ortho("U", 3, 3)
    V = E.ortho("V", 2, 2)
    s = E.array([E.pos("s0", s=(2.0, 3.0)), E.pos("s1", s=(0.5, 1.5))])
    E.assume_lt(s[1], s[0])
    return E.known_svd(U, s, V)


@instance("P19", "svd", bounds="every 3x2 matrix with rational-rotation singular vectors and distinct singular values, alone or with two excluded columns of any values", tmo=120)
def svd(E):
    np, u = E.np, ut(E)
    M = rot_svd(E)
    k = E.choose("which", 3)
    if k != 1:
        # some columns may be left out
        X = E.mat("x", 3, 2)
        full = M if k == 0 else E.array([[X[i, 0], M[i, 0], X[i, 1], M[i, 1]] for i in range(3)])
        B, w = u.svd_tm_basis(full, **({} if k == 0 else dict(idx_exclude=[2, 0])))
        E.eq("prior", u.tm_prior(w), E.array([E.const(10) ** 40] * 2))
    else:
        B = u.create_stabletimingdesignmatrix(M, fastDesign=False)
    E.true("shape", B.shape == (3, 2))
    E.eq("orthonormal", np.dot(B.T, B), np.eye(2), atol=1e-9)
    E.eq("column space", np.dot(B, np.dot(B.T, M)), M)


def sig(E, M, coefficients=False, **kw):
    gp = E.mod("signals.gp_signals")
    psr = c.pulsar(E, "A", M.shape[0], Mmat=M)
    return psr, gp.TimingModel(coefficients=coefficients, **kw)(psr)


@instance("P19", "signal", bounds="linear timing model on one pulsar, 3x4 design matrix with any entries; every basis choice and exclusion pattern")
def signal(E):
    M = M43(E)
    old = E.snapshot(M)
    ex = EXC[E.choose("excluded", len(EXC))]
    k = keep(ex)
    kind = E.choose("basis", 3)
    kw = {}
    if ex is not None:
        kw["idx_exclude"] = ex
    if kind == 0:
        want = scaled(E, M, k)
    elif kind == 1:
        kw["normed"] = False
        want = E.array([[M[i, j] for j in k] for i in range(3)])
    else:
        kw["normed"] = nrm = E.array([E.pos("norm%d" % j) for j in k])
        want = E.array([[M[i, j] / nrm[a] for a, j in enumerate(k)] for i in range(3)])
    psr, s = sig(E, M, **kw)
    E.true("no parameters", s.param_names == [])
    for rep in range(2):
        E.eq("basis", s.get_basis({}), want)
        E.eq("prior", s.get_phi({}), E.array([E.const(10) ** 40] * len(k)))
        E.eq("prior inverse", s.get_phiinv({}), E.array([E.const(10) ** -40] * len(k)))
        E.eq("design matrix unchanged", psr.Mmat, old)


@instance("P19", "signal-svd", bounds="linear timing model with singular-vector basis, every 3x2 matrix as for svd", tmo=120)
def signalsvd(E):
    np = E.np
    M = rot_svd(E)
    psr, s = sig(E, M, use_svd=True)
    B = s.get_basis({})
    E.eq("orthonormal", np.dot(B.T, B), np.eye(2), atol=1e-9)
    E.eq("column space", np.dot(B, np.dot(B.T, M)), M)
    E.eq("prior", s.get_phi({}), E.array([E.const(10) ** 40] * 2))
    E.eq("design matrix unchanged", psr.Mmat, M)
    gp = E.mod("signals.gp_signals")
    E.true("unnormed svd rejected", E.raises(ValueError, gp.TimingModel, use_svd=True, normed=False))


@instance("P19", "in-model", bounds="timing model with zero column and exclusions in a model with another process (1 column): columns and prior of each in the combined basis")
def inmodel(E):
    np = E.np
    gp, ws, pm = E.mod("signals.gp_signals"), E.mod("signals.white_signals"), c.par(E)
    M = E.array([[1, 2, 0, 5], [1, 4, 0, 1], [1, 1, 0, 0]])
    psr = c.pulsar(E, "A", 3, Mmat=M)
    ex = (None, [1])[E.choose("excluded", 2)]
    g = gp.BasisGP(c.diag_prior_class(E, 1), c.basis_class(E, E.array([[7], [1], [2]])), name="own")
    tm = gp.TimingModel(idx_exclude=ex) if ex else gp.TimingModel()
    m = tm + g if E.choose("order", 2) else g + tm
    sc = (m + ws.MeasurementNoise(efac=pm.Constant(1.0)))(psr)
    P = {"A_own_phi0": E.pos("phi0")}
    T, phi = sc.get_basis(P), sc.get_phi(P)
    k = keep(ex)
    want = scaled(E, M, k)
    n = len(k) + 1
    E.true("shape", T.shape == (3, n) and phi.shape == (n,))
    C = np.dot(T, np.dot(np.diag(phi), T.T))
    own = E.array([[7], [1], [2]])
    big = E.const(10) ** 40
    E.eq("covariance", C, np.dot(want, want.T) * big + np.dot(own, own.T) * P["A_own_phi0"])
    E.eq("design matrix unchanged", psr.Mmat, M)


@instance("P19", "coefficients", bounds="linear timing model with explicit coefficients, 3x4 design matrix with any entries")
def coefficients(E):
    M = M43(E)
    ex = EXC[E.choose("excluded", len(EXC))]
    k = keep(ex)
    psr, s = sig(E, M, coefficients=True, idx_exclude=ex)
    cs = E.vec("c", len(k))
    E.true("parameter", s.param_names == ["A_linear_timing_model_coefficients_%d" % i for i in range(len(k))] and [p.size for p in s.params] == [len(k)])
    E.eq("delay", s.get_delay({"A_linear_timing_model_coefficients": cs}), E.np.dot(scaled(E, M, k), cs))
    E.true("no basis", s.get_basis({}) is None and s.get_phi({}) is None)
    E.eq("flat coefficient prior", s.params[0].get_logpdf(params={"A_linear_timing_model_coefficients": cs}), 0)
