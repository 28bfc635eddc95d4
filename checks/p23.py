"""P23: conditional draws have the Gaussian posterior mean and covariance."""
from numpy.linalg import LinAlgError

from vlib.harness import instance
from . import common as c
from .p02 import arrays, gorf, red
from .p02 import gwclass as common

ASSUMPTIONS = ["normal deviates are symbols, the same deviates on a repeated call; singular value decompositions are supplied for the matrix at hand (its eigenvectors and eigenvalues are the symbolic inputs), Cholesky and CHOLMOD factors are exact with a non-trivial fill-reducing permutation"]


def flat(E, d, keys, n):
    ds = [d] if n is None else d
    return E.np.concatenate([E.array(x[k]) for x in ds for k in keys])


def moments(E, tag, f, keys, mean, cov, n=None, lin=None, has=()):
    """f() returns the dictionary (n=None) or n dictionaries of draws; mean and cov: of one draw, in key order"""
    np = E.np
    n0 = len(E.draws("z"))
    d = f()
    z = E.draws("z")[n0:]
    for x in [d] if n is None else d:
        E.true(tag + " keys", sorted(k for k in x if k not in has) == sorted(keys))
        for k in has:
            E.eq("%s kept %s" % (tag, k), x[k], has[k])
    m = n or 1
    E.true(tag + " draws", len(d) == n if n else isinstance(d, dict))
    got = flat(E, d, keys, n)
    full = np.concatenate([mean] * m)
    size = len(mean)

    def at(v):
        with E.feed(v):
            return flat(E, f(), keys, n)

    zero = at([0] * len(z))
    E.eq(tag + " mean", zero, full)
    cols = [at([1 if i == k else 0 for i in range(len(z))]) - full for k in range(len(z))]
    if not cols or cov is None:
        E.true(tag + " varies", cov is None)
        E.eq(tag + " fixed", got, full)
        return
    A = np.stack(cols, axis=1)
    E.eq(tag + " linear", got - full - np.dot(A, E.array(z)), np.zeros(len(full)))  # the map itself depends on the factors' conventions
    C = np.dot(A, A.T)
    for a in range(m):
        for b in range(m):
            E.eq("%s covariance %d %d" % (tag, a, b), C[a * size:(a + 1) * size, b * size:(b + 1) * size], cov if a == b else np.zeros((size, size)))


def post(E, T, p, phiinv):
    """posterior mean and covariance of one pulsar"""
    np = E.np
    S = np.dot(T.T / p.toaerrs ** 2, T) + phiinv
    C = E.inv(S)
    return np.dot(C, np.dot(T.T, p.residuals / p.toaerrs ** 2)), C


def every(E, pta, P, keys, mean, cov, method="cliques", draws=2, basis=None, coef=True, gpc=True, sparse=False):
    """all users of the conditional: coefficients and processes"""
    np, ut = E.np, E.mod("signals.utils")
    co = [k + "_coefficients" for k in keys]
    B = None
    if basis is not None:
        B = np.zeros((sum(b.shape[0] for b in basis), sum(b.shape[1] for b in basis)))
        i = j = 0
        for b in basis:
            B[i:i + b.shape[0], j:j + b.shape[1]] = b
            i, j = i + b.shape[0], j + b.shape[1]
    if gpc:
        cg = ut.ConditionalGP(pta, phiinv_method=method)
        moments(E, "mean", lambda: cg.get_mean_coefficients(P), co, mean, None)
        moments(E, "sample", lambda: cg.sample_coefficients(P, n=draws), co, mean, cov, n=draws)
        if B is not None:
            moments(E, "mean process", lambda: cg.get_mean_processes(P), keys, np.dot(B, mean), None)
            moments(E, "process", lambda: cg.sample_processes(P), keys, np.dot(B, mean), c.dot3(E, B, cov, B.T), n=1)
    if coef:
        kw = {"common_sparse": True} if sparse else {}
        moments(E, "coefficients", lambda: ut.get_coefficients(pta, P, phiinv_method=method, **kw), co, mean, cov, has=P)
        if draws > 1:
            moments(E, "coefficient draws", lambda: ut.get_coefficients(pta, P, n=draws, phiinv_method=method, **kw), co, mean, cov, n=draws, has=P)
        moments(E, "coefficient mean", lambda: ut.get_coefficients(pta, P, variance=False, phiinv_method=method, **kw), co, mean, None, has=P)
    return co


def rotation(E, g, name="u"):
    """a symmetric 2x2 matrix with off-diagonal g > 0 (any such positive definite matrix), its eigenvalues (decreasing) and eigenvectors"""
    np = E.np
    t, s1 = E.real(name + "_t", 0, 1, s=(0.25, 0.75)), E.pos(name + "_s", s=(12.0, 25.0))
    E.assume_lt(0, t, 1)
    co, si = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
    s2 = s1 - g / (co * si)
    E.assume_lt(0, s2)
    U, s = E.array([[co, -si], [si, co]]), E.array([s1, s2])
    M = E.known_svd(U, s, U.T)
    return M, U, s


def single(E, toaerrs=(1, 2)):
    p = c.pulsar(E, "A", 2, toaerrs=E.array(list(toaerrs)))
    p.bkey = "A"
    return p, E.mod("signals.white_signals").MeasurementNoise(efac=c.par(E).Constant(1.0))


@instance("P23", "dense prior", bounds="1 pulsar with 2 TOAs, one process of 2 coefficients with any dense prior, symbolic residuals; SVD path", maxpaths=60)
def dense(E):
    np = E.np
    p, noise = single(E)
    F = E.array([[1, 2], [2, 1]])
    TNT = np.dot(F.T / p.toaerrs ** 2, F)
    S, U, s = rotation(E, TNT[0, 1] + E.pos("g", s=(0.2, 1.0)))
    phi = E.inv(S - TNT)
    E.assume_lt(0, (S - TNT)[0, 0])
    E.assume_lt(0, E.np.linalg.det(S - TNT))
    pta = c.sb(E).PTA([(noise + red(E, {"A": F}, dense=True))(p)])
    P = {"A_red_a": phi[0, 0], "A_red_b": phi[0, 1], "A_red_c": phi[1, 1]}
    m, C = post(E, F, p, S - TNT)
    every(E, pta, P, ["A_red"], m, C, gpc=False, draws=1)


def two_procs(E):
    np = E.np
    p, noise = single(E)
    F, G = E.array([[1], [2]]), E.array([[2], [1]])
    T = np.hstack([F, G])
    TNT = np.dot(T.T / p.toaerrs ** 2, T)
    return np, p, noise, F, G, T, TNT


@instance("P23", "two processes SVD", bounds="1 pulsar with 2 TOAs, two processes with different bases in either order and one common to the array or not, any spectra and residuals; SVD path", maxpaths=60)
def twoproc(E):
    np, p, noise, F, G, T, TNT = two_procs(E)
    S, U, s = rotation(E, TNT[0, 1])
    iv = [S[i, i] - TNT[i, i] for i in range(2)]
    for x in iv:
        E.assume_lt(0, x)
    kind = E.choose("common", 2)
    first = gwclass1(E, F) if kind else red(E, {"A": F}, name="one")
    second = red(E, {"A": G}, name="two")
    pta = c.sb(E).PTA([(first + noise + second)(p)])
    P = {("one_phi0" if kind else "A_one_phi0"): 1 / iv[0], "A_two_phi0": 1 / iv[1]}
    m, C = post(E, T, p, np.diag(E.array(iv)))
    every(E, pta, P, ["A_one", "A_two"], m, C, gpc=False)


def gwclass1(E, F):
    return common(E, {"A": F}, c.fn(E, lambda pos1, pos2: 1)(), name="one")


@instance("P23", "two processes", bounds="1 pulsar with 2 TOAs, two processes (one possibly common), any spectra, errors scaled by a symbolic efac; Cholesky path, processes", maxpaths=60)
def twochol(E):
    np, p, noise, F, G, T, TNT = two_procs(E)
    ws = E.mod("signals.white_signals")
    kind = E.choose("common", 2)
    first = gwclass1(E, F) if kind else red(E, {"A": F}, name="one")
    pta = c.sb(E).PTA([(first + ws.MeasurementNoise(efac=c.U(E)) + red(E, {"A": G}, name="two"))(p)])
    P = c.params(E, pta, pos=("phi", "efac"))
    p.toaerrs = p.toaerrs * P["A_efac"]
    a, b = P["one_phi0" if kind else "A_one_phi0"], P["A_two_phi0"]
    m, C = post(E, T, p, np.diag(E.array([1 / a, 1 / b])))
    p.toaerrs = p.toaerrs / P["A_efac"]
    every(E, pta, P, ["A_one", "A_two"], m, C, coef=False, basis=None)
    cg = E.mod("signals.utils").ConditionalGP(pta)
    W = np.zeros((4, 2))
    W[:2, :1], W[2:, 1:] = F, G
    moments(E, "processes", lambda: cg.sample_processes(P, n=1), ["A_one", "A_two"], np.dot(W, m), c.dot3(E, W, C, W.T), n=1)
    moments(E, "mean processes", lambda: cg.get_mean_processes(P), ["A_one", "A_two"], np.dot(W, m), None)


@instance("P23", "fallback", bounds="as the two processes, with the singular value decomposition failing once: QR path", maxpaths=60)
def fallback(E):
    np, p, noise, F, G, T, TNT = two_procs(E)
    S, U, s = rotation(E, TNT[0, 1])
    iv = [S[i, i] - TNT[i, i] for i in range(2)]
    for x in iv:
        E.assume_lt(0, x)
    E.known_svd(U[:, ::-1].copy(), 1 / s[::-1], U[:, ::-1].T.copy())
    pta = c.sb(E).PTA([(noise + red(E, {"A": F}, name="one") + red(E, {"A": G}, name="two"))(p)])
    sl = E.sci("scipy.linalg")
    real, state = sl.svd, [0]

    def svd(a, *k, **kw):
        state[0] += 1
        if state[0] % 2:
            raise LinAlgError("SVD did not converge")
        return real(a, *k, **kw)

    E.patch(sl, "svd", svd)
    P = {"A_one_phi0": 1 / iv[0], "A_two_phi0": 1 / iv[1]}
    m, C = post(E, T, p, np.diag(E.array(iv)))
    every(E, pta, P, ["A_one", "A_two"], m, C, gpc=False, draws=1)


@instance("P23", "uncorrelated pulsars", bounds="2 pulsars with 2 TOAs, one or two processes each (or none in one of them), any spectra and residuals; Cholesky and SVD (1x1) paths", maxpaths=60)
def uncorrelated(E):
    np = E.np
    psrs = arrays(E, pos=[E.array([1, 0, 0]), E.array([0, 1, 0])], symerr=False)
    noise = E.mod("signals.white_signals").MeasurementNoise(efac=c.par(E).Constant(1.0))
    F = {"A": E.array([[1], [2]]), "B": E.array([[-1], [1]])}
    kind = E.choose("kind", 4)
    models = [noise + red(E, F), noise + red(E, F) if kind in (0, 3) else c.sb(E).SignalCollection([noise])]
    if kind == 2:
        models = models[::-1]
    if kind == 3:  # the same common process, each pulsar with a class of its own
        models = [noise + common(E, F, c.fn(E, lambda pos1, pos2: 1)(), name="red") for _ in range(2)]
    scs = [m(p) for m, p in zip(models, psrs)]
    pta = c.sb(E).PTA(scs)
    P = c.params(E, pta, pos=("phi",))
    ms, Cs, keys = [], [], []
    for p, sc in zip(psrs, scs):
        if any("red" in s.name for s in sc.signals):
            a, b = post(E, F[p.name], p, np.diag(1 / E.array([P["red_phi0" if kind == 3 else p.name + "_red_phi0"]])))
            ms, Cs, keys = ms + [a], Cs + [b], keys + [p.name + "_red"]
    every(E, pta, P, keys, np.concatenate(ms), np.diag(E.array([x[0, 0] for x in Cs])), basis=[F[k[0]] for k in keys])


def correlated(E, extra, kinds):
    """2 pulsars, one common column each and an extra column in the first pulsar"""
    np = E.np
    psrs = arrays(E, pos=[E.array([1, 0, 0]), E.array([0, 1, 0])], symerr=False)
    noise = E.mod("signals.white_signals").MeasurementNoise(efac=c.par(E).Constant(1.0))
    F = {"A": E.array([[1], [2]]), "B": E.array([[-1], [1]])}
    G = {"A": E.array([[0], [3]])}
    gw = common(E, F, gorf(E))
    models = [noise + gw, noise + gw]
    if extra == 1:
        models[0] = gw + noise + red(E, G)
    if extra == 2:
        models[0] = red(E, G) + noise + gw
    pta = c.sb(E).PTA([m(p) for m, p in zip(models, psrs)])
    P = c.params(E, pta, pos=("phi",), off=("_g",))
    phi, g = P["gw_phi0"], P["gw_g"]
    E.assume_lt(g * g, 1)
    one = 1 / (phi * (1 - g * g))
    keys = [["A_gw", "B_gw"], ["A_gw", "A_red", "B_gw"], ["A_red", "A_gw", "B_gw"]][extra]
    ia, ib = keys.index("A_gw"), len(keys) - 1
    S, v = np.zeros((len(keys),) * 2), []
    S[ia, ia] = S[ib, ib] = one
    S[ia, ib] = S[ib, ia] = -g * one
    cols = {"A_gw": F["A"], "B_gw": F["B"], "A_red": G["A"]}
    for i, k in enumerate(keys):
        p = psrs["AB".index(k[0])]
        v.append(np.dot(cols[k][:, 0], p.residuals / p.toaerrs ** 2))
        for j, l in enumerate(keys):
            if k[0] == l[0]:
                S[i, j] = S[i, j] + np.dot(cols[k][:, 0], cols[l][:, 0] / p.toaerrs ** 2)
        if k == "A_red":
            S[i, i] = S[i, i] + 1 / P["A_red_phi0"]
    C = E.inv(S)
    return pta, P, keys, np.dot(C, E.array(v)), C, [cols[k] for k in keys]


for _x, _n in enumerate(["common only", "common and own", "own and common"]):
    def _h(E, x=_x):
        pta, P, keys, m, C, B = correlated(E, x, None)
        how = E.choose("how", 2)
        method = ["cliques", "sparse"][E.choose("method", 2)]
        every(E, pta, P, keys, m, C, method=method, basis=B if x == 0 else None, gpc=how == 0, coef=how == 1, sparse=True, draws=1 if x else 2)

    instance("P23", "correlated, " + _n, bounds="2 pulsars with 2 TOAs, concrete bases and errors, any spectra, correlation and residuals; CHOLMOD paths, phi inverted by cliques or sparse factors", maxpaths=60, tmo=400)(_h)


@instance("P23", "correlated SVD", bounds="2 pulsars with 2 TOAs and one common coefficient each, any joint prior, any residuals; dense SVD path", maxpaths=60)
def corrsvd(E):
    np = E.np
    psrs = arrays(E, pos=[E.array([1, 0, 0]), E.array([0, 1, 0])], symerr=False)
    noise = E.mod("signals.white_signals").MeasurementNoise(efac=c.par(E).Constant(1.0))
    F = {"A": E.array([[1], [2]]), "B": E.array([[-1], [1]])}
    D = [np.dot(F[p.name][:, 0], F[p.name][:, 0] / p.toaerrs ** 2) for p in psrs]
    S, U, s = rotation(E, E.pos("g", s=(0.5, 1.0)))
    iv = S - np.diag(E.array(D))
    E.assume_lt(0, iv[0, 0])
    E.assume_lt(0, np.linalg.det(iv))
    phi = E.inv(iv)
    orf = c.fn(E, lambda pos1, pos2, aa, ab, bb: ab if bool(pos1[0] != pos2[0]) else aa if bool(pos1[0] == 1) else bb)(aa=c.U(E), ab=c.U(E), bb=c.U(E))
    gw = common(E, F, orf)
    pta = c.sb(E).PTA([(gw + noise)(p) for p in psrs])
    P = {"gw_phi0": E.const(1.0), "gw_aa": phi[0, 0], "gw_ab": phi[0, 1], "gw_bb": phi[1, 1]}
    C = E.inv(S)
    v = E.array([np.dot(F[p.name][:, 0], p.residuals / p.toaerrs ** 2) for p in psrs])
    every(E, pta, P, ["A_gw", "B_gw"], np.dot(C, v), C, gpc=False, draws=1)


@instance("P23", "timing parameters", bounds="1 pulsar with 3 TOAs, timing model with 2 columns and one process; named timing coefficients; shared columns are refused", maxpaths=60)
def timing(E):
    np = E.np
    p = c.pulsar(E, "A", 3, toaerrs=E.array([1, 2, 1]), Mmat=E.array([[1, -1], [1, 0], [1, 2]]), fitpars=["Offset", "F0"])
    p.bkey = "A"
    noise, gp, ut = E.mod("signals.white_signals").MeasurementNoise(efac=c.par(E).Constant(1.0)), E.mod("signals.gp_signals"), E.mod("signals.utils")
    F = {"A": E.array([[1], [2], [-1]])}
    pta = c.sb(E).PTA([(red(E, F) + noise + gp.TimingModel(use_svd=False, normed=False))(p)])
    P = c.params(E, pta, pos=("phi",))
    a = ut.ConditionalGP(pta, psr=p, tm_params=["F0"])
    b = ut.ConditionalGP(pta)
    tm = "A_linear_timing_model"
    x, y = a.get_mean_coefficients(P), b.get_mean_coefficients(P)
    E.true("keys", sorted(x) == sorted(["A_red_coefficients", tm + "_coefficients", "A_F0_coefficients"]))
    E.true("plain keys", sorted(y) == sorted(["A_red_coefficients", tm + "_coefficients"]))
    E.eq("coefficient", x["A_F0_coefficients"], y[tm + "_coefficients"][1])
    u, v = a.get_mean_processes(P), b.get_mean_processes(P)
    E.eq("process", u["A_F0"], p.Mmat[:, 1] * y[tm + "_coefficients"][1])
    for k in y:
        E.eq("same " + k, x[k], y[k])
    for k in v:
        E.eq("same process " + k, u[k], v[k])
    E.eq("timing process", v[tm], np.dot(p.Mmat, y[tm + "_coefficients"]))
    E.eq("red process", v["A_red"], F["A"][:, 0] * y["A_red_coefficients"][0])
    shared = c.sb(E).PTA([(noise + red(E, F) + red(E, F, name="same"))(p)])
    Q = c.params(E, shared, pos=("phi",))
    E.true("shared columns", E.raises(IndexError, ut.ConditionalGP(shared).get_mean_coefficients, Q) and E.raises(IndexError, ut.get_coefficients, shared, Q))


@instance("P23", "given coefficients", bounds="2 pulsars with 2 TOAs: a process with a given coefficient vector (own or common) before or after a marginalized one of a column (own, or common with any correlation); any vectors, spectra and residuals", maxpaths=60)
def given(E):
    np = E.np
    gp = E.mod("signals.gp_signals")
    psrs = arrays(E, pos=[E.array([1, 0, 0]), E.array([0, 1, 0])], symerr=False)
    noise = E.mod("signals.white_signals").MeasurementNoise(efac=c.par(E).Constant(1.0))
    F = {"A": E.array([[1, 1], [2, -1]]), "B": E.array([[-1, 2], [1, 1]])}
    G = {"A": E.array([[2], [1]]), "B": E.array([[1], [3]])}
    bas = c.fn(E, lambda toas, bkey: (F[bkey].copy(), E.array([1, 2])))()
    if E.choose("given common", 2):
        fixed = gp.BasisCommonGP(c.diag_prior_class(E, 2), bas, c.fn(E, lambda pos1, pos2: 1)(), coefficients=True, name="one")
    else:
        fixed = gp.BasisGP(c.diag_prior_class(E, 2), bas, coefficients=True, name="one")
    corr = E.choose("correlated", 2)
    free = common(E, G, gorf(E), name="two") if corr else red(E, G, name="two")
    m = (fixed + noise + free) if E.choose("first", 2) else (free + noise + fixed)
    pta = c.sb(E).PTA([m(p) for p in psrs])
    P = c.params(E, pta, pos=("phi",), off=("_g",))
    for p in psrs:
        p.residuals = p.residuals - np.dot(F[p.name], P[p.name + "_one_coefficients"])
    if corr:
        phi, g = P["two_phi0"], P["two_g"]
        E.assume_lt(g * g, 1)
        one = 1 / (phi * (1 - g * g))
        iv = E.array([[one, -g * one], [-g * one, one]])
    else:
        iv = np.diag(E.array([1 / P[k + "_two_phi0"] for k in "AB"]))
    w = [G[p.name][:, 0] / p.toaerrs ** 2 for p in psrs]
    S = iv + np.diag(E.array([np.dot(a, G[p.name][:, 0]) for a, p in zip(w, psrs)]))
    C = E.inv(S) if corr else np.diag(E.array([1 / S[i, i] for i in range(2)]))
    mean = np.dot(C, E.array([np.dot(a, p.residuals) for a, p in zip(w, psrs)]))
    every(E, pta, P, ["A_two", "B_two"], mean, C, basis=None if corr else [G["A"], G["B"]], draws=1, sparse=True)


@instance("P23", "nothing to draw", bounds="2 pulsars with 2 TOAs, each without processes or with a process of given coefficients only: the parameters are returned, and no process", maxpaths=60)
def nothing(E):
    np, ut = E.np, E.mod("signals.utils")
    gp = E.mod("signals.gp_signals")
    psrs = arrays(E, pos=[E.array([1, 0, 0]), E.array([0, 1, 0])], symerr=False)
    noise = c.sb(E).SignalCollection([E.mod("signals.white_signals").MeasurementNoise(efac=c.U(E))])
    F = E.array([[1, 1], [2, -1]])
    fixed = gp.BasisGP(c.diag_prior_class(E, 2), c.fn(E, lambda toas: (F.copy(), E.array([1, 2])))(), coefficients=True, name="one")
    pta = c.sb(E).PTA([(noise + fixed if E.choose("given" + p.name, 2) else noise)(p) for p in psrs])
    P = c.params(E, pta, pos=("phi", "efac"))
    for method in ("cliques", "partition", "sparse"):
        for n in (1, 2):
            for v in (True, False):
                d = ut.get_coefficients(pta, P, n=n, phiinv_method=method, variance=v)
                for x in [d] if n == 1 else d:
                    E.true("parameters %s" % method, x is not P and sorted(x) == sorted(P))
                    for k in P:
                        E.eq("kept %s %s" % (method, k), x[k], P[k])
                E.true("draws %s" % method, n == 1 or len(d) == n)
        cg = ut.ConditionalGP(pta, phiinv_method=method)
        E.true("coefficients " + method, cg.get_mean_coefficients(P) == {} and cg.sample_coefficients(P, n=2) == [{}, {}])
        E.true("processes " + method, cg.get_mean_processes(P) == {} and cg.sample_processes(P, n=2) == [{}, {}])
