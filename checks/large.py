"""larger configurations of several properties: more TOAs, columns, pulsars and parameters than the
other instances, with most numbers concrete and a few symbolic"""
import numpy as rnp

from vlib.harness import instance
from . import common as c


def num(i, j=0):
    """small rational numbers without structure"""
    return ((7 * i * i + 3 * i + 11 * j * j + 5 * i * j + 2 * j) % 23 - 11) / 4


def errs(E, n, s=0):
    return E.array([1 + ((3 * i + s) % 5) / 4 for i in range(n)])


# ---------------------------------------------------------------- P01
def p01l(meth):
    @instance("P01", "larger-" + meth, bounds="1 pulsar, 12 TOAs in 3 backends and 4 epochs, jitter (" + meth + "), 5 process columns; concrete errors, bases and most residuals; symbolic amplitude, jitter and one residual", ctmo=60000)
    def h(E):
        np = E.np
        ws, gp, se = E.mod("signals.white_signals"), E.mod("signals.gp_signals"), E.mod("signals.selections")
        n, m = 12, 5
        be = rnp.array(["xyz"[i % 3] for i in range(n)])
        res = [num(i, 3) for i in range(n)]
        res[4] = E.real("r4")
        psr = c.pulsar(E, "A", n, toas=E.array([4579200000 + 86400 * 30 * (i // 3) + 0.1 * (i % 3) for i in range(n)]), backend_flags=be, toaerrs=errs(E, n), residuals=E.array(res))
        F = E.array([[num(i, j) for j in range(m)] for i in range(n)])
        S = E.array([2, 1, 0.5, 0.25, 4])
        model = (ws.MeasurementNoise(efac=c.U(E), selection=se.Selection(se.by_backend)) + ws.EcorrKernelNoise(log10_ecorr=c.U(E), method=meth)
                 + gp.BasisGP(c.fn(E, lambda f, amp: amp * S)(amp=c.U(E)), c.basis_class(E, F), name="gp"))
        pta = c.sb(E).PTA([model(psr)])
        P = c.params(E, pta, pos=("efac", "amp"), off=("ecorr",))
        P["A_x_efac"], P["A_y_efac"], P["A_z_efac"] = E.const(2), E.const(1.5), E.const(1)
        J = np.zeros((n, n))
        for i in range(n):
            for j in range(n):
                if i // 3 == j // 3:
                    J[i, j] = 10 ** (2 * P["A_log10_ecorr"])
        C = np.diag(E.array([P["A_%s_efac" % b] ** 2 for b in be]) * psr.toaerrs ** 2) + J + P["A_gp_amp"] * c.dot3(E, F, np.diag(S), F.T)
        E.eq("lnlike", pta.get_lnlikelihood(P), c.gauss_ll(E, psr.residuals, C))

    return h


for meth in ("sherman-morrison", "block", "sparse", "fast-sherman-morrison"):
    p01l(meth)


@instance("P01", "many pulsars", bounds="12 pulsars with 1 to 3 TOAs: one process column, no process, or delays; concrete numbers, symbolic error scale and amplitude per pulsar", ctmo=60000)
def p01b(E):
    np = E.np
    ws, gp = E.mod("signals.white_signals"), E.mod("signals.gp_signals")
    scs, data = [], []
    for k in range(12):
        nm, n = "J%d" % k, 1 + k % 3
        p = c.pulsar(E, nm, n, toaerrs=errs(E, n, k), residuals=E.array([num(i, k) for i in range(n)]))
        F = E.array([[num(i + 1, k) or 1] for i in range(n)])
        m = ws.MeasurementNoise(efac=c.U(E))
        if k % 4 != 3:
            m = m + gp.BasisGP(c.diag_prior_class(E, 1), c.basis_class(E, F), name="gp")
        else:
            m = c.sb(E).SignalCollection([m])
            F = F * 0
        scs.append(m(p))
        data.append((nm, p, F))
    pta = c.sb(E).PTA(scs)
    names = sorted(["%s_efac" % d[0] for d in data] + ["J%d_gp_phi0" % k for k in range(12) if k % 4 != 3])
    E.true("names", pta.param_names == names)
    P = c.params(E, pta, pos=("efac", "phi"))
    ll = 0
    for nm, p, F in data:
        C = np.diag(P[nm + "_efac"] ** 2 * p.toaerrs ** 2)
        if nm + "_gp_phi0" in P:
            C = C + P[nm + "_gp_phi0"] * np.outer(F[:, 0], F[:, 0])
        ll = ll + c.gauss_ll(E, p.residuals, C)
    E.eq("dictionary", pta.get_lnlikelihood(P), ll)
    E.eq("vector", pta.get_lnlikelihood(E.array([P[n] for n in names])), ll)


# ---------------------------------------------------------------- P02, P03
def posn(E, k):
    return E.array([k, k * k - 5 * k, 1])


def table_orf(E, N):
    """overlap looked up by the first position component"""
    def f(pos1, pos2):
        i, j = [[k for k in range(12) if bool(p[0] == k)][0] for p in (pos1, pos2)]
        return N(min(i, j), max(i, j))

    return c.fn(E, f)()


def amp_prior(E, shape, **kw):
    S = E.array(shape)
    return c.fn(E, lambda f, amp: amp * S)(amp=c.U(E))


def array_of(E, K, n, sym=False):
    out = []
    for k in range(K):
        p = c.pulsar(E, "J%d" % k, n, pos=posn(E, k), toaerrs=errs(E, n, k), residuals=E.array([num(i, k) for i in range(n)]))
        p.bkey = p.name
        out.append(p)
    return out


def common_of(E, F, shape, N, name):
    gp = E.mod("signals.gp_signals")

    def basis(toas, bkey):
        return F[bkey].copy(), E.array([i + 1 for i in range(F[bkey].shape[1])])

    return gp.BasisCommonGP(amp_prior(E, shape), c.fn(E, basis)(), table_orf(E, N), name=name)


def own_of(E, F, shape, name):
    gp = E.mod("signals.gp_signals")

    def basis(toas, bkey):
        return F[bkey].copy(), E.array([i + 1 for i in range(F[bkey].shape[1])])

    return gp.BasisGP(amp_prior(E, shape), c.fn(E, basis)(), name=name)


def crosses(i, j):
    return 1 if i == j else ((3 * i + 5 * j) % 7 - 3) / 16


def five(E, K=5, n=3):
    """pulsars with: common, common + own on the same columns, own on other columns + common, none, own"""
    ps = array_of(E, K, n)
    F = {p.name: E.array([[num(i, 2 * k + j + 1) for j in range(2)] for i in range(n)]) for k, p in enumerate(ps)}
    G = {p.name: E.array([[num(i + 3, 2 * k + j + 1) for j in range(2)] for i in range(n)]) for k, p in enumerate(ps)}
    cm, same, other = common_of(E, F, [2, 0.5], crosses, "gw"), own_of(E, F, [1, 3], "red"), own_of(E, G, [0.5, 1], "dm")
    noise = E.mod("signals.white_signals").MeasurementNoise(efac=c.par(E).Constant(1.0))
    scs, cols = [], []
    for k, p in enumerate(ps):
        kind = ["gw", "red gw", "dm gw", "", "dm"][k % 5]
        m = c.sb(E).SignalCollection([noise])
        for s in kind.split():
            m = m + {"gw": cm, "red": same, "dm": other}[s]
        scs.append(m(p))
        cols.append(kind.split())
    return ps, F, G, scs, cols


@instance("P02", "larger", bounds="5 pulsars with 3 TOAs: common process of 2 columns in 3 of them, own processes on the same and other columns, one pulsar with none; concrete numbers, symbolic common and one own amplitude and one residual", ctmo=60000)
def p02(E):
    np = E.np
    ps, F, G, scs, cols = five(E)
    r = ps[1].residuals
    r[2] = E.real("r")
    pta = c.sb(E).PTA(scs)
    P = {p.name: E.const(1 + (i % 3)) for i, p in enumerate(pta.params)}
    P["gw_amp"], P["J1_red_amp"] = E.pos("amp", s=(0.5, 1.5)), E.pos("red", s=(0.5, 1.5))
    nt = 3 * len(ps)
    C = np.zeros((nt, nt))
    for i, p in enumerate(ps):
        for j, q in enumerate(ps):
            B = C[3 * i : 3 * i + 3, 3 * j : 3 * j + 3]
            if "gw" in cols[i] and "gw" in cols[j]:
                B += P["gw_amp"] * crosses(min(i, j), max(i, j)) * c.dot3(E, F[p.name], np.diag(E.array([2, 0.5])), F[q.name].T)
            if i == j:
                B += np.diag(p.toaerrs ** 2)
                if "red" in cols[i]:
                    B += P[p.name + "_red_amp"] * c.dot3(E, F[p.name], np.diag(E.array([1, 3])), F[p.name].T)
                if "dm" in cols[i]:
                    B += P[p.name + "_dm_amp"] * c.dot3(E, G[p.name], np.diag(E.array([0.5, 1])), G[p.name].T)
    meth = ("cliques", "sparse")[E.choose("method", 2)]
    S = c.sb(E)
    kind = E.choose("likelihood", 2)
    pta = S.PTA(scs, lnlikelihood=S.LogLikelihoodDenseCholesky if kind else S.LogLikelihood)
    E.eq("lnlike", pta.get_lnlikelihood(P, phiinv_method=meth), c.gauss_ll(E, np.hstack([p.residuals for p in ps]), C))


@instance("P03", "larger", bounds="8 pulsars: common process of 2 columns in 5 of them, own processes on the same and other columns, pulsars with none; symbolic amplitudes of the common and two own processes", ctmo=60000)
def p03(E):
    from .p03 import check

    ps, F, G, scs, cols = five(E, 8, 3)
    pta = c.sb(E).PTA(scs)
    P = {p.name: E.const(1 + (i % 3)) for i, p in enumerate(pta.params)}
    P["gw_amp"] = E.pos("amp", s=(0.5, 1.5))
    P["J1_red_amp"] = E.pos("red", s=(0.5, 1.5))
    check(E, pta, P, ("cliques", "sparse", "partition"))


@instance("P03", "chain of commons", bounds="7 pulsars linked in a chain by six common processes of one column, listed in mixed order; symbolic amplitudes of three", ctmo=60000)
def p03b(E):
    from .p03 import check

    ps = array_of(E, 7, 2)
    F = {p.name: E.array([[1], [2]]) for p in ps}
    noise = E.mod("signals.white_signals").MeasurementNoise(efac=c.par(E).Constant(1.0))
    links = [common_of(E, F, [1], lambda i, j: 1 if i == j else 0.25, "c%d" % k) for k in range(6)]
    scs = []
    for k in (3, 0, 6, 2, 5, 1, 4):
        m = noise
        for s in ([links[k - 1]] if k else []) + ([links[k]] if k < 6 else []):
            m = m + s
        scs.append(m(ps[k]))
    pta = c.sb(E).PTA(scs)
    P = {p.name: E.const(1 + (i % 3)) for i, p in enumerate(pta.params)}
    for k in (0, 3, 4):
        P["c%d_amp" % k] = E.pos("amp%d" % k, s=(0.5, 1.5))
    check(E, pta, P)


# ---------------------------------------------------------------- P04, P05
BLOCKS = {"slices": [[0, 1, 2], [3, 4], [6, 7, 8, 9], [10, 11]], "interleaved": [[0, 5, 11], [1, 3], [2, 7, 8, 10]], "one": [list(range(12))]}


def big_noise(E, rep, lay):
    from .p04 import build, contiguous, dense
    sb = E.mod("signals.signal_base")
    n, bl = 12, BLOCKS[lay]
    nv = errs(E, n)
    nv[3] = E.pos("n3")
    jv = E.array([1 + k / 4 for k in range(len(bl))])
    jv[0] = E.pos("j0")
    K = build(E, rep, n, bl, nv, jv, "slice" if all(map(contiguous, bl)) else "index")
    return sb.ndarray_alt(nv), K, dense(E, n, bl, nv, jv)


def bigrep(rep, lay):
    @instance("P04", "larger-%s-%s" % (rep, lay), bounds="12 TOAs, blocks %s, 3-column left and 4-column right arrays; symbolic vectors, one noise and one jitter variance" % BLOCKS[lay], ctmo=30000)
    def h(E):
        from .p04 import contiguous

        np = E.np
        w, K, D = big_noise(E, rep, lay)
        N = w + K
        n = 12
        r = E.array([num(i, 2) for i in range(n)])
        r[0], r[7] = E.real("r0"), E.real("r7")
        A, B = (E.array([[num(i + s, j) for j in range(m)] for i in range(n)]) for s, m in ((1, 3), (5, 4)))
        A[2, 1], B[8, 3] = E.real("a"), E.real("b")
        Di, ld = E.inv(D), E.logdet(D)
        v, g = N.solve(r, left_array=r, logdet=True)
        E.eq("r N^-1 r", v, np.dot(r, np.dot(Di, r)))
        E.eq("logdet", g, ld)
        E.eq("N^-1 r", N.solve(r), np.dot(Di, r))
        E.eq("A N^-1 r", N.solve(r, left_array=A), np.dot(A.T, np.dot(Di, r)))
        E.eq("A N^-1 B", N.solve(B, left_array=A), np.dot(A.T, np.dot(Di, B)))
        E.eq("A N^-1 A", N.solve(A, left_array=A), np.dot(A.T, np.dot(Di, A)))

    @instance("P05", "larger-%s-%s" % (rep, lay), bounds="12 TOAs, blocks %s, 4 timing columns, 3-column left and 4-column right arrays; symbolic residuals, one noise and one jitter variance" % BLOCKS[lay], ctmo=30000)
    def h5(E):
        from .p05 import logdet40, proj

        np, gp = E.np, E.mod("signals.gp_signals")
        w, K, D = big_noise(E, rep, lay)
        n = 12
        M = E.array([[1, (i - 6) / 4, ((i - 6) / 4) ** 2, num(i, 5)] for i in range(n)])
        N = sum([w, gp.MarginalizingNmat(M), K])
        r = E.array([num(i, 2) for i in range(n)])
        r[0] = E.real("r0")
        A, B = (E.array([[num(i + s, j) for j in range(m)] for i in range(n)]) for s, m in ((1, 3), (5, 4)))
        Pm, ld = proj(E, D, M)
        v, g = N.solve(r, left_array=r, logdet=True)
        E.eq("rPr", v, np.dot(r, np.dot(Pm, r)))
        E.eq("logdet", g, ld)
        E.eq("APr", N.solve(r, left_array=A), np.dot(A.T, np.dot(Pm, r)))
        E.eq("APB", N.solve(B, left_array=A), np.dot(A.T, np.dot(Pm, B)))
        E.eq("APA", N.solve(A, left_array=A), np.dot(A.T, np.dot(Pm, A)))


for rep, lay in (("sm", "slices"), ("fsm", "slices"), ("block", "interleaved"), ("sparse", "interleaved"), ("sm", "interleaved"), ("fsm", "one")):
    bigrep(rep, lay)


# ---------------------------------------------------------------- P07
@instance("P07", "larger", bounds="5 signals with 3 to 6 columns on 4 TOAs, 11 different columns in all, shared in several patterns, one basis with repeated columns; symbolic variances", maxpaths=40)
def p07(E):
    from .p07 import check, noise, psr

    np, gp = E.np, E.mod("signals.gp_signals")
    col = lambda k: [num(i, k) + (i == 0) * k for i in range(4)]
    sets = [[0, 1, 2], [3, 1, 4, 5], [6, 7, 0, 8, 3, 6], [9, 10, 2, 9], [10, 4, 8]]
    m, want, P = noise(E), 0, {}
    for k, s in enumerate(sets):
        F = E.array([[col(j)[i] for j in s] for i in range(4)])
        v = [E.pos("phi%d_%d" % (k, j), s=(0.5, 2.0)) for j in range(len(s))]
        P["A_s%d_amp" % k] = E.array(v)
        prior = c.fn(E, lambda f, amp: amp * 1)(amp=c.par(E).Uniform(-10, 10, size=len(s)))
        m = m + gp.BasisGP(prior, c.basis_class(E, F), name="s%d" % k)
        want = want + c.dot3(E, F, np.diag(E.array(v)), F.T)
    check(E, m(psr(E, 4)), P, want)


# ---------------------------------------------------------------- P08, P09, P10
@instance("P08", "larger", bounds="12 pulsars with a scalar and a vector parameter of 12 entries each, and a shared vector of 11: 167 entries in any values")
def p08(E):
    P, ws, ds = c.par(E), E.mod("signals.white_signals"), E.mod("signals.deterministic_signals")
    shared = P.Uniform(-3, 3, size=11)("gw")
    f = c.fn(E, lambda toas, a, s: toas * a[11] * s[10])
    m = ws.MeasurementNoise(efac=P.Normal(0, 1)) + ds.Deterministic(f(a=P.Uniform(0, 2, size=12), s=shared), name="d")
    pta = c.sb(E).PTA([m(c.pulsar(E, "J%d" % k, 1)) for k in range(12)])
    want = sorted([("J%d_d_a" % k, 12) for k in range(12)] + [("J%d_efac" % k, None) for k in range(12)] + [("gw", 11)])
    names = [n if s is None else "%s_%d" % (n, i) for n, s in want for i in range(s or 1)]
    E.true("names", pta.param_names == names)
    x = E.vec("x", len(names))
    for n, v in zip(names, x):
        if "_d_" in n:
            E.assume_le(0, v, 2)
        if n[:2] == "gw":
            E.assume_le(-3, v, 3)
    mp = pta.map_params(x)
    k = 0
    for n, s in want:
        E.eq("mapped " + n, mp[n], x[k] if s is None else x[k : k + s])
        k += s or 1
    np = E.np
    log = lambda v: np.log(E.array([v]))[0]
    E.eq("prior", pta.get_lnprior(x), -sum(mp["J%d_efac" % k] ** 2 for k in range(12)) / 2 - 6 * log(2 * np.pi) - 144 * log(2) - 11 * log(6))
    for sc in pta.pulsarmodels:
        d = sc.get_delay(mp)
        E.eq("delay " + sc.psrname, d, c.toas(E, 1) * mp[sc.psrname + "_d_a"][11] * mp["gw"][10])
    u = E.array([E.real("u%d" % i, 0, 1, s=(0.05, 0.95)) for i in range(len(names))])
    t = pta.get_hypercube_transform(u)
    nd = E.sci("scipy.special").ndtri
    for i, n in enumerate(names):
        E.eq("cube " + n, t[i], 2 * u[i] if "_d_" in n else -3 + 6 * u[i] if n[:2] == "gw" else nd(E.array([u[i]]))[0])


# ---------------------------------------------------------------- P12, P13, P14
def many(E, n=24):
    be = rnp.array(["%s%d" % ("gasp"[i % 4], (7 * i) % 5) for i in range(n)])
    return c.pulsar(E, "A", n, toas=E.array([4579200000 + 3600 * 24 * ((5 * i) % n) for i in range(n)]), backend_flags=be, toaerrs=errs(E, n), residuals=E.array([num(i, 3) for i in range(n)]))


@instance("P13", "larger", bounds="24 TOAs in 20 groups, measurement noise with quadrature error and added noise per group, any parameter values")
def p13(E):
    from .p13 import kinds, oracle, names, values, vec, sel

    p = many(E)
    g = list(p.backend_flags)
    for kind in ("t2", "tn"):
        s = kinds(E, kind, sel(E))(p)
        ns = names(kind, g)
        E.true("names", sorted(s.param_names) == ns)
        P = values(E, ns)
        E.eq("variance " + kind, vec(s.get_ndiag(P)), oracle(E, kind, p, P, g))


def jit(method):
    @instance("P14", "larger-%s" % method, bounds="16 TOAs out of order: 3 groups, epochs of 1 to 5 TOAs interleaved between groups; any jitter values")
    def h(E):
        from .p14 import dense_of, jitter_cov, setup

        np, ws, gp, se = E.np, E.mod("signals.white_signals"), E.mod("signals.gp_signals"), E.mod("signals.selections")
        flags = [("x", "y", "x", "z")[(3 * i) % 4] for i in range(16)]
        ep = [0, 1, 0, 2, 1, 1, 3, 2, 0, 0, 4, 1, 2, 0, 3, 5]
        t = E.array([4579200000 + 86400 * 14 * ((3 * e) % 7) + 0.05 * ((7 * i) % 16) for i, e in enumerate(ep)])
        p = setup(E, 16, t, flags)
        sel = se.Selection(se.by_backend)
        s = ws.EcorrKernelNoise(log10_ecorr=c.U(E), selection=sel, method=method)(p)
        b = gp.EcorrBasisModel(log10_ecorr=c.U(E), selection=sel)(p)
        P = {"A_%s_log10_ecorr" % g: E.real("ecorr_" + g, s=(-0.4, 0.4)) for g in "xyz"}
        want = jitter_cov(E, t, flags, P)
        bp = {n: P[[m for m in P if "_%s_" % g in n and m.endswith("ecorr") and "_%s_" % g in m][0]] for n in b.param_names for g in "xyz" if "_%s_" % g in n}
        B = b.get_basis(bp)
        E.eq("basis model", c.dot3(E, B, np.diag(b.get_phi(bp)), B.T), want)
        Q = {n: E.const(v) for n, v in zip(sorted(P), (0, 0.5, 0.25))}
        Q["A_y_log10_ecorr"] = P["A_y_log10_ecorr"]
        E.eq("kernel", dense_of(E, s.get_ndiag(Q), 16), jitter_cov(E, t, flags, Q))

    return h


for meth in ("sherman-morrison", "block", "sparse", "fast-sherman-morrison"):
    jit(meth)


# ---------------------------------------------------------------- P15, P16, P17
@instance("P15", "larger", bounds="24 TOAs out of order, 12 modes, any span and radio frequencies of two TOAs; plain, dispersive, chromatic and ephemeris designs; linear and logarithmic grids")
def p15(E):
    from .p15 import gb, rep, sc_cos

    np, g = E.np, gb(E)
    n, m = 24, 12
    T = E.pos("T", s=(2.0, 4.0))
    t = E.array([((7 * i) % n) * T / (n - 1) + (i == 5) * E.const(0) for i in range(n)])
    nu = E.array([E.const(1400 - 37 * ((5 * i) % n)) for i in range(n)])
    nu[3], nu[20] = E.pos("nu3", s=(400.0, 900.0)), E.pos("nu20", s=(400.0, 900.0))
    f = [(k + 1) / T for k in range(m)]
    want = sc_cos(E, t, f)
    F, ff = g.createfourierdesignmatrix_red(t, nmodes=m)
    E.eq("span from the data", ff, rep(E, f))
    E.eq("red", F, want)
    F, ff = g.createfourierdesignmatrix_dm(t, nu, nmodes=m, Tspan=T)
    E.eq("dm frequencies", ff, rep(E, f))
    E.eq("dm", F, want * (1400 / nu[:, None]) ** 2)
    F, ff = g.createfourierdesignmatrix_chromatic(t, nu, nmodes=m, Tspan=T, idx=4)
    E.eq("chromatic", F, want * (1400 / nu[:, None]) ** 4)
    pos = E.unit_vector("p")
    F, ff = g.createfourierdesignmatrix_ephem(t, pos, nmodes=m, Tspan=T)
    E.eq("ephemeris", F, np.hstack([want * pos[k] for k in range(3)]).reshape((n, 3, 2 * m)).transpose((0, 2, 1)).reshape((n, 6 * m)))
    lo, hi = E.pos("lo", s=(0.1, 0.2)), E.pos("hi", s=(1.0, 2.0))
    E.assume_lt(lo, hi)
    lin = [lo + (hi - lo) * k / (m - 1) for k in range(m)]
    F, ff = g.createfourierdesignmatrix_red(t, nmodes=m, Tspan=T, fmin=lo, fmax=hi)
    E.eq("linear grid", ff, rep(E, lin))
    E.eq("linear grid entries", F, sc_cos(E, t, lin))


@instance("P16", "larger", bounds="12 distinct increasing frequencies, any spectral parameters")
def p16(E):
    from .p16 import gp, plaw, rep, yr

    g = [E.pos("f%d" % k, s=(0.4 + k, 1.2 + k)) for k in range(12)]
    E.assume_lt(*g)
    f = E.array([x for x in g for _ in range(2)])
    df = [g[0]] + [g[k] - g[k - 1] for k in range(1, 12)]
    A, gam = E.real("A"), E.real("gamma")
    E.eq("powerlaw", gp(E).powerlaw(f, log10_A=A, gamma=gam), rep(E, plaw(E, g, df, A, gam)))
    rho = E.vec("rho", 12)
    E.eq("free spectrum", gp(E).free_spectrum(f, log10_rho=rho), rep(E, [10 ** (2 * x) for x in rho]))
    E.eq("genmodes", gp(E).powerlaw_genmodes(f, log10_A=A, gamma=gam), rep(E, plaw(E, g, df, A, gam)))
    al = E.array([E.pos("al%d" % k) for k in range(12)])
    E.eq("t-process", gp(E).t_process(f, log10_A=A, gamma=gam, alphas=al), rep(E, [x * y for x, y in zip(plaw(E, g, df, A, gam), al)]))
    a = E.pos("adapt")
    k = E.choose("nfreq", 12)
    S = plaw(E, g, df, A, gam)
    E.eq("one adapted", gp(E).t_process_adapt(f, log10_A=A, gamma=gam, alphas_adapt=a, nfreq=E.const(k) + E.const(0.25)), rep(E, [x * a if i == k else x for i, x in enumerate(S)]))
    dl, fb, kp = E.real("delta"), E.real("lfb"), E.pos("kappa")
    bp = [10 ** (2 * A) / (12 * E.np.pi ** 2) * yr(E) ** (gam - 3) * x ** (-gam) * (1 + (x / 10 ** fb) ** (1 / kp)) ** (kp * (gam - dl)) * d for x, d in zip(g, df)]
    E.eq("broken power law", gp(E).broken_powerlaw(f, log10_A=A, gamma=gam, delta=dl, log10_fb=fb, kappa=kp), rep(E, bp))


# ---------------------------------------------------------------- P19, P20, P21, P22
@instance("P19", "larger", bounds="6 TOAs, 14 columns of any entries (some zero), exclusion of several columns, some with two digits")
def p19(E):
    from .p19 import ut

    np, u = E.np, ut(E)
    M = E.array([[num(i, j) + (i == 0) for j in range(14)] for i in range(6)])
    for j in (0, 5, 11):
        M[2, j] = E.pos("m%d" % j)
    M[:, 7] = 0
    for ex in (None, [10], [1, 12, 11], [13, 7, 0]):
        k = [j for j in range(14) if j not in (ex or [])]
        B, w = u.unnormed_tm_basis(M, idx_exclude=ex)
        E.eq("columns", B, M[:, k])
        B, w = u.normed_tm_basis(M, idx_exclude=ex)
        nrm = [np.sqrt(E.array([sum(M[i, j] ** 2 for i in range(6))]))[0] if j != 7 else 1 for j in k]
        E.eq("normed", B, M[:, k] / E.array(nrm))
    B = u.create_stabletimingdesignmatrix(M)
    E.eq("stabilized", B, M / E.array([np.sqrt(E.array([sum(M[i, j] ** 2 for i in range(6))]))[0] if j != 7 else 1 for j in range(14)]))


def clock(E, n, mul):
    """n times out of order: a symbolic start and a symbolic positive step, two of them equal"""
    t0, d = E.real("start", s=(-1, 1)), E.pos("step", s=(0.5, 1.5))
    k = [(mul * i) % n for i in range(n)]
    k[n - 1] = k[2]
    return [t0 + d * x for x in k], t0, d


@instance("P12", "larger", bounds="24 TOAs in 20 groups out of order (any start and step, one tie), any window of frequencies")
def p12(E):
    from .p12 import by, check, se

    p, s = many(E), se(E)
    check(E, "backend", s.Selection(s.by_backend)(p).masks, by(p.backend_flags))
    check(E, "custom", s.Selection(s.custom_backends(["g", "p4"]))(p).masks, by(p.backend_flags, ["g", "p4"]))
    t, t0, d = clock(E, 24, 5)
    p.toas = E.array(t)
    first = [bool(x <= t0 + 11.5 * d) for x in t]
    check(E, "halves", s.Selection(s.cut_half)(p).masks, [("t1", first), ("t2", [not x for x in first])])
    fl = {"B": rnp.array([str((7 * i) % 11) for i in range(24)]), "fe": rnp.array([str((5 * i) % 3) for i in range(24)])}
    p.flags = fl
    check(E, "band flag", s.Selection(s.by_band)(p).masks, by(fl["B"]))
    got = s.Selection(s.custom_backends_dict({"B": ["10", "3", "1"], "fe": ["2"]}))(p).masks
    check(E, "flags", got, [(v, [x == v for x in fl["B"]]) for v in ("1", "10", "3")] + [("2", [x == "2" for x in fl["fe"]])])
    f0, w = E.real("f0", s=(300, 500)), E.pos("width", s=(100, 200))
    p.freqs = E.array([f0 + w * ((11 * i) % 24) for i in range(24)])
    bands = {"b%d" % k: [f0 + 3 * k * w, f0 + 3 * (k + 1) * w] for k in range(9)}
    check(E, "frequency", s.Selection(s.by_freq_band(bands))(p).masks, [("b%d" % k, [(11 * i) % 24 // 3 == k for i in range(24)]) for k in range(8)])


@instance("P20", "larger", bounds="24 TOAs out of order (any start and step, one tie), 12 parameters, any values; windows and flags", tmo=300)
def p20(E):
    from .p20 import check, order, raw

    n = 24
    t, t0, d = clock(E, n, 7)
    p, r = raw(E, n, t=t, M=E.mat("M", n, 12, 0.1, 3), record=bool(E.choose("record", 2)))
    o = order(r.t, range(n))
    check(E, "sorted", p, r, o)
    extra = {}
    if not r.record:
        fl = rnp.array(["v%d" % i for i in range(n)])
        p.set_flags("new", fl)
        extra = {"new": {i: fl[k] for k, i in enumerate(o)}}
        check(E, "flagged", p, r, o, flags=extra)
    a, b = t0 + 2.5 * d, t0 + 20 * d
    p.filter_data(a / 86400, b / 86400)
    o2 = [i for i in o if bool(t[i] >= a) and bool(t[i] <= b)]
    E.true("size", len(o2) in (17, 18, 19))
    check(E, "window", p, r, o2, flags=extra)


@instance("P21", "larger", bounds="16 TOAs out of order, seven flags set in different patterns (one pattern symbolic per TOA), both formats", maxpaths=200)
def p21(E):
    from .p20 import order
    from .p21 import psr, text, want

    n = 16
    t, t0, d = clock(E, n, 5)
    names = ["be", "fe", "f", "i", "sys", "g", "group"]
    flags = {k: rnp.array([text(k, i) if (i * (2 * j + 3) + j) % 4 in (0, 1) else "" for i in range(n)]) for j, k in enumerate(names)}
    for k in ("g", "fe"):
        flags[k][11] = text(k, 11) if bool(E.real(k + "_set") > 0) else ""
    p = psr(E, flags, t, bool(E.choose("record", 2)))
    o = order(t, range(n))
    E.true("labels", [str(x) for x in p.backend_flags] == [want(flags, i) for i in o])


from .p22 import STUBS


@instance("P22", "larger", bounds="16 TOAs stored out of order, 23 design-matrix columns, 12 flags, 14 DMX entries, any values", extra=STUBS)
def p22(E):
    from .p22 import trip

    t, t0, d = clock(E, 16, 5)
    trip(E, 16, 23, t, fl={"f%s" % (k or ""): rnp.array(["%d.%d" % (k, i) if (i + k) % 3 else "" for i in range(16)]) for k in range(12)})


# ---------------------------------------------------------------- P23, P24
@instance("P23", "larger", bounds="6 pulsars with 3 TOAs: own processes of 2 columns on the same and other columns, one pulsar with none; any residual of one pulsar, symbolic amplitudes; Cholesky path", ctmo=60000)
def p23(E):
    from .p23 import every, post

    np = E.np
    ps = array_of(E, 6, 3)
    ps[4].residuals[1] = E.real("r")
    G = {p.name: E.array([[num(i + 3, 2 * k + j + 1) for j in range(2)] for i in range(3)]) for k, p in enumerate(ps)}
    H = {p.name: E.array([[num(i + 1, k + 7)] for i in range(3)]) for k, p in enumerate(ps)}
    a, b = own_of(E, G, [0.5, 2], "dm"), own_of(E, H, [3], "red")
    noise = E.mod("signals.white_signals").MeasurementNoise(efac=c.par(E).Constant(1.0))
    kinds = ["dm red", "red", "", "dm", "red dm", "dm"]
    scs = []
    for k, p in zip(kinds, ps):
        m = c.sb(E).SignalCollection([noise])
        for s in k.split():
            m = m + {"dm": a, "red": b}[s]
        scs.append(m(p))
    pta = c.sb(E).PTA(scs)
    P = {q.name: E.const(1 + i % 3) for i, q in enumerate(pta.params)}
    P["J0_red_amp"] = E.pos("amp", s=(0.5, 1.5))
    ms, Cs, keys, bs = [], [], [], []
    for k, p in zip(kinds, ps):
        if not k:
            continue
        T = np.hstack([{"dm": G, "red": H}[s][p.name] for s in k.split()])
        iv = np.concatenate([1 / (P["%s_%s_amp" % (p.name, s)] * E.array({"dm": [0.5, 2], "red": [3]}[s])) for s in k.split()])
        m, C = post(E, T, p, np.diag(iv))
        ms, Cs = ms + [m], Cs + [C]
        keys += [p.name + "_" + s for s in k.split()]
        bs += [{"dm": G, "red": H}[s][p.name] for s in k.split()]
    n = sum(len(m) for m in ms)
    C = np.zeros((n, n))
    i = 0
    for x in Cs:
        C[i : i + len(x), i : i + len(x)] = x
        i += len(x)
    every(E, pta, P, keys, np.concatenate(ms), C, basis=bs, coef=False)


@instance("P24", "larger", bounds="24 TOAs in 20 groups, a process of 1 to 12 columns per group with explicit coefficients, any coefficients and hyperparameters", ctmo=30000)
def p24(E):
    np = E.np
    gp, se, ws = E.mod("signals.gp_signals"), E.mod("signals.selections"), E.mod("signals.white_signals")
    p = many(E)
    lab = list(p.backend_flags)
    gs = sorted(set(lab))
    cols = {g: 1 + (5 * k) % 12 for k, g in enumerate(gs)}

    def basis(toas, backend_flags):
        g = str(backend_flags[0])
        return E.array([[num(i + 1, j + 2) for j in range(cols[g])] for i in range(len(toas))]), E.array([j + 1 for j in range(cols[g])])

    prior = c.fn(E, lambda f, amp: amp * f)(amp=c.par(E).Uniform(0, 9))
    m = gp.BasisGP(prior, c.fn(E, basis)(), selection=se.Selection(se.by_backend), coefficients=True, name="gp")
    pta = c.sb(E).PTA([(m + ws.MeasurementNoise(efac=c.par(E).Constant(1.0)))(p)])
    E.true("names", sorted(q.name for q in pta.params) == sorted(["A_gp_%s_amp" % g for g in gs] + ["A_gp_%s_coefficients" % g for g in gs]))
    P, prior, d = {}, 0, np.zeros(24)
    for k, g in enumerate(gs):
        x = E.array([num(k, j + 1) for j in range(cols[g])])
        x[-1] = E.real("x_" + g)
        am = P["A_gp_%s_amp" % g] = E.pos("amp_" + g, s=(0.5, 1.5)) if k in (3, 17) else E.const(1 + k % 5)
        if k in (3, 17):
            E.assume_lt(am, 9)
        P["A_gp_%s_coefficients" % g] = x
        rows = [i for i in range(24) if lab[i] == g]
        d[rows] = np.dot(E.array([[num(i + 1, j + 2) for j in range(cols[g])] for i in range(len(rows))]), x)
        v = am * E.array([j + 1 for j in range(cols[g])])
        prior = prior - 0.5 * np.sum(x * x / v) - 0.5 * np.sum(np.log(v)) - 0.5 * len(x) * np.log(2 * np.pi) - np.log(9)
    E.eq("delay", pta.get_delay(P)[0], d)
    E.eq("prior", pta.get_lnprior(P), prior)
    y = p.residuals - d
    E.eq("likelihood", pta.get_lnlikelihood(P), -0.5 * np.sum(y * y / p.toaerrs ** 2) - np.sum(np.log(p.toaerrs)))


# ---------------------------------------------------------------- P25
@instance("P25", "larger", bounds="1 pulsar with 20 TOAs in 11 DMX bins and 2 other columns; 5 groups of DM errors, jumps per 4 flags; concrete numbers, any residual and DM of two TOAs, any error factor, jump and DMX value of two bins", ctmo=60000)
def p25(E):
    from .p25 import joint, mods, white, wpulsar

    np, S = E.np, c.sb(E)
    gp, ws, se, pm = mods(E)
    n = 20
    which = sorted((7 * i) % 11 for i in range(n))
    lab = ["xyzuv"[(2 * i) % 5] for i in range(n)]
    fr = E.array([E.const(700 + 100 * ((3 * i) % 8)) for i in range(n)])
    st = E.array([(53001 + 10 * w + i % 8) * 86400 for i, w in enumerate(which)])
    p = wpulsar(E, which, other=2, stoas=st, freqs=fr, labels=lab, toaerrs=errs(E, n), residuals=E.array([num(i, 3) for i in range(n)]))
    p.residuals[6] = E.real("r6")
    p.flags["pp_dm"], p.flags["pp_dme"] = E.array([num(i, 1) for i in range(n)]), errs(E, n, 2)
    p.flags["pp_dm"][13] = E.real("dm13")
    jl = rnp.array(["abcd"[(i * i) % 4 + 2 * (i % 3 == 2)] for i in range(n)])
    p.jl = jl
    p.dm = E.const(2)
    for k, nm in enumerate(p.names):
        p.dmx[nm]["DMX"] = E.real("dmx%d" % k) if k in (1, 10) else E.const(num(k, 4))
    wb = gp.WidebandTimingModel(dmefac=pm.Uniform(0.1, 10), log10_dmequad=pm.Uniform(-7, 0), dmjump=pm.Normal(0, 1), selection=se.Selection(se.by_backend), dmjump_selection=se.Selection(lambda jl: {v: jl == v for v in "abcd"}))
    pta = S.PTA([(wb + white(E))(p)])
    P = {}
    for q in pta.params:
        P[q.name] = E.const(1.5) if "efac" in q.name else E.const(-0.5) if "equad" in q.name else E.const(0.25)
    E.true("parameters", sorted(P) == sorted(["A_%s_%s" % (g, k) for g in "xyzuv" for k in ("dmefac", "log10_dmequad")] + ["A_%s_dmjump" % g for g in "abcd"]))
    P["A_v_dmefac"], P["A_d_dmjump"] = E.pos("dmefac", s=(0.5, 2.0)), E.real("jump")
    for k, g in enumerate("xyzu"):
        P["A_%s_dmefac" % g] = E.const(num(k, 5)) / 2 + 3
    ef = E.array([P["A_%s_dmefac" % g] for g in lab])
    eq = E.array([10 ** (2 * P["A_%s_log10_dmequad" % g]) for g in lab])
    dme = ef * np.sqrt(p.flags["pp_dme"] ** 2 + eq)
    jump = E.array([P["A_%s_dmjump" % g] for g in jl])
    E.eq("likelihood", pta.get_lnlikelihood(P), joint(E, p, which, p.flags["pp_dm"] + jump, dme))


# ---------------------------------------------------------------- P29, P30
@instance("P29", "larger", bounds="24 TOAs in 20 groups, waveform with an own vector and a shared parameter, any values")
def p29(E):
    from .p29 import mods

    np = E.np
    ds, ws, se, pm = mods(E)
    p = many(E)
    lab = list(p.backend_flags)
    gs = sorted(set(lab))
    s = ds.Deterministic(c.fn(E, lambda toas, residuals, v, w: v[0] * residuals + v[11] * len(toas) + w)(v=pm.Normal(0, 1, size=12), w=c.U(E)("shared")), selection=se.Selection(se.by_backend), name="wf")(p)
    P = {"shared": E.real("w"), **{"A_wf_%s_v" % g: E.vec("v_" + g, 12) for g in gs}}
    E.true("parameters", sorted(q.name for q in s.params) == sorted(P))
    want = [P["A_wf_%s_v" % g][0] * p.residuals[i] + P["A_wf_%s_v" % g][11] * lab.count(g) + P["shared"] for i, g in enumerate(lab)]
    E.eq("delay", s.get_delay(P), E.array(want))
    Q = dict(P, shared=E.real("w2"))
    E.eq("moved", s.get_delay(Q), E.array([x - P["shared"] + Q["shared"] for x in want]))
    E.eq("back", s.get_delay(P), E.array(want))


# ---------------------------------------------------------------- P31
@instance("P31", "larger", bounds="16 TOAs at multiples of half a step (any start, any step), 8 intervals")
def p31(E):
    np, u = E.np, E.mod("signals.utils")
    t0, d = E.const(3), E.const(2)
    k = [(5 * i) % 16 for i in range(16)]
    t = E.array([t0 + d * x / 2 for x in k])
    M, x = u.linear_interp_basis(t, dt=d)
    nodes = len(x)
    v = E.vec("v", nodes)
    got = np.dot(M, v)
    for i in range(16):
        j = k[i] // 2
        E.eq("value %d" % i, got[i], v[j] if k[i] % 2 == 0 else (v[j] + v[j + 1]) / 2)


# ---------------------------------------------------------------- P06
@instance("P06", "larger", bounds="4 pulsars with 6 TOAs: grouped error scales, jitter, delays, own process with a varying basis, common process of 2 columns with a varying correlation; concrete numbers, each of seven parameters moved to any value and back", ctmo=60000, tmo=300)
def p06(E):
    from .p06 import history

    np = E.np
    ws, gp, se, S = E.mod("signals.white_signals"), E.mod("signals.gp_signals"), E.mod("signals.selections"), c.sb(E)
    ps = []
    for k in range(4):
        t = E.array([4579200000 + 864000 * (i // 2) + i % 2 for i in range(6)])
        ps.append(c.pulsar(E, "J%d" % k, 6, pos=posn(E, k), toas=t, toaerrs=errs(E, 6, k), residuals=E.array([num(i, k) for i in range(6)]), backend_flags=rnp.array(["xy"[(i + k) % 2] for i in range(6)])))
        ps[-1].bkey = ps[-1].name
    F = {p.name: E.array([[num(i, 2 * k + j + 1) for j in range(2)] for i in range(6)]) for k, p in enumerate(ps)}
    G = {p.name: E.array([[num(i + 3, k + 1)] for i in range(6)]) for k, p in enumerate(ps)}

    def vary(toas, bkey, scale=1):
        return G[bkey] * scale, E.array([1])

    def orf(pos1, pos2, rho):
        i, j = int(pos1[0] == 1) + 2 * int(pos1[0] == 2) + 3 * int(pos1[0] == 3), int(pos2[0] == 1) + 2 * int(pos2[0] == 2) + 3 * int(pos2[0] == 3)
        return 1 if i == j else rho * crosses(min(i, j), max(i, j))

    def basis(toas, bkey):
        return F[bkey].copy(), E.array([1, 2])

    cm = gp.BasisCommonGP(amp_prior(E, [2, 0.5]), c.fn(E, basis)(), c.fn(E, orf)(rho=c.U(E)), name="gw")
    own = gp.BasisGP(amp_prior(E, [1]), c.fn(E, vary)(scale=c.U(E)), name="red")
    m = ws.MeasurementNoise(efac=c.U(E), selection=se.Selection(se.by_backend)) + ws.EcorrKernelNoise(log10_ecorr=c.U(E)) + own + cm
    make = lambda: S.PTA([m(p) for p in ps])
    pta = make()
    P = {q.name: E.const({"efac": 1.5, "ecor": 0.25, "_amp": 2, "cale": 1, "_rho": 0.5}[q.name[-5:].replace("ecorr", "ecor")[-4:]]) for q in pta.params}
    k = E.choose("moved", 7)
    nm = ["J0_x_efac", "J3_y_efac", "J2_log10_ecorr", "J1_red_amp", "J3_red_scale", "gw_amp", "gw_rho"][k]
    Q = dict(P)
    Q[nm] = E.pos("new", s=(0.55, 0.95))
    E.assume_ne(Q[nm], P[nm])
    if nm == "gw_rho":
        E.assume_lt(Q[nm], 1)
    other = dict(P)
    other["J1_x_efac"], other["J0_red_amp"] = E.const(3), E.const(1)
    history(E, make, [P, Q, other, P])


# ---------------------------------------------------------------- P09, P10
@instance("P09", "larger", bounds="vectors of 12 entries with own bounds or means and widths: values, quantiles and draws anywhere inside")
def p09(E):
    np, pm = E.np, c.par(E)
    n = 12
    lo, w = E.vec("lo", n), E.array([E.pos("w%d" % i) for i in range(n)])
    hi = lo + w
    fr = E.array([E.real("f%d" % i, 0, 1, s=(0.05, 0.95)) for i in range(n)])
    q = E.array([E.real("q%d" % i, 0, 1, s=(0.05, 0.95)) for i in range(n)])
    log = lambda v: np.log(E.array([v]))[0]
    pr = lambda v: v[0] * pr(v[1:]) if len(v) else 1
    p = pm.Uniform(lo, hi, size=n)("x")
    v = lo + fr * w
    E.eq("uniform", p.get_pdf(v), 1 / pr(list(w)))
    E.eq("uniform log", p.get_logpdf(params={"x": v}), -sum(log(x) for x in w))
    E.eq("uniform quantile", p.get_ppf(q), lo + w * q)
    E.eq("uniform draw", p.sample(), lo + w * E.array(E.draws("u")))
    k = E.choose("outside", n)
    out = v.copy()
    out[k] = hi[k] + E.pos("over")
    E.eq("one outside", p.get_pdf(out), 0)
    out[k] = lo[k] - E.pos("under")
    E.eq("one below", p.get_pdf(out), 0)
    g = pm.Normal(lo, w, size=n)("g")
    x = E.vec("g", n)
    E.eq("normal log", g.get_logpdf(x), -sum((a - b) ** 2 / (2 * s ** 2) + log(s) + log(2 * np.pi) / 2 for a, b, s in zip(x, lo, w)))
    E.eq("normal quantile", g.get_ppf(q), lo + w * E.sci("scipy.special").ndtri(q))
    E.eq("normal draw", g.sample(), lo + w * E.array(E.draws("z")))
    e = pm.LinearExp(lo, hi, size=n)("e")
    nu = len(E.draws("u"))
    ln10 = log(10)
    E.eq("linear-exponential log", e.get_logpdf(v), sum(log(ln10 * 10 ** a / (10 ** c - 10 ** b)) for a, b, c in zip(v, lo, hi)))
    E.eq("linear-exponential quantile", 10 ** e.get_ppf(q), 10 ** lo + (10 ** hi - 10 ** lo) * q)
    E.eq("linear-exponential draw", 10 ** e.sample(), 10 ** lo + (10 ** hi - 10 ** lo) * E.array(E.draws("u")[nu:]))


@instance("P09", "covariance of 5", bounds="5-dimensional normal with a concrete correlated covariance of any scale, any mean: density and draws")
def p09b(E):
    np, pm = E.np, c.par(E)
    s = E.pos("s", s=(0.5, 2))
    L = E.array([[1 + i if i == j else (num(i, j) if j < i else 0) for j in range(5)] for i in range(5)])
    C = np.dot(L, L.T)
    mu, x = E.vec("mu", 5), E.vec("x", 5)
    p = pm.Normal(mu, s ** 2 * C, size=5)("x")
    y = np.linalg.solve(L, x - mu) / s
    E.eq("log density", p.get_logpdf(x), -0.5 * np.dot(y, y) - 5 * np.log(s) - np.log(E.array([120]))[0] - 2.5 * np.log(2 * np.pi))
    z = E.array(E.draws("z"))
    d = p.sample()
    z = E.array(E.draws("z")[-5:])
    E.eq("draw", d, mu + s * np.dot(L, z))


@instance("P10", "larger", bounds="hierarchy of depth 6 with shared hyperparameters, vector of 11, 14 parameters: evaluation at any values; sampling in several list orders, any draws")
def p10(E):
    from .p10 import npdf

    pm, np = c.par(E), E.np
    h = [pm.Uniform(1, 2)("h0")]
    for k in range(1, 6):
        h.append(pm.Normal(mu=h[-1], sigma=k)("h%d" % k))
    v = pm.Normal(mu=h[5], sigma=h[0], size=11)("vec")
    leaves = [pm.Normal(mu=h[k % 6], sigma=2)("leaf%d" % k) for k in range(7)]
    E.true("parameters", sorted({p.name for p in v.params}) == sorted(["vec"] + ["h%d" % k for k in range(6)]))
    P = {"h%d" % k: E.real("h%d" % k) for k in range(1, 6)}
    P["h0"] = E.pos("h0")
    P["vec"] = E.vec("v", 11)
    E.eq("vector", v.get_logpdf(params=P), sum(np.log(E.array([npdf(E, x, P["h5"], P["h0"])]))[0] for x in P["vec"]))
    names = sorted(["vec"] + ["h%d" % k for k in range(6)] + ["leaf%d" % k for k in range(7)])
    every = [v] + leaves + h
    for tag, lst in (("leaves ", leaves + [v]), ("reversed ", every[::-1]), ("mixed ", every[1::2] + every[::2])):
        nu, nz = len(E.draws("u")), len(E.draws("z"))
        s = pm.sample(lst)
        u, z = E.draws("u")[nu:], E.draws("z")[nz:]
        E.true(tag + "names", sorted(s) == names)
        E.true(tag + "one draw each", len(u) == 1 and len(z) == 5 + 7 + 11)
        E.eq(tag + "h0", s["h0"], 1 + u[0])
        for k in range(1, 6):
            E.among(tag + "h%d" % k, s["h%d" % k], [s["h%d" % (k - 1)] + k * x for x in z])
        for k in range(7):
            E.among(tag + "leaf%d" % k, s["leaf%d" % k], [s["h%d" % (k % 6)] + 2 * x for x in z])
        for i in range(11):
            E.among(tag + "vec%d" % i, s["vec"][i], [s["h5"] + s["h0"] * x for x in z])


# ---------------------------------------------------------------- P17
@instance("P17", "larger", bounds="7 pulsars at fixed positions and 3 common processes of 2 to 4 columns with the three overlap functions, on the same and separate columns; own processes sharing columns or not; any variances")
def p17(E):
    from .p17 import D, expect, value, ut

    gp, np = E.mod("signals.gp_signals"), E.np
    pos = [[E.const(a) / b for a, b in v] for v in ([(1, 1), (0, 1), (0, 1)], [(3, 5), (4, 5), (0, 1)], [(0, 1), (-3, 5), (4, 5)], [(2, 7), (3, 7), (6, 7)], [(-4, 5), (0, 1), (3, 5)], [(0, 1), (0, 1), (-1, 1)], [(-7, 25), (24, 25), (0, 1)])]
    ps = [c.pulsar(E, "J%d" % k, 5, pos=E.array(pos[k])) for k in range(7)]
    mat = lambda s, m: [[num(i + s, j + 1) + (i == j) * 7 for j in range(m)] for i in range(5)]
    M = {"hd": mat(0, 4), "dipole": mat(3, 2), "monopole": mat(0, 4)}
    G, H = mat(8, 3), M["dipole"]
    ws = E.mod("signals.white_signals").MeasurementNoise(efac=c.par(E).Constant(1.0))
    cm = {k: gp.BasisCommonGP(amp_prior(E, range(1, len(v[0]) + 1)), c.basis_class(E, E.array(v)), getattr(ut(E), k + "_orf")(), name=k) for k, v in M.items()}
    own = {1: (G, [1, 2, 5]), 4: (H, [1, 3]), 6: (G, [1, 2, 5])}
    scs = []
    for k, p in enumerate(ps):
        m = ws
        for s in cm.values():
            m = m + s
        if k in own:
            m = m + gp.BasisGP(amp_prior(E, own[k][1]), c.basis_class(E, E.array(own[k][0])), name="own")
        scs.append(m(p))
    pta = c.sb(E).PTA(scs)
    P = {q.name: E.pos(q.name, s=(0.5, 1.5)) for q in pta.params}
    procs = []
    for nm, v in M.items():
        procs.append((v, D([P[nm + "_amp"] * (j + 1) for j in range(len(v[0]))]), lambda a, b, nm=nm: value(E, nm, pos[a], pos[b], a == b)))
    expect(E, pta, P, ps, procs, {k: (m, D([P["J%d_own_amp" % k] * x for x in s])) for k, (m, s) in own.items()})


# ---------------------------------------------------------------- P28
@instance("P28", "larger", bounds="6 pulsars, 5 pixels, any response of two of them and any map; degree 4 correlations of 6 pulsars")
def p28(E):
    from .p28 import cov, mods

    np, a = E.np, mods(E)
    R = [[[num(i + p, 3 * q + i) for q in range(2)] for p in range(5)] for i in range(6)]
    for i in (2, 5):
        R[i] = [[E.real("F%d_%d_%d" % (i, p, q)) for q in range(2)] for p in range(5)]
    F = E.array([[R[i][p][q] for p in range(5) for q in range(2)] for i in range(6)])
    h = E.vec("h", 5)
    O = a.orfFromMap_fast(None, h, response=F)
    E.eq("overlap", O, cov(E, R, h))
    E.eq("symmetric", O, O.T)


# ---------------------------------------------------------------- P30
@instance("P30", "larger", bounds="8 pulsar models with shared and own parameters, added up in 6 ways: sums, models by name, position and in order; fixed values set for all", ctmo=30000)
def p30(E):
    from .p30 import mods

    np, S = E.np, c.sb(E)
    gp, ws, se, pm, ds = mods(E)
    am = pm.Uniform(-10, 10)("common_amp")
    nms = ["J%d" % k for k in (3, 10, 1, 7, 2, 11, 0, 5)]
    m = ws.MeasurementNoise(efac=pm.Constant()) + ds.Deterministic(c.fn(E, lambda toas, amp, z: E.array([amp, z]))(amp=am, z=c.U(E)), name="det")
    ps = [c.pulsar(E, nm, 2, toaerrs=errs(E, 2, k)) for k, nm in enumerate(nms)]
    a = [m(p) for p in ps]
    k = E.choose("way", 6)
    T = S.PTA
    pta = [lambda: T(a), lambda: T(a[:3]) + T(a[3:]), lambda: T(a[:5]) + T(a[5:7]) + a[7], lambda: a[0] + T(a[1:]), lambda: T(a[:1]) + (T(a[1:4]) + T(a[4:])), lambda: T(a[:7]) + T(a[7])][k]()
    E.true("models", pta.pulsarmodels == a and pta.pulsars == nms and len(pta) == 8 and pta.items() == list(zip(nms, a)))
    E.true("by name and position", all(pta[n] is x and pta[i] is x for i, (n, x) in enumerate(zip(nms, a))))
    names = sorted(["common_amp"] + [n + "_det_z" for n in nms])
    E.true("parameters", pta.param_names == names)
    ef = {n + "_efac": E.pos("efac" + n, s=(0.6, 1.8)) for n in nms}
    pta.set_default_params(ef)
    P = {n: E.real(n) for n in names}
    want = 0
    for p in ps:
        r = p.residuals - E.array([P["common_amp"], P[p.name + "_det_z"]])
        v = ef[p.name + "_efac"] ** 2 * p.toaerrs ** 2
        want = want - 0.5 * np.sum(r * r / v) - 0.5 * np.sum(np.log(v))
    E.eq("likelihood", pta.get_lnlikelihood(P), want)
    E.eq("parameter vector", pta.get_lnlikelihood(E.array([P[n] for n in names])), want)


# ---------------------------------------------------------------- P32
@instance("P32", "larger", bounds="14 DMX bins with labels of 4 and 5 digits in mixed order, fitted or only set, any values; 12 TOAs out of order (any start and step, one tie), planets, ecliptic coordinates", tmo=300)
def p32(E):
    from .p32 import T2, coords, dmxcheck, no_distance, order, t2check

    pm = E.mod("pulsar")
    no_distance(E, pm)
    frame = ["equ", "ecl"][E.choose("frame", 2)]
    dmx = tuple(("DMX_%04d" % k, bool(k % 3)) for k in (7, 1, 12, 3, 10, 2, 10001, 9, 4, 11, 5, 8, 6, 100))
    el, eb, ra, dec = coords(E, pm, "J0000+00", frame)
    s = T2(E, 12, "J0000+00", frame, dmx)
    for k, v in zip(["RAJ", "DECJ"] if frame == "equ" else ["ELONG", "ELAT"], [ra, dec] if frame == "equ" else [el[0], eb[0]]):
        s.par[k].val = v
    s.t = clock(E, 12, 5)[0]
    s._toas = E.array(s.t)
    psr = pm.Tempo2Pulsar(s, planets=True)
    E.eq("DM", psr.dm, s["DM"].val)
    dmxcheck(E, psr, s, dmx)
    t2check(E, psr, s, order(s.t), frame, True, ra, dec)


@instance("P32", "nested tim files", bounds="three levels of INCLUDE at every place among nine lines")
def p32b(E):
    import tempfile

    pm = E.mod("pulsar")
    with tempfile.TemporaryDirectory() as f:
        open(f + "/c.tim", "w").write("".join("x%d 1400 5300%d.1 1.0 a\n" % (i, i) for i in range(4)))
        open(f + "/b.tim", "w").write("y 1400 53001.1 1.0 a\nINCLUDE %s/c.tim\nC z 1400 53001.1 1.0 a\n" % f)
        lines = [" a%d 1400 53002.%d 1.0 a" % (i, i) for i in range(9)]
        k, twice = E.choose("place", 10), E.choose("twice", 2)
        lines[k:k] = ["INCLUDE %s/b.tim" % f] * (1 + twice)
        open(f + "/a.tim", "w").write("\n".join(lines) + "\n")
        got = pm.get_maxobs(f + "/a.tim")
        E.true("TOAs counted: %d" % got, got == (19 if twice else 14))


# ---------------------------------------------------------------- P33
@instance("P33", "larger", bounds="5 pulsars with 1 to 12 TOAs out of order and 3 to 15 parameters, both flag formats: shared, inflated in another order, destroyed one by one", tmo=300)
def p33(E):
    from .p20 import order, raw
    from .p33 import presents, sent, setup

    mem, gone = setup(E)
    pm = E.mod("pulsar")
    ps = []
    for k, n in enumerate((1, 12, 4, 7, 2)):
        p, r = raw(E, n, name="p%d" % k, t=[E.const((5 * i + k) % 13) for i in range(n)], M=E.array([[num(i, j) for j in range(3 + 3 * k)] for i in range(n)]), record=bool(k % 2), planets=k != 3)
        p.__class__ = type("Psr", (pm.Tempo2Pulsar,), {"__init__": lambda self: None})
        ps.append((p, r, order(r.t, range(n))))
    for p, r, o in ps:
        p.deflate()
    us = [sent(p) for p, r, o in ps]
    for k in (3, 0, 4, 1, 2):
        us[k].inflate()
    for k in range(5):
        presents(E, "pulsar %d" % k, us[k], *ps[k][1:])
    left = len(mem.live)
    for k in (1, 4, 0, 2, 3):
        sent(ps[k][0]).destroy()
        left -= 1 + 2 * ps[k][1].planets + ps[k][1].record
        E.true("blocks left after %d" % k, len(mem.live) == left)
    E.true("none left", left == 0)


# ---------------------------------------------------------------- P26
@instance("P26", "larger", bounds="10 TOAs at fixed times, one anywhere in its table interval, an orbit table of 12 entries, concrete geometry; every parameter at any value", tmo=300)
def p26(E):
    from .p26 import ALL, delay, pars, ut

    np, n, nt = E.np, 10, 12
    t = [E.const(((7 * i) % n) + 0.5) for i in range(n)]
    t[3] = 6 + E.real("into", s=(0.1, 0.9))
    E.assume_lt(6, t[3], 7)
    d = dict(toas=E.array(t) * 86400, planetssb=E.array([[[num(i + j, k + j) for k in range(6)] for j in range(9)] for i in range(n)]), pos_t=E.array([[num(i + 5, k) for k in range(3)] for i in range(n)]))
    tab = (E.array(list(range(nt))), *[E.array([[[num(i + s, b + 2 * m) for m in range(3)] for b in range(nt)] for i in range(6)]) for s in (0, 4)])
    which = ALL[1:] if E.choose("drift", 2) else ALL[:3]
    par = pars(E, which)
    got = ut(E).physical_ephem_delay(d["toas"], d["planetssb"], d["pos_t"], times=tab[0], jup_orbit=tab[1], sat_orbit=tab[2], **par)
    E.eq("delay", got, delay(E, d, par, tab, True), atol=1e-6)


@instance("P23", "three coefficients SVD", bounds="1 pulsar with 4 TOAs, one process of 3 coefficients, dense prior with a fixed frame and any three distinct widths, symbolic residual; SVD path", ctmo=60000)
def p23b(E):
    from .p23 import every, post

    np, gp = E.np, E.mod("signals.gp_signals")
    p = c.pulsar(E, "A", 4, toaerrs=errs(E, 4), residuals=E.array([num(i, 3) for i in range(4)]))
    p.residuals[2] = E.real("r")
    F = E.array([[num(i + 1, j + 2) for j in range(3)] for i in range(4)])
    TNT = np.dot(F.T / p.toaerrs ** 2, F)
    U = E.array([[2, -1, 2], [2, 2, -1], [-1, 2, 2]]) / 3
    s = E.array([700 + E.pos("s0", s=(1, 50)), 600 - E.real("s1", 0, 1, s=(0.1, 0.9)), 500 + E.real("s2", 0, 1, s=(0.1, 0.9))])
    S = E.known_svd(U, s, U.T)
    V = E.inv(S - TNT)
    prior = c.fn(E, lambda f, amp: V * amp)(amp=c.par(E).Constant(1.0))
    pta = c.sb(E).PTA([(E.mod("signals.white_signals").MeasurementNoise(efac=c.par(E).Constant(1.0)) + gp.BasisGP(prior, c.basis_class(E, F), name="red"))(p)])
    m, C = post(E, F, p, S - TNT)
    every(E, pta, {}, ["A_red"], m, C, gpc=False, draws=2)


def five_posterior(E, kinds, P, ps, F, G):
    """posterior of the coefficients, in the order of pulsars and signals"""
    np = E.np
    keys = [(k, s) for k, ks in enumerate(kinds) for s in ks.split()]
    col = {"gw": F, "dm": G}
    gws = [k for k, s in keys if s == "gw"]
    own = E.array([0.5])
    Phi = E.array([[crosses(min(i, j), max(i, j)) for j in gws] for i in gws]) * P["gw_amp"]
    inv = E.inv(Phi)
    S, v = np.zeros((len(keys),) * 2), []
    for a, (k, s) in enumerate(keys):
        p = ps[k]
        x = col[s][p.name][:, 0]
        v.append(np.dot(x, p.residuals / p.toaerrs ** 2))
        for b, (l, t) in enumerate(keys):
            if k == l:
                S[a, b] += np.dot(x, col[t][p.name][:, 0] / p.toaerrs ** 2)
            if s == t == "gw":
                S[a, b] += inv[gws.index(k), gws.index(l)]
            if a == b and s == "dm":
                S[a, b] += 1 / (own[0] * P[p.name + "_dm_amp"])
    C = E.inv(S)
    return [ps[k].name + "_" + s for k, s in keys], np.dot(C, E.array(v)), C, [col[s][ps[k].name] for k, s in keys]


def many_common(E, kinds):
    ps = array_of(E, len(kinds), 3)
    F = {p.name: E.array([[num(i, 2 * k + 1)] for i in range(3)]) for k, p in enumerate(ps)}
    G = {p.name: E.array([[num(i + 3, 2 * k + 2)] for i in range(3)]) for k, p in enumerate(ps)}
    cm, other = common_of(E, F, [1], crosses, "gw"), own_of(E, G, [0.5], "dm")
    noise = E.mod("signals.white_signals").MeasurementNoise(efac=c.par(E).Constant(1.0))
    scs = []
    for ks, p in zip(kinds, ps):
        m = c.sb(E).SignalCollection([noise])
        for s in ks.split():
            m = m + {"gw": cm, "dm": other}[s]
        scs.append(m(p))
    return ps, F, G, c.sb(E).PTA(scs)


@instance("P23", "larger correlated", bounds="6 pulsars with 3 TOAs: a common process of one column in 4 of them, own processes before or after it, one pulsar with none and one with its own only; any residual of one pulsar, symbolic common amplitude; CHOLMOD paths", ctmo=60000)
def p23c(E):
    from .p23 import every

    kinds = ["gw", "dm gw", "", "gw dm", "dm", "gw"]
    ps, F, G, pta = many_common(E, kinds)
    ps[3].residuals[1] = E.real("r")
    P = {q.name: E.const(1 + i % 3) for i, q in enumerate(pta.params)}
    P["gw_amp"] = E.pos("amp", s=(0.5, 1.5))
    keys, m, C, B = five_posterior(E, kinds, P, ps, F, G)
    how = E.choose("how", 2)
    every(E, pta, P, keys, m, C, method=["cliques", "sparse"][E.choose("method", 2)], basis=B, gpc=how == 0, coef=how == 1, sparse=True, draws=2)


@instance("P23", "four pulsars SVD", bounds="4 pulsars with 3 TOAs and one common coefficient each, joint prior with a fixed frame and any four distinct widths, one symbolic residual; dense SVD path", ctmo=60000)
def p23d(E):
    from .p23 import every

    np = E.np
    ps = array_of(E, 4, 3)
    ps[3].residuals[1] = E.real("r")
    F = {p.name: E.array([[num(i, 2 * k + 1)] for i in range(3)]) for k, p in enumerate(ps)}
    U = E.array([[1, 1, 1, 1], [1, -1, 1, -1], [1, 1, -1, -1], [1, -1, -1, 1]]) / 2
    s = E.array([700 + E.pos("s0", s=(1, 50)), 600 - E.real("s1", 0, 1, s=(0.1, 0.9)), 500 + E.real("s2", 0, 1, s=(0.1, 0.9)), 400 - E.real("s3", 0, 1, s=(0.1, 0.9))])
    S = E.known_svd(U, s, U.T)
    D = E.array([np.dot(F[p.name][:, 0], F[p.name][:, 0] / p.toaerrs ** 2) for p in ps])
    V = E.inv(S - np.diag(D))
    gw = common_of(E, F, [1], lambda i, j: V[i, j], "gw")
    noise = E.mod("signals.white_signals").MeasurementNoise(efac=c.par(E).Constant(1.0))
    pta = c.sb(E).PTA([(gw + noise)(p) for p in ps])
    C = E.inv(S)
    v = E.array([np.dot(F[p.name][:, 0], p.residuals / p.toaerrs ** 2) for p in ps])
    every(E, pta, {"gw_amp": E.const(1.0)}, [p.name + "_gw" for p in ps], np.dot(C, v), C, gpc=False, draws=1)


# ---------------------------------------------------------------- P11
@instance("P11", "larger", bounds="one function with 14 arguments of every declaration kind at once, nested four deep, on 12 TOAs with five masks; each value from a different source, arbitrary", maxpaths=40)
def p11l(E):
    p = c.par(E)
    n = 12
    v = {k: E.real("v" + k) for k in "abcdefghijklmnop"}
    row = E.vec("row", n)
    psr = c.pulsar(E, "A", n, toas=E.array([num(i, 1) for i in range(n)]), row=row, tall=E.array([[num(i, j) for j in range(3)] for i in range(n)]), att=v["a"], own=v["b"], backend_flags=rnp.array(["xyz"[i % 3] for i in range(n)]))

    def d4(toas, att, x=3):
        return att * 2 + x + toas

    def d3(row, x, y=4):
        return row * x + y

    def d2(toas, x, y, z):
        return x + y * 3 + z + toas

    def d1(own, x, w, backend_flags):
        return x * own + w + E.array([{"x": 1, "y": 2, "z": 3}[b] for b in backend_flags])

    U = p.Uniform(0, 1)
    shared = U("common")
    f4 = p.Function(d4, x=U)
    f3 = p.Function(d3, "three", x=f4, y=shared)
    f2 = p.Function(d2, x=f3, y=p.Constant(v["c"]), z=shared)
    f1 = p.Function(d1, "one", x=f2, w=U)

    def f(toas, att, own, tall, a, b, c1, c2, d, e, g, h, k=5, m=6):
        return a + b * 2 + c1 * 3 + c2 * 5 + d * 7 + e * 11 + g * 13 + h * 17 + k * 19 + m * 23 + att * 29 + own * 31 + toas + tall.sum(axis=1)

    F = p.Function(f, "fn", a=v["d"], b=U, c1=p.Constant(v["e"]), c2=p.Constant(v["f"])("mine"), d=shared, e=f1, g=f4("set", psr=psr), m=p.Uniform(0, 1)("last"))("top", psr=psr)
    names = ["common", "last", "set_x", "top_fn_b", "top_fn_e_one_w", "top_fn_e_one_x_x_three_x_x"]
    got = sorted({q.name for q in F.params})
    E.true("names %s" % got, got == names)
    P = {k: v[q] for k, q in zip(names, "ghijkl")}
    how = E.choose("mask", 5)
    M = [rnp.ones(n, bool), rnp.arange(n) % 2 == 0, rnp.arange(n) == 7, rnp.zeros(n, bool), None][how]
    s = rnp.ones(n, bool) if M is None else M
    T, R = psr.toas[s], row[s]
    kw = {} if M is None else {"mask": M}
    x4 = v["a"] * 2 + P["top_fn_e_one_x_x_three_x_x"] + T
    x3 = R * x4 + P["common"]
    x2 = x3 + v["c"] * 3 + P["common"] + T
    x1 = x2 * v["b"] + P["top_fn_e_one_w"] + E.array([1 + i % 3 for i in range(n)])[s]
    want = (v["d"] + P["top_fn_b"] * 2 + v["e"] * 3 + v["f"] * 5 + P["common"] * 7 + x1 * 11 + (v["a"] * 2 + P["set_x"] + T) * 13 + v["m"] * 17 + 5 * 19
            + P["last"] * 23 + v["a"] * 29 + v["b"] * 31 + T + psr.tall[s].sum(axis=1))
    for k in range(2):
        E.eq("value", F(h=v["m"], params=dict(P), **kw), want)
    # the same arguments overridden at the call and in the parameter values
    P2 = dict(P, mine=v["n"], top_fn_c1=v["o"])
    E.eq("constants overridden", F(h=v["m"], k=v["p"], params=P2, **kw), want + (v["o"] - v["e"]) * 3 + (v["n"] - v["f"]) * 5 + (v["p"] - 5) * 19)
    E.true("values unchanged", sorted(P2) == sorted(names + ["mine", "top_fn_c1"]))


# ---------------------------------------------------------------- P18
@instance("P18", "larger", bounds="24 unsorted times on both sides of a burst at any time between two of them, any strain and polarization, one position and source direction; two bursts on two pulsars", qtmo=8000)
def p18l(E):
    from .p18 import oracle, trig

    np = E.np
    u = E.mod("signals.utils")
    p = E.unit_vector("p")
    cth, ph, psi, lh = E.real("cth", -1, 1, s=(-0.8, 0.8)), E.real("phi", s=(0, 6)), E.real("psi", s=(0, 3)), E.real("log10_h")
    days = [53000 + (7 * i * i + 5 * i) % 29 * 10 + i / 8 for i in range(24)]
    t0 = 53100 + E.real("dt", 0, 1, s=(0.1, 0.9))
    where = E.choose("burst", 3)
    t0 = [t0, t0 + 1000, t0 - 1000][where]
    toas = E.array([x * 86400 for x in days])
    th = np.arccos(E.array([cth]))[0]
    fp, fc, mu, d = oracle(E, p, th, ph)
    E.assume_ne(d, 0)
    s2, c2 = trig(E, 2 * psi)
    slope = 10 ** lh * (c2 * fp + s2 * fc)
    got = u.bwm_delay(toas, p, log10_h=lh, cos_gwtheta=cth, gwphi=ph, gwpol=psi, t0=t0)
    E.eq("delay", got, E.array([slope * (x - t0) * 86400 if bool(x > t0) else 0 for x in days]))


# ---------------------------------------------------------------- P27
@instance("P27", "larger amplitudes", bounds="harmonics 1 to 16 as an array, any eccentricity and strain amplitude, other numbers concrete")
def p27l(E):
    from .p27 import amps

    u = E.mod("signals.utils")
    e, h0 = E.real("e", 0, 1, s=(0.1, 0.8)), E.pos("h0")
    F, mc, dl = E.const(0.25), E.const(2), E.const(4)
    n = rnp.arange(1, 17)
    how = E.choose("strain given", 2)
    h = h0 if how else None
    w = list(zip(*[amps(E, k, mc, dl, h, F, e) for k in range(1, 17)]))
    for nm, f, x in (("a", u.get_an, w[0]), ("b", u.get_bn, w[1]), ("c", u.get_cn, w[2])):
        E.eq(nm, f(n, mc, dl, h, F, e), E.array(list(x)))


@instance("P27", "larger waveform", bounds="7 harmonics at time zero, any mean anomaly, periastron angle and inclination, concrete masses, frequency, eccentricity and precession rate", expand_trig=True, ctmo=60000)
def p27w(E):
    from .p27 import amps

    np = E.np
    u = E.mod("signals.utils")
    nmax = 8
    F, mc, q, e, dl = E.const(0.25), E.const(2), E.const(1), E.const(0.6), E.const(4)
    l0, g, i = E.real("l0"), E.real("gamma"), E.real("inc")
    gd = E.const(0.125)
    w = 2 * np.pi * F
    sp, sx = u.calculate_splus_scross(nmax, mc, dl, None, F, e, E.array([0.0]), l0, g, gd, i)
    ci = np.cos(E.array([i]))[0]
    sn = lambda y: np.sin(E.array([y]))[0]
    cs = lambda y: np.cos(E.array([y]))[0]
    s = x = 0
    for n in range(1, nmax):
        a, b, cc = amps(E, n, mc, dl, None, F, e)
        m, p = n * w - 2 * gd, n * w + 2 * gd
        Sm, Sp, Cm, Cp = sn(n * l0 - 2 * g) / m, sn(n * l0 + 2 * g) / p, cs(n * l0 - 2 * g) / m, cs(n * l0 + 2 * g) / p
        s = s - (1 + ci ** 2) / 2 * (a * (Sm + Sp) - b * (Sm - Sp)) + (1 - ci ** 2) * cc * sn(n * l0)
        x = x + ci * (a * (Cm - Cp) - b * (Cm + Cp))
    E.eq("plus", sp, E.array([s]))
    E.eq("cross", sx, E.array([x]))
