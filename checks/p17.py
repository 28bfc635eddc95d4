"""P17: overlap functions and common-process priors are symmetric and as documented."""
from vlib.harness import instance
from . import common as c

ASSUMPTIONS = ["pulsar positions are arbitrary unit vectors (real coordinates), coincident or different in at least one coordinate", "process variances are arbitrary non-zero reals"]


def ut(E):
    return E.mod("signals.utils")


def hd(E, p, q):
    np = E.np
    x = (1 - (p[0] * q[0] + p[1] * q[1] + p[2] * q[2])) / 2
    return 3 * x / 2 * np.log(E.array([x]))[0] - x / 4 + E.const(0.5)


def value(E, name, p, q, same):
    if name == "hd":
        return 1 if same else hd(E, p, q)
    d = E.const(1) + E.const(1e-5)
    if name == "dipole":
        return d if same else p[0] * q[0] + p[1] * q[1] + p[2] * q[2]
    return d if same else 1


ORFS = ("hd", "dipole", "monopole")


def one(name):
    @instance("P17", name, bounds="any two unit vectors: coincident, or different in any non-empty set of coordinates")
    def h(E):
        f = getattr(ut(E), name + "_orf")
        p, q = E.unit_vector("p"), E.unit_vector("q")
        k = E.choose("different in", 4)
        if k == 3:
            q = E.array(list(p))
            E.eq("coincident", f(p, q), value(E, name, p, q, True))
            E.eq("itself", f(p, p), value(E, name, p, p, True))
            return
        E.assume_ne(p[k], q[k])
        r = f(p, q)
        E.eq("value", r, value(E, name, p, q, False))
        E.eq("symmetric", f(q, p), r)
        E.eq("positions unchanged", p, E.unit_vector("p"))
    return h


for n in ORFS:
    one(n)


@instance("P17", "antipodal", bounds="any unit vector and its antipode; and orthogonal vectors")
def antipodal(E):
    np = E.np
    p = E.unit_vector("p")
    E.assume_ne(p[0], 0)
    u = ut(E)
    C = E.const
    E.eq("hd", u.hd_orf(p, -p), C(0.25))
    E.eq("dipole", u.dipole_orf(p, -p), -1)
    E.eq("monopole", u.monopole_orf(p, -p), 1)
    a, b = E.array([1, 0, 0]), E.array([0, 0, 1])
    E.eq("hd orthogonal", u.hd_orf(a, b), C(0.75) * np.log(E.array([C(0.5)]))[0] + C(0.375))
    E.eq("dipole orthogonal", u.dipole_orf(a, b), 0)


def apart(E, pos):
    for i in range(len(pos)):
        for j in range(i):
            E.assume_ne(pos[i][0], pos[j][0])


def setup(E, npsr=3, own=True, ncol=2, coincident=False):
    """pulsars with symbolic positions; A and C have own processes"""
    pos = [E.unit_vector("x%d" % k) for k in range(npsr)]
    if coincident:
        pos[-1] = E.array(list(pos[0]))
        apart(E, pos[:-1])
    else:
        apart(E, pos)
    return pos, [c.pulsar(E, "ABCD"[k], 3, residuals=E.array([1, 2, 3]), toaerrs=E.array([1, 1, 1]), pos=pos[k]) for k in range(npsr)]


F = [[1, 0], [2, 1], [0, 3]]
G = [[5, 7], [1, 1], [4, 0]]


def model(E, psrs, commons, own):
    """own: {pulsar index: (matrix, before?)}"""
    gp, ws, pm = E.mod("signals.gp_signals"), E.mod("signals.white_signals"), c.par(E)
    eq = ws.MeasurementNoise(efac=pm.Constant(1.0))
    out = []
    for k, p in enumerate(psrs):
        m = eq
        if k in own:
            M, before, prior = own[k]
            g = gp.BasisGP(prior, c.basis_class(E, E.array(M)), name="own")
            m = g + eq if before else eq + g
        for cm in commons:
            m = m + cm
        out.append(m(p))
    return c.sb(E).PTA(out)


def blocks(E, pta, P, psrs):
    """get_phi with the column positions of each pulsar"""
    np = E.np
    Phi = np.array(pta.get_phi(P))
    off, o = [], 0
    for sc in pta.pulsarmodels:
        off.append(o)
        o += 0 if sc.get_basis(P) is None else sc.get_basis(P).shape[1]
    return Phi, off, o


def cols(E, T, M):
    """position in basis T of each column of M (concrete entries)"""
    out = []
    for j in range(len(M[0])):
        col = [r[j] for r in M]
        hit = [k for k in range(T.shape[1]) if all(bool(T[i, k] == col[i]) for i in range(len(col)))]
        out.append(hit)
    return out


def expect(E, pta, P, psrs, procs, owns):
    """procs: [(M, variances, correlation(a, b))]; owns: {k: (M, own covariance)}"""
    np = E.np
    Phi, off, n = blocks(E, pta, P, psrs)
    E.true("size", Phi.shape == (n, n))
    want = [[0] * n for _ in range(n)]
    pos = []
    for k, sc in enumerate(pta.pulsarmodels):
        T = sc.get_basis(P)
        pos.append(T)

    def place(a, Ma, b, Mb, V):
        ca, cb = cols(E, pos[a], Ma), cols(E, pos[b], Mb)
        for i, hi in enumerate(ca):
            for j, hj in enumerate(cb):
                E.true("columns present once", len(hi) == 1 and len(hj) == 1)
                r, s = off[a] + hi[0], off[b] + hj[0]
                want[r][s] = want[r][s] + V[i][j]

    for M, V, corr in procs:
        for a in range(len(psrs)):
            for b in range(len(psrs)):
                k = corr(a, b)
                if k is None:  # not shared by these two
                    continue
                place(a, M, b, M, [[v * k for v in row] for row in V])
    for k, (M, V) in owns.items():
        place(k, M, k, M, V)
    E.eq("prior covariance", Phi, E.array(want))


def D(x):
    return [[x[i] if i == j else 0 for j in range(len(x))] for i in range(len(x))]


def run(E, name, share, dense, npsr=3, coincident=False):
    gp, pm = E.mod("signals.gp_signals"), c.par(E)
    pos, psrs = setup(E, npsr, coincident=coincident)
    cm = gp.BasisCommonGP(c.dense_prior_class(E, 2) if dense else c.diag_prior_class(E, 2), c.basis_class(E, E.array(F)), getattr(ut(E), name + "_orf")(), name="gw")
    own = {0: (F if share else G, True, c.diag_prior_class(E, 2)), 2: (G, False, c.diag_prior_class(E, 2))}
    pta = model(E, psrs, [cm], own)
    P = c.params(E, pta, pos=("phi",))
    V = [[P["gw_a"], P["gw_b"]], [P["gw_b"], P["gw_c"]]] if dense else D([P["gw_phi0"], P["gw_phi1"]])
    same = lambda a, b: a == b or coincident and {a, b} == {0, npsr - 1}
    expect(E, pta, P, psrs, [(F, V, lambda a, b: value(E, name, pos[a], pos[b], same(a, b)))],
           {0: (F if share else G, D([P["A_own_phi0"], P["A_own_phi1"]])), 2: (G, D([P["C_own_phi0"], P["C_own_phi1"]]))})


def common(name, share, dense, coincident=False):
    @instance("P17", "array-%s%s%s%s" % (name, "-shared" if share else "", "-dense" if dense else "", "-coincident" if coincident else ""), bounds="3 pulsars at any positions%s, 2 common columns, own processes on two of them (%s columns)" % (", two coincident" if coincident else "", "sharing" if share else "separate"))
    def h(E):
        run(E, name, share, dense, coincident=coincident)
    return h


for n in ORFS:
    common(n, True, False)
common("hd", False, True)
common("dipole", True, False, True)
common("hd", False, False, True)


@instance("P17", "two-processes", bounds="3 pulsars at any positions, two common processes with different overlap functions on the same or separate columns, one pulsar with its own process")
def two(E):
    gp, pm = E.mod("signals.gp_signals"), c.par(E)
    pos, psrs = setup(E)
    M2 = F if E.choose("same columns", 2) else G
    c1 = gp.BasisCommonGP(c.diag_prior_class(E, 2), c.basis_class(E, E.array(F)), ut(E).hd_orf(), name="gw")
    c2 = gp.BasisCommonGP(c.diag_prior_class(E, 2), c.basis_class(E, E.array(M2)), ut(E).dipole_orf(), name="eph")
    pta = model(E, psrs, [c1, c2], {1: (G, True, c.diag_prior_class(E, 2))})
    P = c.params(E, pta, pos=("phi",))
    val = lambda nm: (lambda a, b: value(E, nm, pos[a], pos[b], a == b))
    expect(E, pta, P, psrs, [(F, D([P["gw_phi0"], P["gw_phi1"]]), val("hd")), (M2, D([P["eph_phi0"], P["eph_phi1"]]), val("dipole"))],
           {1: (G, D([P["B_own_phi0"], P["B_own_phi1"]]))})


@instance("P17", "parametric", bounds="2 pulsars, overlap function with a parameter and a fixed argument (any values)")
def parametric(E):
    gp, pm = E.mod("signals.gp_signals"), c.par(E)
    pos, psrs = setup(E, 2)
    np = E.np

    def orf(pos1, pos2, a=1, b=2):
        return a + b * (pos1[0] + pos2[0]) if bool(np.all(pos1 == pos2)) else a * b * pos1[1] * pos2[1]

    cm = gp.BasisCommonGP(c.diag_prior_class(E, 2), c.basis_class(E, E.array(F)), c.fn(E, orf)(a=c.U(E), b=pm.Constant(3)), name="gw")
    pta = model(E, psrs, [cm], {0: (F, True, c.diag_prior_class(E, 2))})
    P = c.params(E, pta, pos=("phi",))
    E.true("parameter names", sorted(P) == ["A_own_phi0", "A_own_phi1", "gw_a", "gw_phi0", "gw_phi1"])
    a = P["gw_a"]
    expect(E, pta, P, psrs, [(F, D([P["gw_phi0"], P["gw_phi1"]]), lambda i, j: a + 6 * pos[i][0] if i == j else a * 3 * pos[0][1] * pos[1][1])],
           {0: (F, D([P["A_own_phi0"], P["A_own_phi1"]]))})


@instance("P17", "anisotropic", bounds="2 pulsars at any positions, degree 0 or 1, any response matrices and coefficients")
def anis(E):
    u = ut(E)
    pos = [E.unit_vector("x%d" % k) for k in range(3)]
    apart(E, pos)
    np = E.np
    l = E.choose("lmax", 2)
    n = (l + 1) ** 2
    # all responses supplied, also of higher degree
    B = [[[E.real("b%d_%d%d" % (k, min(i, j), max(i, j))) for j in range(3)] for i in range(3)] for k in range(4)]
    prm = E.array([E.real("c%d" % k) for k in range(n - 1)])
    kw = dict(anis_basis=E.array(B), psrs_pos=[x for x in pos], lmax=l)
    for i in range(3):
        for j in range(3):
            w = 2 * np.sqrt(np.pi) * B[0][i][j]
            for k in range(1, n):
                w = w + prm[k - 1] * B[k][i][j]
            E.eq("overlap %d %d" % (i, j), u.anis_orf(pos[i], pos[j], prm, **kw), w)


@instance("P17", "fourier-common", bounds="2 pulsars at any positions, power-law common process with 2 modes, any amplitude and slope")
def fouriercommon(E):
    gp, pr, pm = E.mod("signals.gp_signals"), E.mod("signals.gp_priors"), c.par(E)
    pos, psrs = setup(E, 2)
    T = E.const(4000000)
    cm = gp.FourierBasisCommonGP(pr.powerlaw(log10_A=pm.Uniform(-18, -12)("gw_log10_A"), gamma=pm.Uniform(0, 7)("gw_gamma")), ut(E).hd_orf(), components=2, Tspan=T, name="gw")
    pta = model(E, psrs, [cm], {})
    A, g = E.real("A"), E.real("gamma")
    P = {"gw_log10_A": A, "gw_gamma": g}
    E.true("parameter names", sorted(pta.param_names) == sorted(P))
    Phi = E.np.array(pta.get_phi(P))
    k = 12 * E.np.pi ** 2
    y = 1 / E.const(365.25 * 86400)
    v = [10 ** (2 * A) / k * y ** (g - 3) * (m / T) ** (-g) / T for m in (1, 1, 2, 2)]
    h = hd(E, pos[0], pos[1])
    want = [[(v[i % 4] * (1 if i // 4 == j // 4 else h) if i % 4 == j % 4 else 0) for j in range(8)] for i in range(8)]
    E.eq("prior covariance", Phi, E.array(want))


@instance("P17", "ephemeris-process", bounds="2 pulsars at any positions, ephemeris Fourier process with 1 mode, any prior values: columns are the modes times the position components, one spectrum for all pulsars")
def ephemproc(E):
    np, gp = E.np, E.mod("signals.gp_signals")
    pos, psrs = setup(E, 2)
    pos[1] = psrs[1].pos = E.array([E.const(0.6), 0, E.const(0.8)])
    T = 2 * 86400 * 20
    pr = c.fn(E, lambda f, a: a * np.arange(1, len(f) + 1))(a=c.U(E))
    m = gp.FourierBasisCommonGP_ephem(pr, 1, T) + E.mod("signals.white_signals").MeasurementNoise(efac=c.par(E).Constant(1.0))
    pta = c.sb(E).PTA([m(p) for p in psrs])
    E.true("parameter", pta.param_names == ["ephem_gp_a"])
    a = E.pos("a")
    P = {"ephem_gp_a": a}
    for p, B in zip(psrs, pta.get_basis(P)):
        ph = 2 * np.pi * p.toas / T
        want = np.hstack([np.sin(ph)[:, None] * p.pos[None, :], np.cos(ph)[:, None] * p.pos[None, :]])
        E.eq("basis " + p.name, B, want)
    Phi = np.array(pta.get_phi(P))
    mono = ut(E).monopole_orf
    for i in range(2):
        for j in range(2):
            E.eq("prior %d%d" % (i, j), Phi[6 * i : 6 * i + 6, 6 * j : 6 * j + 6], np.diag(a * np.arange(1, 7)) * mono(pos[i], pos[j]))


@instance("P17", "varying-frequencies", bounds="2 pulsars at any positions, common process whose basis (columns and frequencies) has a parameter; priors asked before, after and without the basis, for changing values")
def varying(E):
    np, gp, pm = E.np, E.mod("signals.gp_signals"), c.par(E)
    pos, psrs = setup(E, 2)
    bs = c.fn(E, lambda toas, w=1: (np.stack([toas ** 0, toas], axis=1) * w, E.array([w, w * w])))(w=pm.Uniform(0.5, 4)("w"))
    cm = gp.BasisCommonGP(c.fn(E, lambda f, amp: amp * f)(amp=c.U(E)), bs, ut(E).dipole_orf(), name="gw")
    pta = model(E, psrs, [cm], {})
    amp = E.pos("amp")
    W = [E.pos("w%d" % k, s=(1, 3)) for k in range(2)]
    first = E.choose("first", 3)
    for k in (0, 1, 0):
        P = {"gw_amp": amp, "w": W[k]}
        if first == 1:
            pta.get_basis(P)
        if first == 2:
            sigs = [sc["gw"] for sc in pta.pulsarmodels]
            for s, x in zip(sigs, pos):
                E.eq("own prior", s.get_phi(P), amp * E.array([W[k], W[k] ** 2]) * ut(E).dipole_orf(x, x))
        Phi = np.array(pta.get_phi(P))
        for i in range(2):
            for j in range(2):
                E.eq("prior %d%d" % (i, j), Phi[2 * i : 2 * i + 2, 2 * j : 2 * j + 2], np.diag(amp * E.array([W[k], W[k] ** 2])) * ut(E).dipole_orf(pos[i], pos[j]))
        for p, B in zip(psrs, pta.get_basis(P)):
            E.eq("basis " + p.name, B, np.stack([p.toas ** 0, p.toas], axis=1) * W[k])
