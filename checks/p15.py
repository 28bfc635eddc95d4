"""P15: Fourier design matrices have the documented entries and frequencies."""
from vlib.harness import instance
from . import common as c

ASSUMPTIONS = ["times, radio frequencies, spans and sampling frequencies are arbitrary positive reals (times any real, in any order unless said)", "random phases: any values the generator can return in [0, 2 pi)"]


def gb(E):
    return E.mod("signals.gp_bases")


def sc_cos(E, t, f, ph=None):
    """oracle matrix"""
    np = E.np
    F = [[0] * (2 * len(f)) for _ in t]
    for i in range(len(t)):
        for k in range(len(f)):
            a = E.array([2 * np.pi * t[i] * f[k] + (ph[k] if ph is not None else 0)])
            F[i][2 * k] = np.sin(a)[0]
            F[i][2 * k + 1] = np.cos(a)[0]
    return E.array(F)


def rep(E, f, k=2):
    return E.array([x for x in f for _ in range(k)])


def TT(E, n=3):
    return E.vec("t", n)


def P(E, *names):
    return [E.pos(k) for k in names]


def freqs(E, n=3):
    return E.array([E.pos("nu%d" % i, s=(0.8, 1.9)) for i in range(n)])


def grids(E):
    """the documented frequency grids: keyword arguments and frequencies"""
    np = E.np
    t = TT(E)
    T, a, b = E.pos("T"), E.pos("a", s=(0.3, 0.5)), E.pos("b", s=(0.8, 1.5))
    E.assume_lt(a, b)
    k = E.choose("grid", 7)
    if k == 0:
        return t, dict(nmodes=3, Tspan=T), [1 / T, 2 / T, 3 / T]
    if k == 1:
        return t, dict(nmodes=3, Tspan=T, fmin=a, fmax=b), [a, (a + b) / 2, b]
    if k == 2:
        return t, dict(nmodes=2, Tspan=T, fmin=a), [a, 2 / T]
    if k == 3:
        return t, dict(nmodes=2, Tspan=T, fmax=b), [1 / T, b]
    if k == 4:
        return t, dict(nmodes=3, Tspan=T, fmin=a, fmax=b, logf=True), [a, (a * b) ** 0.5, b]
    if k == 5:
        return t, dict(nmodes=2, Tspan=T, logf=True), [1 / T, 2 / T]
    m = [E.pos("m0"), E.pos("m1")]
    return t, dict(Tspan=T, modes=E.array(m)), m


@instance("P15", "red", bounds="3 TOAs in any order, 2-3 modes, every frequency grid (default, linear, half-given limits, logarithmic, explicit modes)")
def red(E):
    t, kw, f = grids(E)
    F, ff = gb(E).createfourierdesignmatrix_red(t, **kw)
    E.eq("frequencies", ff, rep(E, f))
    E.eq("matrix", F, sc_cos(E, t, f))


@instance("P15", "red-span", bounds="3 TOAs in any order, span taken from the data; 1-3 modes")
def redspan(E):
    t = TT(E)
    n = 1 + E.choose("n", 3)
    E.assume_ne(t[0], t[1])
    F, ff = gb(E).createfourierdesignmatrix_red(t, nmodes=n)
    hi = lo = t[0]
    for x in t[1:]:
        hi = x if x > hi else hi
        lo = x if x < lo else lo
    f = [(k + 1) / (hi - lo) for k in range(n)]
    E.eq("frequencies", ff, rep(E, f))
    E.eq("matrix", F, sc_cos(E, t, f))


@instance("P15", "red-modes-list", bounds="explicit list of 3 modes in any order")
def modeslist(E):
    t, m = TT(E, 2), P(E, "m0", "m1", "m2")
    for form in (m, E.array(m)):
        F, ff = gb(E).createfourierdesignmatrix_red(t, modes=form, Tspan=E.pos("T"))
        E.eq("frequencies", ff, rep(E, m))
        E.eq("matrix", F, sc_cos(E, t, m))
    E.eq("times unchanged", t, TT(E, 2))


@instance("P15", "red-phase", bounds="2 TOAs, 2 modes, any random phases; with pshift and with pseed")
def phase(E):
    np = E.np
    T = E.pos("T")
    if E.choose("seeded", 2):
        t = E.array([3400, 5000])
        kw = dict(pseed=7)
    else:
        t = TT(E, 2)
        kw = dict(pshift=True)
    F, ff = gb(E).createfourierdesignmatrix_red(t, nmodes=2, Tspan=T, **kw)
    f = [1 / T, 2 / T]
    E.eq("frequencies", ff, rep(E, f))
    u = E.draws("u")
    E.true("one phase per mode", len(u) == 2)
    if len(u) == 2:
        E.eq("matrix", F, sc_cos(E, t, f, [2 * np.pi * x for x in u]))


def factor(E, name, nu, kw):
    np = E.np
    if name == "dm":
        fref = kw.get("fref", 1400)
        return [(fref / x) ** 2 for x in nu]
    if name == "dm_tn":
        fref, idx = kw.get("fref", 1400), kw.get("idx", 2)
        k = np.sqrt(E.const(12)) * np.pi / E.const(1400) / E.const(1400) / E.const(2.41e-4)
        return [(fref / x) ** idx * k for x in nu]
    return [(1400 / x) ** kw.get("idx", 4) for x in nu]


def chrom(name, variants):
    @instance("P15", name, bounds="3 TOAs in any order, any radio frequencies, every frequency grid; default, numeric and arbitrary real index / reference frequency")
    def h(E):
        t, kw, f = grids(E)
        nu = freqs(E)
        v = dict(variants[E.choose("variant", len(variants))])
        v = {k: (E.pos(k) if x == "sym" else x) for k, x in v.items()}
        F, ff = getattr(gb(E), "createfourierdesignmatrix_" + name)(t, nu, **kw, **v)
        E.eq("frequencies", ff, rep(E, f))
        fac = factor(E, name, nu, v)
        B = sc_cos(E, t, f)
        E.eq("matrix", F, E.array([[B[i, j] * fac[i] for j in range(B.shape[1])] for i in range(len(t))]))
        E.eq("radio frequencies unchanged", nu, freqs(E))
    return h


chrom("dm", [{}, {"fref": "sym"}])
chrom("dm_tn", [{}, {"fref": "sym", "idx": "sym"}, {"idx": 4}])
chrom("chromatic", [{}, {"idx": "sym"}, {"idx": 2}])


@instance("P15", "dm-phase", bounds="2 TOAs, 2 modes, any random phases, dispersion variants")
def dmphase(E):
    t, nu, T = TT(E, 2), freqs(E, 2), E.pos("T")
    name = ("dm", "dm_tn")[E.choose("which", 2)]
    F, ff = getattr(gb(E), "createfourierdesignmatrix_" + name)(t, nu, nmodes=2, Tspan=T, pshift=True)
    f = [1 / T, 2 / T]
    u = E.draws("u")
    E.true("one phase per mode", len(u) == 2)
    if len(u) == 2:
        B = sc_cos(E, t, f, [2 * E.np.pi * x for x in u] if u else None)
        fac = factor(E, name, nu, {})
        E.eq("matrix", F, E.array([[B[i, j] * fac[i] for j in range(4)] for i in range(2)]))


@instance("P15", "env", bounds="3 TOAs in any order, every frequency grid, any amplitude, width and centre of the envelope")
def env(E):
    np = E.np
    t, kw, f = grids(E)
    A, Q, t0 = E.real("log10_Amp"), E.real("log10_Q", s=(-5, -4.5)), E.real("t0")
    F, ff = gb(E).createfourierdesignmatrix_env(t, log10_Amp=A, log10_Q=Q, t0=t0, **kw)
    E.eq("frequencies", ff, rep(E, f))
    B = sc_cos(E, t, f)
    w = 10 ** Q * 86400
    e = [10 ** A * np.exp(E.array([-(x - t0) ** 2 / (2 * w ** 2)]))[0] for x in t]
    E.eq("matrix", F, E.array([[B[i, j] * e[i] for j in range(B.shape[1])] for i in range(3)]))


@instance("P15", "ephem", bounds="3 TOAs in any order, any pulsar position, 1-3 modes, span given or from the data")
def ephem(E):
    t, pos = TT(E), E.vec("p", 3)
    n = 1 + E.choose("n", 3)
    if E.choose("span", 2):
        T = E.pos("T")
        F, ff = gb(E).createfourierdesignmatrix_ephem(t, pos, nmodes=n, Tspan=T)
    else:
        E.assume_lt(*t)
        T = t[2] - t[0]
        F, ff = gb(E).createfourierdesignmatrix_ephem(t, pos, nmodes=n)
    f = [(k + 1) / T for k in range(n)]
    E.eq("frequencies", ff, rep(E, f, 6))
    B = sc_cos(E, t, f)
    E.eq("matrix", F, E.array([[B[i, j] * pos[k] for j in range(2 * n) for k in range(3)] for i in range(3)]))


@instance("P15", "general", bounds="4 TOAs in any order in 2 flag groups (one split), any radio frequencies; with and without selection, chromatic index, DM normalization, group span, every frequency grid for the plain case")
def general(E):
    import numpy as rnp

    np = E.np
    fl = rnp.array(["x", "y", "x", "y"])
    flags = {"group": fl, "f": rnp.array(["u", "u", "u", "w"])}
    t, nu = TT(E, 4), freqs(E, 4)
    case = E.choose("case", 6)
    kw, mask, span = {}, [1] * 4, None
    if case == 1:
        kw, mask = dict(flagval="y"), [0, 1, 0, 1]
    if case == 2:
        kw, mask = dict(flagname="f", flagval="u"), [1, 1, 1, 0]
    if case == 3:
        kw, mask = dict(flagval="x", psrTspan=False), [1, 0, 1, 0]
        E.assume_lt(t[2], t[0])
        span = t[0] - t[2]
    if case == 4:
        kw, mask = dict(flagval="none"), [0] * 4
    if case == 5:
        # group span asked for without a group
        kw = dict(psrTspan=False)
    ch = E.choose("chromatic", 4)
    fac = [1] * 4
    if ch == 1:
        kw["idx"] = i = E.pos("idx")
        fac = [(1400 / x) ** i for x in nu]
    if ch == 2:
        kw["idx"], kw["tndm"] = 2, True
        fac = factor(E, "dm_tn", nu, {})
    if ch == 3:
        kw["tndm"] = True
    T = E.pos("T")
    F, ff = gb(E).createfourierdesignmatrix_general(t, nu, flags, nmodes=2, Tspan=T, **kw)
    f = [k / (span if span is not None else T) for k in (1, 2)]
    E.eq("frequencies", ff, rep(E, f))
    B = sc_cos(E, t, f)
    E.eq("matrix", F, E.array([[B[i, j] * fac[i] * mask[i] for j in range(4)] for i in range(4)]))


@instance("P15", "general-grids", bounds="3 TOAs in any order, every frequency grid, random phases, selection and index together")
def generalgrids(E):
    import numpy as rnp

    t, kw, f = grids(E)
    nu = freqs(E)
    ph = E.choose("phase", 2)
    F, ff = gb(E).createfourierdesignmatrix_general(t, nu, {"group": rnp.array(["x", "y", "x"])}, flagval="x", idx=2, pshift=bool(ph), **kw)
    u = E.draws("u") if ph else None
    E.eq("frequencies", ff, rep(E, f))
    B = sc_cos(E, t, f, [2 * E.np.pi * x for x in u] if u else None)
    E.eq("matrix", F, E.array([[B[i, j] * (1400 / nu[i]) ** 2 * (0 if i == 1 else 1) for j in range(B.shape[1])] for i in range(3)]))


@instance("P15", "seeded", bounds="2 TOAs, 2 modes: repeated evaluation with one seed, another seed, another first TOA; any random streams")
def seeded(E):
    np = E.np
    T = E.pos("T")
    t = E.array([3400, 5000])
    call = lambda t, s, f="red": gb(E).createfourierdesignmatrix_red(t, nmodes=2, Tspan=T, pseed=s)[0] if f == "red" else gb(E).createfourierdesignmatrix_general(t, freqs(E, 2), {}, nmodes=2, Tspan=T, pseed=s)[0]
    A = call(t, 3)
    n = len(E.draws("u"))
    B = call(t, 4)
    other = E.draws("u")[n:]
    n = len(E.draws("u"))
    C = call(E.array([6800, 8400]), 3)
    third = E.draws("u")[n:]
    E.eq("same seed, same basis", call(t, 3), A)
    E.eq("same seed, general basis", call(t, 3, "general"), A)
    f = [1 / T, 2 / T]
    E.eq("another seed, its own phases", B, sc_cos(E, t, f, [2 * np.pi * x for x in other]))
    E.eq("another pulsar, its own phases", C, sc_cos(E, E.array([6800, 8400]), f, [2 * np.pi * x for x in third]))
    # the streams differ
    E.true("seed used", not any(bool(x == y) for x, y in zip(other, E.draws("u")[:2])) if not E.symbolic else [str(x) for x in other] != [str(x) for x in E.draws("u")[:2]])
    E.true("first TOA used", not any(bool(x == y) for x, y in zip(third, E.draws("u")[:2])) if not E.symbolic else [str(x) for x in third] != [str(x) for x in E.draws("u")[:2]])


@instance("P15", "processes", bounds="2 pulsars of 2 TOAs, Fourier processes (per pulsar and common) with every option of the basis: number of modes, span, logarithmic or given limits, explicit modes, random and seeded phases; span of a common process taken from all pulsars")
def processes(E):
    np = E.np
    gp, pr, S, pm = E.mod("signals.gp_signals"), E.mod("signals.gp_priors"), c.sb(E), c.par(E)
    common, k = bool(E.choose("common", 2)), E.choose("options", 8)
    T = E.pos("T")
    kw = [dict(components=1, Tspan=T), dict(components=2, Tspan=T, logf=True), dict(components=3, Tspan=T, fmin=E.const(2)), dict(components=2, Tspan=T, fmax=E.const(3)), dict(components=2, Tspan=T, fmin=E.const(1), fmax=E.const(4), logf=True),
          dict(modes=E.array([3, 1, 2]), Tspan=T), dict(components=2, Tspan=T, pshift=True, pseed=7), dict(components=2)][k]
    a, b = E.real("first", s=(-4, 0)), E.real("last", s=(5, 9))
    E.assume_lt(a, 0)
    E.assume_lt(5, b)
    ps = [c.pulsar(E, "A", 2, toas=E.array([3400, 5000]) if k == 6 else E.array([a, 4]), pos=E.array([1, 0, 0])), c.pulsar(E, "B", 2, toas=E.array([3500, 5000]) if k == 6 else E.array([0, b]), pos=E.array([0, 1, 0]))]
    spec = c.fn(E, lambda f, amp: amp * f)(amp=c.U(E))
    cls = gp.FourierBasisCommonGP(spec, E.mod("signals.utils").hd_orf(), name="fb", **kw) if common else gp.FourierBasisGP(spec, name="fb", **kw)
    sigs = [cls(p) for p in ps]
    opt = {{"components": "nmodes"}.get(n, n): x for n, x in kw.items()}
    for p, s in zip(ps, sigs):
        if k == 7:
            opt["Tspan"] = b - a if common else p.toas[1] - p.toas[0]
        F, f = gb(E).createfourierdesignmatrix_red(p.toas, **opt)
        got = s.get_basis({})
        E.eq("basis " + p.name, got, F)
        amp = E.pos("amp")
        E.eq("prior " + p.name, s.get_phi({"fb_amp" if common else p.name + "_fb_amp": amp}), amp * f)
