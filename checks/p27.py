"""P27: binary-evolution and waveform functions follow the published formulas."""
from vlib.harness import instance
from . import common as c

ASSUMPTIONS = [
    "masses, distances, frequencies positive, eccentricity in (0, 1), mass ratio positive; times, angles and angle rates arbitrary",
    "Bessel functions are uninterpreted functions of order and argument; the ODE integrator is replaced by a recorder of the equations it is given",
]


def ut(E):
    return E.mod("signals.utils")


def Tsun(E):
    return E.const(E.mod("constants").Tsun)


def Mpc(E):
    k = E.mod("constants")
    return E.const(k.Mpc / k.c)


def inp(E):
    return E.pos("F", s=(0.2, 0.8)), E.pos("mc", s=(0.5, 2)), E.pos("q", s=(0.3, 1)), E.real("e", 0, 1, s=(0.1, 0.8))


def pw(x, a, b):
    """x ** (a / b), exact in symbolic mode"""
    from fractions import Fraction

    return x ** (a / b) if isinstance(x, float) else x ** Fraction(a, b)


def fr(E, a, b):
    return E.const(a) / b


def Fdot(E, F, mc, e):
    pi = E.np.pi
    M = mc * Tsun(E)
    return fr(E, 48, 5) / (pi * M ** 2) * pw(2 * pi * M * F, 11, 3) * (1 + fr(E, 73, 24) * e ** 2 + fr(E, 37, 96) * e ** 4) / pw(1 - e ** 2, 7, 2)


def edot(E, F, mc, e):
    pi = E.np.pi
    M = mc * Tsun(E)
    return -fr(E, 304, 15) / M * pw(2 * pi * M * F, 8, 3) * e * (1 + fr(E, 121, 304) * e ** 2) / pw(1 - e ** 2, 5, 2)


def gammadot(E, F, mc, q, e):
    pi = E.np.pi
    m = pw((1 + q) ** 2 / q, 3, 5) * mc * Tsun(E)
    x = pw(2 * pi * F * m, 2, 3) / (1 - e ** 2)
    return 6 * pi * F * x * (1 + x * (26 - 15 * e ** 2) / 4)


@instance("P27", "constants", bounds="the unit constants used (one value each)")
def consts(E):
    k = E.mod("constants")
    for name, v, tol in (("Tsun", 4.925490947e-6, 1e-7), ("Mpc", 3.0856775814913673e22, 1e-9), ("c", 299792458.0, 1e-12), ("yr", 31557600.0, 1e-12), ("day", 86400.0, 1e-12), ("fyr", 1 / 31557600.0, 1e-12), ("AU", 149597870700.0, 1e-9)):
        if hasattr(k, name):
            x = E.const(float(getattr(k, name)))
            E.lt(name, E.array([v * (1 - tol), x]), E.array([x, v * (1 + tol)]))
        else:
            E.true(name, False)


@instance("P27", "derivatives", bounds="any masses, frequency, eccentricity and mass ratio")
def derivatives(E):
    u = ut(E)
    F, mc, q, e = inp(E)
    E.eq("Fdot", u.get_Fdot(F, mc, e), Fdot(E, F, mc, e))
    E.eq("edot", u.get_edot(F, mc, e), edot(E, F, mc, e))
    E.eq("gammadot", u.get_gammadot(F, mc, q, e), gammadot(E, F, mc, q, e))
    E.eq("circular edot", u.get_edot(F, mc, E.const(0)), 0)


@instance("P27", "derivatives-arrays", bounds="2-entry arrays of frequencies, masses, ratios and eccentricities; inputs unchanged")
def derivarrays(E):
    u = ut(E)
    F = E.array([E.pos("F%d" % k, s=(0.2, 0.8)) for k in range(2)])
    M = E.array([E.pos("mc%d" % k, s=(0.5, 2)) for k in range(2)])
    Q = E.array([E.pos("q%d" % k, s=(0.3, 1)) for k in range(2)])
    e = E.array([E.real("e%d" % k, 0, 1, s=(0.1, 0.8)) for k in range(2)])
    old = [E.snapshot(x) for x in (F, M, Q, e)]
    for nm, f, a, o in (("Fdot", u.get_Fdot, (F, M, e), Fdot), ("edot", u.get_edot, (F, M, e), edot), ("gammadot", u.get_gammadot, (F, M, Q, e), gammadot)):
        r = f(*a)
        E.eq(nm, r, E.array([o(E, *[x[k] for x in a]) for k in range(2)]))
        E.eq(nm + " again", f(*a), r)
    for nm, x, y in zip("F mc q e".split(), (F, M, Q, e), old):
        E.eq(nm + " unchanged", x, y)


@instance("P27", "coupled", bounds="any state, time, masses")
def coupled(E):
    u = ut(E)
    F, mc, q, e = inp(E)
    y = E.array([F, e, E.real("gamma"), E.real("phase")])
    yy = E.snapshot(y)
    w = 2 * E.np.pi * F
    E.eq("eccentric", u.get_coupled_ecc_eqns(y, E.real("t"), mc, q), E.array([Fdot(E, F, mc, e), edot(E, F, mc, e), gammadot(E, F, mc, q, e), w]))
    E.eq("constant eccentricity", u.get_coupled_constecc_eqns(E.array([F, E.real("phase")]), E.real("t"), mc, e), E.array([Fdot(E, F, mc, e), w]))
    E.eq("state unchanged", y, yy)


@instance("P27", "solve", bounds="any initial state and times; integrator success and failure")
def solve(E):
    u = ut(E)
    F, mc, q, e = inp(E)
    g, ph = E.real("gamma"), E.real("phase")
    t = E.vec("t", 3)
    ok = E.choose("message", 2) == 0
    seen = []
    sol = [[7, 8]]

    def fake(fun, y0, ts, args=(), full_output=0, **kw):
        seen.append((fun, y0, ts, args))
        return (sol, {"message": "Integration successful." if ok else "Excess work done on this call."}) if full_output else sol

    E.patch(u, "odeint", fake)
    r = u.solve_coupled_ecc_solution(F, e, g, ph, mc, q, t)
    s = u.solve_coupled_constecc_solution(F, e, ph, mc, t)
    E.true("solution", (r is sol and s is sol) if ok else (r == 0 and s == 0))
    E.true("integrated once each", len(seen) == 2)
    fun, y0, ts, a = seen[0]
    E.eq("initial state", y0, E.array([F, e, g, ph]))
    E.eq("times", ts, t)
    G = E.pos("G", s=(0.2, 0.8))
    h = E.real("h", 0, 1, s=(0.1, 0.8))
    E.eq("equations", fun(E.array([G, h, g, ph]), t[0], *a), E.array([Fdot(E, G, mc, h), edot(E, G, mc, h), gammadot(E, G, mc, q, h), 2 * E.np.pi * G]))
    fun, y0, ts, a = seen[1]
    E.eq("initial state, constant eccentricity", y0, E.array([F, ph]))
    E.eq("times, constant eccentricity", ts, t)
    E.eq("equations, constant eccentricity", fun(E.array([G, ph]), t[0], *a), E.array([Fdot(E, G, mc, e), 2 * E.np.pi * G]))


def J(E, n, x):
    return E.sci("scipy.special").jn(n, E.array([x]))[0]


def amps(E, n, mc, dl, h0, F, e):
    """a_n, b_n, c_n for one harmonic"""
    w = 2 * E.np.pi * F
    if h0 is None:
        amp = n * pw(mc * Tsun(E), 5, 3) * pw(w, 2, 3) / (dl * Mpc(E))
    else:
        amp = n * h0 / 2
    j = {k: J(E, n + k, n * e) for k in (-2, -1, 0, 1, 2)}
    a = -amp * (j[-2] - 2 * e * j[-1] + fr(E, 2, n) * j[0] + 2 * e * j[1] - j[2])
    b = -amp * pw(1 - e ** 2, 1, 2) * (j[-2] - 2 * j[0] + j[2])
    cc = 2 * amp / n * j[0] / (n * w)
    return a, b, cc


def strain(E):
    return E.pos("h0") if E.choose("strain given", 2) else None


@instance("P27", "harmonics", bounds="harmonics 1-4, singly and as an array; distance or strain amplitude; scalar masses and distances, and arrays of them left unchanged")
def harmonics(E):
    import numpy as rnp

    u = ut(E)
    F, mc, q, e = inp(E)
    dl, h0 = E.pos("dl"), strain(E)
    A, B, C = zip(*[amps(E, n, mc, dl, h0, F, e) for n in (1, 2, 3, 4)])
    n = rnp.arange(1, 5)
    if E.choose("array", 2):
        M, Dl = E.array([mc] * 4), E.array([dl] * 4)
        ma, da = E.snapshot(M), E.snapshot(Dl)
        for nm, f, w in (("a", u.get_an, A), ("b", u.get_bn, B), ("c", u.get_cn, C)):
            E.eq(nm, f(n, M, Dl, h0, F, e), E.array(list(w)))
        E.eq("masses unchanged", M, ma)
        E.eq("distances unchanged", Dl, da)
    else:
        for nm, f, w in (("a", u.get_an, A), ("b", u.get_bn, B), ("c", u.get_cn, C)):
            E.eq(nm, f(n, mc, dl, h0, F, e), E.array(list(w)))
            E.eq(nm + "3", f(3, mc, dl, h0, F, e), w[2])


def wave(E, nmax, nt, tier="quick"):
    @instance("P27", "waveform-%d-%d" % (nmax - 1, nt), tier=tier, bounds="%d harmonics, %d times, any parameters; distance or strain amplitude" % (nmax - 1, nt), expand_trig=True)
    def h(E):
        np = E.np
        u = ut(E)
        F, mc, q, e = inp(E)
        dl, h0 = E.pos("dl"), strain(E)
        t = E.vec("t", nt)
        l0, g, gd, i = E.real("l0"), E.real("gamma"), E.real("gammadot", s=(-0.1, 0.1)), E.real("inc")
        w = 2 * np.pi * F
        for n in range(1, nmax):
            E.assume_ne(n * w, 2 * gd)
            E.assume_ne(n * w, -2 * gd)
        old = E.snapshot(t)
        sp, sx = u.calculate_splus_scross(nmax, mc, dl, h0, F, e, t, l0, g, gd, i)
        ci = np.cos(E.array([i]))[0]
        P, X = [], []
        for k in range(nt):
            gt, lt = g + gd * t[k], l0 + w * t[k]
            s = x = 0
            for n in range(1, nmax):
                a, b, cc = amps(E, n, mc, dl, h0, F, e)
                sn = lambda y: np.sin(E.array([y]))[0]
                cs = lambda y: np.cos(E.array([y]))[0]
                m, p = n * w - 2 * gd, n * w + 2 * gd
                Sm, Sp, Cm, Cp = sn(n * lt - 2 * gt) / m, sn(n * lt + 2 * gt) / p, cs(n * lt - 2 * gt) / m, cs(n * lt + 2 * gt) / p
                s = s - (1 + ci ** 2) / 2 * (a * (Sm + Sp) - b * (Sm - Sp)) + (1 - ci ** 2) * cc * sn(n * lt)
                x = x + ci * (a * (Cm - Cp) - b * (Cm + Cp))
            P.append(s)
            X.append(x)
        E.eq("plus", sp, E.array(P))
        E.eq("cross", sx, E.array(X))
        E.eq("times unchanged", t, old)
    return h


wave(None, 2, 1)
wave(None, 3, 2)
wave(None, 4, 2, "thorough")
