"""P16: spectral priors give the documented variance per basis column."""
from vlib.harness import instance
from . import common as c

ASSUMPTIONS = ["sampling frequencies are arbitrary positive reals, distinct and increasing for bin widths", "spectral parameters are arbitrary reals (smoothness parameters positive)"]


def gp(E):
    return E.mod("signals.gp_priors")


def setup(E, n=3, comp=2):
    g = [E.pos("f%d" % k, s=(0.4 + k, 1.2 + k)) for k in range(n)]
    E.assume_lt(*g)
    f = E.array([x for x in g for _ in range(comp)])
    df = [g[0]] + [g[k] - g[k - 1] for k in range(1, n)]
    return g, f, df


def yr(E):
    return 1 / E.const(365.25 * 86400)


def rep(E, v, comp=2):
    return E.array([x for x in v for _ in range(comp)])


def claim(E, got, want, f, g, comp, positive=True):
    E.eq("variance", got, want)
    if positive:
        E.lt("positive", E.array([0] * len(want)), got)
    E.eq("frequencies unchanged", f, rep(E, g, comp))


def plaw(E, g, df, A, gam):
    k = 12 * E.np.pi ** 2
    return [10 ** (2 * A) / k * yr(E) ** (gam - 3) * x ** (-gam) * d for x, d in zip(g, df)]


BO = "1-3 distinct frequencies, any values, any spectral parameters"


@instance("P16", "powerlaw", bounds=BO + "; 1, 2 or 6 columns per frequency")
def powerlaw(E):
    n = 1 + E.choose("n", 3)
    comp = (2, 1, 6)[E.choose("comp", 3)]
    g, f, df = setup(E, n, comp)
    A, gam = E.real("A"), E.real("gamma")
    kw = {} if comp == 2 else dict(components=comp)
    claim(E, gp(E).powerlaw(f, log10_A=A, gamma=gam, **kw), rep(E, plaw(E, g, df, A, gam), comp), f, g, comp)


@instance("P16", "defaults", bounds="3 distinct frequencies, any values, default parameters of every spectrum")
def defaults(E):
    g, f, df = setup(E)
    k = 12 * E.np.pi ** 2
    C = E.const
    E.eq("powerlaw", gp(E).powerlaw(f), rep(E, plaw(E, g, df, C(-16), 5)))
    E.eq("genmodes", gp(E).powerlaw_genmodes(f), rep(E, plaw(E, g, df, C(-16), 5)))
    w = C((365.25 * 86400.0) ** -1.33)
    S = rep(E, [10 ** C(-30) / k * w * x ** C(-4.33) * d for x, d in zip(g, df)])
    E.eq("t-process", gp(E).t_process(f), S)
    E.eq("adaptive t-process", gp(E).t_process_adapt(f), S)



@instance("P16", "turnover", bounds=BO)
def turnover(E):
    n = 1 + E.choose("n", 3)
    g, f, df = setup(E, n)
    A, gam, l, kap, b = (E.real(k) for k in ("A", "gamma", "lf0", "kappa", "beta"))
    S = [10 ** (2 * A) * (x / yr(E)) ** (3 - gam) / (1 + (10 ** l / x) ** kap) ** (2 * b) / (12 * E.np.pi ** 2) / x ** 3 * d for x, d in zip(g, df)]
    claim(E, gp(E).turnover(f, log10_A=A, gamma=gam, lf0=l, kappa=kap, beta=b), rep(E, S), f, g, 2)


@instance("P16", "turnover-reduces", bounds="3 frequencies; no turnover (beta 0) is the power law")
def turnover0(E):
    g, f, df = setup(E)
    A, gam, l, kap = (E.real(k) for k in ("A", "gamma", "lf0", "kappa"))
    E.eq("turnover", gp(E).turnover(f, log10_A=A, gamma=gam, lf0=l, kappa=kap, beta=0), gp(E).powerlaw(f, log10_A=A, gamma=gam))
    E.eq("broken power law", gp(E).broken_powerlaw(f, A, gam, gam, l, kappa=E.pos("smooth")), gp(E).powerlaw(f, log10_A=A, gamma=gam))
    E.eq("t-process", gp(E).t_process(f, log10_A=A, gamma=gam, alphas=E.array([1, 1, 1])), gp(E).powerlaw(f, log10_A=A, gamma=gam))
    E.eq("general modes", gp(E).powerlaw_genmodes(f, log10_A=A, gamma=gam), gp(E).powerlaw(f, log10_A=A, gamma=gam))


@instance("P16", "turnover-knee", bounds=BO)
def knee(E):
    n = 1 + E.choose("n", 3)
    g, f, df = setup(E, n)
    A, gam, lb, lk, kap, d = (E.real(k) for k in ("A", "gamma", "lfb", "lfk", "kappa", "delta"))
    S = [10 ** (2 * A) * (x / yr(E)) ** (3 - gam) * (1 + x / 10 ** lk) ** (2 * d) / (1 + (10 ** lb / x) ** kap) / (12 * E.np.pi ** 2) / x ** 3 * w for x, w in zip(g, df)]
    claim(E, gp(E).turnover_knee(f, A, gam, lb, lk, kap, d), rep(E, S), f, g, 2)


@instance("P16", "broken-powerlaw", bounds=BO + "; default and any positive smoothness")
def broken(E):
    n = 1 + E.choose("n", 3)
    g, f, df = setup(E, n)
    A, gam, d, lb = (E.real(k) for k in ("A", "gamma", "delta", "lfb"))
    kap, kw = E.const(0.1), {}
    if E.choose("kappa", 2):
        kap = E.pos("kap")
        kw = dict(kappa=kap)
    S = [10 ** (2 * A) * (x / yr(E)) ** (3 - gam) * (1 + (x / 10 ** lb) ** (1 / kap)) ** (kap * (gam - d)) / (12 * E.np.pi ** 2) / x ** 3 * w for x, w in zip(g, df)]
    claim(E, gp(E).broken_powerlaw(f, A, gam, d, lb, **kw), rep(E, S), f, g, 2)


@instance("P16", "free-spectrum", bounds="1-4 amplitudes, any values, as array or list")
def free(E):
    n = 1 + E.choose("n", 4)
    g, f, df = setup(E, n)
    r = [E.real("rho%d" % k) for k in range(n)]
    form = r if E.choose("list", 2) else E.array(r)
    claim(E, gp(E).free_spectrum(f, log10_rho=form), rep(E, [10 ** (2 * x) for x in r]), f, g, 2)


@instance("P16", "t-process", bounds=BO + "; any positive amplitudes per frequency")
def tproc(E):
    n = 1 + E.choose("n", 3)
    g, f, df = setup(E, n)
    A, gam = E.real("A"), E.real("gamma")
    al = [E.pos("alpha%d" % k) for k in range(n)]
    S = plaw(E, g, df, A, gam)
    claim(E, gp(E).t_process(f, log10_A=A, gamma=gam, alphas=E.array(al)), rep(E, [x * a for x, a in zip(S, al)]), f, g, 2)


@instance("P16", "t-process-adapt", bounds="3 frequencies; amplitudes for all frequencies, or one amplitude for the frequency nearest to any real index in range")
def tadapt(E):
    g, f, df = setup(E)
    A, gam = E.real("A"), E.real("gamma")
    S = plaw(E, g, df, A, gam)
    k = E.choose("form", 4)
    if k == 0:
        al = [E.pos("alpha%d" % i) for i in range(3)]
        got = gp(E).t_process_adapt(f, log10_A=A, gamma=gam, alphas_adapt=E.array(al))
    else:
        i = k - 1
        a = E.pos("alpha")
        q = E.real("q", s=(-0.4, 0.4))
        h = 0.5 if not E.symbolic else E.const(0.5)
        E.assume_lt(i - h, q + i, i + h)
        al = [1, 1, 1]
        al[i] = a
        got = gp(E).t_process_adapt(f, log10_A=A, gamma=gam, alphas_adapt=a, nfreq=q + i)
    claim(E, got, rep(E, [x * a for x, a in zip(S, al)]), f, g, 2)


@instance("P16", "genmodes", bounds=BO + "; 1-3 columns per frequency, any weights")
def genmodes(E):
    n = 1 + E.choose("n", 3)
    comp = (2, 1, 3)[E.choose("comp", 3)]
    g, f, df = setup(E, n, comp)
    A, gam = E.real("A"), E.real("gamma")
    kw = {} if comp == 2 else dict(components=comp)
    if E.choose("weights", 2):
        w = [E.pos("w%d" % k) for k in range(n)]
        kw["wgts"] = E.array(w)
        df = [x ** 2 for x in w]
    claim(E, gp(E).powerlaw_genmodes(f, log10_A=A, gamma=gam, **kw), rep(E, plaw(E, g, df, A, gam), comp), f, g, comp)


@instance("P16", "infinite", bounds="1-3 columns with any labels")
def infinite(E):
    n = 1 + E.choose("n", 3)
    x = E.vec("lab", n)
    E.eq("variance", gp(E).infinitepower(x), E.array([E.const(10) ** 40] * n))
    E.eq("labels unchanged", x, E.vec("lab", n))


@instance("P16", "as-prior", bounds="a red-noise process on one pulsar, 2 modes, any span, amplitude and slope; bin widths follow the basis frequencies")
def asprior(E):
    gs, pm = E.mod("signals.gp_signals"), c.par(E)
    p = c.pulsar(E, "A", 3)
    T = E.pos("T")
    s = gs.FourierBasisGP(gp(E).powerlaw(log10_A=pm.Uniform(-18, -12), gamma=pm.Uniform(0, 7)), components=2, Tspan=T, modes=None)(p)
    A, gam = E.real("A"), E.real("gamma")
    phi = s.get_phi({"A_red_noise_log10_A": A, "A_red_noise_gamma": gam})
    E.eq("variance", phi, rep(E, plaw(E, [1 / T, 2 / T], [1 / T, 1 / T], A, gam)))
