"""P10: hierarchical parameters are evaluated and sampled consistently."""
from vlib.harness import instance
from . import common as c

ASSUMPTIONS = [
    "numpy's generator is its contract (see P09)",
    "hyperparameter values are such that the distribution exists (ordered bounds, positive widths)",
]


def npdf(E, x, m, s):
    np = E.np
    return np.exp(-((x - m) ** 2) / (2 * s ** 2)) / (np.sqrt(2 * np.pi) * s)


@instance("P10", "evaluate", bounds="scalar and size-2 Normal/Uniform/LinearExp over hyperparameters (class, named instance, constant), any values")
def evaluate(E):
    np = E.np
    P = c.par(E)
    mu, sg, x, y = E.real("mu"), E.pos("sg"), E.real("x"), E.real("y")
    other = E.real("other")
    par = {"x_mu": mu, "sig": sg, "x": x, "y_mu": other, "zz": other, "q": E.array([x, y])}
    p = P.Normal(mu=P.Uniform(-10, 10), sigma=P.LinearExp(-1, 1)("sig"))("x")
    E.true("params", [z.name for z in p.params] == ["x", "x_mu", "sig"])
    E.eq("normal by value", p.get_pdf(x, params=par), npdf(E, x, mu, sg))
    E.eq("normal by name", p.get_pdf(params=par), npdf(E, x, mu, sg))
    E.eq("normal log", p.get_logpdf(params=par), np.log(E.array([npdf(E, x, mu, sg)]))[0])
    q = E.real("u", 0, 1, s=(0.1, 0.9))
    E.eq("normal quantile", p.get_ppf(q, params=par), mu + sg * E.sci("scipy.special").ndtri(E.array([q]))[0])
    E.eq("normal sample", p.sample(params=par), mu + sg * E.draws("z")[0])
    v = P.Normal(mu=P.Uniform(-10, 10)("x_mu"), sigma=P.Constant(2)("s2"), size=2)("q")
    E.true("constants are no parameters", [z.name for z in v.params] == ["q", "x_mu"])
    E.eq("vector", v.get_pdf(params=par), npdf(E, x, mu, 2) * npdf(E, y, mu, 2))
    E.eq("vector log", v.get_logpdf(params=par), np.log(E.array([npdf(E, x, mu, 2)]))[0] + np.log(E.array([npdf(E, y, mu, 2)]))[0])
    # bounds from hyperparameters
    w = E.pos("w")
    lo = E.real("lo")
    b = {"lo": lo, "b_pmax": lo + w, "b": x}
    u = P.Uniform(P.Uniform(-10, 10)("lo"), P.Normal())("b")
    E.true("params", sorted(z.name for z in u.params) == ["b", "b_pmax", "lo"])
    ins = bool(x >= lo) and bool(x <= lo + w)
    E.eq("uniform", u.get_pdf(params=b), 1 / w if ins else 0)
    E.eq("uniform quantile", u.get_ppf(q, params=b), lo + w * q)
    l = P.LinearExp(P.Uniform(-10, 10)("lo"), P.Normal())("b")
    ln10 = np.log(E.array([10]))[0]
    E.eq("linearexp", l.get_pdf(params=b), ln10 * 10 ** x / (10 ** (lo + w) - 10 ** lo) if ins else 0)
    E.eq("linearexp quantile", 10 ** l.get_ppf(q, params=b), 10 ** lo + (10 ** (lo + w) - 10 ** lo) * q)


@instance("P10", "evaluate-deep", bounds="hierarchy of depth 2, user-defined densities and functions as hyperparameters, any values")
def deep(E):
    np = E.np
    P = c.par(E)
    x, m, s, h = E.real("x"), E.real("m"), E.pos("s"), E.real("h")
    hyper = P.Normal(mu=P.Normal(0, 1)("h"), sigma=1)
    p = P.Normal(mu=hyper, sigma=P.Uniform(0, 10)("s"))("x")
    par = {"x": x, "x_mu": m, "h": h, "s": s, "x_sigma": E.pos("wrong")}
    E.true("params", sorted(z.name for z in p.params) == ["h", "s", "x", "x_mu"])
    E.eq("top", p.get_pdf(params=par), npdf(E, x, m, s))
    sub = [z for z in p.params if z.name == "x_mu"][0]
    E.eq("hyper", sub.get_pdf(params=par), npdf(E, m, h, 1))
    # a function of parameters as the mean
    f = c.fn(E, lambda toas, a, b: 2 * a + b)(a=P.Uniform(-10, 10)("m"), b=P.Uniform(-10, 10))
    f = P.Function(lambda a, b: 2 * a + b, a=P.Uniform(-10, 10)("m"), b=P.Uniform(-10, 10))
    g = P.Normal(mu=f, sigma=1)("x")
    par = {"x": x, "m": m, "x_mu_b": h}
    E.true("function params", sorted(z.name for z in g.params) == ["m", "x", "x_mu_b"])
    E.eq("function mean", g.get_pdf(params=par), npdf(E, x, 2 * m + h, 1))
    up = P.UserParameter(prior=P.Function(lambda value, k: k * value ** 2, k=P.Uniform(0, 1)("s")), ppf=P.Function(lambda value, k: k + value, k=P.Uniform(0, 1)("s")), sampler=lambda k, size=None: k + np.random.uniform(0, 1, size))("up")
    par = {"up": x, "s": s}
    E.true("user params", [z.name for z in up.params] == ["up", "s"])
    E.eq("user pdf", up.get_pdf(params=par), s * x ** 2)
    E.eq("user ppf", up.get_ppf(params=par), s + x)
    E.eq("user sample", up.sample(params=par), s + E.draws("u")[0])
    lp = P.UserParameter(logprior=P.Function(lambda value, k: -k * value ** 2, k=P.Uniform(0, 1)("s")), sampler=lambda k, size=None: k + np.random.uniform(0, 1, size))("lp")
    par = {"lp": x, "s": s}
    E.true("log-density user params", [z.name for z in lp.params] == ["lp", "s"])
    E.eq("log-density user logpdf", lp.get_logpdf(params=par), -s * x ** 2)
    E.eq("log-density user pdf", lp.get_pdf(params=par), np.exp(E.array([-s * x ** 2]))[0])
    E.eq("log-density user sample", lp.sample(params=par), s + E.draws("u")[1])
    E.true("no quantile", E.raises(NotImplementedError, lp.get_ppf, 0.5))
    nos = P.UserParameter(prior=P.Function(lambda value: value))("n")
    E.true("no sampler", E.raises(AttributeError, nos.sample))




@instance("P10", "sample-shared", bounds="two Normals sharing a mean hyperparameter, one listed first, plus an unrelated one; any draws")
def shared(E):
    P = c.par(E)
    h = P.Uniform(2, 4)("h")
    a, b, d = P.Normal(mu=h, sigma=3)("a"), P.Normal(mu=h, sigma=5)("b"), P.Uniform(0, 1)("d")
    for tag, lst in (("", [a, b, d]), ("hyper first ", [h, b, a]), ("hyper last ", [a, d, h]), ("hyper between ", [a, h, b])):
        nu, nz = len(E.draws("u")), len(E.draws("z"))
        s = P.sample(lst)
        want = sorted({x.name for x in lst} | {"h"})
        E.true(tag + "names", sorted(s) == want)
        u, z = E.draws("u")[nu:], E.draws("z")[nz:]
        E.true(tag + "one draw each", len(u) == sum(x in want for x in "hd") and len(z) == sum(x in want for x in "ab"))
        E.among(tag + "h", s["h"], [2 + 2 * v for v in u])
        for nm, sg in (("a", 3), ("b", 5)):
            if nm in want:
                E.among(tag + nm, s[nm], [s["h"] + sg * v for v in z])
        if "d" in want:
            E.among(tag + "d", s["d"], u)


@instance("P10", "sample-deep", bounds="depth-2 hierarchy with a shared top-level hyperparameter, vector parameter, hyperparameter bounds; any draws")
def sdeep(E):
    P = c.par(E)
    top = P.Uniform(1, 2)("top")
    mid = P.Normal(mu=top, sigma=1)("mid")
    a = P.Normal(mu=mid, sigma=2)("a")
    b = P.Normal(mu=top, sigma=3, size=2)("b")
    w = P.Uniform(pmin=top, pmax=P.Constant(7)("k"))("w")
    for tag, lst in (("", [a, b, w]), ("reversed ", [w, b, a]), ("all ", [a, mid, top, b, w])):
        nu, nz = len(E.draws("u")), len(E.draws("z"))
        s = P.sample(lst)
        u, z = E.draws("u")[nu:], E.draws("z")[nz:]
        E.true(tag + "names", sorted(s) == ["a", "b", "mid", "top", "w"])
        E.true(tag + "one draw each", len(u) == 2 and len(z) == 4)
        E.among(tag + "top", s["top"], [1 + v for v in u])
        E.among(tag + "mid", s["mid"], [s["top"] + v for v in z])
        E.among(tag + "a", s["a"], [s["mid"] + 2 * v for v in z])
        for i in range(2):
            E.among(tag + "b%d" % i, s["b"][i], [s["top"] + 3 * v for v in z])
        E.among(tag + "w", s["w"], [s["top"] + (7 - s["top"]) * v for v in u])


@instance("P10", "sample-one", bounds="a single hierarchical parameter, twice in a list, and repeated sampling; any draws")
def one(E):
    P = c.par(E)
    a = P.Normal(mu=P.Uniform(2, 4), sigma=P.Uniform(1, 2)("sig"))("a")
    for k, lst in enumerate((a, [a], [a, a])):
        nu, nz = len(E.draws("u")), len(E.draws("z"))
        s = P.sample(lst)
        u, z = E.draws("u")[nu:], E.draws("z")[nz:]
        E.true("names %d" % k, sorted(s) == ["a", "a_mu", "sig"])
        E.true("draws %d" % k, len(u) == 2 and len(z) == 1)
        E.among("mu %d" % k, s["a_mu"], [2 + 2 * v for v in u])
        E.among("sigma %d" % k, s["sig"], [1 + v for v in u])
        E.eq("a %d" % k, s["a"], s["a_mu"] + s["sig"] * z[0])


@instance("P10", "sample-model", bounds="parameters of an array of 2 pulsars with a shared hierarchical prior; any draws")
def model(E):
    P, ws = c.par(E), E.mod("signals.white_signals")
    h, s2 = P.Uniform(2, 4)("h"), P.Uniform(1, 2)("s2")
    m = ws.MeasurementNoise(efac=P.Normal(mu=h, sigma=s2)) + ws.TNEquadNoise(log10_tnequad=P.Uniform(h, 9))
    pta = c.sb(E).PTA([m(c.pulsar(E, n, 2)) for n in "AB"])
    s = P.sample(pta.params)
    E.true("names", sorted(s) == ["A_efac", "A_log10_tnequad", "B_efac", "B_log10_tnequad", "h", "s2"])
    u, z = E.draws("u"), E.draws("z")
    E.true("draws", len(u) == 4 and len(z) == 2)
    E.among("h", s["h"], [2 + 2 * v for v in u])
    E.among("s2", s["s2"], [1 + v for v in u])
    for n in "AB":
        E.among("efac " + n, s[n + "_efac"], [s["h"] + s["s2"] * v for v in z])
        E.among("equad " + n, s[n + "_log10_tnequad"], [s["h"] + (9 - s["h"]) * v for v in u])
    ll = sum(P_.get_logpdf(params=s) for P_ in pta.params)
    E.eq("prior at sample", pta.get_lnprior(s), ll)
