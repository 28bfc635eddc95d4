"""P09: density, quantile and sampler of each parameter type describe one distribution."""
from vlib.harness import instance
from . import common as c

ASSUMPTIONS = [
    "lower bound < upper bound, widths positive, covariance matrices positive definite (an unordered LinearExp is checked to be rejected)",
    "numpy's generator is its contract: uniform draws are lo + (hi-lo) u with u in [0,1], normal draws mu + sigma z, multivariate draws mu + L z with L the Cholesky factor, inverse-gamma draws scale * g",
    "erf, the normal quantile and scipy's inverse-gamma density are uninterpreted functions (erf odd)",
    "rejection sampling: paths with more than the stated number of draws are outside the bounds",
]


def bounds(E, n, tag=""):
    lo = [E.real("lo%s%d" % (tag, i), s=(-2, 0)) for i in range(n)]
    hi = [E.real("hi%s%d" % (tag, i), s=(0.1, 2)) for i in range(n)]
    for a, b in zip(lo, hi):
        E.assume_lt(a, b)
    return lo, hi


def forms(E, kind, n):
    """(value of the argument, per-element list) for scalar / vector arguments"""
    xs = [E.real("%s%d" % (kind, i)) for i in range(1 if n is None else n)]
    return xs


def check_pdf(E, p, v, dens, label, inside=None):
    """dens: per-element densities"""
    np = E.np
    tot = 1
    for d in dens:
        tot = tot * d
    E.eq(label + " pdf", p.get_pdf(v), tot)
    E.eq(label + " pdf by name", p.get_pdf(params={p.name: v}), tot)
    if inside is None or all(inside):
        ll = 0
        for d in dens:
            ll = ll + np.log(E.array([d]))[0]
        E.eq(label + " logpdf", p.get_logpdf(v), ll)
        E.eq(label + " logpdf by name", p.get_logpdf(params={p.name: v}), ll)


def args(E, xs, vector):
    return E.array(xs) if vector else xs[0]


def shapes(n, vec):
    return n, vec


def uniform(n, vec):
    @instance("P09", "uniform-%s%s" % (n, "-vector" if vec else ""), bounds="size %s, %s bounds, all values inside and outside" % (n, "vector" if vec else "scalar"))
    def h(E):
        np = E.np
        k = n or 1
        lo, hi = bounds(E, k if vec else 1)
        L, H = args(E, lo, vec), args(E, hi, vec)
        if not vec:
            lo, hi = lo * k, hi * k
        p = c.par(E).Uniform(L, H, size=n)("x")
        xs = [E.real("v%d" % i) for i in range(k)]
        v = args(E, xs, n is not None)
        ins = [bool(x >= a) and bool(x <= b) for x, a, b in zip(xs, lo, hi)]
        check_pdf(E, p, v, [1 / (b - a) if i else 0 for i, a, b in zip(ins, lo, hi)], "uniform", ins)
        q = [E.real("q%d" % i, 0, 1, s=(0.05, 0.95)) for i in range(k)]
        x = p.get_ppf(args(E, q, n is not None))
        E.eq("cdf(ppf)", [(y - a) / (b - a) for y, a, b in zip([x] if n is None else x, lo, hi)], q)
        s = p.sample()
        u = E.draws("u")
        E.true("size", np.shape(s) == (() if n is None else (n,)))
        E.true("draws", len(u) == k)
        E.eq("sample", [s] if n is None else s, [a + (b - a) * y for a, b, y in zip(lo, hi, u)])
        E.le("support", lo, s)
        E.le("support", s, hi)

    return h


uniform(None, False)
uniform(2, False)
uniform(2, True)


def linearexp(n, vec):
    @instance("P09", "linearexp-%s%s" % (n, "-vector" if vec else ""), bounds="size %s, %s bounds, all values inside and outside" % (n, "vector" if vec else "scalar"))
    def h(E):
        np = E.np
        k = n or 1
        lo, hi = bounds(E, k if vec else 1)
        L, H = args(E, lo, vec), args(E, hi, vec)
        if not vec:
            lo, hi = lo * k, hi * k
        p = c.par(E).LinearExp(L, H, size=n)("x")
        xs = [E.real("v%d" % i) for i in range(k)]
        v = args(E, xs, n is not None)
        ins = [bool(x >= a) and bool(x <= b) for x, a, b in zip(xs, lo, hi)]
        ln10 = np.log(E.array([10]))[0]
        check_pdf(E, p, v, [ln10 * 10 ** x / (10 ** b - 10 ** a) if i else 0 for i, x, a, b in zip(ins, xs, lo, hi)], "linearexp", ins)
        q = [E.real("q%d" % i, 0, 1, s=(0.05, 0.95)) for i in range(k)]
        x = p.get_ppf(args(E, q, n is not None))
        E.eq("cdf(ppf)", [(10 ** y - 10 ** a) / (10 ** b - 10 ** a) for y, a, b in zip([x] if n is None else x, lo, hi)], q)
        s = p.sample()
        u = E.draws("u")
        E.true("draws", len(u) == k)
        E.eq("sample", [10 ** y for y in ([s] if n is None else s)], [10 ** a + (10 ** b - 10 ** a) * y for a, b, y in zip(lo, hi, u)])
        if n is None:
            P = c.par(E)
            bad = P.LinearExp(hi[0], lo[0])("y")
            E.true("unordered bounds rejected", E.raises(ValueError, bad.get_pdf, xs[0]) and E.raises(ValueError, bad.sample))
            same = P.LinearExp(lo[0], lo[0])("y")
            E.true("empty range rejected", E.raises(ValueError, same.get_pdf, xs[0]) and E.raises(ValueError, same.sample))
        elif vec:
            P = c.par(E)
            bad = P.LinearExp(E.array([lo[0], hi[1]]), E.array([hi[0], lo[1]]), size=n)("y")
            E.true("unordered element rejected", E.raises(ValueError, bad.get_pdf, v) and E.raises(ValueError, bad.sample))

    return h


linearexp(None, False)
linearexp(2, False)
linearexp(2, True)


def normal(n, mvec, svec):
    @instance("P09", "normal-%s%s%s" % (n, "-mu" if mvec else "", "-sigma" if svec else ""), bounds="size %s, %s mean, %s width, all values" % (n, "vector" if mvec else "scalar", "vector" if svec else "scalar"))
    def h(E):
        np = E.np
        k = n or 1
        mu = [E.real("mu%d" % i) for i in range(k if mvec else 1)]
        sg = [E.pos("sg%d" % i) for i in range(k if svec else 1)]
        M, S = args(E, mu, mvec), args(E, sg, svec)
        mu, sg = (mu if mvec else mu * k), (sg if svec else sg * k)
        p = c.par(E).Normal(M, S, size=n)("x")
        xs = [E.real("v%d" % i) for i in range(k)]
        v = args(E, xs, n is not None)
        dens = [np.exp(-((x - m) ** 2) / (2 * s ** 2)) / (np.sqrt(2 * E.np.pi) * s) for x, m, s in zip(xs, mu, sg)]
        check_pdf(E, p, v, dens, "normal")
        q = [E.real("q%d" % i, 0, 1, s=(0.05, 0.95)) for i in range(k)]
        x = p.get_ppf(args(E, q, n is not None))
        z = E.sci("scipy.special").ndtri(E.array(q))
        E.eq("ppf", [x] if n is None else x, [m + s * y for m, s, y in zip(mu, sg, z)])
        s_ = p.sample()
        z = E.draws("z")
        E.true("size", np.shape(s_) == (() if n is None else (n,)))
        E.eq("sample", [s_] if n is None else s_, [m + s * y for m, s, y in zip(mu, sg, z)])

    return h


normal(None, False, False)
for mv in (False, True):
    for sv in (False, True):
        normal(2, mv, sv)


@instance("P09", "normal-covariance", bounds="size 2, scalar or vector mean, every positive definite 2x2 covariance")
def cov(E):
    np = E.np
    C = E.spd("C", 2)
    E.assume_pd(C)
    mu = E.vec("mu", 2)
    p = c.par(E).Normal(mu, C, size=2)("x")
    v = E.vec("v", 2)
    det = C[0, 0] * C[1, 1] - C[0, 1] ** 2
    Ci = E.array([[C[1, 1], -C[0, 1]], [-C[1, 0], C[0, 0]]]) / det

    def dens(d):
        return np.exp(-0.5 * np.dot(d, np.dot(Ci, d))) / (2 * np.pi * np.sqrt(det))

    E.eq("pdf", p.get_pdf(v), dens(v - mu))
    E.eq("logpdf", p.get_logpdf(v), -0.5 * np.dot(v - mu, np.dot(Ci, v - mu)) - np.log(2 * np.pi) - 0.5 * np.log(E.array([det]))[0])
    p2 = c.par(E).Normal(0, C, size=2)("y")
    E.eq("pdf zero mean", p2.get_pdf(v), dens(v))
    E.true("no quantile", E.raises(NotImplementedError, p.get_ppf, v))
    s = p.sample()
    z = E.array(E.draws("z"))
    L = np.linalg.cholesky(C)
    E.eq("sample", s, mu + np.dot(L, z))


def tn_density(E, x, m, s, a, b):
    np = E.np
    erf = E.sci("scipy.special").erf
    r2 = np.sqrt(E.array([2]))[0]
    # standard normal density over the probability of the interval
    cdf = lambda y: (1 + erf((y - m) / (s * r2))) / 2
    return np.exp(-((x - m) ** 2) / (2 * s ** 2)) / (np.sqrt(2 * np.pi) * s) / (cdf(b) - cdf(a))


def truncnormal(n, which, hyper=False):
    @instance("P09", "truncnormal-%s%s%s" % (n, "".join("-" + w for w in which), "-hyper" if hyper else ""), bounds="size %s, vector arguments: %s, all values inside and outside, up to %d draws" % (n, which, 2 if n is None else 3), maxpaths=400)
    def h(E):
        np = E.np
        k = n or 1
        val = {}
        val["mu"] = [E.real("mu%d" % i, s=(-0.5, 0.5)) for i in range(k)]
        val["sigma"] = [E.pos("sg%d" % i, s=(0.4, 1.2)) for i in range(k)]
        val["pmin"], val["pmax"] = bounds(E, k)
        full = {kk: (x if kk in which else x[:1] * k) for kk, x in val.items()}
        arg = {kk: args(E, x, kk in which) for kk, x in val.items()}
        # the interval has a positive probability
        erf = E.sci("scipy.special").erf
        P = c.par(E)
        r2 = np.sqrt(E.array([2]))[0]
        for m, s, a, b in zip(*(full[x] for x in ("mu", "sigma", "pmin", "pmax"))):
            E.assume_lt(erf((a - m) / (s * r2)), erf((b - m) / (s * r2)))
        if hyper:
            p = P.TruncNormal(P.Uniform(-10, 10)("m"), P.Uniform(0, 10)("s"), arg["pmin"], arg["pmax"], size=n)("x")
            par = {"params": {"m": arg["mu"], "s": arg["sigma"]}}
        else:
            p = P.TruncNormal(arg["mu"], arg["sigma"], arg["pmin"], arg["pmax"], size=n)("x")
            par = {}
        xs = [E.real("v%d" % i) for i in range(k)]
        for x, a, b in zip(xs, full["pmin"], full["pmax"]):
            E.assume_ne(x, a)
            E.assume_ne(x, b)
        v = args(E, xs, n is not None)
        ins = [bool(x > a) and bool(x < b) for x, a, b in zip(xs, full["pmin"], full["pmax"])]
        tot = 1
        for i, x, m, s, a, b in zip(ins, xs, *(full[y] for y in ("mu", "sigma", "pmin", "pmax"))):
            tot = tot * (tn_density(E, x, m, s, a, b) if i else 0)
        E.eq("pdf", p.get_pdf(v, **par), tot)
        if all(ins):
            E.eq("logpdf", p.get_logpdf(v, **par), np.log(E.array([tot]))[0])
        E.true("no quantile", E.raises(NotImplementedError, p.get_ppf, v))

    @instance("P09", "truncnormal-sampler-%s%s%s" % (n, "".join("-" + w for w in which), "-hyper" if hyper else ""), bounds="size %s, vector arguments: %s, up to %d draws" % (n, which, 3 if n is None else 4), maxpaths=600)
    def g(E):
        np = E.np
        k = n or 1
        E.max_draws(3 if n is None else 4)
        val = {}
        val["mu"] = [E.real("mu%d" % i, s=(-0.5, 0.5)) for i in range(k)]
        val["sigma"] = [E.pos("sg%d" % i, s=(0.4, 1.2)) for i in range(k)]
        val["pmin"], val["pmax"] = bounds(E, k)
        full = {kk: (x if kk in which else x[:1] * k) for kk, x in val.items()}
        arg = {kk: args(E, x, kk in which) for kk, x in val.items()}
        P = c.par(E)
        if hyper:
            p = P.TruncNormal(P.Uniform(-10, 10)("m"), P.Uniform(0, 10)("s"), arg["pmin"], arg["pmax"], size=n)("x")
            s_ = p.sample(params={"m": arg["mu"], "s": arg["sigma"]})
        elif n is None:
            s_ = P.TruncNormal(arg["mu"], arg["sigma"], arg["pmin"], arg["pmax"])("x").sample()
        else:
            s_ = P.TruncNormalSampler(arg["mu"], arg["sigma"], arg["pmin"], arg["pmax"], size=n)
        E.true("size", np.shape(s_) == (() if n is None else (n,)))
        for i, x in enumerate([s_] if n is None else s_):
            m, s, a, b = (full[y][i] for y in ("mu", "sigma", "pmin", "pmax"))
            E.le("support", a, x)
            E.le("support", x, b)
            E.among("scaled draw", x, [m + s * z for z in E.draws("z")])

    return h


truncnormal(None, ())
truncnormal(None, (), hyper=True)
truncnormal(2, ())
truncnormal(2, ("mu", "sigma", "pmin", "pmax"))
truncnormal(2, ("mu",))
truncnormal(2, ("sigma",))
truncnormal(2, ("pmin", "pmax"))


@instance("P09", "invgamma", bounds="scalar and size 2, all positive shapes and scales")
def invgamma(E):
    gp = E.mod("signals.gp_priors")
    a, g = E.pos("alpha"), E.pos("gamma")
    dist = E.sci("scipy.stats").invgamma
    x, y = E.pos("x"), E.pos("y")
    f = lambda v, a, g: dist.pdf(v, a, scale=g)
    p = gp.InvGamma(a, g)("p")
    E.eq("pdf", p.get_pdf(x), f(x, a, g))
    E.eq("default", gp.InvGamma()("p").get_pdf(x), f(x, 1, 1))
    p2 = gp.InvGamma(a, g, size=2)("p")
    E.eq("pdf vector", p2.get_pdf(E.array([x, y])), f(x, a, g) * f(y, a, g))
    s, s2 = p.sample(), p2.sample()
    d = E.draws("g")
    E.eq("sample", s, g * d[0])
    E.eq("sample vector", s2, E.array([g * d[1], g * d[2]]))


@instance("P09", "user-parameter", bounds="user density, log-density, quantile and sampler with one argument; scalar and size 2")
def user(E):
    np = E.np
    P = c.par(E)
    k = E.pos("k")
    F = P.Function
    pr = lambda value, k: k * value
    lp = lambda value, k: -k * value
    qf = lambda value, k: value / k
    p = P.UserParameter(prior=F(pr, k=k), ppf=F(qf, k=k), sampler=lambda k, size=None: k * np.random.uniform(1, 2, size))("x")
    x, y = E.pos("x"), E.pos("y")
    E.eq("pdf", p.get_pdf(x), k * x)
    E.eq("logpdf", p.get_logpdf(x), np.log(E.array([k * x]))[0])
    E.eq("ppf", p.get_ppf(x), x / k)
    E.eq("sample", p.sample(), k * (1 + E.draws("u")[0]))
    p = P.UserParameter(logprior=F(lp, k=k), size=2)("x")
    E.eq("from log", p.get_pdf(E.array([x, y])), np.exp(-k * (x + y)))
    E.eq("log", p.get_logpdf(E.array([x, y])), -k * (x + y))
    E.true("no sampler", E.raises(AttributeError, p.sample))
    E.true("no quantile", E.raises(NotImplementedError, p.get_ppf, E.array([x, y])))
