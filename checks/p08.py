"""P08: parameter vectors, names, priors and cube transforms stay aligned."""
from vlib.harness import instance
from . import common as c

ASSUMPTIONS = ["parameter values inside the support for the log-prior sums (outside is checked separately)", "the normal quantile is uninterpreted"]


def build(E):
    """two pulsars: scalar, vector, shared, constant, hierarchical parameters"""
    P, ws, ds, gp = c.par(E), E.mod("signals.white_signals"), E.mod("signals.deterministic_signals"), E.mod("signals.gp_signals")
    shared = P.Uniform(-3, 3, size=2)("shared")
    hyper = P.Uniform(-9, 9)("a_hyper")
    wf = c.fn(E, lambda toas, v, w, k, s: toas * v[0])
    d = wf(v=P.Normal(0, 2, size=3), w=P.Normal(mu=hyper, sigma=P.Uniform(1, 5)("Z_width")), k=P.Constant(2), s=shared)
    m = ws.MeasurementNoise(efac=P.Uniform(-4, 6)) + ws.TNEquadNoise(log10_tnequad=P.Constant(-7)) + ds.Deterministic(d, name="det")
    m2 = ws.MeasurementNoise(efac=P.LinearExp(-1, 3)) + ds.Deterministic(c.fn(E, lambda toas, s, x10, x2: toas)(s=shared, x10=P.Uniform(0, 1), x2=P.Uniform(0, 1)), name="det")
    pta = c.sb(E).PTA([m2(c.pulsar(E, "B", 2)), m(c.pulsar(E, "A", 2))])
    # (name, size), sorted by name
    want = [("A_det_v", 3), ("A_det_w", None), ("A_efac", None), ("B_det_x10", None), ("B_det_x2", None), ("B_efac", None), ("Z_width", None), ("a_hyper", None), ("shared", 2)]
    return pta, want


def names_of(want):
    return [n if s is None else "%s_%d" % (n, i) for n, s in want for i in range(s or 1)]


@instance("P08", "names-and-mapping", bounds="2 pulsars, 9 parameters (scalar, sizes 2 and 3, shared, constant, hierarchical), any vector")
def mapping(E):
    np = E.np
    pta, want = build(E)
    E.true("params", [p.name for p in pta.params] == [n for n, s in want])
    E.true("names", pta.param_names == names_of(want))
    xs = E.vec("x", len(names_of(want)))
    keep = E.snapshot(xs)
    m = pta.map_params(xs)
    E.true("mapped names", sorted(m) == sorted(n for n, s in want))
    k = 0
    for n, s in want:
        E.eq("mapped " + n, m[n], xs[k] if s is None else xs[k : k + s])
        k += s or 1
    E.eq("vector unchanged", xs, keep)
    for sc, w in zip(pta.pulsarmodels, (["B_det_x10", "B_det_x2", "B_efac", "shared_0", "shared_1"], ["A_det_v_0", "A_det_v_1", "A_det_v_2", "A_det_w", "A_efac", "shared_0", "shared_1"])):
        E.true("pulsar names", sc.param_names == w)
    for s in pta.pulsarmodels[1].signals:
        for nm in s.param_names:
            E.true("signal name " + nm, nm in names_of(want))
    two = pta + c.sb(E).PTA([pta.pulsarmodels[0]])
    E.true("repeated pulsar", [p.name for p in two.params] == [n for n, s in want])


@instance("P08", "prior", bounds="the same array, any vector inside the supports, as vector and dictionary")
def prior(E):
    np = E.np
    pta, want = build(E)
    nm = names_of(want)
    rng = {"A_efac": (-4, 6), "B_det_x10": (0, 1), "B_det_x2": (0, 1), "B_efac": (-1, 3), "a_hyper": (-9, 9), "Z_width": (1, 5), "shared_0": (-3, 3), "shared_1": (-3, 3)}
    val = {n: E.real(n, *rng[n]) if n in rng else E.real(n) for n in nm}
    for n, (a, b) in rng.items():
        E.assume_le(a, val[n], b)
    xs = E.array([val[n] for n in nm])
    log = lambda x: np.log(E.array([x]))[0]
    nl = lambda x, m, s: -0.5 * ((x - m) / s) ** 2 - log(s) - 0.5 * log(2 * np.pi)
    ll = nl(val["A_det_w"], val["a_hyper"], val["Z_width"]) + sum(nl(val["A_det_v_%d" % i], 0, 2) for i in range(3))
    ll = ll - log(10) - log(18) - log(4) - 2 * log(6)
    ll = ll + log(log(10)) + val["B_efac"] * log(10) - log(1000 - E.array([0.1])[0])
    E.eq("vector", pta.get_lnprior(xs), ll)
    E.eq("dictionary", pta.get_lnprior(pta.map_params(xs)), ll)
    E.eq("sum of parameters", sum(p.get_logpdf(params=pta.map_params(xs)) for p in pta.params), ll)


@instance("P08", "prior-outside", bounds="one parameter outside its support")
def outside(E):
    pta, want = build(E)
    nm = names_of(want)
    out = E.pos("out") + 1
    for bad in ("B_det_x10", "B_det_x2", "shared_1"):
        val = {n: 0.5 for n in nm}
        val["Z_width"] = 2
        val[bad] = out + 3
        r = pta.get_lnprior(E.array([val[n] for n in nm]))
        E.true("excluded " + bad, not E.symbolic and r == -E.np.inf or E.symbolic and r == float("-inf"))


@instance("P08", "cube", bounds="the same array, any unit-cube vector, as vector and dictionary")
def cube(E):
    np = E.np
    pta, want = build(E)
    nm = names_of(want)
    u = E.array([E.real("u_" + n, 0, 1, s=(0.05, 0.95)) for n in nm])
    U = dict(zip(nm, u))
    nd = lambda n: E.sci("scipy.special").ndtri(E.array([U[n]]))[0]
    x = {"A_efac": -4 + 10 * U["A_efac"], "B_det_x10": U["B_det_x10"], "B_det_x2": U["B_det_x2"], "a_hyper": -9 + 18 * U["a_hyper"], "Z_width": 1 + 4 * U["Z_width"]}
    for k in ("shared_0", "shared_1"):
        x[k] = -3 + 6 * U[k]
    for k in range(3):
        x["A_det_v_%d" % k] = 2 * nd("A_det_v_%d" % k)
    x["A_det_w"] = x["a_hyper"] + x["Z_width"] * nd("A_det_w")
    ten = E.array([0.1])[0]
    for tag, arg in (("vector", u), ("dictionary", pta.map_params(u))):
        t = pta.get_hypercube_transform(arg)
        E.true(tag + " length", np.shape(t) == (len(nm),))
        for i, n in enumerate(nm):
            if n == "B_efac":
                E.eq("%s %s" % (tag, n), 10 ** t[i], ten + (1000 - ten) * U[n])
            else:
                E.eq("%s %s" % (tag, n), t[i], x[n])


@instance("P08", "cube-deep", bounds="hierarchy of depth 2 with a shared hyperparameter, any unit-cube vector")
def cubedeep(E):
    P, ws = c.par(E), E.mod("signals.white_signals")
    top = P.Uniform(1, 4)("top")
    mid = P.Uniform(pmin=top, pmax=9)("a_mid")
    m = ws.MeasurementNoise(efac=P.Uniform(pmin=mid, pmax=10)) + ws.TNEquadNoise(log10_tnequad=P.Uniform(pmin=0, pmax=top))
    pta = c.sb(E).PTA([m(c.pulsar(E, "B", 2))])
    E.true("names", pta.param_names == ["B_efac", "B_log10_tnequad", "a_mid", "top"])
    u = E.array([E.real("u%d" % i, 0, 1, s=(0.05, 0.95)) for i in range(4)])
    t = 1 + 3 * u[3]
    a = t + (9 - t) * u[2]
    E.eq("transform", pta.get_hypercube_transform(u), E.array([a + (10 - a) * u[0], t * u[1], a, t]))


@instance("P08", "same-name-instances", bounds="two instances of one parameter name in different signals and pulsars")
def samename(E):
    P, ws = c.par(E), E.mod("signals.white_signals")
    mk = lambda: ws.MeasurementNoise(efac=P.Uniform(1, 3)("e")) + ws.TNEquadNoise(log10_tnequad=P.Normal(mu=P.Uniform(1, 3)("e"), sigma=1))
    pta = c.sb(E).PTA([mk()(c.pulsar(E, n, 2)) for n in "AB"])
    E.true("names", pta.param_names == ["A_log10_tnequad", "B_log10_tnequad", "e"])
    x = E.vec("x", 3)
    E.assume_le(1, x[2], 3)
    m = pta.map_params(x)
    E.eq("shared", m["e"], x[2])
    np = E.np
    log = lambda v: np.log(E.array([v]))[0]
    E.eq("prior", pta.get_lnprior(x), -0.5 * (x[0] - x[2]) ** 2 - 0.5 * (x[1] - x[2]) ** 2 - log(2 * np.pi) - log(2))
