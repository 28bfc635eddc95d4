"""P30: signals and pulsar models compose in any order and grouping; fixed parameters are set by name."""
import itertools

import numpy as rnp

from vlib.harness import instance
from . import common as c

ASSUMPTIONS = ["signals of a model have distinct names; the kernel noise methods of one model are compatible"]


def mods(E):
    return E.mod("signals.gp_signals"), E.mod("signals.white_signals"), E.mod("signals.selections"), c.par(E), E.mod("signals.deterministic_signals")


PERMS = list(itertools.permutations(range(4)))


def compose(E, cl, g):
    """the classes added up with grouping number g"""
    a, b, d, e = cl
    return [lambda: a + b + d + e, lambda: a + (b + (d + e)), lambda: (a + b) + (d + e), lambda: a + ((b + d) + e), lambda: (a + (b + d)) + e][g]()


def lab(E):
    return rnp.array(["x", "y", "x"])


def four(E, mix, F):
    gp, ws, se, pm, ds = mods(E)
    by = se.Selection(se.by_backend)
    b = lambda G, k: c.fn(E, lambda toas: (G.copy(), E.array(k)))()
    ef = ws.MeasurementNoise(efac=c.U(E), selection=by)
    if mix == 0:  # shared basis columns, delays, grouped noise
        return [ef, gp.BasisGP(c.diag_prior_class(E, 1), b(F[:, :1], [1]), name="g1"), gp.BasisGP(c.diag_prior_class(E, 2), b(F, [1, 2]), name="g2"), c.delay_signal(E, 3)]
    if mix in (1, 2, 3):  # kernel noise of each kind
        return [ef, ws.EcorrKernelNoise(log10_ecorr=pm.Uniform(-1, 1), method=["sherman-morrison", "sparse", "block"][mix - 1]), gp.BasisGP(c.diag_prior_class(E, 1), b(F[:, :1], [1]), name="g1"), ws.TNEquadNoise(log10_tnequad=pm.Uniform(-1, 1))]
    if mix == 4:  # explicit coefficients and a timing model
        return [ws.MeasurementNoise(efac=pm.Constant(1.0)), gp.BasisGP(c.diag_prior_class(E, 1), b(F[:, :1], [1]), coefficients=True, name="g1"), gp.TimingModel(), c.delay_signal(E, 3)]
    if mix == 5:  # marginalized timing model among the others
        return [ws.MeasurementNoise(efac=pm.Constant(1.0)), gp.BasisGP(c.diag_prior_class(E, 1), b(F[:, :1], [1]), name="g1"), gp.MarginalizingTimingModel(), ws.EcorrKernelNoise(log10_ecorr=pm.Uniform(-1, 1), method="sherman-morrison")]


def pulsar(E, name="A", **kw):
    return c.pulsar(E, name, 3, backend_flags=lab(E), toas=E.array([0, 0.5, 1e6]), toaerrs=E.array([1, 2, 1]), Mmat=E.array([[1], [1], [1]]), **kw)


def values(E, pta, pre=""):
    P = {}
    for q in pta.params:
        one = lambda nm: E.real(nm, 0.001, 9, s=(0.6, 1.8)) if "phi" in nm or nm.endswith("efac") else E.real(nm, -0.95, 0.95)
        P[q.name] = E.array([one("%s%s_%d" % (pre, q.name, i)) for i in range(q.size)]) if q.size else one(pre + q.name)
    return P


def order(E, mix):
    np, S = E.np, c.sb(E)
    perm = PERMS[E.choose("order", 24)]
    g = perm[0] if perm[1] < perm[2] else 4
    F = E.array([[1, 1], [2, 0], [-1, 3]])
    p = pulsar(E)
    cl = four(E, mix, F)
    ref = S.PTA([S.SignalCollection(cl)(p)])
    pta = S.PTA([compose(E, [cl[i] for i in perm], g)(p)])
    E.true("parameters", pta.param_names == ref.param_names and [q.name for q in pta.params] == sorted(q.name for q in ref.params))
    E.true("signals", sorted(pta.pulsarmodels[0].keys()) == sorted(ref.pulsarmodels[0].keys()) and sorted(pta.signals) == sorted(ref.signals))
    P = values(E, ref)
    if mix == 0:
        d = p.residuals - E.array([P["A_det_d%d" % k] for k in range(3)])
        C = np.diag(E.array([P["A_%s_efac" % x] ** 2 for x in lab(E)]) * p.toaerrs ** 2) + P["A_g1_phi0"] * np.outer(F[:, 0], F[:, 0]) + sum(P["A_g2_phi%d" % k] * np.outer(F[:, k], F[:, k]) for k in range(2))
        E.eq("likelihood", pta.get_lnlikelihood(P), c.gauss_ll(E, d, C))
    elif mix in (1, 2, 3):
        C = np.diag(E.array([P["A_%s_efac" % x] ** 2 for x in lab(E)]) * p.toaerrs ** 2 + 10 ** (2 * P["A_log10_tnequad"])) + P["A_g1_phi0"] * np.outer(F[:, 0], F[:, 0]) + 10 ** (2 * P["A_log10_ecorr"]) * E.array([[1, 1, 0], [1, 1, 0], [0, 0, 0]])
        E.eq("likelihood", pta.get_lnlikelihood(P), c.gauss_ll(E, p.residuals, C))
    else:
        E.eq("likelihood", pta.get_lnlikelihood(P), ref.get_lnlikelihood(P))
    E.eq("delay", pta.get_delay(P)[0], ref.get_delay(P)[0])
    if mix == 4:
        E.eq("prior", pta.get_lnprior(P), ref.get_lnprior(P))


for _m, _n in enumerate(["shared columns", "kernel noise (Sherman-Morrison)", "kernel noise (sparse)", "kernel noise (block)", "explicit coefficients", "marginalized timing model"]):
    instance("P30", "order: " + _n, bounds="4 signals in all 24 orders (with 5 groupings spread over them), 1 pulsar with 3 TOAs, all residuals and parameters", ctmo=30000)(lambda E, _m=_m: order(E, _m))


def models(E, k, shared=True):
    gp, ws, se, pm, ds = mods(E)
    am = pm.Uniform(-10, 10)("common_amp")
    ps = [c.pulsar(E, "ABC"[i], 2, toaerrs=E.array([[1, 2], [2, 1], [1, 3]][i]), pos=E.array(rnp.eye(3)[i])) for i in range(k)]
    m = ws.MeasurementNoise(efac=pm.Uniform(0, 3)) + ds.Deterministic(c.fn(E, lambda toas, amp, z: E.array([amp, z]))(amp=am, z=c.U(E)), name="det")
    return ps, m


@instance("P30", "arrays", bounds="3 pulsar models with shared and own parameters added up in 9 ways: likelihood and prior are sums, models found by name and position", ctmo=30000)
def arrays(E):
    np, S = E.np, c.sb(E)
    ps, m = models(E, 3)
    a, b, d = [m(p) for p in ps]
    k = E.choose("way", 9)
    pta = [lambda: S.PTA([a, b, d]), lambda: a + b + d, lambda: S.PTA([a]) + b + d, lambda: S.PTA([a, b]) + d, lambda: S.PTA([a]) + S.PTA([b, d]), lambda: S.PTA((a, b)) + S.PTA(d),
           lambda: a + (b + d), lambda: a + S.PTA([b, d]), lambda: S.PTA(a) + (b + d)][k]()
    E.true("models", pta.pulsarmodels == [a, b, d] and pta.values() == [a, b, d] and pta.keys() == ["A", "B", "C"] == pta.pulsars and len(pta) == 3 and pta.items() == [("A", a), ("B", b), ("C", d)])
    E.true("by name", pta["A"] is a and pta["B"] is b and pta["C"] is d)
    E.true("by position", pta[0] is a and pta[1] is b and pta[2] is d)
    E.true("unknown", E.raises(KeyError, pta.__getitem__, "D"))
    names = sorted(["common_amp"] + ["%s_%s" % (x, y) for x in "ABC" for y in ("efac", "det_z")])
    E.true("parameters", pta.param_names == names)
    P = {}
    for q in pta.params:
        P[q.name] = E.real(q.name, 0, 3, s=(0.6, 1.8))
    P = {q: v for q, v in P.items()}
    for q in P:
        E.assume_lt(0, P[q])
    want = 0
    for p in ps:
        r = p.residuals - E.array([P["common_amp"], P[p.name + "_det_z"]])
        v = P[p.name + "_efac"] ** 2 * p.toaerrs ** 2
        want = want - 0.5 * np.sum(r * r / v) - 0.5 * np.sum(np.log(v))
    E.eq("likelihood", pta.get_lnlikelihood(P), want)
    E.eq("sum of parts", pta.get_lnlikelihood(P), sum(S.PTA([x]).get_lnlikelihood(P) for x in (a, b, d)))
    E.eq("parameter vector", pta.get_lnlikelihood(E.array([P[n] for n in names])), want)
    E.eq("prior", pta.get_lnprior(P), -3 * np.log(3) - 4 * np.log(20))


@instance("P30", "likelihood class kept", bounds="2 pulsar models added to arrays with either likelihood class: the first array's class is used")
def kept(E):
    S = c.sb(E)
    ps, m = models(E, 2)
    a, b = [m(p) for p in ps]
    for kind in (S.LogLikelihood, S.LogLikelihoodDenseCholesky):
        E.true("kept", all((S.PTA([a], lnlikelihood=kind) + x).lnlikelihood is kind for x in (b, S.PTA([b]))))
        E.true("kept when added to a model", (a + S.PTA([b], lnlikelihood=kind)).lnlikelihood is kind)


@instance("P30", "pulsar order", bounds="2 pulsars with a correlated common process, in both orders, dense and sparse likelihood", ctmo=60000)
def pulsarorder(E):
    np, S = E.np, c.sb(E)
    gp, ws, se, pm, ds = mods(E)
    psrs = [c.pulsar(E, n, 2, pos=E.array(q), toaerrs=E.array(e)) for n, q, e in zip("AB", ([1, 0, 0], [0, 0.6, 0.8]), ([1, 2], [2, 1]))]
    h = E.real("h", -1, 1, s=(-0.6, 0.6))
    E.assume_lt(h * h, 1)
    F = {"A": E.array([[1], [2]]), "B": E.array([[2], [-1]])}
    for p in psrs:
        p.bkey = p.name
    com = gp.BasisCommonGP(c.diag_prior_class(E, 1), c.fn(E, lambda toas, bkey: (F[bkey].copy(), E.array([1])))(), c.fn(E, lambda pos1, pos2: 1 if all(bool(x == y) for x, y in zip(pos1, pos2)) else h)(), name="gw")
    m = com + ws.MeasurementNoise(efac=c.U(E))
    a, b = [m(p) for p in psrs]
    P = {"A_efac": E.pos("ea"), "B_efac": E.pos("eb"), "gw_phi0": E.pos("phi")}
    f = np.concatenate([F["A"][:, 0], F["B"][:, 0]])
    C = np.diag(np.concatenate([P[p.name + "_efac"] ** 2 * p.toaerrs ** 2 for p in psrs])) + P["gw_phi0"] * np.outer(f, f) * E.array([[1, 1, h, h], [1, 1, h, h], [h, h, 1, 1], [h, h, 1, 1]])
    want = c.gauss_ll(E, np.concatenate([p.residuals for p in psrs]), C)
    for kind in (S.LogLikelihood, S.LogLikelihoodDenseCholesky):
        for o in ([a, b], [b, a]):
            pta = S.PTA(o, lnlikelihood=kind)
            E.true("parameters", pta.param_names == sorted(P))
            E.eq("likelihood", pta.get_lnlikelihood(P), want)


@instance("P30", "fixed parameters", bounds="2 pulsars; fixed parameters per pulsar and group, shared by name between signals of different kinds, inside nested functions, vectors; values given for varying ones and unknown names", ctmo=30000)
def fixedp(E):
    np, S = E.np, c.sb(E)
    gp, ws, se, pm, ds = mods(E)
    ps = [c.pulsar(E, n, 2, backend_flags=rnp.array(["x", "y"]), toaerrs=E.array([1, 2])) for n in "AB"]
    G = E.array([[1], [2]])
    shared = lambda: pm.Constant()("shared")
    inner = c.fn(E, lambda u, w: u + 2 * w)
    det = ds.Deterministic(c.fn(E, lambda toas, k, s, n, v=None: E.array([k + s, n + v]))(k=pm.Constant(), s=shared(), n=inner(u=pm.Constant()("inside"), w=c.U(E)), v=c.U(E)), name="det")
    pr = gp.BasisGP(c.fn(E, lambda f, s, phi0: E.array([phi0 * s ** 2]))(s=shared(), phi0=c.U(E)), c.fn(E, lambda toas: (G.copy(), E.array([1])))(), name="gp")
    m = det + pr + ws.MeasurementNoise(efac=pm.Constant(), selection=se.Selection(se.by_backend))
    pta = S.PTA([m(p) for p in ps])
    vary = [q.name for q in pta.params]
    E.true("varying", sorted(vary) == sorted(["%s_%s" % (x, y) for x in "AB" for y in ("det_v", "det_n_w", "gp_phi0")]))
    P = {n: E.pos(n, s=(0.6, 1.8)) if "phi" in n else E.real(n) for n in vary}
    for k in range(2):
        fx = {n: E.pos("%s%d" % (n, k), s=(0.6, 1.8)) for n in ["shared", "inside"] + ["%s_%s" % (x, y) for x in "AB" for y in ("det_k", "x_efac", "y_efac")]}
        give = dict(fx, A_det_v=E.real("other"), B_gp_phi0=E.real("other2"), nothing=E.real("other3"))
        if k == 1:  # only some are changed
            give.pop("inside"), give.pop("B_x_efac"), give.pop("A_det_k")
            fx = dict(old, **{n: v for n, v in fx.items() if n in give})
        pta.set_default_params(give)
        E.true("varying untouched", [q.name for q in pta.params] == vary)
        want = 0
        for p in ps:
            x = p.name
            d = E.array([fx[x + "_det_k"] + fx["shared"], fx["inside"] + 2 * P[x + "_det_n_w"] + P[x + "_det_v"]])
            E.eq("delay %d %s" % (k, x), pta[x].get_delay(P), d)
            C = np.diag(E.array([fx[x + "_x_efac"] ** 2, fx[x + "_y_efac"] ** 2]) * p.toaerrs ** 2) + P[x + "_gp_phi0"] * fx["shared"] ** 2 * np.dot(G, G.T)
            want = want + c.gauss_ll(E, p.residuals - d, C)
        E.eq("likelihood %d" % k, pta.get_lnlikelihood(P), want)
        old = fx


@instance("P30", "signals by name", bounds="2 pulsars with 3 signals each: signals of a pulsar model by identifier and position, of the array by full name")
def byname(E):
    S = c.sb(E)
    gp, ws, se, pm, ds = mods(E)
    b = lambda: c.fn(E, lambda toas: (E.np.stack([toas ** 0], axis=1), E.array([1])))()
    m = gp.BasisGP(c.diag_prior_class(E, 1), b(), name="g1") + (gp.BasisGP(c.diag_prior_class(E, 1), b(), name="g2") + ws.MeasurementNoise(efac=c.U(E), name="wn"))
    scs = [m(c.pulsar(E, n, 2)) for n in "AB"]
    pta = S.PTA(scs)
    ids = ["g1", "g2", "measurement_noise_wn"]
    for sc in scs:
        E.true("identifiers", sc.keys() == ids and len(sc) == 3 and sc.values() == sc.signals and sc.items() == list(zip(ids, sc.signals)))
        for k, i in enumerate(ids):
            E.true("lookup", sc[i] is sc.signals[k] and sc[k] is sc.signals[k] and pta.get_signal(sc.psrname + "_" + i) is sc.signals[k])
        for bad in ("g3", "g", "g11", "A_g1", "measurement_noise"):
            E.true("unknown", E.raises(KeyError, sc.__getitem__, bad))
    # names that contain each other, in both orders
    for names in (["red_two", "red", "d_red"], ["red", "d_red", "red_two"]):
        x, y, z = [gp.BasisGP(c.diag_prior_class(E, 1), b(), name=n) for n in names]
        cs = [(x + y + z)(c.pulsar(E, n, 2)) for n in ("J1A", "J1", "1A")]
        arr = S.PTA(cs)
        for sc in cs:
            E.true("array lookup", arr[sc.psrname] is sc)
            for n in names:
                E.true("similar names", sc[n].name == sc.psrname + "_" + n and sc[n] in sc.signals and arr.get_signal(sc.psrname + "_" + n) is sc[n])
    E.true("all", sorted(pta.signals) == sorted(n + "_" + i for n in "AB" for i in ids))


@instance("P30", "summary", bounds="2 pulsars; each of several processes (per-pulsar, grouped, common, explicit coefficients) with fixed and varying parameters, listing them or not: counts and parameters in the summary are the model's")
def summary(E):
    S = c.sb(E)
    gp, ws, se, pm, ds = mods(E)
    k = E.choose("process", 4)
    lst = bool(E.choose("listed", 2))
    pr = c.fn(E, lambda f, phi0, k: E.array([phi0 * k]))(phi0=c.U(E), k=pm.Constant(2.0))
    b = c.fn(E, lambda toas: (E.np.stack([toas ** 0], axis=1), E.array([1])))()
    kw = dict(coefficients=True) if k == 3 else dict(selection=se.Selection(se.by_backend)) if k == 1 else {}
    orf = c.fn(E, lambda pos1, pos2: 1)()
    g = gp.BasisCommonGP(pr, b, orf, name="com") if k == 2 else gp.BasisGP(pr, b, name="own", **kw)
    m = g + ws.MeasurementNoise(efac=pm.Constant(1.0)) + ws.TNEquadNoise(log10_tnequad=pm.Uniform(-1, 1))
    pta = S.PTA([m(c.pulsar(E, n, 2, backend_flags=rnp.array(["x", "y"]), pos=E.array([1, 0, 0]))) for n in ("PSR1", "PSR2")])
    text = pta.summary(include_params=lst)
    per = {0: 1, 1: 2, 2: 1, 3: 1}[k]
    fixed = 2 * (per + 1)
    vary = len(pta.param_names)
    want = {"Varying params": vary, "Fixed params": fixed, "Total params": vary + fixed, "Number of pulsars": 2}
    for key, n in want.items():
        got = [ln.split(":")[1].strip() for ln in text.splitlines() if ln.startswith(key + ":")]
        E.true("%s %s, are %d" % (key, got, n), got == [str(n)])
    for sc in pta.pulsarmodels:
        for s in sc.signals:
            rows = [ln.split() for ln in text.splitlines() if ln.split()[:1] == [s.name]]
            E.true("row of %s: %s" % (s.name, rows), rows == [[s.name, type(s).__name__, str(len(s.param_names))]])
    E.true("parameters listed", all((str(q) in text) == lst for q in pta.params))
    E.true("same text again", pta.summary(include_params=lst) == text)
    E.true("nothing returned when logged", pta.summary(include_params=lst, to_stdout=True) is None)
