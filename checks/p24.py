"""P24: explicit-coefficient processes are the same model as marginalized ones."""
import numpy as rnp

from vlib.harness import instance
from . import common as c

ASSUMPTIONS = ["priors are positive (definite); likelihood values include every constant that depends on the number of coefficients"]


def mods(E):
    return E.mod("signals.gp_signals"), E.mod("signals.white_signals"), E.mod("signals.selections"), c.par(E)


def fixed_noise(E):
    return E.mod("signals.white_signals").MeasurementNoise(efac=c.par(E).Constant(1.0))


def sigs(E, sc, name):
    return [s for s in sc.signals if s.name.endswith(name)][0]


def values(E, pta, coef="_coefficients", off=()):
    """inside the ranges of the uniform priors; hyperparameters positive"""
    P = {}
    for p in pta.params:
        if p.name.endswith(coef):
            P[p.name] = E.vec(p.name, p.size)
        elif any(k in p.name for k in off):
            P[p.name] = E.real(p.name, -9, 9, s=(-0.3, 0.3))
        else:
            P[p.name] = E.real(p.name, 0, 9, s=(0.6, 1.8))
            E.assume_lt(0, P[p.name])
    return P


def flatpart(E, pta):
    """log of the uniform hyperparameter priors"""
    return sum(1 for p in pta.params if not p.name.endswith("_coefficients")) * -E.np.log(20)


def mvn(E, x, phi):
    """multivariate normal log-density"""
    np = E.np
    if phi.ndim == 1:
        phi = np.diag(phi)
    return c.gauss_ll(E, x, phi) - 0.5 * len(x) * np.log(2 * np.pi)


def white_ll(E, d, var):
    return -0.5 * E.np.sum(d * d / var) - 0.5 * E.np.sum(E.np.log(var))


def both(E, make, p, F, phi, names, off=()):
    """make(coefficients) -> signal classes; F, phi(P): basis and prior of all processes, in the order of names"""
    np, S = E.np, c.sb(E)
    exp, mar = S.PTA([make(True)(p)]), S.PTA([make(False)(p)])
    P = values(E, exp, off=off)
    E.true("parameters", sorted(q.name for q in exp.params) == sorted([q.name for q in mar.params] + [n + "_coefficients" for n in names]))
    x = np.concatenate([P[n + "_coefficients"] for n in names])
    var = p.toaerrs ** 2
    ph = phi(P)
    ph = np.diag(ph) if ph.ndim == 1 else ph
    d = p.residuals - np.dot(F, x)
    like, prior = exp.get_lnlikelihood(P), exp.get_lnprior(P)
    E.eq("delay", exp.get_delay(P)[0], np.dot(F, x))
    E.eq("likelihood", like, white_ll(E, d, var))
    E.eq("prior", prior, mvn(E, x, ph) + flatpart(E, exp))
    E.true("no marginalized part", exp.get_basis(P) == [None] and exp.get_phi(P) == [None] and exp.get_TNT(P) == [None])
    # the same model: the joint density is the marginal one times the Gaussian posterior of the coefficients
    Q = {q.name: P[q.name] for q in mar.params}
    Sig = E.inv(ph) + np.dot(F.T / var, F)
    top = np.dot(E.inv(Sig), np.dot(F.T, p.residuals / var))
    post = -0.5 * np.dot(x - top, np.dot(Sig, x - top)) + 0.5 * E.logdet(Sig) - 0.5 * len(x) * np.log(2 * np.pi)
    E.eq("same model", like + prior, mar.get_lnlikelihood(Q) + mar.get_lnprior(Q) + post)
    return exp, P, d, var


def two_labels(E, F, lab):
    return c.fn(E, lambda toas: (F.copy(), lab.copy()))()


def spectral(E):
    """prior depending on the labels"""
    return c.fn(E, lambda f, amp, slope: amp * f + slope)(amp=c.U(E), slope=c.U(E))


@instance("P24", "diagonal prior", bounds="1 pulsar with 3 TOAs, process with 2 coefficients, any basis, labels, residuals, errors, coefficients and hyperparameters", ctmo=20000)
def diagonal(E):
    gp = mods(E)[0]
    F, lab = E.mat("F", 3, 2), E.array([E.pos("l0"), E.pos("l1")])
    p = c.pulsar(E, "A", 3)

    def make(co):
        return gp.BasisGP(spectral(E), two_labels(E, F, lab), coefficients=co, name="gp") + fixed_noise(E)

    exp, P, d, var = both(E, make, p, F, lambda P: lab * P["A_gp_amp"] + P["A_gp_slope"], ["A_gp"])
    q = exp.pulsarmodels[0]
    E.eq("residuals", q.get_detres(P), d)


@instance("P24", "dense prior", bounds="1 pulsar with 2 TOAs, process with 2 coefficients and any dense prior; any basis, residuals and coefficients", ctmo=20000)
def dense(E):
    gp = mods(E)[0]
    F, lab = E.mat("F", 2, 2), E.array([1, 2])
    p = c.pulsar(E, "A", 2, toaerrs=E.array([1, 2]))

    def make(co):
        return fixed_noise(E) + gp.BasisGP(c.dense_prior_class(E, 2), two_labels(E, F, lab), coefficients=co, name="gp")

    a, b, d = E.real("A_gp_a", 0, 9, s=(0.6, 1.8)), E.real("A_gp_b", -9, 9, s=(-0.3, 0.3)), E.real("A_gp_c", 0, 9, s=(0.6, 1.8))
    E.assume_lt(0, a)
    E.assume_lt(0, a * d - b * b)
    both(E, make, p, F, lambda P: E.array([[P["A_gp_a"], P["A_gp_b"]], [P["A_gp_b"], P["A_gp_c"]]]), ["A_gp"], off=("_b",))


def selected(E, n=4, k=2):
    lab = rnp.array([["y", "x", "y", "x"], ["x", "x", "x", "y"], ["x", "x", "x", "x"]][k][:n])
    return lab, sorted(set(lab))


@instance("P24", "groups", bounds="1 pulsar with 4 TOAs split into 2 groups in three ways; process with different labels and columns per group", ctmo=20000)
def groups(E):
    np = E.np
    gp, ws, se, pm = mods(E)
    lab, gs = selected(E, 4, E.choose("split", 3))
    p = c.pulsar(E, "A", 4, backend_flags=lab, toaerrs=E.array([1, 2, 1, 2]))

    def basis(toas):
        return np.stack([toas / 864000 - 5298, toas ** 0], axis=1), E.array([len(toas), 1 + len(toas)])

    def make(co):
        return fixed_noise(E) + gp.BasisGP(spectral(E), c.fn(E, basis)(), coefficients=co, selection=se.Selection(se.by_backend), name="gp")

    F = np.zeros((4, 2 * len(gs)))
    for i, g in enumerate(gs):
        m = [k for k in range(4) if lab[k] == g]
        F[m, 2 * i:2 * i + 2] = basis(p.toas[m])[0]
    num = {g: int(sum(lab == g)) for g in gs}
    exp, P, d, var = both(E, make, p, F, lambda P: np.concatenate([E.array([num[g], 1 + num[g]]) * P["A_gp_%s_amp" % g] + P["A_gp_%s_slope" % g] for g in gs]), ["A_gp_" + g for g in gs])
    for q in exp.params:
        if q.name.endswith("_coefficients"):
            g = q.name.split("_")[2]
            phi = E.array([num[g], 1 + num[g]]) * P["A_gp_%s_amp" % g] + P["A_gp_%s_slope" % g]
            E.eq("density " + g, q.get_logpdf(params=P), mvn(E, P[q.name], phi))
            E.eq("density of value " + g, q.get_logpdf(2 * P[q.name], params=P), mvn(E, 2 * P[q.name], phi))


@instance("P24", "two processes", bounds="1 pulsar with 3 TOAs, two explicit processes with 1 column each, one shared hyperparameter", ctmo=20000)
def twoproc(E):
    np = E.np
    gp, ws, se, pm = mods(E)
    F, G = E.mat("F", 3, 1), E.mat("G", 3, 1)
    p = c.pulsar(E, "A", 3, toaerrs=E.array([1, 2, 1]))
    amp = pm.Uniform(-10, 10)("amp")
    pr = lambda: c.fn(E, lambda f, amp, s: amp * s * f)(amp=amp, s=c.U(E))

    def make(co):
        return gp.BasisGP(pr(), two_labels(E, F, E.array([1])), coefficients=co, combine=False, name="one") + gp.BasisGP(pr(), two_labels(E, G, E.array([3])), coefficients=co, combine=False, name="two") + fixed_noise(E)

    both(E, make, p, np.hstack([F, G]), lambda P: P["amp"] * E.array([P["A_one_s"], 3 * P["A_two_s"]]), ["A_one", "A_two"])


@instance("P24", "mixed", bounds="1 pulsar with 2 TOAs, one explicit and one marginalized process with the same basis, delays and error scale", ctmo=30000)
def mixed(E):
    np, S = E.np, c.sb(E)
    gp, ws, se, pm = mods(E)
    F, G = E.array([[1], [2]]), E.array([[1], [2]])
    p = c.pulsar(E, "A", 2, toaerrs=E.array([1, 2]))
    m = gp.BasisGP(c.diag_prior_class(E, 1), two_labels(E, F, E.array([1])), coefficients=True, name="one") + ws.MeasurementNoise(efac=c.U(E)) + c.delay_signal(E, 2) + gp.BasisGP(c.diag_prior_class(E, 1), two_labels(E, G, E.array([1])), name="two")
    pta = S.PTA([m(p)])
    P = c.params(E, pta, pos=("phi", "efac"))
    for q in range(2):
        P["A_det_d%d" % q] = E.real("d%d" % q, 0, 3)
    d = p.residuals - E.array([P["A_det_d0"], P["A_det_d1"]]) - F[:, 0] * P["A_one_coefficients"][0]
    C = np.diag(P["A_efac"] ** 2 * p.toaerrs ** 2) + P["A_two_phi0"] * np.outer(G[:, 0], G[:, 0])
    E.eq("likelihood", pta.get_lnlikelihood(P), c.gauss_ll(E, d, C))
    E.eq("delay", pta.get_delay(P)[0], p.residuals - d)
    E.eq("basis", pta.get_basis(P)[0], G)
    E.eq("density", [q for q in pta.params if q.name == "A_one_coefficients"][0].get_logpdf(params=P), mvn(E, P["A_one_coefficients"], E.array([P["A_one_phi0"]])))
    Q = dict(P)
    Q["A_one_coefficients"] = E.vec("other", 1)
    E.eq("other coefficients", pta.get_lnlikelihood(Q), c.gauss_ll(E, d + F[:, 0] * (P["A_one_coefficients"][0] - Q["A_one_coefficients"][0]), C))
    E.eq("back", pta.get_lnlikelihood(P), c.gauss_ll(E, d, C))


@instance("P24", "fixed coefficients", bounds="1 pulsar with 4 TOAs in 2 groups (and a common process): fixed coefficients used when none are given, given ones take precedence")
def fixedc(E):
    np = E.np
    gp, ws, se, pm = mods(E)
    lab, gs = selected(E, 4, 0)
    p = c.pulsar(E, "A", 4, backend_flags=lab, pos=E.array([1, 0, 0]))
    s = gp.BasisGP(c.diag_prior_class(E, 1), c.fn(E, lambda toas: (np.stack([toas / 864000], axis=1), E.array([1])))(), coefficients=True, selection=se.Selection(se.by_backend), name="gp")(p)
    t = gp.BasisCommonGP(c.diag_prior_class(E, 1), c.fn(E, lambda toas: (np.stack([toas / 864000], axis=1), E.array([1])))(), c.fn(E, lambda pos1, pos2: 1)(), coefficients=True, name="gw")(p)
    fx = {g: E.vec("fixed" + g, 1) for g in gs}
    fx[""] = E.vec("fixed", 1)
    for q in list(s._coefficients.values()) + list(t._coefficients.values()):
        q.value = fx[q.name.split("_")[2] if "gp" in q.name else ""]
    w = {g: E.array([1 if x == g else 0 for x in lab]) * p.toas / 864000 for g in gs}
    E.eq("fixed", s.get_delay({}), w["x"] * fx["x"][0] + w["y"] * fx["y"][0])
    E.eq("fixed common", t.get_delay({}), p.toas / 864000 * fx[""][0])
    v = E.vec("given", 1)
    E.eq("given x", s.get_delay({"A_gp_x_coefficients": v}), w["x"] * v[0] + w["y"] * fx["y"][0])
    E.eq("given y", s.get_delay({"A_gp_y_coefficients": v}), w["x"] * fx["x"][0] + w["y"] * v[0])
    E.eq("given common", t.get_delay({"A_gw_coefficients": v}), p.toas / 864000 * v[0])
    E.eq("fixed again", s.get_delay({}), w["x"] * fx["x"][0] + w["y"] * fx["y"][0])


@instance("P24", "common process", bounds="2 pulsars with 2 TOAs, common process with explicit coefficients: own, or one given vector shared, at two points; delays, no prior terms", ctmo=20000)
def common(E):
    np, S = E.np, c.sb(E)
    gp, ws, se, pm = mods(E)
    psrs = [c.pulsar(E, n, 2, pos=E.array(q)) for n, q in zip("AB", ([1, 0, 0], [0, 1, 0]))]
    F = {n: E.mat("F" + n, 2, 2) for n in "AB"}
    for p in psrs:
        p.bkey = p.name
    given = E.choose("given", 2)
    co = pm.Normal(0, 2, size=2)("gwc") if given else True
    m = fixed_noise(E) + gp.BasisCommonGP(c.diag_prior_class(E, 2), c.fn(E, lambda toas, bkey: (F[bkey].copy(), E.array([1, 2])))(), c.fn(E, lambda pos1, pos2: 1)(), coefficients=co, name="gw")
    pta = S.PTA([m(p) for p in psrs])
    names = ["gwc", "gwc"] if given else ["A_gw_coefficients", "B_gw_coefficients"]
    P = {q.name: (E.vec(q.name, 2) if q.size else E.pos(q.name, 0.1, 9)) for q in pta.params}
    E.true("parameters", sorted(P) == sorted(set(names) | {"gw_phi0", "gw_phi1"}))
    ds = [np.dot(F[p.name], P[n]) for p, n in zip(psrs, names)]
    # another point first: only the current coefficients count
    other = dict(P, **{n: E.vec("other_" + n, 2) for n in names})
    for p, n, x in zip(psrs, names, pta.get_delay(other)):
        E.eq("delay before", x, np.dot(F[p.name], other[n]))
    for x, y in zip(pta.get_delay(P), ds):
        E.eq("delay", x, y)
    E.eq("likelihood", pta.get_lnlikelihood(P), sum(white_ll(E, p.residuals - d, p.toaerrs ** 2) for p, d in zip(psrs, ds)))
    E.true("no prior part", pta.get_phi(P) == [None, None] and pta.get_basis(P) == [None, None])
    if given:
        E.eq("prior", pta.get_lnprior(P), mvn(E, P["gwc"], E.array([4, 4])) - 2 * np.log(20))
    else:
        E.true("correlated prior refused", E.raises(NotImplementedError, pta.get_lnprior, P))


@instance("P24", "timing model", bounds="1 pulsar with 3 TOAs, timing model with 2 explicit coefficients (normalized or not), any design matrix", ctmo=20000)
def timing(E):
    np, S = E.np, c.sb(E)
    gp, ws, se, pm = mods(E)
    norm = E.choose("normed", 2)
    M = E.mat("M", 3, 2, 0.1, 3) if norm else E.mat("M", 3, 2)
    p = c.pulsar(E, "A", 3, Mmat=M)
    pta = S.PTA([(gp.TimingModel(coefficients=True, normed=bool(norm)) + fixed_noise(E))(p)])
    n = "A_linear_timing_model_coefficients"
    P = {n: E.vec("x", 2)}
    E.true("parameters", [q.name for q in pta.params] == [n])
    F = M / np.sqrt(np.sum(M ** 2, axis=0)) if norm else M
    E.eq("delay", pta.get_delay(P)[0], np.dot(F, P[n]))
    E.eq("prior", pta.get_lnprior(P), 0)
    E.eq("likelihood", pta.get_lnlikelihood(P), white_ll(E, p.residuals - np.dot(F, P[n]), p.toaerrs ** 2))


@instance("P24", "ecorr", bounds="1 pulsar with 4 TOAs in 2 backends: jitter with one coefficient per epoch, any epoch grouping symbolic in the residuals only", ctmo=20000)
def ecorr(E):
    np = E.np
    gp, ws, se, pm = mods(E)
    lab = rnp.array(["x", "x", "y", "y"])
    p = c.pulsar(E, "A", 4, toas=E.array([86400 * 53000, 86400 * 53000 + 0.25, 86400 * 53100, 86400 * 53100 + 0.5]), backend_flags=lab, toaerrs=E.array([1, 2, 1, 2]))

    def make(co):
        return gp.EcorrBasisModel(log10_ecorr=pm.Uniform(-10, 10), coefficients=co, selection=se.Selection(se.by_backend)) + fixed_noise(E)

    F = E.array([[1, 0], [1, 0], [0, 1], [0, 1]])
    both(E, make, p, F, lambda P: 10 ** (2 * E.array([P["A_basis_ecorr_%s_log10_ecorr" % g] for g in "xy"])), ["A_basis_ecorr_x", "A_basis_ecorr_y"])


@instance("P24", "fourier", bounds="1 pulsar with 3 TOAs, Fourier basis with 1 component, any spectrum amplitude: coefficients of the basis of the marginalized model", ctmo=20000)
def fourier(E):
    np, S = E.np, c.sb(E)
    gp, ws, se, pm = mods(E)
    p = c.pulsar(E, "A", 3, toaerrs=E.array([1, 2, 1]))
    pr = lambda: c.fn(E, lambda f, a: a * f * 86400)(a=c.U(E))
    make = lambda co: gp.FourierBasisGP(pr(), coefficients=co, components=1) + fixed_noise(E)
    F = S.PTA([make(False)(p)]).get_basis({})[0]
    f = 1 / (p.toas[2] - p.toas[0])
    both(E, make, p, F, lambda P: E.array([f, f]) * 86400 * P["A_red_noise_a"], ["A_red_noise"])


@instance("P24", "basis parameters", bounds="1 pulsar with 3 TOAs, basis and prior depending on a basis parameter; moves of coefficients, hyperparameters and basis parameters and back", ctmo=20000)
def basisparams(E):
    np, S = E.np, c.sb(E)
    gp, ws, se, pm = mods(E)
    p = c.pulsar(E, "A", 3, toaerrs=E.array([1, 2, 1]))
    G = E.mat("G", 3, 1)
    basis = c.fn(E, lambda toas, w=1: (G * w, E.array([w])))(w=pm.Uniform(-10, 10))
    pta = S.PTA([(fixed_noise(E) + gp.BasisGP(c.fn(E, lambda f, a: a * f)(a=c.U(E)), basis, coefficients=True, name="gp"))(p)])
    P = values(E, pta)
    Q = {k: (E.vec("other", 1) if "coef" in k else E.pos("other_" + k[5:], 0.1, 9)) for k in P}
    for move in [[], ["A_gp_coefficients"], ["A_gp_w"], ["A_gp_a"], ["A_gp_w", "A_gp_coefficients"], []]:
        R = dict(P, **{k: Q[k] for k in move})
        d = G[:, 0] * R["A_gp_w"] * R["A_gp_coefficients"][0]
        E.eq("prior %s" % move, pta.get_lnprior(R), mvn(E, R["A_gp_coefficients"], E.array([R["A_gp_a"] * R["A_gp_w"]])) - 2 * np.log(20))
        E.eq("delay %s" % move, pta.get_delay(R)[0], d)
        E.eq("likelihood %s" % move, pta.get_lnlikelihood(R), white_ll(E, p.residuals - d, p.toaerrs ** 2))
