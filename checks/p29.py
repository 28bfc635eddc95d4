"""P29: deterministic delays reach the selected TOAs and are subtracted once."""
import numpy as rnp

from vlib.harness import instance
from . import common as c

ASSUMPTIONS = ["waveforms are arbitrary functions; those used here depend on several attributes, on the selected data as a whole, and on parameters of every kind"]


def mods(E):
    return E.mod("signals.deterministic_signals"), E.mod("signals.white_signals"), E.mod("signals.selections"), c.par(E)


SPLITS = [["y", "x", "y", "x"], ["x", "x", "x", "y"], ["x", "x", "x", "x"], ["z", "y", "x", "y"]]


def psr(E, lab, n=4, **kw):
    return c.pulsar(E, "A", n, backend_flags=rnp.array(lab), freqs=E.array([E.pos("f%d" % i, 0.5, 2) for i in range(n)]), pos=E.vec("pos", 3), **kw)


@instance("P29", "groups", bounds="4 TOAs split into 1 to 3 groups in four ways; waveform of each TOA's data, whole-group statistics, own and shared parameters; moves and back")
def groups(E):
    np = E.np
    ds, ws, se, pm = mods(E)
    lab = SPLITS[E.choose("split", 4)]
    gs = sorted(set(lab))
    p = psr(E, lab)

    def wave(toas, freqs, toaerrs, residuals, pos, amp=1, slope=1, v=None, offset=3):
        return amp * toas / 86400 + slope * freqs * toaerrs + np.sum(residuals) * pos[0] + len(toas) * v[0] + v[1] * freqs[0] + offset

    s = ds.Deterministic(c.fn(E, wave)(amp=c.U(E), slope=pm.Uniform(-10, 10)("shared"), v=pm.Normal(0, 1, size=2), offset=pm.Constant(5)), selection=se.Selection(se.by_backend), name="wf")(p)
    P = c.params(E, s)
    E.true("parameters", sorted(P) == sorted(["shared"] + ["A_wf_%s_%s" % (g, q) for g in gs for q in ("amp", "v")]))
    Q = c.params(E, s, prefix="other_")

    def want(R):
        out = []
        for i in range(4):
            m = [j for j in range(4) if lab[j] == lab[i]]
            a, v = R["A_wf_%s_amp" % lab[i]], R["A_wf_%s_v" % lab[i]]
            out.append(a * p.toas[i] / 86400 + R["shared"] * p.freqs[i] * p.toaerrs[i] + sum(p.residuals[j] for j in m) * p.pos[0] + len(m) * v[0] + v[1] * p.freqs[m[0]] + 5)
        return E.array(out)

    for k, move in enumerate([[], ["shared"], ["A_wf_x_v"], ["A_wf_x_amp", "shared"], []]):
        R = dict(P, **{q: Q[q] for q in move})
        E.eq("delay %d" % k, s.get_delay(R), want(R))
        E.eq("repeated %d" % k, s.get_delay(R), want(R))


@instance("P29", "partial cover", bounds="4 TOAs, selection covering any subset of them (16 subsets in one or two groups, the label of a single group may be empty): zero elsewhere")
def partial(E):
    np = E.np
    ds, ws, se, pm = mods(E)
    cover = [bool(E.choose("in%d" % i, 2)) for i in range(4)]
    if not any(cover):
        return
    two = bool(E.choose("two", 2))
    lab = [("b" if two and i % 2 else "a") if cover[i] else "" for i in range(4)]
    gs = sorted(set(lab) - {""})
    p = psr(E, ["x"] * 4)
    p.flags["cov"] = rnp.array(lab)
    # the label of a group may be empty, also when it does not cover all TOAs
    key = {"a": "" if not two and E.choose("empty label", 2) else "a", "b": "b"}

    def select(flags):
        return {key[g]: flags["cov"] == g for g in gs}

    s = ds.Deterministic(c.fn(E, lambda toas, a, freqs: a * freqs + E.np.sum(toas) / 86400)(a=c.U(E)), selection=se.Selection(select), name="wf")(p)
    P = c.params(E, s)
    names = {g: "A_wf_%s_a" % key[g] if key[g] else "A_wf_a" for g in gs}
    E.true("parameters", sorted(P) == sorted(names.values()))
    want = [P[names[g]] * p.freqs[i] + sum(p.toas[j] for j in range(4) if lab[j] == g) / 86400 if g else 0 for i, g in enumerate(lab)]
    E.eq("delay", s.get_delay(P), want)


@instance("P29", "fixed parameters", bounds="4 TOAs in 2 groups; fixed parameters per group and shared, set by name, changed, or given with the parameters")
def fixed(E):
    ds, ws, se, pm = mods(E)
    lab = SPLITS[0]
    p = psr(E, lab)
    s = ds.Deterministic(c.fn(E, lambda freqs, a, b: a * freqs + b)(a=pm.Constant(), b=pm.Constant()("common")), selection=se.Selection(se.by_backend), name="wf")(p)
    E.true("no varying parameters", s.params == [])
    for k in range(2):
        v = {n: E.real(n + str(k)) for n in ("A_wf_x_a", "A_wf_y_a", "common")}
        s.set_default_params(v)
        E.eq("delay %d" % k, s.get_delay({}), [v["A_wf_%s_a" % g] * f + v["common"] for g, f in zip(lab, p.freqs)])
    w = E.real("given")
    E.eq("given", s.get_delay({"A_wf_x_a": w}), [(w if g == "x" else v["A_wf_y_a"]) * f + v["common"] for g, f in zip(lab, p.freqs)])
    E.eq("fixed again", s.get_delay({}), [v["A_wf_%s_a" % g] * f + v["common"] for g, f in zip(lab, p.freqs)])


def model(E, p, F, kernel, n=2):
    """two deterministic signals, a process with explicit coefficients, a marginalized process and a noise kernel"""
    ds, ws, se, pm = mods(E)
    gp = E.mod("signals.gp_signals")
    one = ds.Deterministic(c.fn(E, lambda freqs, a: a * freqs)(a=c.U(E)), name="one")
    two = ds.Deterministic(c.fn(E, lambda toaerrs, b: b + toaerrs)(b=c.U(E)), selection=se.Selection(se.by_backend), name="two")
    b = lambda G, k: c.fn(E, lambda toas: (G.copy(), E.array([k])))()
    ex = gp.BasisGP(c.diag_prior_class(E, 1), b(F[0], 1), coefficients=True, name="ex")
    ma = gp.BasisGP(c.diag_prior_class(E, 1), b(F[1], 2), name="ma")
    m = one + ex + two + ma + ws.MeasurementNoise(efac=pm.Constant(1.0))
    if kernel:
        m = m + ws.EcorrKernelNoise(log10_ecorr=pm.Uniform(-1, 1), method=kernel)
    return m


@instance("P29", "subtracted once", bounds="1 pulsar with 3 TOAs, two deterministic signals (one grouped), an explicit and a marginalized process, with and without a jitter kernel (three methods): every likelihood ingredient", ctmo=30000)
def once(E):
    np, S = E.np, c.sb(E)
    kernel = [None, "sherman-morrison", "sparse", "block"][E.choose("kernel", 4)]
    lab = ["x", "y", "x"]
    F = [E.array([[1], [2], [-1]]), E.array([[2], [1], [1]])]
    p = c.pulsar(E, "A", 3, backend_flags=rnp.array(lab), freqs=E.array([1, 2, 3]), toas=E.array([0, 0.5, 1e6]), toaerrs=E.array([1, 2, 1]))
    pta = S.PTA([model(E, p, F, kernel)(p)])
    sc = pta.pulsarmodels[0]
    if kernel is None:
        C = np.diag(p.toaerrs ** 2)
    ok = dict(pos=("phi",))
    P = c.params(E, pta, **ok)
    Q = c.params(E, pta, prefix="o_", **ok)
    if kernel:
        P["A_log10_ecorr"] = Q["A_log10_ecorr"] = E.real("je", s=(-0.9, 0.9))
        J = 10 ** (2 * P["A_log10_ecorr"])
        C = np.diag(p.toaerrs ** 2) + J * E.array([[1, 1, 0], [1, 1, 0], [0, 0, 0]])
    E.true("parameters", set(P) == {"A_one_a", "A_two_x_b", "A_two_y_b", "A_ex_phi0", "A_ex_coefficients", "A_ma_phi0"} | ({"A_log10_ecorr"} if kernel else set()))
    Ci, ld = E.inv(C), E.logdet(C)
    G = F[1]
    for k, move in enumerate([[], ["A_two_y_b"], ["A_one_a", "A_ex_coefficients"], []]):
        R = dict(P, **{q: Q[q] for q in move})
        d = [R["A_one_a"] * p.freqs, E.array([R["A_two_%s_b" % g] + s for g, s in zip(lab, p.toaerrs)]), F[0][:, 0] * R["A_ex_coefficients"][0]]
        res = p.residuals - d[0] - d[1] - d[2]
        for nm, x in zip(("one", "two", "ex"), d):
            E.eq("signal %s %d" % (nm, k), sc[nm].get_delay(R), x)
        E.eq("delay %d" % k, pta.get_delay(R)[0], d[0] + d[1] + d[2])
        E.eq("residual %d" % k, sc.get_detres(R), res)
        E.eq("raw residuals %d" % k, pta.get_residuals()[0], p.residuals)
        E.eq("TNr %d" % k, pta.get_TNr(R)[0], np.dot(G.T, np.dot(Ci, res)))
        E.eq("TNT %d" % k, pta.get_TNT(R)[0], np.dot(G.T, np.dot(Ci, G)))
        rr = pta.get_rNr_logdet(R)[0]
        E.eq("rNr %d" % k, rr[0], np.dot(res, np.dot(Ci, res)))
        E.eq("logdet %d" % k, rr[1], ld)
        if k < 3:
            E.eq("likelihood %d" % k, pta.get_lnlikelihood(R), c.gauss_ll(E, res, C + R["A_ma_phi0"] * np.dot(G, G.T)))
    E.eq("input residuals", p.residuals, E.vec("A_r", 3))


@instance("P29", "no delay", bounds="1 pulsar with 3 TOAs without delays: residuals as they are")
def nodelay(E):
    np, S = E.np, c.sb(E)
    ds, ws, se, pm = mods(E)
    p = c.pulsar(E, "A", 3)
    pta = S.PTA([S.SignalCollection([ws.MeasurementNoise(efac=pm.Constant(1.0))])(p)])
    sc = pta.pulsarmodels[0]
    E.eq("residual", sc.get_detres({}), p.residuals)
    E.eq("likelihood", pta.get_lnlikelihood({}), -0.5 * np.sum(p.residuals ** 2 / p.toaerrs ** 2) - 0.5 * np.sum(np.log(p.toaerrs ** 2)))


@instance("P29", "array", bounds="2 pulsars with 2 TOAs, a delay shared through common parameters and pulsar positions, correlated common process (dense and sparse)", ctmo=60000)
def array(E):
    np, S = E.np, c.sb(E)
    ds, ws, se, pm = mods(E)
    gp = E.mod("signals.gp_signals")
    psrs = [c.pulsar(E, n, 2, pos=E.array(q), toaerrs=E.array(e)) for n, q, e in zip("AB", ([1, 0, 0], [0, 0.6, 0.8]), ([1, 2], [2, 1]))]
    amp = pm.Uniform(-10, 10)("cw_amp")
    det = ds.Deterministic(c.fn(E, lambda toas, pos, amp, z: amp * (pos[0] + 2 * pos[1]) * toas / 864000 + z)(amp=amp, z=c.U(E)), name="cw")
    com = gp.BasisCommonGP(c.diag_prior_class(E, 1), c.fn(E, lambda toas: (np.stack([toas ** 0], axis=1), E.array([1])))(), c.fn(E, lambda pos1, pos2: 1 if all(bool(a == b) for a, b in zip(pos1, pos2)) else E.real("h", -1, 1, s=(-0.6, 0.6)))(), name="gw")
    h = E.real("h", -1, 1, s=(-0.6, 0.6))
    E.assume_lt(h * h, 1)
    m = det + com + ws.MeasurementNoise(efac=pm.Constant(1.0))
    scs = [m(p) for p in psrs]
    for kind in (S.LogLikelihood, S.LogLikelihoodDenseCholesky):
        pta = S.PTA(scs, lnlikelihood=kind)
        P = c.params(E, pta, pos=("phi",))
        E.true("parameters", set(P) == {"cw_amp", "A_cw_z", "B_cw_z", "gw_phi0"})
        d = [p.residuals - (P["cw_amp"] * (p.pos[0] + 2 * p.pos[1]) * p.toas / 864000 + P[p.name + "_cw_z"]) for p in psrs]
        phi = P["gw_phi0"]
        C = np.zeros((4, 4))
        C[:2, :2] = np.diag(psrs[0].toaerrs ** 2) + phi
        C[2:, 2:] = np.diag(psrs[1].toaerrs ** 2) + phi
        C[:2, 2:] = h * phi
        C[2:, :2] = h * phi
        E.eq("likelihood", pta.get_lnlikelihood(P), c.gauss_ll(E, np.concatenate(d), C))
        for x, y, p in zip(pta.get_delay(P), d, psrs):
            E.eq("delay " + p.name, x, p.residuals - y)


@instance("P29", "marginalized timing model", bounds="1 pulsar with 4 TOAs, marginalized timing model with 1 column, grouped delay", ctmo=60000)
def marg(E):
    np, S = E.np, c.sb(E)
    ds, ws, se, pm = mods(E)
    gp = E.mod("signals.gp_signals")
    lab = ["x", "y", "x", "y"]
    M = E.array([[1], [1], [1], [1]])
    p = c.pulsar(E, "A", 4, backend_flags=rnp.array(lab), freqs=E.array([1, 2, 3, 5]), toaerrs=E.array([1, 2, 1, 2]), Mmat=M)
    two = ds.Deterministic(c.fn(E, lambda freqs, b: b * freqs)(b=c.U(E)), selection=se.Selection(se.by_backend), name="two")
    like = []
    for tm in (gp.MarginalizingTimingModel(), gp.TimingModel()):
        pta = S.PTA([(two + tm + ws.MeasurementNoise(efac=pm.Constant(1.0)))(p)])
        P = c.params(E, pta)
        res = p.residuals - E.array([P["A_two_%s_b" % g] * f for g, f in zip(lab, p.freqs)])
        E.eq("residual", pta.pulsarmodels[0].get_detres(P), res)
        like.append(pta.get_lnlikelihood(P))
        w = 1 / p.toaerrs ** 2
        chi = np.sum(res ** 2 * w) - np.sum(res * w) ** 2 / np.sum(w)
        if len(like) == 1:
            E.eq("chi2", pta.get_rNr_logdet(P)[0][0], chi)
