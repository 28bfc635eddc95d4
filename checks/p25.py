"""P25: the wideband timing model is the joint fit of TOAs and DM measurements."""
import numpy as rnp

from vlib.harness import instance
from . import common as c

ASSUMPTIONS = [
    "the DMX columns of the design matrix are the bin's mask divided by the dispersion constant times frequency squared (as the timing packages provide)",
    "DM error factors are positive (they enter squared), so the scaled errors are not zero",
    "equality up to terms depending on the number of measurements only",
]
K = 2.41e-4


def mods(E):
    return E.mod("signals.gp_signals"), E.mod("signals.white_signals"), E.mod("signals.selections"), c.par(E)


def big(E):
    return E.array([1e40])[0]


def white(E):
    return E.mod("signals.white_signals").MeasurementNoise(efac=c.par(E).Constant(1.0))


def wpulsar(E, which, bins=None, other=1, freqs=None, symerr=False, order=None, labels=None, stoas=None, dmw=True, **kw):
    """which[i]: bin number of TOA i. Bins are [53000+10k, 53010+10k) days"""
    np = E.np
    n, nb = len(which), max(which) + 1 if bins is None else bins
    # observatory times near the edges of the bins; the barycentric ones lie in a neighbouring bin
    st = stoas if stoas is not None else E.array([(53000 + 10 * w) * 86400 + 100 + i if i % 2 == 0 else (53010 + 10 * w) * 86400 - 100 - i for i, w in enumerate(which)])
    bary = E.array([-499 if i % 2 == 0 else 499 for i in range(n)])
    f = freqs if freqs is not None else E.array([1400, 700, 800, 1000][:n])
    names = ["DMX_%04d" % (k + 1) for k in range(nb)]
    dmx = {}
    for k in reversed(range(nb)):
        dmx[names[k]] = {"DMX": E.real("dmx%d" % k), "DMXR1": 53000 + 10 * k, "DMXR2": 53010 + 10 * k, "fit": True}
    par = ["Offset", "F0"][:other] + names
    cols = {"Offset": np.ones(n), "F0": np.arange(n) * 1.0}
    for k, nm in enumerate(names):
        cols[nm] = E.array([1 if w == k else 0 for w in which]) / (K * f ** 2)
    if order:
        par = [par[i] for i in order]
    M = np.stack([cols[q] for q in par], axis=1)
    flags = {"pp_dm": E.vec("dm", n), "pp_dme": E.array([E.pos("dme%d" % i, 0.5, 2) for i in range(n)])} if dmw else {}
    p = c.pulsar(E, "A", n, toas=st + bary, freqs=f, Mmat=M, fitpars=par, flags=flags, backend_flags=rnp.array(labels or ["x"] * n), dm=E.real("dmpar"), dmx=dmx,
                 **dict(dict() if symerr else dict(toaerrs=E.array([1, 2, 1, 2][:n])), **kw))
    p.stoas = st
    p.names = names
    return p


def joint(E, p, which, dm, dme, extra=None, phiextra=None, var=None):
    """log of the integral over all timing parameters and bin DMs of the joint density of residuals and DM measurements
    (dm: measured minus jump effect, dme: scaled errors); every measurement-count constant left out"""
    np = E.np
    n = len(which)
    m = len(p.fitpars)
    A = np.zeros((2 * n, m))
    A[:n] = p.Mmat
    y = np.zeros(2 * n)
    y[:n] = p.residuals
    for i, w in enumerate(which):
        A[n + i, p.fitpars.index(p.names[w])] = 1
        y[n + i] = dm[i] - (p.dm + p.dmx[p.names[w]]["DMX"])
    prec = np.zeros((m, m))
    det = 0
    for j, q in enumerate(p.fitpars):
        if not q.startswith("DMX"):
            prec[j, j] = 1 / big(E)
            det = det + np.log(big(E))
    v = np.zeros(2 * n)
    v[:n] = p.toaerrs ** 2 if var is None else var
    v[n:] = dme ** 2
    if extra is not None:
        A2 = np.zeros((2 * n, extra.shape[1]))
        A2[:n] = extra
        A = np.hstack([A, A2])
        k = len(phiextra)
        P2 = np.zeros((m + k, m + k))
        P2[:m, :m] = prec
        P2[m:, m:] = np.diag(1 / phiextra)
        prec, det = P2, det + np.sum(np.log(phiextra))
    S = np.dot(A.T / v, A) + prec
    b = np.dot(A.T, y / v)
    return -0.5 * np.sum(y * y / v) + 0.5 * np.dot(b, np.dot(E.inv(S), b)) - 0.5 * np.sum(np.log(v)) - 0.5 * E.logdet(S) - 0.5 * det


def values(E, pta, pre=""):
    P = {}
    for q in pta.params:
        P[q.name] = E.pos(pre + q.name, 0.5, 2) if "dmefac" in q.name or "phi" in q.name or q.name.endswith("efac") else E.real(pre + q.name, s=(-1, 0.3))
    return P


@instance("P25", "one group", bounds="1 pulsar with 3 TOAs in 2 DMX bins (columns in either order), offset column; any residuals, DM measurements and errors, DMX values, dmefac, dmequad", ctmo=30000)
def onegroup(E):
    np, S = E.np, c.sb(E)
    gp, ws, se, pm = mods(E)
    order = [None, [2, 0, 1]][E.choose("order", 2)]
    which = [[0, 0, 1], [0, 1, 0]][E.choose("bins", 2)]
    p = wpulsar(E, which, order=order)
    pta = S.PTA([(gp.WidebandTimingModel(dmefac=pm.Uniform(0.1, 10), log10_dmequad=pm.Uniform(-7, 0), dmjump=None) + white(E))(p)])
    P = values(E, pta)
    E.true("parameters", sorted(P) == ["A_dmefac", "A_log10_dmequad"])
    dme = P["A_dmefac"] * np.sqrt(p.flags["pp_dme"] ** 2 + 10 ** (2 * P["A_log10_dmequad"]))
    E.eq("likelihood", pta.get_lnlikelihood(P), joint(E, p, which, p.flags["pp_dm"], dme))


@instance("P25", "errors and columns", bounds="1 pulsar with 2 TOAs in 1 bin, 2 other columns or none; fixed DM error scale, no dmequad", ctmo=30000)
def columns(E):
    np, S = E.np, c.sb(E)
    gp, ws, se, pm = mods(E)
    other = [0, 1][E.choose("other", 2)]
    p = wpulsar(E, [0, 0], other=other, symerr=True, freqs=E.array([E.pos("f0", 0.5, 2), E.pos("f1", 0.5, 2)]))
    if E.choose("equad", 2):
        kw, q = dict(log10_dmequad=pm.Constant(1.0)), 10.0
    else:
        kw, q = dict(log10_dmequad=None), 0
    pta = S.PTA([(white(E) + gp.WidebandTimingModel(dmefac=pm.Constant(2.0), dmjump=None, **kw))(p)])
    E.true("parameters", pta.params == [])
    E.eq("likelihood", pta.get_lnlikelihood({}), joint(E, p, [0, 0], p.flags["pp_dm"], 2 * np.sqrt(p.flags["pp_dme"] ** 2 + q ** 2)))


def grouped(E, ref, lab=("x", "y", "x"), jl=("y", "y", "x")):
    gp, ws, se, pm = mods(E)
    sel = se.Selection(se.by_backend)

    def jumpsel(flags):
        return {v: flags["jmp"] == v for v in sorted(set(flags["jmp"]))}

    m = gp.WidebandTimingModel(dmefac=pm.Uniform(0.1, 10), log10_dmequad=pm.Uniform(-7, 0), dmjump=pm.Uniform(-0.01, 0.01), selection=sel, dmjump_selection=se.Selection(jumpsel), dmjump_ref=ref)
    return m, lab, rnp.array(jl)


@instance("P25", "groups and jumps", bounds="1 pulsar with 3 TOAs in 2 bins, errors scaled per backend, jumps per flag value (with or without reference group)", ctmo=30000)
def jumps(E):
    np, S = E.np, c.sb(E)
    ref = [None, "x", "y"][E.choose("ref", 3)]
    m, lab, jl = grouped(E, ref)
    which = [0, 1, 0]
    p = wpulsar(E, which, labels=list(lab))
    p.flags["jmp"] = jl
    pta = S.PTA([(m + white(E))(p)])
    P = values(E, pta)
    E.true("parameters", sorted(P) == sorted(["A_%s_dmefac" % g for g in "xy"] + ["A_%s_log10_dmequad" % g for g in "xy"] + ["A_%s_dmjump" % g for g in "xy" if g != ref]))
    J = {g: P.get("A_%s_dmjump" % g, 0) for g in "xy"}
    dm = p.flags["pp_dm"] + E.array([J[g] for g in jl])
    dme = E.array([P["A_%s_dmefac" % g] for g in lab]) * np.sqrt(p.flags["pp_dme"] ** 2 + E.array([10 ** (2 * P["A_%s_log10_dmequad" % g]) for g in lab]))
    E.eq("likelihood", pta.get_lnlikelihood(P), joint(E, p, which, dm, dme))


@instance("P25", "ingredients", bounds="1 pulsar with 4 TOAs in 2 bins, grouped scales and jumps: prior, delay, adjusted DMs and errors, bin means; two moves and back", ctmo=30000)
def ingredients(E):
    np = E.np
    m, lab, jl = grouped(E, "x", ("x", "y", "x", "x"), ("y", "y", "x", "x"))
    which = [0, 1, 1, 0]
    f = E.array([E.pos("f%d" % i, 0.5, 2) for i in range(4)])
    p = wpulsar(E, which, labels=list(lab), freqs=f, order=[1, 0, 2])
    p.flags["jmp"] = jl
    s = m(p)
    P, Q = values(E, s), values(E, s, "other_")
    for move in [[], ["A_y_dmjump"], ["A_x_dmefac", "A_y_dmefac"], ["A_y_log10_dmequad"], ["A_y_dmjump"], []]:
        R = dict(P, **{k: Q[k] for k in move})
        dm = p.flags["pp_dm"] + E.array([R["A_y_dmjump"] if g == "y" else 0 for g in jl])
        dme = E.array([R["A_%s_dmefac" % g] for g in lab]) * np.sqrt(p.flags["pp_dme"] ** 2 + E.array([10 ** (2 * R["A_%s_log10_dmequad" % g]) for g in lab]))
        E.eq("dm", s.get_dm(R), dm)
        E.eq("dme", s.get_dme(R) ** 2, dme ** 2)
        mean, var = np.zeros(4), np.zeros(2)
        for k in range(2):
            i = [j for j in range(4) if which[j] == k]
            var[k] = 1 / np.sum(1 / dme[i] ** 2)
            mean[i] = var[k] * np.sum(dm[i] / dme[i] ** 2)
        E.eq("mean dm", s.get_mean_dm(R), mean)
        E.eq("mean dme", s.get_mean_dme(R) ** 2, var[which])
        huge = big(E)
        E.eq("prior", s.get_phi(R), E.array([var[0], huge, var[1]]))
        E.eq("inverse prior", s.get_phiinv(R), 1 / E.array([var[0], huge, var[1]]))
        E.eq("delay", s.get_delay(R), (mean - p.dm - E.array([p.dmx[p.names[w]]["DMX"] for w in which])) / (K * f ** 2))


@instance("P25", "with other processes", bounds="1 pulsar with 3 TOAs in 1 bin, plus a marginalized process with 1 column, error scale and delays", ctmo=60000)
def others(E):
    np, S = E.np, c.sb(E)
    gp, ws, se, pm = mods(E)
    which = [0, 0, 0]
    p = wpulsar(E, which, other=1)
    F = E.array([[1], [-1], [3]])
    b = c.fn(E, lambda toas: (F.copy(), E.array([1])))()
    m = gp.BasisGP(c.diag_prior_class(E, 1), b, name="gp") + gp.WidebandTimingModel(log10_dmequad=None, dmjump=None) + ws.MeasurementNoise(efac=c.U(E)) + c.delay_signal(E, 3)
    pta = S.PTA([m(p)])
    P = values(E, pta)
    p2 = wpulsar(E, which, other=1, residuals=p.residuals - E.array([P["A_det_d%d" % k] for k in range(3)]))
    E.eq("likelihood", pta.get_lnlikelihood(P), joint(E, p2, which, p.flags["pp_dm"], P["A_dmefac"] * p.flags["pp_dme"], F, E.array([P["A_gp_phi0"]]), var=P["A_efac"] ** 2 * p.toaerrs ** 2))


@instance("P25", "array", bounds="2 pulsars with 2 TOAs in 1 bin, one sharing nothing: sum of the joint likelihoods; fixed values set by name", ctmo=30000)
def array(E):
    np, S = E.np, c.sb(E)
    gp, ws, se, pm = mods(E)
    m = white(E) + gp.WidebandTimingModel(dmefac=pm.Constant(), log10_dmequad=None, dmjump=None)
    ps = []
    for nm in "AB":
        p = wpulsar(E, [0, 0], other=0, residuals=E.vec("r" + nm, 2))
        p.name = nm
        ps.append(p)
    pta = S.PTA([m(p) for p in ps])
    for pre in ("u", "v"):
        v = {"%s_dmefac" % nm: E.pos(pre + nm, 0.5, 2) for nm in "AB"}
        pta.set_default_params(v)
        E.eq("likelihood " + pre, pta.get_lnlikelihood({}), sum(joint(E, p, [0, 0], p.flags["pp_dm"], v[p.name + "_dmefac"] * p.flags["pp_dme"]) for p in ps))


@instance("P25", "accepted set-ups", bounds="2 TOAs and 2 bins with any boundaries and times: accepted exactly if each TOA lies in one bin, and then assigned to it")
def setups(E):
    np = E.np
    gp, ws, se, pm = mods(E)
    day = E.array([E.real("day0", s=(0, 10)), E.real("day1", s=(0, 10))])
    p = wpulsar(E, [0, 1], other=0, stoas=day * 86400)
    lo, hi = E.vec("lo", 2, s=(0, 6)), E.vec("hi", 2, s=(4, 10))
    for k in range(2):
        E.assume_lt(lo[k], hi[k])
        p.dmx[p.names[k]].update(DMXR1=lo[k], DMXR2=hi[k])
    make = gp.WidebandTimingModel(log10_dmequad=None, dmjump=None)
    inside = [[bool(lo[k] <= day[i]) and bool(day[i] < hi[k]) for k in range(2)] for i in range(2)]
    if all(sum(x) == 1 for x in inside):
        s = make(p)
        if hasattr(s, "_dmwhich"):
            E.true("bins", all(bool(s._dmwhich[k][i]) == inside[i][k] for i in range(2) for k in range(2)))
        if any(x[0] for x in inside) and any(x[1] for x in inside):
            P = {"A_dmefac": E.pos("e", 0.5, 2)}
            d = p.flags["pp_dm"] - p.dm - E.array([p.dmx[p.names[x.index(True)]]["DMX"] for x in inside])
            E.eq("delay", s.get_delay(P), d / (K * p.freqs ** 2))
    else:
        E.true("refused", E.raises(ValueError, make, p))


@instance("P25", "refused set-ups", bounds="2 TOAs in 2 bins: unfitted bin (either), fitted DM, jumps with a single group; and the same set-up without the fault accepted")
def refused(E):
    gp, ws, se, pm = mods(E)
    make = gp.WidebandTimingModel(dmjump=None)
    p = wpulsar(E, [0, 1])
    E.true("accepted", len(make(p).params) == 2)
    for k in range(2):
        p = wpulsar(E, [0, 1])
        p.dmx[p.names[k]]["fit"] = False
        E.true("unfitted bin", E.raises(ValueError, make, p))
    p = wpulsar(E, [0, 1])
    p.fitpars = ["DM" if q == "Offset" else q for q in p.fitpars]
    E.true("fitted dispersion", E.raises(ValueError, make, p))
    p = wpulsar(E, [0, 1])
    E.true("jumps", E.raises(ValueError, gp.WidebandTimingModel(), p))
    E.true("jumps by backend with one backend", E.raises(ValueError, gp.WidebandTimingModel(), p))


@instance("P25", "shared scales", bounds="2 pulsars with 2 TOAs in 1 bin: one error factor given as a named parameter, or fixed parameters given as instances, serves both", ctmo=30000)
def shared(E):
    np, S = E.np, c.sb(E)
    gp, ws, se, pm = mods(E)
    fixed = E.choose("fixed", 2)
    one = pm.Constant(3.0)("fix") if fixed else pm.Uniform(0.1, 10)("common_dmefac")
    m = white(E) + gp.WidebandTimingModel(dmefac=one, log10_dmequad=None, dmjump=None)
    ps = []
    for nm in "AB":
        p = wpulsar(E, [0, 0], other=0, residuals=E.vec("r" + nm, 2))
        p.name = nm
        ps.append(p)
    pta = S.PTA([m(p) for p in ps])
    E.true("parameters %s" % pta.param_names, pta.param_names == ([] if fixed else ["common_dmefac"]))
    v = 3 if fixed else E.pos("v", 0.5, 2)
    E.eq("likelihood", pta.get_lnlikelihood({} if fixed else {"common_dmefac": v}), sum(joint(E, p, [0, 0], p.flags["pp_dm"], v * p.flags["pp_dme"]) for p in ps))


@instance("P25", "differences", bounds="1 pulsar with 3 TOAs in 2 bins, error factor and jumps: differences between DM measurements (or bin means) and DMX values, and their chi-square", ctmo=30000)
def differences(E):
    np = E.np
    gp, ws, se, pm = mods(E)
    m, lab, jl = grouped(E, "x")
    which = [1, 0, 1]
    p = wpulsar(E, which, labels=["x", "x", "y"])
    p.flags["jmp"] = jl
    s = gp.WidebandTimingModel(dmefac=pm.Uniform(0.1, 10), log10_dmequad=None, dmjump=pm.Uniform(-1, 1), dmjump_selection=se.Selection(lambda flags: {"x": flags["jmp"] == "x", "y": flags["jmp"] == "y"}))(p)
    P = values(E, s)
    dm = p.flags["pp_dm"] + E.array([P["A_%s_dmjump" % g] for g in jl])
    dme = P["A_dmefac"] * p.flags["pp_dme"]
    mean, var = np.zeros(3), np.zeros(2)
    for k in range(2):
        i = [j for j in range(3) if which[j] == k]
        var[k] = 1 / np.sum(1 / dme[i] ** 2)
        mean[i] = var[k] * np.sum(dm[i] / dme[i] ** 2)
    want = p.dm + E.array([p.dmx[p.names[w]]["DMX"] for w in which])
    E.eq("DM differences", s.get_delta_dm(P), dm - want)
    E.eq("mean DM differences", s.get_delta_dm(P, use_mean_dm=True), mean - want)
    E.eq("DM chi-square", s.get_dm_chi2(P), np.sum((dm - want) ** 2 / dme ** 2))
    E.eq("mean DM chi-square", s.get_dm_chi2(P, use_mean_dm=True), sum(((mean - want)[which.index(k)]) ** 2 / var[k] for k in range(2)))
