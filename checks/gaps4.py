"""instances for callers that keep and change their own objects (parameter vectors, dictionaries, lists of settings), and
for names that contain one another"""
import numpy as rnp

from vlib.harness import instance
from . import common as c


# ---------------------------------------------------------------- P06, P08
@instance("P06", "caller's objects", bounds="2 pulsars x 2 TOAs: one dictionary (and one parameter vector, and one coefficient array) kept by the caller and changed in place between evaluations; any values", ctmo=20000, tmo=200)
def inplace(E):
    from .p06 import history, outs, flat, same, moves, psr

    np = E.np
    ws, ds, gp, P = E.mod("signals.white_signals"), E.mod("signals.deterministic_signals"), E.mod("signals.gp_signals"), c.par(E)
    ps = [psr(E, n, 2) for n in "AB"]
    wf = c.fn(E, lambda toas, v: E.array([v[0], 2 * v[1]]))(v=P.Uniform(-10, 10, size=2)("v"))
    m = ws.MeasurementNoise(efac=c.U(E)) + ds.Deterministic(wf, name="d") + gp.BasisGP(c.diag_prior_class(E, 1), c.fn(E, lambda toas, k=1: (E.array([[1], [k]]), E.array([1])))(k=c.U(E)), name="gp")
    make = lambda: c.sb(E).PTA([m(p) for p in ps])
    pta = make()
    names = [q.name for q in pta.params]
    start = {q.name: (E.vec(q.name, q.size) if q.size else E.pos(q.name, s=(0.6, 1.8)) if any(k in q.name for k in ("efac", "phi")) else E.real(q.name, s=(0.1, 0.4))) for q in pta.params}
    seq = moves(E, pta, start, only=("A_efac", "gp_k", "phi", "v"))
    keep, buf = {}, E.array([0] * 2)
    vec = E.array([0] * (len(names) + 1))
    form = E.choose("form", 2)
    for k, Q in enumerate(seq):
        buf[:] = Q["v"]
        if form == 0:
            keep.update(Q)
            keep["v"] = buf
            arg = keep
        else:
            vec[:] = np.concatenate([np.atleast_1d(Q[n]) for n in names])
            arg = vec
        fresh = {n: (E.array(list(x)) if E.np.ndim(x) else x) for n, x in Q.items()}
        if form == 0:
            for (nm, x), (_, y) in zip(outs(E, pta, arg), outs(E, make(), fresh)):
                same(E, "move %d " % k, nm, flat(E, nm, x), flat(E, nm, y))
        else:
            E.eq("likelihood %d" % k, pta.get_lnlikelihood(arg), make().get_lnlikelihood(fresh))
            got = pta.map_params(arg)
            for n in names:
                E.eq("mapped %s %d" % (n, k), got[n], fresh[n])


@instance("P08", "caller's vector", bounds="the 9-parameter array: one vector kept by the caller and changed in place; any values inside the supports")
def vector(E):
    from .p08 import build, names_of

    np = E.np
    pta, want = build(E)
    nm = names_of(want)
    rng = {"A_efac": (-4, 6), "B_det_x10": (0, 1), "B_det_x2": (0, 1), "B_efac": (-1, 3), "a_hyper": (-9, 9), "Z_width": (1, 5), "shared_0": (-3, 3), "shared_1": (-3, 3)}
    log = lambda x: np.log(E.array([x]))[0]
    nl = lambda x, m, s: -0.5 * ((x - m) / s) ** 2 - log(s) - 0.5 * log(2 * np.pi)
    xs = E.array([0] * len(nm))
    cube = E.array([0] * len(nm))
    for step in range(3):
        val = {n: E.real("%s_%d" % (n, step), *rng[n]) if n in rng else E.real("%s_%d" % (n, step)) for n in nm}
        for n, (a, b) in rng.items():
            E.assume_le(a, val[n], b)
        for i, n in enumerate(nm):
            xs[i] = val[n]
        ll = nl(val["A_det_w"], val["a_hyper"], val["Z_width"]) + sum(nl(val["A_det_v_%d" % i], 0, 2) for i in range(3))
        ll = ll - log(10) - log(18) - log(4) - 2 * log(6)
        ll = ll + log(log(10)) + val["B_efac"] * log(10) - log(1000 - E.array([0.1])[0])
        E.eq("prior %d" % step, pta.get_lnprior(xs), ll)
        got = pta.map_params(xs)
        k = 0
        for n, s in want:
            E.eq("mapped %s %d" % (n, step), got[n], val[n] if s is None else E.array([val["%s_%d" % (n, i)] for i in range(s)]))
            k += s or 1
    # the cube in a second loop, so that nothing else is evaluated between two states of one vector
    for step in range(3):
        for i in range(len(nm)):
            cube[i] = E.real("u%d_%d" % (i, step), 0, 1, s=(0.2, 0.8))
            E.assume_lt(0, cube[i], 1)
        tr = pta.get_hypercube_transform(cube)
        j = nm.index("a_hyper")
        E.eq("cube %d" % step, tr[j], -9 + 18 * cube[j])
        j = nm.index("shared_1")
        E.eq("cube vector %d" % step, tr[j], -3 + 6 * cube[j])


# ---------------------------------------------------------------- P24
@instance("P24", "common basis parameters", bounds="2 pulsars with 2 TOAs, common process with explicit coefficients over a basis with a varying parameter; moves of coefficients, basis and correlation parameters and back", ctmo=20000)
def commonbasis(E):
    from .p24 import fixed_noise, white_ll, mods

    np, S = E.np, c.sb(E)
    gp, ws, se, pm = mods(E)
    psrs = [c.pulsar(E, n, 2, pos=E.array(q)) for n, q in zip("AB", ([1, 0, 0], [0, 1, 0]))]
    F = {n: E.mat("F" + n, 2, 2) for n in "AB"}
    for p in psrs:
        p.bkey = p.name
    basis = c.fn(E, lambda toas, bkey, w=1: (F[bkey] * E.array([1, w]), E.array([1, 2])))(w=pm.Uniform(-10, 10) if E.choose("per pulsar", 2) else pm.Uniform(-10, 10)("w"))
    m = fixed_noise(E) + gp.BasisCommonGP(c.diag_prior_class(E, 2), basis, c.fn(E, lambda pos1, pos2, h=1: h)(h=c.U(E)), coefficients=True, name="gw")
    pta = S.PTA([m(p) for p in psrs])
    P = {q.name: (E.vec(q.name, 2) if q.size else E.pos(q.name, 0.1, 9)) for q in pta.params}
    Q = {k: (E.vec("other_" + k, 2) if "coef" in k else E.pos("other_" + k, 0.1, 9)) for k in P}
    ws_ = {n: [k for k in P if k == "w" or k == n + "_gw_w"] for n in "AB"}
    E.true("basis parameters", all(len(x) == 1 for x in ws_.values()))
    for move in [[]] + [[k] for k in sorted(P)] + [sorted(P), []]:
        R = dict(P, **{k: Q[k] for k in move})
        d = [np.dot(F[n] * E.array([1, R[ws_[n][0]]]), R[n + "_gw_coefficients"]) for n in "AB"]
        for n, x, y in zip("AB", pta.get_delay(R), d):
            E.eq("delay %s %s" % (n, move), x, y)
        E.eq("likelihood %s" % move, pta.get_lnlikelihood(R), sum(white_ll(E, p.residuals - x, p.toaerrs ** 2) for p, x in zip(psrs, d)))


# ---------------------------------------------------------------- P25
@instance("P25", "names of groups", bounds="1 pulsar with 3 TOAs in 1 bin; group names that contain one another, every choice of the reference group: its jump alone is zero", ctmo=30000)
def refnames(E):
    from .p25 import wpulsar, mods, white, joint, values

    np, S = E.np, c.sb(E)
    gp, ws, se, pm = mods(E)
    lab = ["R", "R_8", "R_80"]
    ref = [None, "R", "R_8", "R_80", "R_800"][E.choose("ref", 5)]
    sel = se.Selection(se.by_backend)
    m = gp.WidebandTimingModel(dmefac=pm.Constant(1.0), log10_dmequad=None, dmjump=pm.Uniform(-0.01, 0.01), dmjump_selection=sel, dmjump_ref=ref)
    p = wpulsar(E, [0, 0, 0], labels=lab)
    pta = S.PTA([(m + white(E))(p)])
    P = values(E, pta)
    E.true("parameters %s" % sorted(P), sorted(P) == sorted("A_%s_dmjump" % g for g in lab if g != ref))
    dm = p.flags["pp_dm"] + E.array([P.get("A_%s_dmjump" % g, 0) for g in lab])
    E.eq("likelihood", pta.get_lnlikelihood(P), joint(E, p, [0, 0, 0], dm, p.flags["pp_dme"]))


# ---------------------------------------------------------------- P10
@instance("P10", "value given", bounds="scalar and size-2 Normal/Uniform/LinearExp/user-defined densities over hyperparameters: an explicit value wins over the entry of that name; any two values")
def given(E):
    from .p10 import npdf

    np, P = E.np, c.par(E)
    x, y, a, b, mu, sg = E.real("x"), E.real("y"), E.real("a"), E.real("b"), E.real("mu"), E.pos("sg")
    par = {"p": a, "v": E.array([a, b]), "p_mu": mu, "sig": sg, "lo": mu, "w": a, "e": a, "s": 0.5}
    log = lambda v: np.log(E.array([v]))[0]
    p = P.Normal(mu=P.Uniform(-10, 10), sigma=P.LinearExp(-1, 1)("sig"))("p")
    v = P.Normal(mu=P.Uniform(-10, 10)("p_mu"), sigma=2, size=2)("v")
    u = P.UserParameter(prior=c.fn(E, lambda value, s: s * value ** 2 + 1)(s=P.Uniform(0, 1)("s")))("w")
    for k in range(2):
        E.eq("given %d" % k, p.get_pdf(x, params=par), npdf(E, x, mu, sg))
        E.eq("by keyword %d" % k, p.get_pdf(value=y, params=par), npdf(E, y, mu, sg))
        E.eq("log given %d" % k, p.get_logpdf(x, params=par), log(npdf(E, x, mu, sg)))
        E.eq("by name %d" % k, p.get_pdf(params=par), npdf(E, a, mu, sg))
        E.eq("vector given %d" % k, v.get_pdf(E.array([x, y]), params=par), npdf(E, x, mu, 2) * npdf(E, y, mu, 2))
        E.eq("vector log given %d" % k, v.get_logpdf(E.array([x, y]), params=par), log(npdf(E, x, mu, 2)) + log(npdf(E, y, mu, 2)))
        E.eq("vector by name %d" % k, v.get_pdf(params=par), npdf(E, a, mu, 2) * npdf(E, b, mu, 2))
        E.eq("user given %d" % k, u.get_pdf(x, params=par), E.const(0.5) * x ** 2 + 1)
        E.eq("user log given %d" % k, u.get_logpdf(x, params=par), log(E.const(0.5) * x ** 2 + 1))
        E.eq("user by name %d" % k, u.get_pdf(params=par), E.const(0.5) * a ** 2 + 1)
    q = E.real("q", 0, 1, s=(0.1, 0.9))
    E.eq("quantile given", p.get_ppf(q, params=dict(par, p=E.real("other"))), mu + sg * E.sci("scipy.special").ndtri(E.array([q]))[0])
    E.eq("values untouched", par["v"], E.array([a, b]))


# ---------------------------------------------------------------- P17
@instance("P17", "array span", bounds="3 pulsars with any first and last observation (spans that overlap, contain or follow one another), common Fourier process without a given span, 1 mode: one span for the whole array, in every block of the prior", ctmo=20000, tmo=200)
def arrayspan(E):
    np = E.np
    gp, pm, u = E.mod("signals.gp_signals"), c.par(E), E.mod("signals.utils")
    lo = [E.const(x) for x in (0, 3000, 1000)]
    hi = [E.real("last%d" % k, s=(4000, 9000)) for k in range(3)]
    for x in hi:
        E.assume_lt(3500, x)
    lo[1] = E.real("first1", s=(-3000, 3000))
    E.assume_lt(lo[1], 3400)
    pos = [E.array(x) for x in ([1, 0, 0], [0, 1, 0], [0, 0, 1])]
    ps = [c.pulsar(E, "ABC"[k], 2, toas=E.array([lo[k], hi[k]]), pos=pos[k]) for k in range(3)]
    orf = c.fn(E, lambda pos1, pos2: 1 + pos1[0] + 2 * pos1[1] + 3 * pos2[1] + pos2[0])()
    m = gp.FourierBasisCommonGP(c.fn(E, lambda f, amp: amp * f)(amp=c.U(E)), orf, components=1, name="gw") + E.mod("signals.white_signals").MeasurementNoise(efac=pm.Constant(1.0))
    pta = c.sb(E).PTA([m(p) for p in ps])
    amp = E.pos("amp")
    T = max(hi) - min(lo)
    for k in range(2):
        Phi = np.array(pta.get_phi({"gw_amp": amp}))
        E.true("size", Phi.shape == (6, 6))
        x = [pos[0][0] + 2 * pos[0][1], pos[1][0] + 2 * pos[1][1], 0]
        for i in range(3):
            for j in range(i, 3):
                w = 1 + pos[i][0] + 2 * pos[i][1] + 3 * pos[j][1] + pos[j][0]
                E.eq("prior %d%d %d" % (i, j, k), Phi[2 * i : 2 * i + 2, 2 * j : 2 * j + 2] * T, np.diag(E.array([amp * w, amp * w])))
        for p, B in zip(ps, pta.get_basis({"gw_amp": amp})):
            ph = 2 * np.pi * p.toas / T
            E.eq("basis %s %d" % (p.name, k), B, np.stack([np.sin(ph), np.cos(ph)], axis=1))


# ---------------------------------------------------------------- P22
from .p22 import STUBS, trip  # noqa: E402


@instance("P22", "long labels", bounds="3 TOAs stored unsorted; flag names and values of 1 to 300 characters (also blanks, non-ASCII letters, digits only), in both flag formats", maxpaths=40, extra=STUBS)
def longlabels(E):
    L = {"f": ["Rcvr1_2_" + "x" * 40, "a" * 100, "b" * 300], "n" * 70: ["1", "0" * 64 + "1", ""], "u": ["\u00e9t\u00e9 \u03bc" * 20, " lead", "trail  "], "grp": ["x" * 33 + k for k in "abc"], "num": ["1e5", "007", "nan"]}
    fl = {k: rnp.array(v) for k, v in L.items()}
    trip(E, 3, 2, None, record=bool(E.choose("record", 2)), fl=fl, how=E.choose("how", 3))


# ---------------------------------------------------------------- P28
@instance("P28", "overlap of three pulsars", bounds="3 pulsars and 2 pixels at fixed directions, any map", ctmo=20000)
def overlap3(E):
    from .p28 import Sky, pattern, cov, mods

    np = E.np
    gt, gp = E.array([1.7, 2.4]), E.array([2.5, 5.1])
    Sky(E, 2, 0, angles=(gt, gp))
    pt, pp = [0.4, 1.3, 2.2], [3.1, 0.7, 5.5]
    h = E.vec("h", 2)
    R = [[pattern(E, pp[i], pt[i], gp[k], gt[k], 2) for k in range(2)] for i in range(3)]
    E.eq("overlap", mods(E).orfFromMap_fast(E.array([[pp[i], pt[i]] for i in range(3)]), h), cov(E, R, h))


# ---------------------------------------------------------------- P12
@instance("P12", "known backends", bounds="6 TOAs with labels of every NANOGrav backend, names that contain one of them or differ in case, and others, in several orders")
def knownbackends(E):
    from .p12 import by, check, NG, ps, se

    s = se(E)
    names = NG + [k.lower() for k in NG] + ["x" + NG[0] + "y", "Rcvr_" + NG[6], "GBT", "VEG", "S", ""]
    k = E.choose("first", len(names))
    lab = rnp.array([names[(k + j * j) % len(names)] for j in (0, 1, 2, 0, 3, 4)])
    p = ps(E, "A", 6, backend_flags=lab)
    check(E, "nanograv", s.Selection(s.nanograv_backends)(p).masks, by(lab, NG))
    check(E, "all", s.Selection(s.by_backend)(p).masks, by(lab))
    check(E, "custom", s.Selection(s.custom_backends(NG[3:] + ["gbt"]))(p).masks, by(lab, NG[3:] + ["gbt"]))


# ---------------------------------------------------------------- P17
@instance("P17", "some pulsars", bounds="3 pulsars at any positions; two processes correlated between pulsars, each on any two of the three (and on all), in one model; own process on the first: cross terms between the pulsars that share a process and nowhere else")
def somepulsars(E):
    from .p17 import D, F, G, expect, setup, ut, value

    gp, pm, ws = E.mod("signals.gp_signals"), c.par(E), E.mod("signals.white_signals")
    pos, psrs = setup(E)
    on = [(0, 1), (0, 2), (1, 2), (0, 1, 2)][E.choose("first", 4)]
    on2 = [(), (1, 2), (0, 2)][E.choose("second", 3)]
    mk = lambda M, orf, nm: gp.BasisCommonGP(c.diag_prior_class(E, 2), c.basis_class(E, E.array(M)), orf, name=nm)
    c1, c2 = mk(F, ut(E).hd_orf(), "gw"), mk(G, ut(E).dipole_orf(), "eph")
    own = gp.BasisGP(c.diag_prior_class(E, 2), c.basis_class(E, E.array(F)), name="own")
    out = []
    for k, p in enumerate(psrs):
        m = ws.MeasurementNoise(efac=pm.Constant(1.0))
        for here, s in ((k == 0, own), (k in on, c1), (k in on2, c2)):
            if here:
                m = m + s
        out.append(m(p) if k in on or k in on2 or k == 0 else c.sb(E).SignalCollection([m])(p))
    pta = c.sb(E).PTA(out)
    P = c.params(E, pta, pos=("phi",))
    corr = lambda nm, on: (lambda a, b: value(E, nm, pos[a], pos[b], a == b) if a in on and b in on else None)
    procs = [(F, D([P["gw_phi0"], P["gw_phi1"]]), corr("hd", on))]
    if on2:
        procs.append((G, D([P["eph_phi0"], P["eph_phi1"]]), corr("dipole", on2)))
    expect(E, pta, P, psrs, procs, {0: (F, D([P["A_own_phi0"], P["A_own_phi1"]]))})


# ---------------------------------------------------------------- P15
@instance("P15", "seed values", bounds="2 TOAs, 2 modes; seeds 0, 1, -0 and numpy integers; with and without random phases asked for: phases drawn, repeatable, and seeds distinguished; achromatic and general bases; any random streams")
def seedvalues(E):
    from .p15 import freqs, gb, sc_cos

    T = E.pos("T")
    t = E.array([3400, 5000])
    f = [1 / T, 2 / T]
    kind = E.choose("general", 2)
    kw = {"pshift": True} if E.choose("pshift", 2) else {}
    call = lambda s: (gb(E).createfourierdesignmatrix_general(t, freqs(E, 2), {}, nmodes=2, Tspan=T, pseed=s, **kw) if kind else gb(E).createfourierdesignmatrix_red(t, nmodes=2, Tspan=T, pseed=s, **kw))[0]
    first = {}
    for s in (0, 1, rnp.int64(2), 0):
        n = len(E.draws("u"))
        B = call(s)
        u = E.draws("u")[n:]
        E.true("phases drawn %s" % s, len(u) == 2)
        E.eq("basis %s" % s, B, sc_cos(E, t, f, [2 * E.np.pi * x for x in u]))
        if int(s) in first:
            E.eq("repeatable %s" % s, B, first[int(s)][0])
        first.setdefault(int(s), (B, [str(x) for x in u]))
    S = [first[k][1] for k in (0, 1, 2)]
    E.true("seeds distinguished", S[0] != S[1] and S[1] != S[2] and S[0] != S[2])


# ---------------------------------------------------------------- P11
@instance("P11", "attributes as they are", bounds="pulsar attributes and explicit arguments that are None, zero, False, empty, arrays or any real number: the function receives that object, not its own default; per-TOA attributes likewise")
def attributes(E):
    p = c.par(E)
    x = E.real("x")
    arr = E.array([x, 0, 1, 2])
    vals = [None, 0, 0.0, False, "", {}, (), x, arr, rnp.zeros(0)]
    v = vals[E.choose("value", len(vals))]
    got = []

    def f(toas, planetssb="own default", freqs=None, other="own"):
        got.append((planetssb, other))
        return toas

    ps = c.pulsar(E, "A", 4, planetssb=v)
    same = lambda a, b: a is b or (type(a) is type(b) and not isinstance(a, rnp.ndarray) and not hasattr(a, "shape") and a == b)
    for n, kw in (("class", {}), ("other declared", {"other": x})):
        F = p.Function(f, "fn", **kw)("own", psr=ps)
        for k in range(2):
            del got[:]
            F(ps.toas)
            E.true("%s %d" % (n, k), len(got) == 1 and (same(got[0][0], v) or (isinstance(v, rnp.ndarray) and isinstance(got[0][0], rnp.ndarray) and got[0][0].shape == v.shape)))
            if isinstance(v, rnp.ndarray) and v.size:
                E.eq("entries %s %d" % (n, k), got[0][0], v)


# ---------------------------------------------------------------- P13
@instance("P13", "overlapping groups", bounds="4 TOAs; groups that overlap, nest, coincide, miss TOAs or are empty (6 layouts); all three noise kinds: variances of every group a TOA is in add up")
def overlapping(E):
    np, S, P = E.np, c.sb(E), c.par(E)
    ws, se = E.mod("signals.white_signals"), E.mod("signals.selections")
    lay = [{"a": [1, 1, 1, 1], "b": [0, 1, 0, 1]}, {"a": [1, 1, 0, 0], "b": [0, 1, 1, 0]}, {"a": [1, 0, 1, 1], "b": [1, 0, 1, 1]},
           {"b": [1, 1, 1, 1], "a": [0, 0, 1, 0], "c": [0, 1, 1, 0]}, {"a": [0, 0, 0, 0], "b": [1, 0, 0, 1]}, {"z": [1, 1, 1, 0], "y": [0, 1, 1, 1]}][E.choose("layout", 6)]
    sel = se.Selection(lambda toas: {k: rnp.array(v, dtype=bool) for k, v in lay.items()})
    kind = E.choose("kind", 3)
    p = c.pulsar(E, "A", 4)
    if kind == 0:
        cls = ws.MeasurementNoise(efac=P.Uniform(0, 9), selection=sel)
    elif kind == 1:
        cls = ws.MeasurementNoise(efac=P.Uniform(0, 9), log10_t2equad=P.Uniform(-9, 9), selection=sel)
    else:
        cls = ws.TNEquadNoise(log10_tnequad=P.Uniform(-9, 9), selection=sel)
    s = cls(p)
    ef = {k: E.pos("efac_" + k) for k in lay}
    eq = {k: E.real("equad_" + k) for k in lay}
    x = {}
    for k in lay:
        x.update({"A_%s_efac" % k: ef[k], "A_%s_log10_t2equad" % k: eq[k], "A_%s_log10_tnequad" % k: eq[k]})
    var = lambda k, i: [ef[k] ** 2 * p.toaerrs[i] ** 2, ef[k] ** 2 * (p.toaerrs[i] ** 2 + 10 ** (2 * eq[k])), 10 ** (2 * eq[k])][kind]
    want = [sum((var(k, i) for k in lay if lay[k][i]), E.const(0)) for i in range(4)]
    E.eq("variances", s.get_ndiag(x), E.array(want))
    E.eq("collection", S.SignalCollection([cls])(p).get_ndiag(x), E.array(want))


# ---------------------------------------------------------------- P15
@instance("P15", "chromatic indices", bounds="2 TOAs, 2 modes, any radio frequencies; indices 0, 0.0, -2, 1, 6 and any other real number; every basis with an index; reference frequencies")
def chromaticidx(E):
    from .p15 import freqs, gb, sc_cos, rep

    np = E.np
    T = E.pos("T")
    t, nu = E.array([3400, 5000]), freqs(E, 2)
    n = E.choose("index", 6)
    i = E.real("idx") if n == 5 else (0, 0.0, -2, 1, 6)[n]
    which = E.choose("which", 4)
    if n == 5:
        E.assume_ne(i, 0)
    ref = 1400
    if which == 0:
        F, f = gb(E).createfourierdesignmatrix_chromatic(t, nu, nmodes=2, Tspan=T, idx=i)
    elif which == 1:
        ref = E.pos("fref")
        F, f = gb(E).createfourierdesignmatrix_dm_tn(t, nu, nmodes=2, Tspan=T, idx=i, fref=ref)
    elif which == 2:
        F, f = gb(E).createfourierdesignmatrix_general(t, nu, {}, nmodes=2, Tspan=T, idx=i)
    else:
        sel = {"group": rnp.array(["x", "y"])}
        F, f = gb(E).createfourierdesignmatrix_general(t, nu, sel, nmodes=2, Tspan=T, idx=i, flagval="y")
    k = np.sqrt(E.const(12)) * np.pi / E.const(1400) / E.const(1400) / E.const(2.41e-4) if which == 1 else 1
    fac = [(ref / x) ** i * k for x in nu]
    if which == 3:
        fac[0] = 0
    B = sc_cos(E, t, [1 / T, 2 / T])
    E.eq("frequencies", f, rep(E, [1 / T, 2 / T]))
    E.eq("matrix", F, E.array([[B[k, j] * fac[k] for j in range(4)] for k in range(2)]))
