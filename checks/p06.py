"""P06: what is evaluated depends on the current parameters only, not on the history."""
from vlib.harness import instance
from . import common as c

ASSUMPTIONS = [
    "the reference is a newly built model evaluated once at the same parameters (its value is decided by the other properties)",
    "old and new parameter values differ (equal values are the trivial case)",
    "CHOLMOD precondition: a factor may only be updated with a matrix inside the analysed sparsity pattern (checked in the encoding and in replays)",
]


def phi_of(E, phi):
    if phi is None:
        return None
    if hasattr(phi, "ndim") and phi.ndim == 1:
        return E.array([phi[i] for i in range(len(phi))])
    return E.array([[phi[i, j] for j in range(phi.shape[1])] for i in range(phi.shape[0])])


def outs(E, pta, P, ll=True):
    """every quantity of the array, in a fixed order, as live (not copied) objects"""
    np = E.np
    out = []
    for k, sc in enumerate(pta.pulsarmodels):
        for s in sc.signals:
            nm = "%d.%s" % (k, s.signal_id)
            N = s.get_ndiag(P)
            if N is not None:
                out.append((nm + ".ndiag", N))
            out.append((nm + ".delay", s.get_delay(P)))
        out.append(("%d.ndiag" % k, sc.get_ndiag(P)))
        for q in ("delay", "detres", "basis", "phi", "TNr", "TNT", "rNr_logdet"):
            out.append(("%d.%s" % (k, q), getattr(sc, "get_" + q)(P)))
    out.append(("logsignalprior", pta.get_logsignalprior(P)))
    if ll:
        out.append(("phiinv", pta.get_phiinv(P, logdet=True)))
        out.append(("likelihood", pta.get_lnlikelihood(P)))
    return out


def flat(E, nm, v):
    np = E.np
    if v is None:
        return None
    if "phiinv" in nm:
        v = v if isinstance(v, list) else [v]
        r = []
        for x in v:
            if x is not None:
                a, b = x
                a = a.toarray() if hasattr(a, "toarray") else np.array(a)
                r.append(a.copy())
                r.append(b)
        return r
    if nm.endswith(".phi"):
        return phi_of(E, v)
    if nm.endswith("ndiag") and not hasattr(v, "toarray"):
        if hasattr(v, "Mmat") or not hasattr(v, "solve") and not isinstance(v, E.np.ndarray):
            return None
        if isinstance(v, E.np.ndarray):
            return v.copy()
        if E.np.ndim(v._nvec) == 0:
            return E.array(v._jvec) if hasattr(v, "_jvec") else [b.copy() for b in v._blocks]
        return v.solve(np.eye(len(v._nvec)), left_array=np.eye(len(v._nvec)))
    if hasattr(v, "toarray"):
        return v.toarray().copy()
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, list):
        return E.array(v) if all(x is not None and E.np.ndim(x) == 0 for x in v) else v
    return v.copy() if isinstance(v, np.ndarray) else v


def same(E, label, nm, got, exp):
    if isinstance(exp, list) and any(x is not None and E.np.ndim(x) for x in exp):
        E.true(label + nm + " length", len(got) == len(exp))
        for i, (a, b) in enumerate(zip(got, exp)):
            E.eq("%s%s.%d" % (label, nm, i), a, b)
    else:
        E.eq(label + nm, got, exp)


def history(E, make, seq, ll=True, quiet=("phi", "basis")):
    """evaluate the points of seq in one model; compare each with a new model evaluated once, and
    check that values returned before are still what they were"""
    pta = make()
    held = []
    for k, P in enumerate(seq):
        o = outs(E, pta, P, ll)
        f = [(nm, flat(E, nm, v)) for nm, v in o]
        ref = outs(E, make(), P, ll)
        for (nm, v), (nm2, r) in zip(f, ref):
            r = flat(E, nm2, r)
            same(E, "step %d " % k, nm, v, r)
        held.append((k, o, f))
    for k, o, f in held[:-1]:
        for (nm, v), (_, was) in zip(o, f):
            if nm.rsplit(".", 1)[-1] in quiet:
                continue
            same(E, "kept from step %d " % k, nm, flat(E, nm, v), was)


def moves(E, pta, P, only=None):
    """P, then P with each single parameter changed, then P again"""
    seq = [P]
    for p in pta.params:
        if only and not any(k in p.name for k in only):
            continue
        Q = dict(P)
        old = P[p.name]
        if p.size:
            new = [E.real("new_%s_%d" % (p.name, i)) for i in range(p.size)]
            E.assume_ne(new[0], old[0])
            Q[p.name] = E.array([new[0]] + list(old[1:]))
        else:
            pos = any(k in p.name for k in ("efac", "phi", "dme"))
            Q[p.name] = E.pos("new_" + p.name, s=(0.6, 1.8)) if pos else E.real("new_" + p.name, s=(0.1, 0.4))
            E.assume_ne(Q[p.name], old)
        seq.append(Q)
    return seq + [P]


def noise(E, method):
    ws = E.mod("signals.white_signals")
    m = ws.MeasurementNoise(efac=c.U(E)) + ws.TNEquadNoise(log10_tnequad=c.U(E))
    if method:
        m = m + ws.EcorrKernelNoise(log10_ecorr=c.U(E), method=method)
    return m


def psr(E, name="A", n=3, **kw):
    kw.setdefault("toas", E.array([4579200000, 4579200000 + 0.25, 4579300000, 4579400000][:n]))
    kw.setdefault("toaerrs", E.array([1, 2, 1, 3][:n]))
    kw.setdefault("residuals", E.array([1, -2, 3, 1][:n]))
    kw.setdefault("pos", E.array([0.6, 0.8, 0]))
    return E.psr(name, freqs=E.array([1400] * n), **kw)


def white(method):
    @instance("P06", "white-%s" % (method or "diagonal"), bounds="1 pulsar, 3 TOAs, error scale, added noise, jitter (%s), delay and 1-column process; every single-parameter move and back" % method, ctmo=20000, tmo=200)
    def h(E):
        p = psr(E)
        gp = E.mod("signals.gp_signals")
        m = noise(E, method) + c.delay_signal(E, 3) + gp.BasisGP(c.diag_prior_class(E, 1), c.basis_class(E, E.array([[1], [2], [-1]])), name="gp")
        make = lambda: c.sb(E).PTA([m(p)])
        pta = make()
        P = c.params(E, pta, pos=("efac", "phi"))
        history(E, make, moves(E, pta, P))

    return h


for meth in (None, "sherman-morrison", "fast-sherman-morrison", "block", "sparse"):
    white(meth)


@instance("P06", "marginalized", bounds="1 pulsar, 3 TOAs, marginalizing timing model (1 column), delay and process; every single-parameter move and back", ctmo=20000)
def marg(E):
    gp, ws = E.mod("signals.gp_signals"), E.mod("signals.white_signals")
    p = psr(E, Mmat=E.array([[1], [2], [2]]))
    m = ws.MeasurementNoise(efac=c.U(E)) + gp.MarginalizingTimingModel(normed=False) + c.delay_signal(E, 3) + gp.BasisGP(c.diag_prior_class(E, 1), c.basis_class(E, E.array([[1], [2], [-1]])), name="gp")
    make = lambda: c.sb(E).PTA([m(p)])
    pta = make()
    P = c.params(E, pta, pos=("efac", "phi"))
    history(E, make, moves(E, pta, P))


def pbasis(E, name):
    """2-column basis with a parameter in it"""
    def basis(toas, k=2):
        n = len(toas)
        return E.array([[1 + i * k, k - i] for i in range(n)]), E.array([1, 2])

    return c.fn(E, basis)(k=c.U(E))


@instance("P06", "basis-parameters", bounds="1 pulsar, 3 TOAs, basis with a varying parameter, second process sharing columns, error scale; every single-parameter move and back", ctmo=20000)
def basisparams(E):
    gp, ws = E.mod("signals.gp_signals"), E.mod("signals.white_signals")
    p = psr(E)
    m = ws.MeasurementNoise(efac=c.U(E)) + gp.BasisGP(c.diag_prior_class(E, 2), pbasis(E, "k"), name="gp") + gp.BasisGP(c.diag_prior_class(E, 1), c.basis_class(E, E.array([[1], [2], [-1]])), name="fx")
    make = lambda: c.sb(E).PTA([m(p)])
    pta = make()
    P = c.params(E, pta, pos=("efac", "phi"))
    history(E, make, moves(E, pta, P))


@instance("P06", "coefficients", bounds="1 pulsar, 3 TOAs, process coefficients as parameters over a basis with a varying parameter; every single-parameter move and back", ctmo=20000)
def coeffs(E):
    gp, ws = E.mod("signals.gp_signals"), E.mod("signals.white_signals")
    p = psr(E)
    m = ws.MeasurementNoise(efac=c.U(E)) + gp.BasisGP(c.diag_prior_class(E, 2), pbasis(E, "k"), coefficients=True, name="gp")
    make = lambda: c.sb(E).PTA([m(p)])
    pta = make()
    P = c.params(E, pta, pos=("efac", "phi"))
    history(E, make, moves(E, pta, P))
    # the coefficients' prior
    cp = [x for x in pta.params if x.name == "A_gp_coefficients"][0]
    for k, Q in enumerate(moves(E, pta, P, only=("phi", "coefficients", "gp_k"))):
        ref = [x for x in make().params if x.name == "A_gp_coefficients"][0]
        E.eq("coefficient prior %d" % k, cp.get_logpdf(params=Q), ref.get_logpdf(params=Q))


@instance("P06", "common", bounds="2 pulsars x 2 TOAs, common process with a varying correlation that may be exactly zero, own processes; moves in both directions (sparse likelihood)", ctmo=30000, tmo=250)
def common(E):
    gp, ws = E.mod("signals.gp_signals"), E.mod("signals.white_signals")
    ps = [psr(E, "A", 2), psr(E, "B", 2, pos=E.array([0, 0.6, 0.8]))]
    F = E.array([[1], [2]])
    orf = c.fn(E, lambda pos1, pos2, g: 1 if pos1 is pos2 else g)(g=c.U(E))
    gw = gp.BasisCommonGP(c.diag_prior_class(E, 1), c.basis_class(E, F), orf, name="gw")
    m = ws.MeasurementNoise(efac=c.U(E)) + gw
    make = lambda: c.sb(E).PTA([m(p) for p in ps])
    pta = make()
    P = c.params(E, pta, pos=("efac", "phi"), off=("gw_g",))
    Z = dict(P)
    Z["gw_g"] = 0
    Q = dict(P)
    Q["A_efac"] = E.pos("new_efac", s=(0.6, 1.8))
    E.assume_ne(Q["A_efac"], P["A_efac"])
    E.assume_ne(P["gw_g"], 0)
    E.assume_pd(E.array([[1, P["gw_g"]], [P["gw_g"], 1]]))
    history(E, make, [Z, P, Q, Z, P])


@instance("P06", "common-dense-likelihood", bounds="2 pulsars x 2 TOAs, common process, dense Cholesky likelihood", ctmo=30000, tmo=250)
def commondense(E):
    gp, ws = E.mod("signals.gp_signals"), E.mod("signals.white_signals")
    sb = c.sb(E)
    ps = [psr(E, "A", 2), psr(E, "B", 2, pos=E.array([0, 0.6, 0.8]))]
    orf = c.fn(E, lambda pos1, pos2, g: 1 if pos1 is pos2 else g)(g=c.U(E))
    gw = gp.BasisCommonGP(c.diag_prior_class(E, 1), c.basis_class(E, E.array([[1], [2]])), orf, name="gw")
    m = ws.MeasurementNoise(efac=c.U(E)) + gw + c.delay_signal(E, 2)
    make = lambda: sb.PTA([m(p) for p in ps], lnlikelihood=sb.LogLikelihoodDenseCholesky)
    pta = make()
    P = c.params(E, pta, pos=("efac", "phi"), off=("gw_g",))
    S = moves(E, pta, P, only=("gw", "A_efac", "A_det_d0"))
    for Q in S:
        E.assume_pd(E.array([[1, Q["gw_g"]], [Q["gw_g"], 1]]))
    history(E, make, S)


@instance("P06", "fixed-values", bounds="1 pulsar, 3 TOAs, all noise, delay, basis and prior parameters fixed; evaluated, changed one by one, evaluated, at pulsar and array level", ctmo=20000)
def fixed(E):
    gp, ws, ds = E.mod("signals.gp_signals"), E.mod("signals.white_signals"), E.mod("signals.deterministic_signals")
    C = c.par(E).Constant
    p = psr(E)

    def basis(toas, k=2):
        return E.array([[1 + i * k, k - i] for i in range(len(toas))]), E.array([1, 2])

    def mk(method):
        wf = c.fn(E, lambda toas, d0, d1: E.array([d0, d1, 2]))
        pr = c.fn(E, lambda f, phi0, phi1: E.array([phi0, phi1]))
        return (
            ws.MeasurementNoise(efac=C())
            + ws.EcorrKernelNoise(log10_ecorr=C(), method=method)
            + ds.Deterministic(wf(d0=C(), d1=C()), name="det")
            + gp.BasisGP(pr(phi0=C(), phi1=C()), c.fn(E, basis)(k=C()), name="gp")
            + gp.BasisGP(pr(phi0=C(), phi1=C()), c.fn(E, basis)(k=C()), name="two")
        )

    names = ["A_efac", "A_log10_ecorr", "A_det_d0", "A_det_d1", "A_gp_phi0", "A_gp_phi1", "A_gp_k", "A_two_phi0", "A_two_phi1", "A_two_k"]
    val = lambda pre, nm: E.pos(pre + nm, s=(0.6, 1.8)) if "efac" in nm or "phi" in nm else E.real(pre + nm, s=(0.2, 0.9))
    V = {nm: val("v_", nm) for nm in names}
    E.assume_ne(V["A_gp_k"], V["A_two_k"])
    for method in ("sherman-morrison", "sparse"):
        m = mk(method)

        def fresh(vals):
            x = c.sb(E).PTA([m(p)])
            x.set_default_params(vals)
            return x

        pta = fresh(V)
        cur = dict(V)
        outs(E, pta, {}, False)
        for nm in names:
            cur[nm] = val("w_", nm)
            E.assume_ne(cur[nm], V[nm])
            if nm == "A_two_k":
                # now both bases coincide
                cur[nm] = cur["A_gp_k"]
            pta.set_default_params({nm: cur[nm]})
            got, ref = outs(E, pta, {}, False), outs(E, fresh(cur), {}, False)
            for (a, v), (b, r) in zip(got, ref):
                same(E, "%s after %s: " % (method, nm), a, flat(E, a, v), flat(E, b, r))


@instance("P06", "fixed-likelihood", bounds="1 pulsar, 3 TOAs; likelihood at fixed noise and prior values changed one by one, and overridden in the parameters")
def fixedll(E):
    gp, ws = E.mod("signals.gp_signals"), E.mod("signals.white_signals")
    C = c.par(E).Constant
    p = psr(E)
    pr = c.fn(E, lambda f, phi0: E.array([phi0]))
    m = ws.MeasurementNoise(efac=C()) + ws.EcorrKernelNoise(log10_ecorr=C(), method="sherman-morrison") + gp.BasisGP(pr(phi0=C()), c.basis_class(E, E.array([[1], [2], [-1]])), name="gp") + c.delay_signal(E, 3)
    names = ["A_efac", "A_log10_ecorr", "A_gp_phi0"]
    val = lambda pre, nm: E.pos(pre + nm, s=(0.6, 1.8)) if "efac" in nm or "phi" in nm else E.real(pre + nm, s=(0.2, 0.9))
    V = {nm: val("v_", nm) for nm in names}
    W = {nm: val("w_", nm) for nm in names}
    D = {"A_det_d%d" % i: E.real("d%d" % i) for i in range(3)}

    def fresh(vals):
        x = c.sb(E).PTA([m(p)])
        x.set_default_params(vals)
        return x

    pta = fresh(V)
    E.eq("first", pta.get_lnlikelihood(D), fresh(V).get_lnlikelihood(D))
    cur = dict(V)
    for nm in names:
        E.assume_ne(W[nm], V[nm])
        E.eq("overridden " + nm, pta.get_lnlikelihood({**D, nm: W[nm]}), fresh({**cur, nm: W[nm]}).get_lnlikelihood(D))
        E.eq("not overridden " + nm, pta.get_lnlikelihood(D), fresh(cur).get_lnlikelihood(D))
        cur[nm] = W[nm]
        pta.set_default_params({nm: W[nm]})
        E.eq("changed " + nm, pta.get_lnlikelihood(D), fresh(cur).get_lnlikelihood(D))


@instance("P06", "fixed-values-sc", bounds="1 pulsar, 2 TOAs; a constant changed through the pulsar model and through the signal")
def fixedsc(E):
    ws = E.mod("signals.white_signals")
    p = psr(E, "A", 2)
    x, y, z = E.pos("x"), E.pos("y"), E.pos("z")
    E.assume_ne(x, y)
    E.assume_ne(y, z)
    sc = c.sb(E).SignalCollection([ws.MeasurementNoise(efac=c.par(E).Constant())])(p)
    s = sc.signals[0]
    s.set_default_params({"A_efac": x})
    E.eq("first", s.get_ndiag({}), E.array([x ** 2, 4 * x ** 2]))
    s.set_default_params({"A_efac": y})
    E.eq("signal", s.get_ndiag({}), E.array([y ** 2, 4 * y ** 2]))
    E.eq("pulsar", sc.get_ndiag({}), E.array([y ** 2, 4 * y ** 2]))
    sc.set_default_params({"A_efac": z})
    E.eq("pulsar changed", sc.get_ndiag({}), E.array([z ** 2, 4 * z ** 2]))
    E.eq("signal changed", s.get_ndiag({}), E.array([z ** 2, 4 * z ** 2]))
    E.eq("override", sc.get_ndiag({"A_efac": x}), E.array([x ** 2, 4 * x ** 2]))
    E.eq("back", sc.get_ndiag({}), E.array([z ** 2, 4 * z ** 2]))


@instance("P06", "vector-parameters", bounds="1 pulsar, 2 TOAs, vector parameter in a delay; moves of each entry, replaced in place by the caller")
def vectors(E):
    ds, ws = E.mod("signals.deterministic_signals"), E.mod("signals.white_signals")
    P = c.par(E)
    p = psr(E, "A", 2)
    wf = c.fn(E, lambda toas, v: E.array([v[0], 2 * v[1]]))(v=P.Uniform(-10, 10, size=2)("v"))
    m = ws.MeasurementNoise(efac=P.Constant(1)) + ds.Deterministic(wf, name="d")
    pta = c.sb(E).PTA([m(p)])
    a, b, d = E.real("a"), E.real("b"), E.real("d")
    E.assume_ne(a, d)
    E.assume_ne(b, d)
    for k, (x, y) in enumerate([(a, b), (d, b), (a, d), (a, b)]):
        E.eq("dict %d" % k, pta.get_delay({"v": E.array([x, y])})[0], E.array([x, 2 * y]))
    buf = E.array([a, b])
    E.eq("buffer", pta.get_delay({"v": buf})[0], E.array([a, 2 * b]))
    buf[0] = d
    E.eq("buffer changed", pta.get_delay({"v": buf})[0], E.array([d, 2 * b]))
    ll = [pta.get_lnlikelihood(E.array([x, y])) for x, y in ((a, b), (d, b), (a, b))]
    r = p.residuals
    f = lambda x, y: -0.5 * ((r[0] - x) ** 2 + (r[1] - 2 * y) ** 2 / 4 + E.np.log(E.array([4]))[0])
    for k, (x, y) in enumerate(((a, b), (d, b), (a, b))):
        E.eq("likelihood %d" % k, ll[k], f(x, y))


@instance("P06", "wideband", bounds="1 pulsar, 3 TOAs, wideband timing model with two DMX bins; every single-parameter move and back", ctmo=20000)
def wideband(E):
    import numpy as rnp

    gp, ws, se = E.mod("signals.gp_signals"), E.mod("signals.white_signals"), E.mod("signals.selections")
    p = psr(E, "A", 3, Mmat=E.array([[1, 0, 0], [0, 1, 0], [0, 0, 1]]), fitpars=["F0", "DMX_0001", "DMX_0002"], backend_flags=rnp.array(["x", "y", "x"]))
    p.dm = E.const(10)
    p.flags = {"pp_dm": E.array([10, 11, 12]), "pp_dme": E.array([1, 2, 1])}
    p.dmx = {"DMX_0001": {"DMX": E.const(0.5), "DMXR1": 52999, "DMXR2": 53001, "fit": True}, "DMX_0002": {"DMX": E.const(1), "DMXR1": 53001, "DMXR2": 53003, "fit": True}}
    p.stoas = p.toas
    m = ws.MeasurementNoise(efac=c.U(E)) + gp.WidebandTimingModel(dmefac=c.U(E), log10_dmequad=c.U(E), dmjump=c.U(E), dmjump_selection=se.Selection(se.by_backend))
    make = lambda: c.sb(E).PTA([m(p)])
    pta = make()
    P = c.params(E, pta, pos=("efac",))
    history(E, make, moves(E, pta, P))


@instance("P06", "ephemeris", bounds="1 pulsar, 3 TOAs in 2 epochs, physical ephemeris delay; frame drift and mass parameters moved and back")
def ephem(E):
    ds, ws = E.mod("signals.deterministic_signals"), E.mod("signals.white_signals")
    P = c.par(E)
    p = psr(E)
    p.pos_t = E.array([[0.6, 0.8, 0]] * 3)
    p.planetssb = E.array([[[k + i + 1, k - i, 2 * k + a] for a in range(1) for k in [j]][0] for i in range(3) for j in range(9)]).reshape(3, 9, 3)
    for epochs in (True, False):
        ph = ds.PhysicalEphemerisSignal(frame_drift_rate=P.Uniform(-1, 1)("dz"), d_jupiter_mass=P.Uniform(-1, 1)("mj"), d_saturn_mass=0, d_uranus_mass=0, d_neptune_mass=0, jup_orb_elements=E.array([0] * 6), sat_orb_elements=E.array([0] * 6), use_epoch_toas=epochs)
        m = ws.MeasurementNoise(efac=P.Constant(1)) + ph
        make = lambda: c.sb(E).PTA([m(p)])
        pta = make()
        history(E, make, moves(E, pta, c.params(E, pta)), ll=False)


WHERE = ["basis", "second group", "common basis", "prior", "common prior", "delay", "second delay"]


@instance("P06", "failed evaluations", bounds="1 pulsar, 3 TOAs: own process in 2 groups and common process with bases, priors and a two-group delay of varying parameters, any one of which raises an error at some point; evaluations before and after one or two failures (5 points, with returns)", ctmo=30000, tmo=250, maxpaths=200)
def failed(E):
    gp, ws, se, ds = E.mod("signals.gp_signals"), E.mod("signals.white_signals"), E.mod("signals.selections"), E.mod("signals.deterministic_signals")
    where = WHERE[E.choose("where", len(WHERE))]
    twice = bool(E.choose("twice", 2))
    bad = E.const(-7)  # the value outside of the domain of the function
    p = psr(E, backend_flags=E.np.array(["x", "y", "x"]))

    def check(v):
        if v is bad:
            raise ValueError("outside of the domain")

    def basis(toas, k=2):
        check(k)
        return E.array([[1 + i * k] for i in range(len(toas))]), E.array([k])

    def prior(f, a):
        check(a)
        return a * f ** 2

    def wave(toas, d):
        check(d)
        return E.array([d + i for i in range(len(toas))])

    by = se.Selection(se.by_backend)
    pr = c.fn(E, prior)
    m = (
        ws.MeasurementNoise(efac=c.U(E))
        + gp.BasisGP(pr(a=c.U(E)), c.fn(E, basis)(k=c.U(E)), selection=by, name="own")
        + gp.BasisCommonGP(pr(a=c.U(E)), c.fn(E, lambda toas, k=2: basis(toas, k))(k=c.U(E)), c.fn(E, lambda pos1, pos2: 1)(), name="gw")
        + ds.Deterministic(c.fn(E, wave)(d=c.U(E)), selection=by, name="wf")
    )
    make = lambda: c.sb(E).PTA([m(p)])
    pta = make()
    P = c.params(E, pta, pos=("efac", "_a", "_k"))
    name = {"basis": "A_own_x_k", "second group": "A_own_y_k", "common basis": "A_gw_k", "prior": "A_own_y_a", "common prior": "gw_a", "delay": "A_wf_x_d", "second delay": "A_wf_y_d"}[where]
    name = name if name in P else name[2:]
    # the first group's parameter moves along with the failing one
    along = {"second group": "A_own_x_k", "prior": "A_own_x_a", "second delay": "A_wf_x_d"}.get(where)

    def move(v, tag):
        Q = dict(P)
        Q[name] = v
        if along:
            Q[along] = E.pos("along_" + tag, s=(0.6, 1.8))
            E.assume_ne(Q[along], P[along])
        return Q

    R, S = [move(E.pos("to_" + t, s=(0.6, 1.8)), t) for t in "RS"]
    E.assume_ne(P[name], bad)
    E.assume_ne(R[name], P[name])
    E.assume_ne(S[name], P[name])
    E.assume_ne(R[name], S[name])
    if along:
        E.assume_ne(R[along], S[along])
    F = move(bad, "F")
    for k, Q in enumerate([P, F, P, R, F if twice else S, S, R, P]):
        if Q is F:
            E.true("step %d fails" % k, E.raises(ValueError, lambda: outs(E, pta, F)))
            continue
        for (nm, v), (nm2, r) in zip(outs(E, pta, Q), outs(E, make(), Q)):
            same(E, "step %d " % k, nm, flat(E, nm, v), flat(E, nm2, r))


@instance("P06", "inputs kept", bounds="2 pulsars, 3 TOAs, symbolic residuals, design matrix of one column (marginalized three ways), noise by backend with jitter (3 layouts), vector delay, given coefficients, common process; likelihood, priors, transform, draws and summary leave the pulsars' data and the given parameters as they were", ctmo=30000, tmo=250, maxpaths=200)
def kept(E):
    np, ut = E.np, E.mod("signals.utils")
    gp, ws, se, ds, pm = E.mod("signals.gp_signals"), E.mod("signals.white_signals"), E.mod("signals.selections"), E.mod("signals.deterministic_signals"), c.par(E)
    method = ["sherman-morrison", "block", "sparse"][E.choose("layout", 3)]
    tm = E.choose("timing model", 3)
    by = se.Selection(se.by_backend)
    ps = [
        psr(E, nm, 3, toas=E.array([4579200000, 4579200000 + 0.25, 4579300000]), residuals=E.vec("r" + nm, 3), Mmat=E.array([[1], [2], [2]]), fitpars=["F0"],
            flags={"f": np.array(["x", "x", "y"])}, backend_flags=np.array(["x", "x", "y"]), pos=E.array(x))
        for nm, x in (("A", [0.6, 0.8, 0]), ("B", [0, 0.6, 0.8]))
    ]
    F, G = E.array([[1], [2], [-1]]), E.array([[1], [0], [1]])
    m = (
        ws.MeasurementNoise(efac=pm.Constant(1.0), selection=by)
        + ws.EcorrKernelNoise(log10_ecorr=pm.Constant(0.0), selection=by, method=method)
        + [gp.TimingModel(), gp.TimingModel(normed=False), gp.MarginalizingTimingModel()][tm]
        + ds.Deterministic(c.fn(E, lambda toas, v: v[0] * toas / 86400 + v[1])(v=pm.Uniform(-10, 10, size=2)), name="wf")
        + gp.BasisGP(c.diag_prior_class(E, 1), c.basis_class(E, G), coefficients=True, name="given")
        + gp.BasisCommonGP(c.diag_prior_class(E, 1), c.basis_class(E, F), c.fn(E, lambda pos1, pos2: 1 if pos1 is pos2 else 0.5)(), name="gw")
    )
    data = ("toas", "stoas", "toaerrs", "residuals", "freqs", "Mmat", "pos", "backend_flags", "theta", "phi", "fitpars", "telescope")
    held = [{a: E.snapshot(getattr(p, a, None)) for a in data} for p in ps]
    lists = [(list(p.fitpars), {k: v.copy() for k, v in p.flags.items()}) for p in ps]
    pta = c.sb(E).PTA([m(p) for p in ps])
    P = c.params(E, pta, pos=("phi",))
    for k, v in P.items():
        if k.endswith("wf_v"):
            for x in v:
                E.assume_le(-10, x, 10)
    keep = {k: E.snapshot(v) for k, v in P.items()}
    names = list(P)
    outs(E, pta, P)
    pta.get_lnprior(P)
    pta.summary()
    pta.set_default_params({"nobody": 1.0})
    if tm != 2:
        cg = ut.ConditionalGP(pta)
        cg.get_mean_coefficients(P)
        cg.get_mean_processes(P)
        ut.get_coefficients(pta, P, variance=False, common_sparse=True)
    outs(E, pta, P)
    E.true("parameter names", list(P) == names)
    for k in names:
        E.eq("parameter " + k, P[k], keep[k])
    for p, h, (fp, fl) in zip(ps, held, lists):
        E.true("names " + p.name, list(p.fitpars) == fp and sorted(p.flags) == sorted(fl) and all((p.flags[k] == v).all() for k, v in fl.items()))
        for a in data:
            v = getattr(p, a, None)
            if isinstance(v, np.ndarray):
                if v.dtype.kind in "US":
                    E.true("%s %s" % (p.name, a), (v == h[a]).all())
                else:
                    E.eq("%s %s" % (p.name, a), v, h[a])
