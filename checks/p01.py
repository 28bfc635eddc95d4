"""P01: likelihood of arrays without inter-pulsar correlations is the marginal Gaussian."""
from vlib.harness import instance
from . import common as c

ASSUMPTIONS = ["process priors are positive (diagonal) or positive definite (dense); noise variances positive"]


def lik(E, pta, kind):
    return {"sparse": lambda: pta, "dense": lambda: E.mod("signals.signal_base").PTA(pta.pulsarmodels, lnlikelihood=c.sb(E).LogLikelihoodDenseCholesky)}[kind]()


def check_all(E, cls_pairs, expected, pos, off=()):
    """cls_pairs: list of (model class, pulsar); expected(params) -> log-likelihood"""
    S = c.sb(E)
    for kind in ("sparse", "dense"):
        pta = S.PTA([m(p) for m, p in cls_pairs], lnlikelihood=S.LogLikelihood if kind == "sparse" else S.LogLikelihoodDenseCholesky)
        P = c.params(E, pta, pos=pos, off=off)
        E.eq("lnlike %s dict" % kind, pta.get_lnlikelihood(P), expected(P))
        xs = c.vecparams(E, pta, P)
        E.eq("lnlike %s vector" % kind, pta.get_lnlikelihood(xs), expected(P))
        E.eq("lnlike %s again" % kind, pta.get_lnlikelihood(dict(P)), expected(P))


@instance("P01", "diag-prior-delay", bounds="1 pulsar, 3 TOAs, 2-column symbolic basis, diagonal prior, efac and delay parameters", ctmo=20000)
def h1(E):
    np = E.np
    ws, gp = E.mod("signals.white_signals"), E.mod("signals.gp_signals")
    n, m = 3, 2
    psr = c.pulsar(E, "A", n)
    F = E.mat("F", n, m)
    model = ws.MeasurementNoise(efac=c.U(E)) + gp.BasisGP(c.diag_prior_class(E, m), c.basis_class(E, F), name="gp") + c.delay_signal(E, n)

    def expected(P):
        d = psr.residuals - E.array([P["A_det_d%d" % i] for i in range(n)])
        C = np.diag(P["A_efac"] ** 2 * psr.toaerrs ** 2) + c.dot3(E, F, np.diag(E.array([P["A_gp_phi0"], P["A_gp_phi1"]])), F.T)
        return c.gauss_ll(E, d, C)

    check_all(E, [(model, psr)], expected, ("efac", "phi"))


@instance("P01", "dense-prior-and-no-process", bounds="2 pulsars (3 and 2 TOAs): dense 2x2 prior on the first, no process on the second", ctmo=20000)
def h2(E):
    np = E.np
    ws, gp = E.mod("signals.white_signals"), E.mod("signals.gp_signals")
    p1, p2 = c.pulsar(E, "A", 3), c.pulsar(E, "B", 2)
    F = E.mat("F", 3, 2)
    m1 = ws.MeasurementNoise(efac=c.par(E).Constant(1.0)) + gp.BasisGP(c.dense_prior_class(E, 2), c.basis_class(E, F), name="gp")
    m2 = ws.MeasurementNoise(efac=c.U(E)) + c.delay_signal(E, 2)

    def expected(P):
        phi = E.array([[P["A_gp_a"], P["A_gp_b"]], [P["A_gp_b"], P["A_gp_c"]]])
        C1 = np.diag(p1.toaerrs ** 2) + c.dot3(E, F, phi, F.T)
        d2 = p2.residuals - E.array([P["B_det_d0"], P["B_det_d1"]])
        return c.gauss_ll(E, p1.residuals, C1) + c.gauss_ll(E, d2, np.diag(P["B_efac"] ** 2 * p2.toaerrs ** 2))

    check_all(E, [(m1, p1), (m2, p2)], expected, ("efac", "gp_a", "gp_c"), off=("gp_b",))
    check_all(E, [(m2, p2), (m1, p1)], expected, ("efac", "gp_a", "gp_c"), off=("gp_b",))


@instance("P01", "two-processes-selected", bounds="1 pulsar, 4 TOAs in 2 backends; one process on all TOAs, one per backend, concrete basis entries", ctmo=20000)
def h3(E):
    np = E.np
    ws, gp, se = E.mod("signals.white_signals"), E.mod("signals.gp_signals"), E.mod("signals.selections")
    n = 4
    import numpy as rnp

    psr = c.pulsar(E, "A", n, backend_flags=rnp.array(["x", "y", "x", "y"]), toaerrs=E.array([1, 2, 1, 1]))
    F = E.array([[1, 0], [2, 1], [0, 1], [1, 1]])
    g = E.array([E.real("g%d" % i) for i in range(n)])
    sel = se.Selection(se.by_backend)

    def basis2(toas):
        idx = [i for i in range(n) if any(bool(psr.toas[i] == t) for t in toas)]
        return E.array([[g[i]] for i in idx]), E.array([1])

    m = (ws.MeasurementNoise(efac=c.U(E), selection=sel) + gp.BasisGP(c.diag_prior_class(E, 2), c.basis_class(E, F), name="gp")
         + gp.BasisGP(c.diag_prior_class(E, 1), c.fn(E, basis2)(), selection=sel, name="gs"))

    def expected(P):
        ef = {"x": P["A_x_efac"], "y": P["A_y_efac"]}
        C = np.diag(E.array([ef[b] ** 2 for b in psr.backend_flags]) * psr.toaerrs ** 2)
        C = C + c.dot3(E, F, np.diag(E.array([P["A_gp_phi0"], P["A_gp_phi1"]])), F.T)
        for b in "xy":
            v = E.array([g[i] if psr.backend_flags[i] == b else 0 for i in range(n)])
            C = C + P["A_gs_%s_phi0" % b] * np.outer(v, v)
        return c.gauss_ll(E, psr.residuals, C)

    check_all(E, [(m, psr)], expected, ("efac", "phi"))


def ecorr(method):
    @instance("P01", "ecorr-%s" % method, bounds="1 pulsar, 3 TOAs (one epoch of 2), kernel jitter, 1-column process, white noise only pulsar", ctmo=20000)
    def h(E):
        np = E.np
        ws, gp = E.mod("signals.white_signals"), E.mod("signals.gp_signals")
        psr = c.pulsar(E, "A", 3, toas=E.array([4579200000, 4579200000 + 0.25, 4579300000]))
        F = E.mat("F", 3, 1)
        m = ws.MeasurementNoise(efac=c.U(E)) + ws.EcorrKernelNoise(log10_ecorr=c.U(E), method=method) + gp.BasisGP(c.diag_prior_class(E, 1), c.basis_class(E, F), name="gp") + c.delay_signal(E, 3)

        def expected(P):
            d = psr.residuals - E.array([P["A_det_d%d" % i] for i in range(3)])
            J = np.zeros((3, 3))
            for i in (0, 1):
                for j in (0, 1):
                    J[i, j] = 10 ** (2 * P["A_log10_ecorr"])
            C = np.diag(P["A_efac"] ** 2 * psr.toaerrs ** 2) + J + P["A_gp_phi0"] * np.outer(F[:, 0], F[:, 0])
            return c.gauss_ll(E, d, C)

        check_all(E, [(m, psr)], expected, ("efac", "phi"), off=("ecorr",))

    return h


for meth in ("sherman-morrison", "fast-sherman-morrison", "block", "sparse"):
    ecorr(meth)


@instance("P01", "extra-prior-terms", bounds="2 pulsars with 2 TOAs, signals contributing extra prior terms, no process", ctmo=20000)
def h5(E):
    np = E.np
    ws, S = E.mod("signals.white_signals"), c.sb(E)

    def extra(nm):
        f = c.fn(E, lambda toas, d0, d1: E.array([d0, d1]))(d0=c.U(E), d1=c.U(E))
        Base = E.mod("signals.deterministic_signals").Deterministic(f, name=nm)

        class X(Base):
            def get_logsignalprior(self, params):
                return -params[self.psrname + "_" + nm + "_d0"] ** 2

        return X

    p1, p2 = c.pulsar(E, "A", 2), c.pulsar(E, "B", 2)
    m = ws.MeasurementNoise(efac=c.U(E)) + extra("u") + extra("v")

    def expected(P):
        ll = 0
        for p in (p1, p2):
            n = p.name
            d = p.residuals - sum(E.array([P["%s_%s_d%d" % (n, k, i)] for i in range(2)]) for k in "uv")
            ll = ll + c.gauss_ll(E, d, np.diag(P[n + "_efac"] ** 2 * p.toaerrs ** 2)) - P[n + "_u_d0"] ** 2 - P[n + "_v_d0"] ** 2
        return ll

    check_all(E, [(m, p1), (m, p2)], expected, ("efac",))
