"""P14: epoch grouping and both jitter models describe the same covariance."""
from vlib.harness import instance
from . import common as c

ASSUMPTIONS = ["observation times are arbitrary reals in any order; the window is any positive real"]


def times(E, n, name="t"):
    return E.array([E.real("%s%d" % (name, i), s=(0, 3)) for i in range(n)])


def order_of(t):
    """indices in time order (insertion sort on comparisons)"""
    out = []
    for i in range(len(t)):
        k = len(out)
        while k > 0 and bool(t[i] < t[out[k - 1]]):
            k -= 1
        out.insert(k, i)
    return out


def epochs(t, dt, nmin):
    out, ref = [], None
    for i in order_of(t):
        if ref is None or not bool(t[i] - ref < dt):
            ref = t[i]
            out.append([i])
        else:
            out[-1].append(i)
    return [e for e in out if len(e) >= nmin]


def quant(n, nmin, sym_dt, tier="quick"):
    @instance("P14", "grouping-%d-nmin%d%s" % (n, nmin, "-dt" if sym_dt else ""), bounds="%d TOAs in any order, nmin=%d, %s" % (n, nmin, "any window > 0" if sym_dt else "default window"), maxpaths=3000, tier=tier)
    def h(E):
        u = E.mod("signals.utils")
        t = times(E, n)
        keep = E.snapshot(t)
        dt = E.pos("dt", s=(0.2, 1.5)) if sym_dt else 1
        U, w = (u.create_quantization_matrix(t, dt=dt, nmin=nmin) if sym_dt or nmin != 2 else u.create_quantization_matrix(t))
        ep = epochs(t, dt, nmin)
        X = E.np.zeros((n, len(ep)))
        for k, e in enumerate(ep):
            for i in e:
                X[i, k] = 1
        E.true("number of epochs", U.shape == (n, len(ep)))
        if U.shape == X.shape:
            E.eq("matrix", U, X)
        E.eq("weights", w, E.np.ones(len(ep)))
        E.eq("times unchanged", t, keep)

    return h


quant(3, 2, True)
quant(3, 1, True)
quant(4, 2, False)
quant(4, 3, True, "thorough")
quant(4, 1, True, "thorough")


def jitter_cov(E, t, groups, P, dt=1, name=""):
    """dense covariance: groups is the label per TOA ('' = all), None = no group"""
    n = len(t)
    C = E.np.zeros((n, n))
    for g in sorted({x for x in groups if x is not None}):
        idx = [i for i in range(n) if groups[i] == g]
        sub = [t[i] for i in idx]
        for e in epochs(sub, dt, 2):
            for a in e:
                for b in e:
                    C[idx[a], idx[b]] = 10 ** (2 * P["_".join([k for k in ("A", name, g, "log10_ecorr") if k])])
    return C


def dense_of(E, N, n):
    """covariance represented by N + I through its solver: (N+I)^-1 inverted"""
    sb = E.mod("signals.signal_base")
    M = sb.ndarray_alt(E.np.ones(n)) + N
    Inv = M.solve(E.np.eye(n), left_array=E.np.eye(n))
    return E.inv(Inv) - E.np.eye(n)


def setup(E, n, t, flags):
    import numpy as rnp

    return c.pulsar(E, "A", n, toas=t, toaerrs=E.array([1] * n), residuals=E.array([1] * n), backend_flags=rnp.array(flags))


def models(method, lay):
    flags = {"one": ["x", "x", "x"], "two": ["x", "y", "x", "x"]}[lay]
    n = len(flags)

    @instance("P14", "jitter-%s-%s" % (method, lay), bounds="%d TOAs in any order, groups %s, kernel (%s) and basis models, overridden fixed values" % (n, flags, method), maxpaths=3000, tmo=200)
    def h(E):
        np = E.np
        ws, gp, se = E.mod("signals.white_signals"), E.mod("signals.gp_signals"), E.mod("signals.selections")
        if lay == "two":
            # first TOA of group x may join any of the later ones
            t = E.array([E.real("t0", s=(0, 3)), E.real("t1", s=(0, 3)), E.const(0.5), E.real("t3", s=(0, 3))])
        else:
            t = times(E, n)
        p = setup(E, n, t, flags)
        kw = {} if lay == "one" else {"selection": se.Selection(se.by_backend)}
        groups = flags if lay == "two" else [""] * n
        s = ws.EcorrKernelNoise(log10_ecorr=c.U(E), method=method, **kw)(p)
        ns = sorted({"_".join([k for k in ("A", g, "log10_ecorr") if k]) for g in groups})
        E.true("names", sorted(s.param_names) == ns)
        P = {m: E.real(m, s=(-0.4, 0.4)) for m in ns}
        C = jitter_cov(E, t, groups, P)
        E.eq("kernel", dense_of(E, s.get_ndiag(P), n), C, atol=1e-9)
        if method == "sherman-morrison":
            b = gp.EcorrBasisModel(log10_ecorr=c.U(E), name="", **kw)(p)
            E.true("basis names", sorted(b.param_names) == ns)
            F = b.get_basis(P)
            ph = np.array(b.get_phi(P)) if not E.symbolic else b.get_phi(P)
            if F.shape[1] == 0:
                E.eq("no epochs", C, np.zeros((n, n)))
            else:
                E.eq("basis", c.dot3(E, F, np.diag(ph), F.T), C)
            # the same signal inside a pulsar model, also without any epoch
            m = ws.MeasurementNoise(efac=c.par(E).Constant(1.0)) + gp.EcorrBasisModel(log10_ecorr=c.U(E), name="j", **kw)
            sc = m(p)
            T, phi = sc.get_basis({k.replace("A_", "A_j_", 1): v for k, v in P.items()}), sc.get_phi({k.replace("A_", "A_j_", 1): v for k, v in P.items()})
            if T is None or T.shape[1] == 0:
                E.eq("no epochs in model", C, np.zeros((n, n)))
            else:
                phi = [phi[i] for i in range(len(phi))]
                E.eq("basis in model", c.dot3(E, T, np.diag(E.array(phi)), T.T), C)
            Q = {k.replace("A_", "A_j_", 1): v for k, v in P.items()}
            ll = c.sb(E).PTA([sc]).get_lnlikelihood(Q)
            E.eq("likelihood", ll, c.gauss_ll(E, p.residuals, np.eye(n) + C))

    return h


for m in ("sherman-morrison", "fast-sherman-morrison", "block", "sparse"):
    models(m, "one")
    models(m, "two")


@instance("P14", "unsorted-interleaved", bounds="4 concrete TOAs out of order in one epoch each of two interleaved groups, every method and fixed parameters")
def interleaved(E):
    np = E.np
    ws, gp, se = E.mod("signals.white_signals"), E.mod("signals.gp_signals"), E.mod("signals.selections")
    t = E.array([7, 5, 7.25, 5.5, 5.75])
    flags = ["x", "y", "x", "y", "x"]
    p = setup(E, 5, t, flags)
    P = {"A_x_log10_ecorr": E.real("jx", s=(-0.4, 0.4)), "A_y_log10_ecorr": E.real("jy", s=(-0.4, 0.4))}
    C = jitter_cov(E, t, flags, P)
    for m in ("sherman-morrison", "fast-sherman-morrison", "block", "sparse"):
        s = ws.EcorrKernelNoise(log10_ecorr=c.par(E).Constant(), method=m, selection=se.Selection(se.by_backend))(p)
        s.set_default_params(P)
        E.eq("kernel %s" % m, dense_of(E, s.get_ndiag({}), 5), C, atol=1e-9)
        s = ws.EcorrKernelNoise(log10_ecorr=c.U(E), method=m, selection=se.Selection(se.by_backend), name="nm")(p)
        E.true("names", sorted(s.param_names) == ["A_x_log10_ecorr", "A_y_log10_ecorr"])
        E.eq("varying kernel %s" % m, dense_of(E, s.get_ndiag(P), 5), C, atol=1e-9)


@instance("P14", "prior-function", bounds="2 weights and the jitter parameter arbitrary")
def prior(E):
    gp = E.mod("signals.gp_signals")
    w, j = E.vec("w", 2), E.real("j")
    E.eq("prior", gp.ecorr_basis_prior(w, log10_ecorr=j), E.array([x * 10 ** (2 * j) for x in w]))
    E.eq("default", gp.ecorr_basis_prior(w), E.array([x * E.array([1e-16])[0] for x in w]))
