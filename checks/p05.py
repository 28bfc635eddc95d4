"""P05: noise combined with the marginalizing timing model is the projected inverse."""
from vlib.harness import instance
from . import common as c
from .p04 import build, dense

ASSUMPTIONS = [
    "noise variances positive; M'N^-1M positive definite (full-rank design matrix)",
    "CHOLMOD is its contract (exact solve and log-determinant of a symmetric positive definite matrix)",
]
L40 = 1e40


def logdet40(E, k):
    return k * E.np.log(E.array([1e40]))[0]


def proj(E, D, M):
    np = E.np
    Di = E.inv(D)
    DM = np.dot(Di, M)
    MNM = np.dot(M.T, DM)
    return Di - np.dot(DM, np.dot(E.inv(MNM), DM.T)), E.logdet(D) + E.logdet(MNM) + logdet40(E, M.shape[1])


def combos(E, N, Pm, ld, n, tag=""):
    np = E.np
    r, l = E.vec("r" + tag, n), E.vec("l" + tag, n)
    A, B = E.mat("A" + tag, n, 2), E.mat("B" + tag, n, 1)
    keep = [E.snapshot(x) for x in (r, l, A, B)]
    for again in ("", " again"):
        v, g = N.solve(r, left_array=r, logdet=True)
        E.eq("rPr" + again, v, np.dot(r, np.dot(Pm, r)))
        E.eq("logdet" + again, g, ld)
        E.eq("rPr no logdet" + again, N.solve(r, left_array=r), np.dot(r, np.dot(Pm, r)))
        E.eq("APr" + again, N.solve(r, left_array=A), np.dot(A.T, np.dot(Pm, r)))
        E.eq("BPr" + again, N.solve(r, left_array=B), np.dot(B.T, np.dot(Pm, r)))
        E.eq("APA" + again, N.solve(A, left_array=A), np.dot(A.T, np.dot(Pm, A)))
        E.eq("APB" + again, N.solve(B, left_array=A), np.dot(A.T, np.dot(Pm, B)))
        E.eq("BPA" + again, N.solve(A, left_array=B), np.dot(B.T, np.dot(Pm, A)))
        E.eq("BPB" + again, N.solve(B, left_array=B), np.dot(B.T, np.dot(Pm, B)))
        E.eq("lPr" + again, N.solve(r, left_array=l), np.dot(l, np.dot(Pm, r)))
        E.eq("APl" + again, N.solve(l, left_array=A), np.dot(A.T, np.dot(Pm, l)))
    for nm, x, y in zip("rlAB", (r, l, A, B), keep):
        E.eq("input %s unchanged" % nm, x, y)


def make(rep, order):
    @instance("P05", "%s-%s" % (rep, order), bounds="4 TOAs (2 for diagonal + symbolic M), 1 or 2 timing columns, 1/2-column left and right arrays, repeated calls", ctmo=20000)
    def h(E):
        sb, gp = E.mod("signals.signal_base"), E.mod("signals.gp_signals")
        if rep == "diag":
            n, blocks = 3, []
            M = E.mat("M", n, 1)
        else:
            n, blocks = 4, [[1, 2]]
            M = E.array([[1, 0], [1, 1], [1, 2], [1, 5]])
        nv = E.array([E.pos("n%d" % i) for i in range(n)]) if rep == "diag" else E.array([E.pos("n0"), 2, E.pos("n2"), 1])
        jv = E.array([E.pos("j%d" % k) for k in range(len(blocks))])
        parts = [sb.ndarray_alt(nv)]
        D = dense(E, n, blocks, nv, jv)
        if rep == "diag2":
            parts, D = parts + [sb.ndarray_alt(nv)], E.np.diag(2 * nv)
        elif rep != "diag":
            parts.append(build(E, rep, n, blocks, nv, jv, "slice"))
        Mk = E.snapshot(M)
        mm = gp.MarginalizingNmat(M)
        N = sum({"first": [mm] + parts, "last": parts + [mm], "middle": parts[:1] + [mm] + parts[1:]}[order])
        Pm, ld = proj(E, D, M)
        combos(E, N, Pm, ld, n)
        E.eq("M unchanged", M, Mk)

    return h


for rep in ("diag", "diag2", "sm", "fsm", "block", "sparse"):
    for order in ({"diag": ("last",), "diag2": ("first", "last", "middle")}.get(rep, ("first", "middle"))):
        make(rep, order)


@instance("P05", "two-operators-reused-arrays", bounds="3 TOAs, 1 column; two noise models on the same arrays, interleaved calls, array replaced", ctmo=20000)
def interleave(E):
    np = E.np
    sb, gp = E.mod("signals.signal_base"), E.mod("signals.gp_signals")
    M = E.array([[1], [2], [-1]])
    n1, n2 = (E.array([E.pos("%s%d" % (k, i)) for i in range(3)]) for k in "nm")
    base = gp.MarginalizingNmat(M)
    N1, N2 = sb.ndarray_alt(n1) + base, sb.ndarray_alt(n2) + base
    (P1, l1), (P2, l2) = proj(E, np.diag(n1), M), proj(E, np.diag(n2), M)
    r, s = E.vec("r", 3), E.vec("s", 3)
    T = E.mat("T", 3, 1)
    for k, x in enumerate((r, s, r)):
        for lab, N, P, l in (("1", N1, P1, l1), ("2", N2, P2, l2)):
            E.eq("%s rPr %d" % (lab, k), N.solve(x, left_array=x), np.dot(x, np.dot(P, x)))
            E.eq("%s TPr %d" % (lab, k), N.solve(x, left_array=T), np.dot(T.T, np.dot(P, x)))
            E.eq("%s ld %d" % (lab, k), N.solve(x, left_array=x, logdet=True)[1], l)
    N3 = N1 + sb.ndarray_alt(n2)
    P3, l3 = proj(E, np.diag(n1 + n2), M)
    E.eq("sum of both", N3.solve(r, left_array=r), np.dot(r, np.dot(P3, r)))
    E.eq("first operand unchanged", N1.solve(r, left_array=r), np.dot(r, np.dot(P1, r)))
    E.true("two marginalizing models rejected", E.raises(ValueError, lambda: N1 + base))
    E.true("unsupported arguments rejected", E.raises(ValueError, N1.solve, T, r))


def model(name, bounds, method="fast-sherman-morrison", **kw):
    @instance("P05", name, bounds=bounds, ctmo=30000)
    def h(E):
        np = E.np
        ws, gp = E.mod("signals.white_signals"), E.mod("signals.gp_signals")
        n = 4
        M = E.array([[1, 0], [1, 1], [1, 2], [1, 5]])
        psr = c.pulsar(E, "A", n, Mmat=M, toaerrs=E.array([1, 2, 1, 1]), toas=E.array([4579200000, 4579200000 + 0.25, 4579300000, 4579400000]))
        T = E.array([[1, 1], [2, 0], [0, 3], [1, -1]])
        tm = gp.MarginalizingTimingModel(**kw)
        sig = {"first": [0, 1, 2], "last": [1, 2, 0]}
        for order in ("first", "last"):
            parts = [tm, ws.MeasurementNoise(efac=c.U(E)), ws.EcorrKernelNoise(log10_ecorr=c.U(E), method=method), gp.BasisGP(c.diag_prior_class(E, 2), c.basis_class(E, T), name="gp")]
            parts = parts if order == "first" else parts[1:] + parts[:1]
            m = parts[0]
            for p in parts[1:]:
                m = m + p
            pta = c.sb(E).PTA([m(psr)])
            P = c.params(E, pta, pos=("efac", "phi"))
            J = np.zeros((n, n))
            J[:2, :2] = J[:2, :2] + 10 ** (2 * P["A_log10_ecorr"])
            D = np.diag(P["A_efac"] ** 2 * psr.toaerrs ** 2) + J
            Mn = M / np.sqrt(np.sum(M ** 2, axis=0)) if kw.get("normed", True) else M
            Pm, ld = proj(E, D, Mn)
            phi = E.array([P["A_gp_phi0"], P["A_gp_phi1"]])
            TPr = np.dot(T.T, np.dot(Pm, psr.residuals))
            S = np.dot(T.T, np.dot(Pm, T)) + np.diag(1 / phi)
            ll = -0.5 * (np.dot(psr.residuals, np.dot(Pm, psr.residuals)) + ld) + 0.5 * (np.dot(TPr, np.dot(E.inv(S), TPr)) - E.logdet(S) - E.logdet(np.diag(phi)))
            E.eq("likelihood %s" % order, pta.get_lnlikelihood(P), ll)
            E.eq("likelihood %s again" % order, pta.get_lnlikelihood(P), ll)

    return h


model("model-normed", "1 pulsar, 4 TOAs, one jitter epoch, 2 timing columns (normalized), 2-column process, both signal orders")
model("model-unnormed", "1 pulsar, 4 TOAs, one jitter epoch, 2 timing columns (not normalized), 2-column process, both signal orders", normed=False)
for _m in ("sherman-morrison", "block", "sparse"):
    model("model-" + _m, "as model-normed with the %s jitter representation" % _m, _m)


@instance("P05", "views", bounds="3 TOAs, 1 timing column; arrays that are different views of one buffer (reversed rows or columns, transposes, rows of one array), in any order", ctmo=20000)
def views(E):
    np = E.np
    sb, gp = E.mod("signals.signal_base"), E.mod("signals.gp_signals")
    n = E.array([E.pos("n%d" % i) for i in range(3)])
    M = E.array([[1], [2], [-1]])
    Pm, ld = proj(E, np.diag(n), M)
    N = gp.MarginalizingNmat(M) + sb.ndarray_alt(n)
    X = E.mat("X", 3, 3)
    vs = [X, X[:, ::-1], X.T, X[::-1], X]
    if E.choose("from the end", 2):
        vs = vs[::-1]
    for k, Z in enumerate(vs):
        E.eq("2d %d" % k, N.solve(Z, left_array=Z), np.dot(Z.T, np.dot(Pm, Z)))
        E.eq("1d %d" % k, N.solve(Z[:, 0], left_array=Z[:, 0]), np.dot(Z[:, 0], np.dot(Pm, Z[:, 0])))
        a = Z[:, 0]
        for j, b in enumerate((a, Z[:, 1], a[::-1])):
            E.eq("1d %d %d" % (k, j), N.solve(b, left_array=b, logdet=True)[0], np.dot(b, np.dot(Pm, b)))
            E.eq("2d 1d %d %d" % (k, j), N.solve(b, left_array=Z), np.dot(Z.T, np.dot(Pm, b)))
        E.eq("2d 2d %d" % k, N.solve(Z, left_array=X), np.dot(X.T, np.dot(Pm, Z)))
