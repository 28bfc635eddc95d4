"""instances written after a line and branch coverage review of the encoding (tools/linecov.py)"""
import numpy as rnp

from vlib.harness import instance
from . import common as c


# ---------------------------------------------------------------- P23
@instance("P23", "conditional, dense prior", bounds="2 pulsars with 2 TOAs: one process of 2 coefficients with any dense prior, and one with one coefficient, in either order; any residuals; Cholesky path", ctmo=60000, maxpaths=20)
def p23(E):
    from .p23 import every, post
    from .p02 import red

    np = E.np
    ps = [c.pulsar(E, n, 2, toaerrs=E.array([1, 2])) for n in "AB"]
    for p in ps:
        p.bkey = p.name
    F = {"A": E.array([[1, 2], [2, 1]]), "B": E.array([[1], [3]])}
    noise = E.mod("signals.white_signals").MeasurementNoise(efac=c.par(E).Constant(1.0))
    scs = [(noise + red(E, F, dense=True))(ps[0]), (noise + red(E, {"B": F["B"]}))(ps[1])]
    a, b, d, f = E.pos("a", s=(1.5, 3.0)), E.real("b", s=(-0.5, 0.5)), E.pos("d", s=(1.5, 3.0)), E.pos("f", s=(0.5, 1.5))
    E.assume_lt(0, a * d - b * b)
    P = {"A_red_a": a, "A_red_b": b, "A_red_c": d, "B_red_phi0": f}
    A = post(E, F["A"], ps[0], E.inv(E.array([[a, b], [b, d]])))
    B = post(E, F["B"], ps[1], E.array([[1 / f]]))
    o = [0, 1] if E.choose("order", 2) == 0 else [1, 0]
    parts = [A, B]
    C = np.zeros((3, 3))
    i = 0
    for k in o:
        n = len(parts[k][0])
        C[i : i + n, i : i + n] = parts[k][1]
        i += n
    every(E, c.sb(E).PTA([scs[k] for k in o]), P, ["%s_red" % "AB"[k] for k in o], np.concatenate([parts[k][0] for k in o]), C, basis=[F["AB"[k]] for k in o], coef=False, draws=1)


@instance("P23", "refused", bounds="2 pulsars with shared columns and a common process: every reader of the conditional refuses; timing parameters without a pulsar are refused")
def p23r(E):
    from .p02 import red, gwclass, gorf, arrays

    psrs = arrays(E, pos=[E.array([1, 0, 0]), E.array([0, 1, 0])], symerr=False)
    F = {"A": E.array([[1], [2]]), "B": E.array([[-1], [1]])}
    noise = E.mod("signals.white_signals").MeasurementNoise(efac=c.par(E).Constant(1.0))
    m = noise + gwclass(E, F, gorf(E)) + red(E, F)
    pta = c.sb(E).PTA([m(p) for p in psrs])
    P = {q.name: E.const(0.5) if q.name.endswith("_g") else E.pos(q.name, s=(0.5, 1.5)) for q in pta.params}
    ut = E.mod("signals.utils")
    E.true("conditional", E.raises(IndexError, ut.ConditionalGP(pta).get_mean_coefficients, P))
    E.true("coefficients", E.raises(IndexError, lambda: ut.get_coefficients(pta, P, common_sparse=True)))
    p = c.pulsar(E, "A", 3, toaerrs=E.array([1, 2, 1]), Mmat=E.array([[1, -1], [1, 0], [1, 2]]), fitpars=["Offset", "F0"])
    tm = c.sb(E).PTA([(E.mod("signals.gp_signals").TimingModel(use_svd=False, normed=False) + noise)(p)])
    E.true("no pulsar", E.raises(ValueError, ut.ConditionalGP(tm, tm_params=["F0"]).get_mean_coefficients, {}))


# ---------------------------------------------------------------- P24
@instance("P24", "common and marginalized", bounds="2 pulsars with 2 TOAs: a common process with explicit coefficients next to a marginalized own process and a marginalized common process or none; any residuals, coefficients and amplitudes", ctmo=60000, maxpaths=20)
def p24(E):
    from .p02 import joint

    np, S = E.np, c.sb(E)
    gp = E.mod("signals.gp_signals")
    ps = [c.pulsar(E, n, 2, toaerrs=E.array([1, 2]), pos=E.array(q)) for n, q in zip("AB", ([1, 0, 0], [0, 1, 0]))]
    F = {n: E.mat("F" + n, 2, 1) for n in "AB"}
    G = {"A": E.array([[1], [2]]), "B": E.array([[-1], [1]])}
    H = {"A": E.array([[0], [1]]), "B": E.array([[2], [1]])}
    for p in ps:
        p.bkey = p.name

    def basis(D):
        return c.fn(E, lambda toas, bkey: (D[bkey].copy(), E.array([1])))()

    orf = c.fn(E, lambda pos1, pos2: 1 if bool(pos1[0] == pos2[0]) else E.const(0.5))
    expl = gp.BasisCommonGP(c.diag_prior_class(E, 1), basis(F), orf(), coefficients=True, name="gw")
    own = gp.BasisGP(c.diag_prior_class(E, 1), basis(G), name="red")
    noise = E.mod("signals.white_signals").MeasurementNoise(efac=c.par(E).Constant(1.0))
    m = [expl + noise + own, own + noise + expl][E.choose("order", 2)]
    more = E.choose("marginalized common", 2)
    if more:
        m = m + gp.BasisCommonGP(c.diag_prior_class(E, 1), basis(H), orf(), name="curn")
    pta = S.PTA([m(p) for p in ps], lnlikelihood=[S.LogLikelihood, S.LogLikelihoodDenseCholesky][E.choose("likelihood", 2)])
    P = {q.name: E.vec(q.name, q.size) if q.size else E.pos(q.name, s=(0.5, 1.5)) for q in pta.params}
    E.true("parameters", sorted(P) == sorted(["A_gw_coefficients", "B_gw_coefficients", "gw_phi0", "A_red_phi0", "B_red_phi0"] + (["curn_phi0"] if more else [])))
    d = [p.residuals - np.dot(F[p.name], P[p.name + "_gw_coefficients"]) for p in ps]
    blocks = {}
    for i, p in enumerate(ps):
        for j in range(i, 2):
            q = ps[j]
            B = np.zeros((2, 2))
            if more:
                B = B + P["curn_phi0"] * (1 if i == j else E.const(0.5)) * np.dot(H[p.name], H[q.name].T)
            if i == j:
                B = B + np.diag(p.toaerrs ** 2) + P[p.name + "_red_phi0"] * np.dot(G[p.name], G[p.name].T)
            blocks[i, j] = B
    C = joint(E, blocks)
    like = c.gauss_ll(E, np.hstack(d), C) if more else c.gauss_ll(E, d[0], blocks[0, 0]) + c.gauss_ll(E, d[1], blocks[1, 1])
    E.eq("likelihood", pta.get_lnlikelihood(P), like)
    for x, p in zip(pta.get_delay(P), ps):
        E.eq("delay " + p.name, x, np.dot(F[p.name], P[p.name + "_gw_coefficients"]))


# ---------------------------------------------------------------- P06
@instance("P06", "vector constants", bounds="1 pulsar, 2 TOAs, a fixed vector in a delay: set, evaluated, one entry changed, overridden, set back")
def p06(E):
    ds, ws, P = E.mod("signals.deterministic_signals"), E.mod("signals.white_signals"), c.par(E)
    p = c.pulsar(E, "A", 2, toaerrs=E.array([1, 2]))
    x = [E.real("x%d" % i) for i in range(4)]
    for i in range(4):
        for j in range(i):
            E.assume_ne(x[i], x[j])
    wf = c.fn(E, lambda toas, v: E.array([v[0], 2 * v[1]]))(v=P.Constant(E.array([x[0], x[1]])))
    pta = c.sb(E).PTA([(ws.MeasurementNoise(efac=P.Constant(1.0)) + ds.Deterministic(wf, name="d"))(p)])
    r = p.residuals

    def see(tag, a, b, given={}):
        E.eq("delay " + tag, pta.get_delay(given)[0], E.array([a, 2 * b]))
        E.eq("residuals " + tag, pta.pulsarmodels[0].get_detres(given), E.array([r[0] - a, r[1] - 2 * b]))

    E.true("no varying parameter", pta.param_names == [])
    see("declared", x[0], x[1])
    pta.set_default_params({"A_d_v": E.array([x[2], x[1]])})
    see("first changed", x[2], x[1])
    pta.set_default_params({"A_d_v": E.array([x[2], x[3]])})
    see("second changed", x[2], x[3])
    see("overridden", x[0], x[3], {"A_d_v": E.array([x[0], x[3]])})
    see("not overridden", x[2], x[3])
    pta.set_default_params({"A_d_v": E.array([x[3], x[2]])})
    see("swapped", x[3], x[2])


# ---------------------------------------------------------------- P11
@instance("P11", "pulsar argument", bounds="functions that take the pulsar itself, or are called with another pulsar than their own; with and without mask; first argument positional or from the pulsar", maxpaths=40)
def p11(E):
    p = c.par(E)
    one, two = c.pulsar(E, "A", 3, toaerrs=E.vec("ea", 3)), c.pulsar(E, "B", 3, toaerrs=E.vec("eb", 3))
    t, a = E.vec("t", 3), E.real("a")

    def takes(toas, toaerrs, psr, a):
        return psr.name, toas, toaerrs, a

    def plain(toas, toaerrs, a):
        return None, toas, toaerrs, a

    f = [takes, plain][E.choose("function", 2)]
    F = p.Function(f, a=p.Uniform(0, 1))("own", psr=one)
    kw = {}
    psr = one
    if E.choose("other pulsar", 2):
        kw["psr"] = psr = two
    m = rnp.array([True] * 3)
    k = E.choose("mask", 3)
    if k:
        m = kw["mask"] = rnp.array([[True, False, True], [False, False, True]][k - 1])
    first = E.choose("positional", 2)
    args = (t,) if first else ()
    nm, x, e, y = F(*args, params={"own_a": a}, **kw)
    E.true("pulsar", nm == (psr.name if f is takes else None))
    E.eq("toas", x, t if first else psr.toas[m])
    E.eq("errors", e, psr.toaerrs[m])
    E.eq("parameter", y, a)


@instance("P11", "declarations", bounds="decorated function with each argument given as a parameter, a named parameter, a constant, a named constant, a function or a named function, all positional arguments present or not: always a declaration", maxpaths=60)
def p11b(E):
    p = c.par(E)
    f = p.function(lambda toas, a, b=2: toas * a + b)
    g = p.function(lambda x: x * 3)
    t, a, v = E.vec("t", 3), E.real("a"), E.real("v")
    kind = E.choose("kind", 6)
    arg = [lambda: p.Uniform(0, 1), lambda: p.Uniform(0, 1)("mine"), lambda: p.Constant(v), lambda: p.Constant(v)("mine"), lambda: g(x=p.Uniform(0, 1)), lambda: g(x=p.Uniform(0, 1))("mine")][kind]()
    ps = c.pulsar(E, "A", 3, toas=E.vec("ta", 3))
    full = E.choose("positional given", 2)
    cls = f(t, a, b=arg) if full else f(a=a, b=arg)
    E.true("declaration", isinstance(cls, type) and issubclass(cls, p.FunctionBase))
    F = cls("own", psr=ps)
    name = ["own_b", "mine", None, None, "own_b_x", "mine_x"][kind]
    E.true("names", [q.name for q in F.params] == ([name] if name else []))
    b = v * 3 if kind in (4, 5) else v
    P = {name: v} if name else {}
    if full:
        E.eq("value", F(t, a, params=P), t * a + b)
    else:
        E.eq("value", F(params=P), ps.toas * a + b)
        E.eq("explicit", F(t, params=P), t * a + b)


# ---------------------------------------------------------------- P03
@instance("P03", "kernel matrix", bounds="4x4 prior filled by two blocks, diagonal or dense, addressed by slices or index arrays in any order, added or set; any values", maxpaths=400)
def p03(E):
    np, ut = E.np, E.mod("signals.utils")
    where = [slice(0, 2), slice(1, 3), rnp.array([0, 2]), rnp.array([3, 1])]
    i, j = E.choose("first", 4), E.choose("second", 4)
    di, dj = E.choose("first dense", 2), E.choose("second dense", 2)
    how = E.choose("first set", 2)
    diag = E.array([E.pos("d%d" % k) for k in range(4)])
    D = np.diag(diag)
    K = ut.KernelMatrix(np.array(diag))
    for s, (k, dense) in enumerate(((i, di), (j, dj))):
        x = [E.real("%s%d" % (q, s)) for q in "xyz"]
        B = E.array([[x[0], x[1]], [x[1], x[2]]]) if dense else E.array([x[0], x[2]])
        idx = rnp.arange(4)[where[k]]
        put = s == 0 and how
        for a in range(2):
            for b in range(2):
                if a == b or dense:
                    v = B[a, b] if dense else B[a]
                    D[idx[a], idx[b]] = v if put else D[idx[a], idx[b]] + v
        K = K.set(B, where[k]) if put else K.add(B, where[k])
    got = np.array(K)
    E.eq("matrix", np.diag(got) if got.ndim == 1 else got, D)
    E.true("dense when needed", got.ndim == 2 or not (di or dj))


@instance("P03", "dense and none", bounds="3 pulsars: a dense own prior, a common process in two of them, one pulsar with none in any place; any values; also cliques by Cholesky", ctmo=60000, maxpaths=30)
def p03b(E):
    from .p03 import psrs, noise, dens, bare, common, OFF, check, plain

    np = E.np
    p = psrs(E, 3)
    cm = common(E, 2, [[1], [0], [0]], m=1)
    models = [noise(E) + dens(E, [[1, 0], [0, 1], [0, 0]]) + cm, noise(E) + cm]
    models.insert(E.choose("none at", 3), bare(E))
    q = list(zip(models, [p[0], p[1], p[2]]))
    pos = [E.array([1, 0, 0]), E.array([0, 1, 0])]
    k = 0
    for m, x in q:
        if len(m._metasignals) > 1:
            x.pos = pos[k]
            k += 1
    pta = c.sb(E).PTA([m(x) for m, x in q])
    P = c.params(E, pta, pos=("phi", "dd_a", "dd_c"), off=OFF)
    check(E, pta, P)
    D = plain(pta.get_phi(P)).copy()
    G, l = pta.get_phiinv_byfreq_cliques(P, logdet=True, cholesky=True)
    E.eq("cliques by Cholesky", np.dot(plain(G), D), np.eye(len(D)), atol=1e-9)
    E.eq("log-determinant", l, E.logdet(D))
    E.eq("no log-determinant", np.dot(plain(pta.get_phiinv_byfreq_cliques(P, cholesky=True)), D), np.eye(len(D)), atol=1e-9)
    E.true("unknown method", E.raises(NotImplementedError, lambda: pta.get_phiinv(P, method="other")))
