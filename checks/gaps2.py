"""more instances written after the line and branch coverage review (tools/linecov.py)"""
import os
import tempfile
from types import SimpleNamespace as NS

import numpy as rnp

from vlib.harness import Stub, instance
from . import common as c


# ---------------------------------------------------------------- P04
@instance("P04", "without the compiled package", bounds="4 TOAs in two epochs, every kernel method, the optional fastshermanmorrison package missing: same covariance and log-determinant; unknown methods refused", maxpaths=20)
def p04(E):
    np, ws = E.np, E.mod("signals.white_signals")
    E.patch(ws, "fastshermanmorrison", None)
    meth = ["fast-sherman-morrison", "sherman-morrison", "block", "sparse"][E.choose("method", 4)]
    kw = {} if meth[0] == "f" and E.choose("default", 2) else dict(method=meth)
    p = c.pulsar(E, "A", 4, toas=E.array([0, 0.5, 1e6, 1e6 + 0.5]), toaerrs=E.array([1, 2, 1, 3]))
    m = ws.MeasurementNoise(efac=c.U(E)) + ws.EcorrKernelNoise(log10_ecorr=c.par(E).Uniform(-1, 1), **kw)
    pta = c.sb(E).PTA([m(p)])
    P = {"A_efac": E.pos("efac", s=(0.6, 1.8)), "A_log10_ecorr": E.real("le", -0.95, 0.95)}
    J = 10 ** (2 * P["A_log10_ecorr"]) * E.array([[1, 1, 0, 0], [1, 1, 0, 0], [0, 0, 1, 1], [0, 0, 1, 1]])
    C = np.diag(P["A_efac"] ** 2 * p.toaerrs ** 2) + J
    for k in range(2):
        E.eq("likelihood", pta.get_lnlikelihood(P), c.gauss_ll(E, p.residuals, C))
    X, v = E.mat("X", 4, 2), E.vec("v", 4)
    N = pta.get_ndiag(P)[0]
    E.eq("X N^-1 v", N.solve(v, left_array=X), np.dot(X.T, np.dot(E.inv(C), v)))
    E.true("unknown method refused", E.raises(TypeError, lambda: ws.EcorrKernelNoise(method="other")))
    E.true("removed equad refused", E.raises(NotImplementedError, lambda: ws.EquadNoise(log10_equad=c.U(E))))


@instance("P04", "two sparse kernels", bounds="4 TOAs, two sparse jitter kernels of different epochs added to diagonal noise in any order", maxpaths=40)
def p04b(E):
    np, sb = E.np, c.sb(E)
    nv = E.array([E.pos("n%d" % i) for i in range(4)])
    D = np.diag(nv)
    K = []
    for k, b in enumerate(([0, 1, 2], [1, 2, 3])):
        j = E.pos("j%d" % k)
        d = np.zeros((4, 4))
        for x in b:
            for y in b:
                d[x, y] = j
                D[x, y] = D[x, y] + j
        K.append(sb.csc_matrix_alt(d))
    parts = [[sb.ndarray_alt(nv)] + K, K + [sb.ndarray_alt(nv)], [K[0], sb.ndarray_alt(nv), K[1]]][E.choose("order", 3)]
    keep = E.snapshot(nv)
    N = sum(parts)
    Di = E.inv(D)
    v, X = E.vec("v", 4), E.mat("X", 4, 2)
    E.eq("N^-1 v", N.solve(v), np.dot(Di, v))
    r, l = N.solve(X, left_array=X, logdet=True)
    E.eq("X N^-1 X", r, np.dot(X.T, np.dot(Di, X)))
    E.eq("log-determinant", l, E.logdet(D))
    E.eq("noise unchanged", nv, keep)


@instance("P04", "refused arguments", bounds="arrays of three dimensions, non-diagonal arrays and unknown kinds of noise are refused, not mistaken", maxpaths=20)
def p04c(E):
    np, sb = E.np, c.sb(E)
    nv = E.array([E.pos("n%d" % i) for i in range(3)])
    E.true("diagonal noise is a vector", E.raises(NotImplementedError, lambda: sb.ndarray_alt(np.diag(nv))))
    sl = [slice(0, 2)]
    jv = E.array([E.pos("j")])
    K = [sb.ShermanMorrison(jv, sl), sb.BlockMatrix([E.array([[jv[0]] * 2] * 2)], sl)][E.choose("kind", 2)]
    E.true("unknown noise on the left", E.raises(TypeError, lambda: 3.5 + K))
    N = sb.ndarray_alt(nv) + K
    v, X, T = E.vec("v", 3), E.mat("X", 3, 2), E.array(rnp.ones((3, 2, 2)))
    for a, b in ((T, None), (T, X), (X, T), (v, T)):
        E.true("three dimensions", E.raises(TypeError, lambda: N.solve(a, left_array=b)))
    E.eq("still solves", N.solve(v, left_array=v), np.dot(v, np.dot(E.inv(np.diag(nv) + jv[0] * E.array([[1, 1, 0], [1, 1, 0], [0, 0, 0]])), v)))


# ---------------------------------------------------------------- P20
@instance("P20", "flags of records", bounds="2 TOAs in any order: setting a flag where flags are stored as one record array is refused and changes nothing; the printed counts are the pulsar's", maxpaths=20)
def p20(E):
    from . import p20 as q

    p, r = q.raw(E, 2, record=True)
    E.true("refused", E.raises(NotImplementedError, lambda: p.set_flags("new", rnp.array(["a", "b"]))))
    q.check(E, "after", p, r, q.order(r.t, range(2)))
    E.true("flags", sorted(p.flags) == sorted(r.flags))


# ---------------------------------------------------------------- P32
@instance("P32", "kept text", bounds="2 TOAs loaded by name with tempo2, from the folder of the tim file or another: the texts kept are those of the files given, the object and texts only when asked", maxpaths=40, tmo=200)
def p32(E):
    from . import p32 as q

    pm = E.mod("pulsar")
    q.no_distance(E, pm)
    made = []

    class Tempo:
        pass

    def tempo(par, tim, **k):
        s = q.T2(E, 2, "J0000+00", "equ")
        made.append(s)
        return s

    E.patch(pm, "t2", Stub(tempopulsar=type("Tempo", (), {"__new__": lambda cls, par, tim, **k: tempo(par, tim, **k)})))
    keep = E.choose("keep", 2)
    where = E.choose("in its folder", 2)
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        d = os.path.realpath(d)
        os.mkdir(d + "/sub")
        open(d + "/a.par", "w").write("PSR a\n")
        open(d + "/sub/b.tim", "w").write("FORMAT 1\nx 1 2 3 4\n")
        try:
            os.chdir(d + "/sub" if where else d)
            args = ("../a.par", "b.tim") if where else ("a.par", "sub/b.tim")
            p = pm.Pulsar(*args, timing_package="tempo2", planets=False, drop_t2pulsar=not keep)
            E.true("back in the folder", os.getcwd() == (d + "/sub" if where else d))
        finally:
            os.chdir(cwd)
    s = made[0]
    E.true("kept", hasattr(p, "t2pulsar") == bool(keep))
    if keep:
        E.true("texts", p.parfile == "PSR a\n" and p.timfile == "FORMAT 1\nx 1 2 3 4\n" and p.t2pulsar is s)
    q.t2check(E, p, s, q.order(s.t), "equ", False, s["RAJ"].val, s["DECJ"].val)


@instance("P32", "flags with units", bounds="2 TOAs in any order, PINT flags that carry a unit, texts, flags one TOA lacks", maxpaths=20)
def p32b(E):
    import astropy.units as u
    from . import p32 as q

    pm = E.mod("pulsar")
    s, toas = q.PintModel(E, 2, "J0000+00", "equ"), q.PintToas(E, 2)
    toas.fl = [{"pp_dm": 1.5 * u.m, "f": "a", "z": ""}, {"pp_dm": 2.5 * u.m, "g": "x y", "f": "longer", "z": ""}]
    q.pint_setup(E, pm, s, toas)
    p = pm.PintPulsar(toas, s, planets=False)
    o = q.order(s.bary)
    want = {"pp_dm": [1.5, 2.5], "f": ["a", "longer"], "g": ["", "x y"], "z": ["", ""]}
    E.true("names", sorted(p.flags) == sorted(want))
    for k, v in want.items():
        E.true(k, [type(v[0])(x) for x in p.flags[k]] == [v[i] for i in o])


@instance("P32", "no dispersion measure", bounds="tempo2 and PINT pulsars without DM or DMX: everything else is there", maxpaths=20)
def p32c(E):
    from . import p32 as q

    pm = E.mod("pulsar")
    if E.choose("pint", 2):
        s, toas = q.PintModel(E, 1, "J0000+00", "equ"), q.PintToas(E, 1)
        del s.pp["DM"], s.DM
        q.pint_setup(E, pm, s, toas)
        p = pm.PintPulsar(toas, s, planets=False)
        E.true("set parameters", "DM" not in p.setpars and list(p.setpars) == [k for k in s.params if k not in s.fit])
    else:
        q.no_distance(E, pm)
        s = q.T2(E, 1, "J0000+00", "equ")
        s.set.remove("DM")
        p = pm.Tempo2Pulsar(s, planets=False)
        q.t2check(E, p, s, [0], "equ", False, s["RAJ"].val, s["DECJ"].val)
    E.true("none", getattr(p, "dm", None) is None and p.dmx is None)


@instance("P32", "no timing package", bounds="par and tim files with neither package installed: refused, the folder unchanged")
def p32d(E):
    pm = E.mod("pulsar")
    E.patch(pm, "t2", None)
    E.patch(pm, "pint", None)
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        for f in ("a.par", "b.tim"):
            open(d + "/" + f, "w").write("x\n")
        try:
            os.chdir(d)
            k = [{}, dict(timing_package="tempo2"), dict(timing_package="Pint"), dict(timing_package="other")][E.choose("package", 4)]
            E.true("refused", E.raises(ValueError, lambda: pm.Pulsar("a.par", "b.tim", **k)))
            E.true("folder", os.path.realpath(os.getcwd()) == os.path.realpath(d))
        finally:
            os.chdir(cwd)


# ------------------------------------------------------------------ P06: parameters that move by very little
@instance("P06", "tiny moves", bounds="1 pulsar, 2 TOAs; a delay, a variance and a basis whose parameters are scaled by 1e15, moved by any amount; every quantity, and the order first, second, first")
def tinymoves(E):
    from . import p06 as p6
    gp, ws, ds = E.mod("signals.gp_signals"), E.mod("signals.white_signals"), E.mod("signals.deterministic_signals")
    p = p6.psr(E, "A", 2)
    K = 10 ** 15
    h1, h2, v1, v2, k1, k2 = (E.real(n, s=s) for n, s in (("h1", (1e-15, 2e-15)), ("h2", (3e-15, 4e-15)), ("v1", (1e-15, 2e-15)), ("v2", (3e-15, 4e-15)), ("k1", (1e-15, 2e-15)), ("k2", (3e-15, 4e-15))))
    for v in (v1, v2):
        E.assume_lt(0, v)
    wave = c.fn(E, lambda toas, h: E.array([K * h, 2]))(h=c.U(E))
    var = c.fn(E, lambda toaerrs, v: E.array([K * v, 1]))(v=c.U(E))
    base = c.fn(E, lambda toas, k: (E.array([[K * k], [1]]), E.array([1])))(k=c.U(E))
    x = ds.Deterministic(wave, name="w")(p)
    y = ws.WhiteNoise(var, name="n")(p)
    z = gp.BasisGP(c.diag_prior_class(E, 1), base, name="b")(p)
    for i, (h, v, k) in enumerate([(h1, v1, k1), (h2, v2, k2), (h1, v1, k1)]):
        E.eq("delay %d" % i, x.get_delay({"A_w_h": h}), E.array([K * h, 2]))
        E.eq("variance %d" % i, E.array(list(y.get_ndiag({"A_n_v": v}))), E.array([K * v, 1]))
        E.eq("basis %d" % i, z.get_basis({"A_b_k": k, "A_b_phi0": 1}), E.array([[K * k], [1]]))
