"""instances for requests that are refused, default names and other corners of the public interface"""
import numpy as rnp

from vlib.harness import instance
from . import common as c
from .large import num, errs


# ---------------------------------------------------------------- P05
@instance("P05", "refused arguments", bounds="3 TOAs: arrays of three dimensions and missing left arrays are refused; two marginalizing models are refused; a zero is added without effect", maxpaths=10)
def p05(E):
    gp, sb = E.mod("signals.gp_signals"), E.mod("signals.signal_base")
    nv = E.array([E.pos("n%d" % i) for i in range(3)])
    M = E.array([[1, 0], [1, 1], [1, 3]])
    Z = gp.MarginalizingNmat(M) + sb.ndarray_alt(nv)
    r, A = E.vec("r", 3), E.mat("A", 3, 2)
    cube = E.array([[[1, 2], [3, 4]]] * 3)
    for what, args in (("no left vector", (r, None)), ("no left matrix", (A, None)), ("cube", (cube, cube)), ("cube and vector", (cube, r)), ("cube left", (r, cube)), ("vector left of matrix", (A, r))):
        E.true("refused: " + what, E.raises((ValueError, TypeError, NotImplementedError), lambda: Z.solve(args[0], left_array=args[1])))
    E.true("two models refused", E.raises(ValueError, lambda: Z + Z))
    E.true("text refused", E.raises((TypeError, ValueError), lambda: Z + "x"))
    Di = E.inv(E.np.diag(nv))
    DM = E.np.dot(Di, M)
    Pm = Di - E.np.dot(DM, E.np.dot(E.inv(E.np.dot(M.T, DM)), DM.T))
    for k, N in (("plus zero", Z + 0), ("zero plus", 0 + Z), ("sum", sum([gp.MarginalizingNmat(M), sb.ndarray_alt(nv)]))):
        E.eq(k, N.solve(r, left_array=A), E.np.dot(A.T, E.np.dot(Pm, r)))


# ---------------------------------------------------------------- P24
@instance("P24", "span required", bounds="1 pulsar with 3 TOAs: a common Fourier process with explicit coefficients needs its span; with one it has the frequencies of that span, any spectrum and coefficients", maxpaths=10)
def p24(E):
    np, gp, ut = E.np, E.mod("signals.gp_signals"), E.mod("signals.utils")
    pl = c.fn(E, lambda f, amp: amp * f)(amp=c.U(E))
    orf = ut.hd_orf()
    E.true("no span refused", E.raises(ValueError, lambda: gp.FourierBasisCommonGP(pl, orf, coefficients=True, components=1)))
    T = E.pos("T", s=(3.0, 9.0))
    cls = gp.FourierBasisCommonGP(pl, orf, coefficients=True, components=2, Tspan=T, name="gw")
    s = cls(c.pulsar(E, "A", 3, pos=E.array([1, 0, 0])))
    cv = E.vec("c", 4)
    P = {"gw_amp": E.pos("amp")}
    co = [q.name for q in s.params if "coefficients" in q.name]
    E.true("coefficients %s" % co, co == ["A_gw_coefficients"])
    P[co[0]] = cv
    t = c.toas(E, 3)
    want = sum(cv[2 * k] * np.sin(2 * np.pi * (k + 1) / T * t) + cv[2 * k + 1] * np.cos(2 * np.pi * (k + 1) / T * t) for k in range(2))
    E.eq("delay", s.get_delay(P), want)


# ---------------------------------------------------------------- P28
@instance("P28", "incomplete coefficients", bounds="complex coefficient lists of every length up to 15: complete ones are converted, others refused", maxpaths=20)
def p28(E):
    a = E.mod("signals.anis_coefficients")
    n = 1 + E.choose("length", 15)
    alm = E.np.array([E.real("a%d" % k) + 0j for k in range(n)])
    if n in (1, 3, 6, 10, 15):
        E.true("all of them", len(a.clmFromAlm(alm)) == {1: 1, 3: 4, 6: 9, 10: 16, 15: 25}[n])
    else:
        E.true("refused", E.raises(ValueError, lambda: a.clmFromAlm(alm)))


# ---------------------------------------------------------------- P30
@instance("P30", "refused additions", bounds="1 pulsar: adding anything but signals and models is refused, unknown names and positions are refused", maxpaths=10)
def p30(E):
    sb, ws, ds = c.sb(E), E.mod("signals.white_signals"), E.mod("signals.deterministic_signals")
    n = ws.MeasurementNoise(efac=c.U(E))
    q = ws.TNEquadNoise(log10_tnequad=c.U(E))
    m = n + q
    p = c.pulsar(E, "A", 2)
    for what, x in (("signal", n), ("model", m)):
        for y in (1, None, "x", [n], n(p)):
            E.true("%s plus %s refused" % (what, type(y).__name__), E.raises((TypeError, AttributeError), lambda: x + y))
    pta = sb.PTA([m(p)])
    E.true("unknown pulsar", E.raises(KeyError, lambda: pta["B"]))
    E.true("unknown position", E.raises(IndexError, lambda: pta[1]))
    E.true("known", pta["A"] is pta[0] and len(pta) == 1 and list(pta.keys()) == ["A"])
    E.true("unknown signal", E.raises(KeyError, lambda: pta["A"]["other"]))
    E.true("unknown signal position", E.raises(IndexError, lambda: pta["A"][2]))
    E.true("signals", [pta["A"][k] is pta["A"][i] for i, k in enumerate(pta["A"].keys())] == [True, True] and len(pta["A"]) == 2)
    P = {"A_efac": E.pos("efac"), "A_log10_tnequad": E.real("leq", -1, 1, s=(-1, 1))}
    E.eq("model", pta.get_ndiag(P)[0], P["A_efac"] ** 2 * p.toaerrs ** 2 + 10 ** (2 * P["A_log10_tnequad"]))


# ---------------------------------------------------------------- P26, P29
@instance("P26", "named", bounds="2 TOAs, any geometry: two ephemeris signals with their own names and parameters on one pulsar; the default name", tmo=200)
def p26(E):
    from .p26 import fake_tables, scene, attach, pars, delay

    ds, p = E.mod("signals.deterministic_signals"), c.par(E)
    tab, asked = fake_tables(E)
    d = scene(E)
    off = dict(d_saturn_mass=False, d_uranus_mass=False, d_neptune_mass=False, jup_orb_elements=False, use_epoch_toas=False)
    U = p.Uniform(-1, 1)
    one = ds.PhysicalEphemerisSignal(frame_drift_rate=U("drift_one"), d_jupiter_mass=False, name="one", **off)
    two = ds.PhysicalEphemerisSignal(frame_drift_rate=U("drift_two"), d_jupiter_mass=U("mass_two"), name="two", **off)
    psr = attach(E, d)
    m = (one + two)(psr)
    E.true("identifiers %s" % list(m.keys()), list(m.keys()) == ["phys_ephem_one", "phys_ephem_two"])
    E.true("names", [s.name for s in (m["phys_ephem_one"], m["phys_ephem_two"])] == ["A_phys_ephem_one", "A_phys_ephem_two"])
    E.true("parameters", m.param_names == ["drift_one", "drift_two", "mass_two"])
    P = {k: E.real(k, s=(-0.5, 0.5)) for k in m.param_names}
    w = delay(E, d, dict(frame_drift_rate=P["drift_one"]), tab), delay(E, d, dict(frame_drift_rate=P["drift_two"], d_jupiter_mass=P["mass_two"]), tab)
    E.eq("one", m["phys_ephem_one"].get_delay(P), w[0], atol=1e-9)
    E.eq("two", m["phys_ephem_two"].get_delay(P), w[1], atol=1e-9)
    E.eq("both", m.get_delay(P), w[0] + w[1], atol=1e-9)
