"""P26: physical-ephemeris delays are rotations plus linear planet shifts."""
from vlib.harness import instance
from . import common as c

ASSUMPTIONS = [
    "planet and pulsar vectors, masses, orbital elements, rates and times are arbitrary reals",
    "the orbital-element tables are replaced by arbitrary small tables of the same layout",
    "observation times are sorted for the epoch interpolation, as pulsars present them",
]
JUP, SAT = 0.0009547918983127075, 0.00028588567008942334
MASSES = {"d_jupiter_mass": 4, "d_saturn_mass": 5, "d_uranus_mass": 6, "d_neptune_mass": 7}


def ut(E):
    return E.mod("signals.utils")


def sc(E, x):
    a = E.array([x])
    return E.np.sin(a)[0], E.np.cos(a)[0]


def mm(E, *Ms):
    r = Ms[0]
    for M in Ms[1:]:
        r = E.np.dot(r, M)
    return r


def Rz(E, a):
    s, k = sc(E, a)
    return E.array([[k, -s, 0], [s, k, 0], [0, 0, 1]])


def Ry(E, a):
    s, k = sc(E, a)
    return E.array([[k, 0, s], [0, 1, 0], [-s, 0, k]])


def Rx(E, a):
    s, k = sc(E, a)
    return E.array([[1, 0, 0], [0, k, -s], [0, s, k]])


def Mecl(E):
    """ecliptic to equatorial"""
    return E.array(E.mod("constants").M_ecl)


@instance("P26", "euler", bounds="any angles; scalars and vectors of 2 angles per axis")
def euler(E):
    np, u = E.np, ut(E)
    z, y, x = (E.vec(k, 2) for k in "zyx")
    v = E.choose("vectors", 2)
    L = u.euler_vec(z, y, x, 2) if v else u.euler_vec(z[0], y[0], x[0], 2)
    E.true("shape", L.shape == (2, 3, 3))
    for k in range(2):
        i = k if v else 0
        E.eq("rotation", L[k], mm(E, Rx(E, x[i]), Ry(E, y[i]), Rz(E, z[i])))
        E.eq("orthogonal", np.dot(L[k], L[k].T), np.eye(3), atol=1e-9)
    one = u.euler_vec(0.0, 0.0, 0.0, 1)
    E.eq("identity", one[0], np.eye(3))


@instance("P26", "obliquity", bounds="any vectors: ecliptic and equatorial rotations are inverse rotations about x")
def obliquity(E):
    np, u = E.np, ut(E)
    v = E.mat("v", 2, 3)
    M = Mecl(E)
    E.eq("orthogonal", np.dot(M, M.T), np.eye(3), atol=1e-9)
    E.eq("x axis kept", M[0], E.array([1, 0, 0]))
    E.eq("x axis kept, column", M[:, 0], E.array([1, 0, 0]))
    s, k = sc(E, E.const(23.43704) * np.pi / 180)
    E.eq("obliquity", M, E.array([[1, 0, 0], [0, k, -s], [0, s, k]]))
    E.eq("to equatorial", u.ecl2eq_vec(v), E.array([np.dot(M, v[k]) for k in range(2)]))
    E.eq("there and back", u.eq2ecl_vec(u.ecl2eq_vec(v)), v)
    E.eq("back and there", u.ecl2eq_vec(u.eq2ecl_vec(v)), v)
    E.eq("vectors unchanged", v, E.mat("v", 2, 3))


def since(E, mjd):
    return (mjd - 55197) / E.const(365.25)


@instance("P26", "framerotate", bounds="2 dates, any vectors, angles and rate; with and without offset; ecliptic and equatorial coordinates")
def framerotate(E):
    np, u = E.np, ut(E)
    t, v = E.vec("mjd", 2, s=(55000.0, 55400.0)), E.mat("v", 2, 3)
    x, y, z, dz = (E.real(k) for k in ("ax", "ay", "az", "rate"))
    off = [E.real("o%d" % k) for k in range(3)] if E.choose("offset", 2) else None
    eq = bool(E.choose("equatorial", 2))
    old = E.snapshot(v)
    got = u.ss_framerotate(t, v, x, y, z, dz, offset=off, equatorial=eq)
    M = Mecl(E)
    for k in range(2):
        w = np.dot(M.T, v[k]) if eq else v[k]
        w = np.dot(mm(E, Rx(E, x), Ry(E, y), Rz(E, z + dz * since(E, t[k]))), w)
        if off is not None:
            w = E.array(off) + w
        E.eq("rotated", got[k], np.dot(M, w) if eq else w)
    E.eq("vectors unchanged", v, old)


def day(E, name, s):
    """a date inside the orbit tables"""
    t = E.real(name, s=s)
    E.assume_lt(0, t, 5)
    return t


def scene(E, n=2, nt=3):
    d = dict(
        toas=E.array([day(E, "t%d" % i, (0.2 + i, 0.9 + i)) for i in range(n)]) * 86400,
        planetssb=E.array([[[E.real("p%d_%d_%d" % (i, j, k)) if j in (2, 4, 5, 6, 7) and k < 3 else 1000 + j for k in range(6)] for j in range(9)] for i in range(n)]),
        pos_t=E.mat("n", n, 3),
    )
    return d


def tables(E, nt=2):
    tm = E.array([0, 5] if nt == 2 else [0, 1, 5])
    jup = E.array([[[E.real("J%d%d%d" % (i, j, k)) for k in range(3)] for j in range(nt)] for i in range(6)])
    sat = E.array([[[E.real("S%d%d%d" % (i, j, k)) for k in range(3)] for j in range(nt)] for i in range(6)])
    return tm, jup, sat


def interp(E, x, xs, row):
    """linear interpolation of the table, constant outside"""
    if bool(x <= xs[0]):
        return row[0]
    for k in range(len(xs) - 1):
        if bool(x <= xs[k + 1]):
            return [a + (b - a) * (x - xs[k]) / (xs[k + 1] - xs[k]) for a, b in zip(row[k], row[k + 1])]
    return row[-1]


def delay(E, d, par, tab, equatorial=True):
    np = E.np
    out = []
    M = Mecl(E)
    for i in range(len(d["toas"])):
        mjd = d["toas"][i] / 86400
        earth = d["planetssb"][i, 2, :3]
        R = Rz(E, par.get("frame_drift_rate", E.const(0)) * since(E, mjd))
        if equatorial:
            R = mm(E, M, R, M.T)
        new = np.dot(R, earth)
        for k, j in MASSES.items():
            if k in par:
                new = new + par[k] * d["planetssb"][i, j, :3]
        for k, T, w in (("jup_orb_elements", tab[1], JUP), ("sat_orb_elements", tab[2], SAT)):
            if k in par:
                row = [[sum(par[k][a] * T[a][b][m] for a in range(6)) for m in range(3)] for b in range(len(tab[0]))]
                new = new + E.const(w) * E.array(interp(E, mjd, list(tab[0]), row))
        out.append(sum((earth[m] - new[m]) * d["pos_t"][i, m] for m in range(3)))
    return E.array(out)


def pars(E, which):
    out = {}
    for k in which:
        out[k] = E.vec(k, 6) if "orb" in k else E.real(k, s=(-1.0, 1.0))
        if "orb" in k:
            E.assume_ne(out[k][0], 0)
    return out


ALL = ["frame_drift_rate", *MASSES, "jup_orb_elements", "sat_orb_elements"]


@instance("P26", "delay", bounds="2 TOAs, any geometry: each parameter alone, all together, none; ecliptic or equatorial frame", tmo=200)
def delays(E):
    u = ut(E)
    d, tab = scene(E), tables(E)
    k = E.choose("parameters", len(ALL) + 2)
    which = [ALL[k]] if k < len(ALL) else ALL if k == len(ALL) else []
    par = pars(E, which)
    old = {q: E.snapshot(v) for q, v in d.items()}
    oj = E.snapshot(tab[1])
    kw = dict(times=tab[0], jup_orbit=tab[1], sat_orbit=tab[2])
    eq = not E.choose("ecliptic", 2)
    if not eq:
        kw["equatorial"] = False
    got = u.physical_ephem_delay(d["toas"], d["planetssb"], d["pos_t"], **par, **kw)
    E.eq("delay", got, delay(E, d, par, tab, eq) if which else E.array([0, 0]), atol=1e-6)
    for q, v in d.items():
        E.eq(q + " unchanged", v, old[q])
    E.eq("tables unchanged", tab[1], oj)


@instance("P26", "zero", bounds="2 TOAs, any geometry, every parameter present and zero")
def zero(E):
    u = ut(E)
    d, tab = scene(E), tables(E)
    z = {k: (E.array([0] * 6) if "orb" in k else 0) for k in ALL}
    got = u.physical_ephem_delay(d["toas"], d["planetssb"], d["pos_t"], times=tab[0], jup_orbit=tab[1], sat_orbit=tab[2], **z)
    E.eq("no delay", got, E.array([0, 0]), atol=1e-9)


@instance("P26", "interpolation", bounds="1 TOA at any time relative to a 3-entry orbit table (before, between, after), Jupiter elements", tmo=200)
def interpolation(E):
    u = ut(E)
    d = scene(E, 1)
    d["toas"] = E.array([E.real("t", s=(-1, 6))]) * 86400
    tab = tables(E, 3)
    par = pars(E, ["jup_orb_elements"])
    got = u.physical_ephem_delay(d["toas"], d["planetssb"], d["pos_t"], times=tab[0], jup_orbit=tab[1], sat_orbit=tab[2], **par)
    E.eq("delay", got, delay(E, d, par, tab), atol=1e-9)


@instance("P26", "sparse-elements", bounds="1 TOA, orbital elements of both planets with 0, 1, 5 or 6 leading elements exactly zero")
def sparse(E):
    u = ut(E)
    d, tab = scene(E, 1), tables(E)
    par = {}
    for k in ("jup_orb_elements", "sat_orb_elements"):
        z = (0, 1, 5, 6)[E.choose(k, 4)]
        par[k] = E.array([E.const(0)] * z + [E.real("%s%d" % (k, i)) for i in range(z, 6)])
        if z < 6:
            E.assume_ne(par[k][z], 0)
    got = u.physical_ephem_delay(d["toas"], d["planetssb"], d["pos_t"], times=tab[0], jup_orbit=tab[1], sat_orbit=tab[2], **par)
    E.eq("delay", got, delay(E, d, par, tab), atol=1e-9)


def fake_tables(E):
    tab = tables(E)
    asked = []

    def get(model="setIII"):
        asked.append(model)
        return tab

    E.patch(ut(E), "get_planet_orbital_elements", get)
    return tab, asked


def psr(E, d, **kw):
    return c.pulsar(E, "A", len(d["toas"]), toas=d["toas"], planetssb=d["planetssb"], **kw)


def attach(E, d):
    p = psr(E, d)
    p.pos_t = d["pos_t"]
    return p


@instance("P26", "signal-direct", bounds="2 TOAs, any geometry: ephemeris signal evaluated at the TOAs; default parameters, or a subset with Saturn, other table", tmo=200)
def signaldirect(E):
    ds = E.mod("signals.deterministic_signals")
    tab, asked = fake_tables(E)
    d = scene(E)
    if E.choose("subset", 2):
        kw = dict(frame_drift_rate=False, d_saturn_mass=False, jup_orb_elements=False, sat_orb_elements=True, model="orbel")
        which = ["d_jupiter_mass", "d_uranus_mass", "d_neptune_mass", "sat_orb_elements"]
    else:
        kw, which = {}, ALL[:-1]
    s = ds.PhysicalEphemerisSignal(use_epoch_toas=False, **kw)(attach(E, d))
    E.true("table", asked[:1] == [kw.get("model", "setIII")])
    E.true("parameters", sorted(p.name for p in s.params) == sorted(which))
    par = pars(E, which)
    E.eq("delay", s.get_delay(par), delay(E, d, par, tab), atol=1e-9)


@instance("P26", "signal-epochs", bounds="3 TOAs in two epochs (any times with that grouping), any geometry: frame drift and Jupiter mass", tmo=300)
def signalepochs(E):
    np = E.np
    ds = E.mod("signals.deterministic_signals")
    tab, asked = fake_tables(E)
    d = scene(E, 3)
    h = [E.real("h%d" % k, 0, 1, s=(0.1 + 0.4 * k, 0.4 + 0.4 * k)) for k in range(2)]
    E.assume_lt(0, h[0], 1)
    late = E.choose("split", 2)
    t0, gap = E.pos("start", s=(0.5, 2.0)), E.pos("gap", s=(3.0, 5.0))
    E.assume_lt(t0 + gap + 1, 4 * 86400)
    E.assume_lt(1, gap)
    # two TOAs within a second of each other, one a gap away
    t = [t0, t0 + gap, t0 + gap + h[0]] if late else [t0, t0 + h[0], t0 + h[0] + gap]
    d["toas"] = E.array(t)
    ep = [[0], [1, 2]] if late else [[0, 1], [2]]
    par = pars(E, ["frame_drift_rate", "d_jupiter_mass"])
    s = ds.PhysicalEphemerisSignal(d_saturn_mass=False, d_uranus_mass=False, d_neptune_mass=False, jup_orb_elements=False, use_epoch_toas=True)(attach(E, d))
    # vectors at the epoch: linear interpolation between the observations
    e = dict(toas=[], planetssb=[], pos_t=[])
    for g in ep:
        e["toas"].append(sum(t[i] for i in g) / len(g))
        for q in ("planetssb", "pos_t"):
            # midpoint of the two observations, or the observation itself
            e[q].append(d[q][g[0]] if len(g) == 1 else (d[q][g[0]] + d[q][g[1]]) / 2)
    for q in ("toas", "planetssb", "pos_t"):
        e[q] = E.array(e[q])
    v = delay(E, e, par, tab)
    want = [None] * 3
    for g, x in zip(ep, v):
        for i in g:
            want[i] = x
    for rep in range(2):
        E.eq("delay", s.get_delay(par), E.array(want), atol=1e-9)


@instance("P26", "designmatrix", bounds="2 TOAs, any geometry; every parameter enabled, or each of several subsets, any prior widths", tmo=200)
def designmatrix(E):
    u = ut(E)
    tab, asked = fake_tables(E)
    d = scene(E)
    k = E.choose("subset", 4)
    which = [ALL, ["frame_drift_rate"], ["d_saturn_mass", "sat_orb_elements"], ["jup_orb_elements", "d_neptune_mass"]][k]
    sig = {n: (E.pos("sigma_" + n) if n in which else None) for n in ALL}
    F, w = u.createfourierdesignmatrix_physicalephem(d["toas"], d["planetssb"], d["pos_t"], **sig)
    cols, ws = [], []
    dp = E.const(1e-5)
    for n in ALL:
        if n not in which:
            continue
        for i in range(6 if "orb" in n else 1):
            if "orb" in n:
                par = {n: [1 if a == i else 0 for a in range(6)]}
                cols.append(delay(E, d, par, tab))
            elif n == "frame_drift_rate":
                cols.append(delay(E, d, {n: dp}, tab) / dp)
            else:
                cols.append(delay(E, d, {n: 1}, tab))
            ws.append(sig[n])
    E.eq("columns", F, E.array([[cols[j][i] for j in range(len(cols))] for i in range(2)]), rtol=1e-5, atol=1e-6)
    E.eq("widths", w, E.array(ws))
    E.eq("prior", u.physicalephem_spectrum(w), E.array([x ** 2 for x in ws]))


@instance("P26", "common-process", bounds="2 pulsars of 2 TOAs at any geometry: ephemeris process with frame drift, or Saturn mass and elements, any widths; prior of the array", tmo=300)
def commonprocess(E):
    np, gp = E.np, E.mod("signals.gp_signals")
    tab, asked = fake_tables(E)
    which = [["frame_drift_rate"], ["d_saturn_mass", "d_uranus_mass"]][E.choose("subset", 2)]
    sig = {n: (E.pos("sigma_" + n) if n in which else None) for n in ALL}
    ps, ds = [], []
    d = scene(E)
    for k in range(2):
        e = dict(d, toas=d["toas"] + 86400 * k)
        p = attach(E, e)
        p.name, p.pos = "AB"[k], E.array([1, 0, 0] if k else [0, 1, 0])
        ps.append(p)
        ds.append(e)
    m = gp.FourierBasisCommonGP_physicalephem(model="orbel", **sig) + E.mod("signals.white_signals").MeasurementNoise(efac=c.par(E).Constant(1.0))
    pta = c.sb(E).PTA([m(p) for p in ps])
    E.true("no parameters", pta.param_names == [])
    E.true("signal name", {n.split("_", 1)[1] for n in pta.signals if "phys" in n} == {"phys_ephem_gp"})
    E.true("orbit table", set(asked) <= {"orbel"})
    dp = E.const(1e-5)
    nw = len(which)
    for p, e, T in zip(ps, ds, pta.get_basis({})):
        cols = [delay(E, e, {n: dp}, tab) / dp for n in which]
        E.eq("basis " + p.name, T, E.array([[cols[j][i] for j in range(nw)] for i in range(2)]), rtol=1e-5, atol=1e-6)
    Phi = np.array(pta.get_phi({}))
    E.true("shape", Phi.shape == (2 * nw, 2 * nw))
    want = np.zeros((2 * nw, 2 * nw))
    for a in range(2):
        for b in range(2):
            for j, n in enumerate(which):
                want[a * nw + j, b * nw + j] = sig[n] ** 2
    mono = ut(E).monopole_orf
    for a in range(2 * nw):
        for b in range(2 * nw):
            E.eq("prior %d %d" % (a, b), Phi[a, b], want[a, b] * mono(ps[a // nw].pos, ps[b // nw].pos))



@instance("P26", "defaults", bounds="the default prior of every perturbation, at every value inside and outside its range")
def defaults(E):
    """the documented default priors"""
    np, ds = E.np, E.mod("signals.deterministic_signals")
    fake_tables(E)
    s = ds.PhysicalEphemerisSignal(use_epoch_toas=False, sat_orb_elements=True)(attach(E, scene(E)))
    P = {p.name: p for p in s.params}
    E.true("parameters", sorted(P) == sorted(ALL))
    for n, w in (("frame_drift_rate", 1e-9), ("jup_orb_elements", 0.05), ("sat_orb_elements", 0.5)):
        w, size = E.const(w), None if n == "frame_drift_rate" else 6
        E.true("size", P[n].size == size)
        f = E.real("f_" + n, -1, 1, s=(-0.9, 0.9))
        g = E.pos("g_" + n, s=(0.1, 2.0))
        val = lambda x: x if size is None else E.array([x] + [x / 2] * 5)
        E.eq(n, P[n].get_pdf(val(f * w)) * (2 * w) ** (size or 1), 1, rtol=1e-8)
        E.eq("above " + n, P[n].get_pdf(val(w * (1 + g))), 0)
        E.eq("below " + n, P[n].get_pdf(val(-w * (1 + g))), 0)
    for n, w in (("d_jupiter_mass", 1.54976690e-11), ("d_saturn_mass", 8.17306184e-12), ("d_uranus_mass", 5.71923361e-11), ("d_neptune_mass", 7.96103855e-11)):
        w = E.const(w)
        f = E.real("f_" + n, s=(-2.0, 2.0))
        E.eq(n, P[n].get_logpdf(f * w), -f * f / 2 - np.log(2 * np.pi) / 2 - np.log(w), rtol=1e-8)
