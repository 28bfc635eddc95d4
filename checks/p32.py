"""P32: pulsars built from a timing package present that package's data."""
import os
import tempfile
from types import SimpleNamespace as NS

import numpy as rnp

from vlib.harness import Stub, instance
from . import common as c

ASSUMPTIONS = [
    "libstempo and PINT are not installed: the constructors run on stand-ins that offer the attributes and methods "
    "those packages document (values arbitrary reals, in the packages' units)",
    "PyEphem's ecliptic-to-equatorial conversion is an unknown function of the two angles and the epoch",
    "unit conversions are those of astropy's unit tables",
]
DAY = 86400


# ---------------------------------------------------------------- stand-ins
class Col:
    """a value with a unit (or a table column)"""

    def __init__(self, E, v, unit):
        self.E, self.v, self.unit = E, v, unit

    @property
    def value(self):
        return self.v

    def to(self, unit):
        import astropy.units as u

        f = self.unit.to(u.Unit(unit))
        return Col(self.E, self.v * f, u.Unit(unit))

    def __add__(self, o):
        return Col(self.E, self.v + o.to(self.unit).v, self.unit)

    def __truediv__(self, o):
        return Col(self.E, self.v / float(o.value), self.unit / o.unit)

    def __array__(self, dtype=None, copy=None):
        return rnp.asarray(self.v, dtype=object if getattr(self.v, "dtype", None) == object else dtype)


def coords(E, pm, name, frame):
    """PyEphem: what it returns for the angles and epoch it must be asked about"""
    el, eb = [E.real("elong", s=(0, 6))], [E.real("elat", s=(-1, 1))]
    ra, dec = E.real("ra", s=(0, 6)), E.real("dec", s=(-1, 1))
    if frame == "ecl":
        def ecliptic(a, b, **k):
            E.eq("PyEphem longitude and latitude", E.array([a, b]), E.array([el[0], eb[0]]))
            E.true("no epoch given", not k)
            return "ECL"

        def equatorial(e, epoch=None, **k):
            E.true("PyEphem given the ecliptic position", e == "ECL")
            E.true("epoch %s for %s" % (epoch, name), epoch == ("1950" if name.startswith("B") else "2000"))
            return NS(ra=ra, dec=dec)

        E.patch(pm, "Ecliptic", ecliptic)
        E.patch(pm, "Equatorial", equatorial)
    return el, eb, ra, dec


def unit_vec(E, ra, dec):
    np = E.mod("pulsar").np
    return E.array([np.cos(ra) * np.cos(dec), np.sin(ra) * np.cos(dec), np.sin(dec)])


def order(t):
    out = []
    for i in range(len(t)):
        k = len(out)
        while k > 0 and bool(t[i] < t[out[k - 1]]):
            k -= 1
        out.insert(k, i)
    return out


NAMES = ["J0000+00", "B0000+00", "J0000-00B"]


# ---------------------------------------------------------------- tempo2
PLANETS = ["mercury", "venus", "earth", "mars", "jupiter", "saturn", "uranus", "neptune", "pluto"]


class T2:
    """libstempo.tempopulsar as documented: vectors in its units, parameters by name"""

    def __init__(self, E, n, name, frame, dmx=()):
        self.E, self.n, self.name = E, n, name
        self.t = [E.real("t%d" % i, s=(0, 4)) for i in range(n)]
        self._toas = E.array(self.t)
        self.stoas = E.vec("st", n)
        self.toaerrs = E.vec("err", n)
        self.fr, self.r, self.M = E.vec("fr", n), E.vec("r", n), E.mat("M", n, 3)
        ang = ["RAJ", "DECJ"] if frame == "equ" else ["ELONG", "ELAT"]
        self.fit = ["F0", ang[0]] + [k for k, f in dmx if f]
        self.set = ["DM"] + self.fit + [ang[1], "PX"] + [k for k, f in dmx if not f] + sum([[k[:3] + "R1" + k[3:], k[:3] + "R2" + k[3:]] for k, f in dmx], [])
        self.par = {k: NS(val=E.real("v_" + k), err=E.real("e_" + k)) for k in self.set}
        for k in range(1, 10):
            self.par["DMASSPLANET%d" % k] = NS(val=E.real("mass%d" % k), err=0.0)
        self.psrPos = E.mat("pos", n, 3)
        self.formed = None
        self.clean = {p: E.mat(p, n, 6) for p in PLANETS}
        self.sun = E.mat("sun", n, 6)
        self.fl = {"f": rnp.array(["f%d" % i for i in range(n)]), "val": rnp.array([1.5 * i for i in range(n)])}

    def toas(self):
        return self._toas.copy()

    def residuals(self):
        return self.r.copy()

    def designmatrix(self):
        return self.M.copy()

    def ssbfreqs(self):
        return self.fr.copy()

    def telescope(self):
        return rnp.array([b"tel%d" % i for i in range(self.n)])

    def pars(self, which="fit"):
        return tuple(self.fit if which == "fit" else self.set)

    def flags(self):
        return list(self.fl)

    def flagvals(self, k):
        return self.fl[k]

    def __getitem__(self, k):
        return self.par[k]

    def formbats(self):
        self.formed = all(bool(self.par["DMASSPLANET%d" % k].val == 0) for k in range(1, 10))

    @property
    def sun_ssb(self):
        assert self.formed is not None, "positions read before formbats"
        return self.sun.copy()

    def __getattr__(self, a):
        if a.endswith("_ssb") and a[:-4] in PLANETS:
            assert self.formed, "planet positions read before the ephemeris perturbation was reset"
            return self.clean[a[:-4]].copy()
        raise AttributeError(a)


def no_distance(E, pm):
    E.patch(pm, "json", Stub(load=lambda f, **k: {}, loads=lambda s, **k: {}))


def eclrot(E, X):
    """ecliptic vectors in the equatorial frame"""
    M = E.array(E.mod("constants").M_ecl)
    return E.array([list(rnp.dot(M, rnp.asarray(X[i]))) for i in range(X.shape[0])])


def t2check(E, psr, s, o, frame, planets, ra, dec):
    E.eq("toas in s", psr.toas, E.array([s.t[i] * DAY for i in o]))
    E.eq("stoas in s", psr.stoas, s.stoas[o] * DAY)
    E.eq("errors in s", psr.toaerrs, s.toaerrs[o] / 10**6)
    E.eq("residuals", psr.residuals, s.r[o])
    E.eq("frequencies in MHz", psr.freqs, s.fr[o] / 10**6)
    E.eq("design matrix", psr.Mmat, s.M[o])
    E.true("telescope", list(psr.telescope) == ["tel%d" % i for i in o])
    E.true("name", psr.name == s.name and isinstance(psr.name, str))
    E.true("fitpars %s" % psr.fitpars, list(psr.fitpars) == ["Offset"] + s.fit)
    E.true("setpars %s" % psr.setpars, list(psr.setpars) == [k for k in s.set if k not in s.fit])
    E.true("flags", {k: list(v) for k, v in psr.flags.items()} == {k: list(v[o]) for k, v in s.fl.items()})
    E.eq("theta, phi", E.array([psr.theta, psr.phi]), E.array([E.mod("pulsar").np.pi / 2 - dec, ra]))
    E.eq("position", psr.pos, unit_vec(E, ra, dec))
    rot = (lambda X: eclrot(E, X)) if frame == "ecl" else (lambda X: X)
    E.eq("pos_t", psr.pos_t, rot(s.psrPos)[o])
    if planets:
        for k, p in enumerate(PLANETS):
            E.eq(p, psr.planetssb[:, k, :3], rot(s.clean[p][:, :3])[o])
            E.eq(p + " velocity", psr.planetssb[:, k, 3:], rot(s.clean[p][:, 3:])[o])
        E.true("planets", psr.planetssb.shape == (s.n, 9, 6))
        E.eq("sun", psr.sunssb[:, :3], rot(s.sun[:, :3])[o])
        E.eq("sun velocity", psr.sunssb[:, 3:], rot(s.sun[:, 3:])[o])
    else:
        E.true("no planets", psr.planetssb is None and psr.sunssb is None)


@instance("P32", "tempo2", bounds="2 TOAs in any order, equatorial or ecliptic coordinates, with and without planets, sorted or not, any values", tmo=300, maxpaths=60)
def tempo2(E):
    pm = E.mod("pulsar")
    frame = ["equ", "ecl"][E.choose("ecliptic", 2)]
    name = NAMES[E.choose("name", 3)] if frame == "ecl" else NAMES[0]
    planets = not E.choose("noplanets", 2) if name == NAMES[0] else False
    sort = not E.choose("nosort", 2) if planets and frame == "equ" else True
    no_distance(E, pm)
    el, eb, ra, dec = coords(E, pm, name, frame)
    s = T2(E, 2, name, frame)
    for k, v in zip(["RAJ", "DECJ"] if frame == "equ" else ["ELONG", "ELAT"], [ra, dec] if frame == "equ" else [el[0], eb[0]]):
        s.par[k].val = v
    keep = bool(E.choose("keep", 2)) if not planets else False
    psr = pm.Tempo2Pulsar(s, sort=sort, planets=planets, drop_t2pulsar=not keep)
    t2check(E, psr, s, order(s.t) if sort else [0, 1], frame, planets, ra, dec)
    E.true("tempo2 object kept when asked", hasattr(psr, "t2pulsar") == keep)
    psr.drop_not_picklable()
    E.true("tempo2 object dropped for pickling", not hasattr(psr, "t2pulsar"))


def dmxcheck(E, psr, s, dmx, none=()):
    if not dmx:
        E.true("no DMX", psr.dmx is None)
        return
    E.true("DMX bins %s" % sorted(psr.dmx), sorted(psr.dmx) == sorted(k for k, f in dmx))
    for k, f in dmx:
        d = psr.dmx[k]
        E.true("%s is %sfitted" % (k, "" if f else "not "), bool(d["fit"]) == f and f == (k in psr.fitpars))
        E.eq(k, E.array([d["DMX"], d["DMXR1"], d["DMXR2"]]), E.array([s[k].val, s[k[:3] + "R1" + k[3:]].val, s[k[:3] + "R2" + k[3:]].val]))
        if k in none:
            E.true(k + " without uncertainty", d["DMXerr"] is None)
        else:
            E.eq(k + " uncertainty", d["DMXerr"], s[k].err)


@instance("P32", "tempo2-dmx", bounds="any DM, up to 2 DMX bins (labels of 4 or 5 digits; values, errors, ranges arbitrary), each fitted or only set", tmo=200)
def tempo2_dmx(E):
    pm = E.mod("pulsar")
    no_distance(E, pm)
    k = E.choose("dmx", 5)
    dmx = [(), (("DMX_0001", True),), (("DMX_0001", False), ("DMX_0002", True)), (("DMX_0002", False), ("DMX_0001", False)), (("DMX_10001", True), ("DMX_0001", False))][k]
    s = T2(E, 2, "J0000+00", "equ", dmx)
    psr = pm.Tempo2Pulsar(s, planets=False)
    E.eq("DM", psr.dm, s["DM"].val)
    dmxcheck(E, psr, s, dmx)


# ---------------------------------------------------------------- PINT
class PintToas:
    def __init__(self, E, n):
        import astropy.units as u

        self.E, self.ntoas = E, n
        self.mjds, self.err = E.vec("mjd", n), E.vec("err", n)
        self.vec = {k: E.mat(k, n, 3) for k in ["ssb_obs_pos", "obs_sun_pos", "obs_earth_pos", "obs_jupiter_pos", "obs_saturn_pos", "obs_uranus_pos", "obs_neptune_pos"]}
        table = {k: Col(E, v, u.km) for k, v in self.vec.items()}

        class Table(dict):
            colnames = list(table)

        self.table = Table(table)
        self.fl = [{"f": "a", "x": "1"}, {"f": "b", "only": "2"}][:n]

    def get_mjds(self):
        import astropy.units as u

        return Col(self.E, self.mjds, u.day)

    def get_errors(self):
        import astropy.units as u

        return Col(self.E, self.err, u.us)

    def get_obss(self):
        return ["obs%d" % i for i in range(self.ntoas)]

    def get_flags(self):
        return [dict(f) for f in self.fl]

    def write_TOA_file(self, f):
        f.write("TIM")


class PintModel:
    def __init__(self, E, n, name, frame, dmx=(), nounc=(), ranges_first=False):
        import astropy.units as u

        self.E = E
        self.PSR = NS(value=name)
        self.bary = [E.real("t%d" % i, s=(0, 4)) for i in range(n)]
        self.fr, self.r, self.M = E.vec("fr", n), E.vec("r", n), E.mat("M", n, 2)
        self.post = E.mat("pos", n, 3)
        self.pp = {}
        fit = ["F0"]
        for k, unit in {"equ": [("RAJ", u.hourangle), ("DECJ", u.deg)], "ecl": [("ELONG", u.deg), ("ELAT", u.deg)]}[frame]:
            self._add(k, unit=unit)
        self._add("F0", frozen=False)
        self._add("DM")
        for k, f in dmx:
            if not ranges_first:
                self._add(k, frozen=not f, nounc=k in nounc)
            for r in ("R1", "R2"):
                self._add(k[:3] + r + k[3:])
            if ranges_first:
                self._add(k, frozen=not f, nounc=k in nounc)
            if f:
                fit.append(k)
        self.fit = ["Offset"] + fit
        kind = {"equ": "AstrometryEquatorial", "ecl": "AstrometryEcliptic"}[frame]
        self.components = {kind: NS(ssb_to_psb_xyz_ICRS=self._pos_t), "Spindown": NS()}

    def _add(self, k, frozen=True, unit=None, nounc=False):
        v, e = self.E.real("v_" + k), self.E.real("e_" + k)
        p = NS(value=v, val=v, err=e, uncertainty_value=None if nounc else e, frozen=frozen)
        if unit is not None:
            p.quantity = Col(self.E, v, unit)
        self.pp[k] = p
        setattr(self, k, p)

    def __getitem__(self, k):
        return self.pp[k]

    @property
    def params(self):
        return list(self.pp)

    def get_barycentric_toas(self, toas):
        import astropy.units as u

        return Col(self.E, self.E.array(self.bary), u.day)

    def barycentric_radio_freq(self, toas):
        import astropy.units as u

        return Col(self.E, self.fr, u.MHz)

    def designmatrix(self, toas):
        M = self.M
        while M.shape[1] < len(self.fit):
            M = rnp.concatenate([M, M[:, :1]], axis=1)
        return M[:, : len(self.fit)], list(self.fit), ["u%d" % i for i in range(len(self.fit))]

    def _pos_t(self, time):
        self.E.true("scale of the times", time.kw == {"format": "mjd"})
        self.E.eq("times of the position", time.v.value, self.E.array(self.bary))
        import astropy.units as u

        return Col(self.E, self.post, u.one)

    def as_parfile(self):
        return "PAR"


def pint_setup(E, pm, model, toas):
    def resids(t, m):
        import astropy.units as u

        E.true("residuals of these TOAs under this model", t is toas and m is model)
        return NS(time_resids=Col(E, model.r * 10**6, u.us))

    E.patch(pm, "resids", resids)
    E.patch(pm, "Time", lambda v, **kw: NS(v=v, kw=kw))
    no_distance(E, pm)


@instance("P32", "pint", bounds="2 TOAs in any order, equatorial or ecliptic coordinates, with and without planets, sorted or not, any values", tmo=300, maxpaths=60)
def pint(E):
    pm = E.mod("pulsar")
    np = pm.np
    frame = ["equ", "ecl"][E.choose("ecliptic", 2)]
    name = NAMES[E.choose("name", 3)] if frame == "ecl" else NAMES[0]
    planets = not E.choose("noplanets", 2) if name == NAMES[0] else False
    sort = not E.choose("nosort", 2) if planets and frame == "equ" else True
    el, eb, ra, dec = coords(E, pm, name, frame)
    s, toas = PintModel(E, 2, name, frame), PintToas(E, 2)
    rad = [getattr(s, k).quantity.to("rad").v for k in (("RAJ", "DECJ") if frame == "equ" else ("ELONG", "ELAT"))]
    if frame == "equ":
        ra, dec = rad
    else:
        el[0], eb[0] = rad
    pint_setup(E, pm, s, toas)
    keep = bool(E.choose("keep", 2)) if not planets else False
    psr = pm.PintPulsar(toas, s, sort=sort, planets=planets, drop_pintpsr=not keep)
    o = order(s.bary) if sort else [0, 1]
    E.eq("barycentric toas in s", psr.toas, E.array([s.bary[i] * DAY for i in o]))
    E.eq("site toas in s", psr.stoas, toas.mjds[o] * DAY)
    E.eq("errors in s", psr.toaerrs, toas.err[o] / 10**6)
    E.eq("residuals in s", psr.residuals, s.r[o])
    E.eq("barycentric frequencies", psr.freqs, s.fr[o])
    E.eq("design matrix", psr.Mmat, s.M[o])
    E.true("telescope", list(psr.telescope) == ["obs%d" % i for i in o])
    E.true("parameters", list(psr.fitpars) == s.fit and list(psr.setpars) == [k for k in s.params if k not in s.fit] and psr.name == name)
    want = {"f": ["a", "b"], "x": ["1", ""], "only": ["", "2"]}
    E.true("flags", {k: list(v) for k, v in psr.flags.items()} == {k: [v[i] for i in o] for k, v in want.items()})
    E.eq("theta, phi", E.array([psr.theta, psr.phi]), E.array([np.pi / 2 - dec, ra]))
    E.eq("position", psr.pos, unit_vec(E, ra, dec))
    E.eq("pos_t", psr.pos_t, s.post[o])
    if planets:
        cc = 299792458
        V = toas.vec
        for k, p in {2: "earth", 4: "jupiter", 5: "saturn", 6: "uranus", 7: "neptune"}.items():
            E.eq(p + " in light-seconds", psr.planetssb[:, k, :3], (V["obs_%s_pos" % p] + V["ssb_obs_pos"])[o] * 1000 / cc)
        E.eq("sun in light-seconds", psr.sunssb, rnp.concatenate([(V["obs_sun_pos"] + V["ssb_obs_pos"])[o] * 1000 / cc, E.array(rnp.zeros((2, 3)))], axis=1))
        for k in (0, 1, 3, 8):
            E.true("no position for planet %d" % k, all(v != v for v in rnp.asarray(psr.planetssb[:, k]).ravel()))
        E.true("shape", psr.planetssb.shape == (2, 9, 6))
    else:
        E.true("no planets", psr.planetssb is None and psr.sunssb is None)
    E.true("PINT objects kept when asked", all(hasattr(psr, a) == keep for a in ["model", "pint_toas", "parfile", "timfile"]))
    if keep:
        E.true("par and tim text", psr.parfile == "PAR" and psr.timfile == "TIM" and psr.model is s and psr.pint_toas is toas)
    psr.drop_not_picklable()
    E.true("PINT objects dropped for pickling", not hasattr(psr, "model") and not hasattr(psr, "pint_toas"))


@instance("P32", "pint-dmx", bounds="any DM, up to 2 DMX bins (labels of 4 or 5 digits; values, errors, ranges arbitrary), each fitted or frozen, with or without uncertainty", tmo=200)
def pint_dmx(E):
    pm = E.mod("pulsar")
    k = E.choose("dmx", 5)
    dmx = [(), (("DMX_0001", True),), (("DMX_0001", False), ("DMX_0002", True)), (("DMX_0002", False), ("DMX_0001", False)), (("DMX_10001", True), ("DMX_0001", False))][k]
    s, toas = PintModel(E, 1, "J0000+00", "equ", dmx, nounc=("DMX_0001",), ranges_first=bool(E.choose("ranges first", 2))), PintToas(E, 1)
    pint_setup(E, pm, s, toas)
    psr = pm.PintPulsar(toas, s, planets=False)
    E.eq("DM", psr.dm, s["DM"].val)
    dmxcheck(E, psr, s, dmx, none=("DMX_0001",))


@instance("P32", "pint-planets", bounds="a table without planet positions is refused")
def pint_planets(E):
    pm = E.mod("pulsar")
    s, toas = PintModel(E, 1, "J0000+00", "equ"), PintToas(E, 1)
    pint_setup(E, pm, s, toas)
    k = ["obs_earth_pos", "obs_jupiter_pos", "obs_saturn_pos", "obs_uranus_pos", "obs_neptune_pos", "obs_sun_pos"][E.choose("missing", 6)]
    del toas.table[k]
    toas.table.colnames = list(toas.table)
    E.true("missing %s refused" % k, E.raises(ValueError, lambda: pm.PintPulsar(toas, s)))


# ---------------------------------------------------------------- distances
@instance("P32", "distance", bounds="any table of distances: listed names, names listed under J or B only, names not listed")
def distance(E):
    pm = E.mod("pulsar")
    names = ["J1+1", "B2+2", "J3+3", "B3+3", "J4+4"]
    tab = {k: [E.real("d" + k), E.real("e" + k)] for k in names}
    read = lambda f, **k: {k: list(v) for k, v in tab.items()}  # noqa: E731
    E.patch(pm, "json", Stub(load=read, loads=read))
    ask, hit = [("J1+1", "J1+1"), ("B2+2", "B2+2"), ("1+1", "J1+1"), ("2+2", "B2+2"), ("3+3", "J3+3"), ("J2+2", None), ("B4+4", None), ("9+9", None)][E.choose("name", 8)]
    p = pm.BasePulsar()
    p.name = ask
    p._pdist = p._get_pdist()
    E.true("a pair", isinstance(p.pdist, tuple) and len(p.pdist) == 2)
    E.eq("distance of " + ask, E.array(list(p.pdist)), E.array(tab[hit] if hit else [1, E.const(0.2)]))


# ---------------------------------------------------------------- the factory
class _Toas:
    pass


class _Model:
    pass


class _T2:
    pass


@instance("P32", "factory", bounds="every combination of given objects or files, installed packages and requested package; the options given reach the constructor and the working directory is restored", maxpaths=400, tmo=200)
def factory(E):
    pm = E.mod("pulsar")
    calls = []
    have_t2, have_pint = [(1, 1), (0, 1), (1, 0)][E.choose("installed", 3)]
    opts = dict(sort="S", planets="PL", drop_t2pulsar="D2", drop_pintpsr="DP")
    given = E.choose("options", 2)
    kw = dict(opts) if given else {}
    exp = opts if given else dict(sort=True, planets=True, drop_t2pulsar=True, drop_pintpsr=True)
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        d = os.path.realpath(d)
        os.mkdir(d + "/sub")
        for f in ("a.par", "sub/b.tim"):
            open(d + "/" + f, "w").write("FORMAT 1\nx 1 2 3 4\n" if f.endswith("tim") else "")

        class Tempo(_T2):
            def __init__(self, par, tim, **k):
                calls.append(("t2load", os.getcwd(), os.path.realpath(par), os.path.realpath(tim), k))
                if fail:
                    raise RuntimeError

        def get_mt(par, tim, **k):
            calls.append(("pintload", os.getcwd(), os.path.realpath(par), os.path.realpath(tim), k))
            if fail:
                raise RuntimeError
            return _Model(), _Toas()

        E.patch(pm, "t2", Stub(tempopulsar=Tempo) if have_t2 else None)
        E.patch(pm, "pint", Stub() if have_pint else None)
        E.patch(pm, "TOAs", _Toas)
        E.patch(pm, "TimingModel", _Model)
        E.patch(pm, "get_model_and_toas", get_mt)
        E.patch(pm, "PintPulsar", lambda t, m, **k: ("pint", t, m, k))
        E.patch(pm, "Tempo2Pulsar", lambda p, **k: ("t2", p, k))
        E.patch(pm, "FeatherPulsar", NS(read_feather=lambda f: ("feather", f)))
        fail = False
        how = E.choose("how", 4)
        try:
            if how == 0:
                E.true("feather file", pm.Pulsar("x/y.feather", **kw) == ("feather", "x/y.feather") and pm.Pulsar(filepath="z", **kw) == ("feather", "z"))
            elif how == 1 and have_pint:
                t, m = _Toas(), _Model()
                for args in ((t, m), (m, t)):
                    r = pm.Pulsar(*args, **kw)
                    E.true("PINT objects", r[0] == "pint" and r[1] is t and r[2] is m)
                    E.true("PINT options %r" % r[3], r[3] == {k: exp[k] for k in ("sort", "planets", "drop_pintpsr")})
            elif how == 2 and have_t2:
                fail = False
                p = object.__new__(Tempo)
                r = pm.Pulsar(p, **kw)
                E.true("tempo2 object", r[0] == "t2" and r[1] is p and r[2] == {k: exp[k] for k in ("sort", "planets", "drop_t2pulsar")})
            elif how == 3:
                want = [None, "tempo2", "PINT", "other"][E.choose("package", 4)]
                fail = bool(E.choose("fail", 2))
                rel = E.choose("relative", 2)
                if rel:
                    os.chdir(d)
                here = os.getcwd()
                par, tim = ("a.par", "sub/b.tim") if rel else (d + "/a.par", d + "/sub/b.tim")
                use = {None: "tempo2" if have_t2 else "pint", "tempo2": "tempo2", "PINT": "pint", "other": None}[want]
                bad = use is None or (use == "tempo2" and not have_t2) or (use == "pint" and not have_pint)
                clocks = E.choose("clock", 4) if not fail and not given and not rel and not bad else 0
                ck = [dict(clk="TT(BIPM2015)"), {}, dict(bipm_version="BIPM2017"), dict(clk="TT(BIPM2015)", bipm_version="BIPM2017")][clocks]
                k = dict(kw, ephem="DE", **ck)
                if want:
                    k["timing_package"] = want
                if bad:
                    E.true("unavailable package refused", E.raises(ValueError, lambda: pm.Pulsar(par, tim, **k)))
                elif fail:
                    E.true("the package's error is reported", E.raises(RuntimeError, lambda: pm.Pulsar(tim, par, **k)))
                else:
                    r = pm.Pulsar(par, tim, **k) if rel else pm.Pulsar(tim, par, **k)
                    E.true("one load", len(calls) == 1 and calls[0][0] == ("t2load" if use == "tempo2" else "pintload"))
                    E.true("files", calls[0][2:4] == (d + "/a.par", d + "/sub/b.tim"))
                    E.true("INCLUDEs relative to the tim file", calls[0][1] == d + "/sub")
                    lk = calls[0][4]
                    if use == "tempo2":
                        E.true("tempo2 load options", lk["ephem"] == "DE" and lk["clk"] == ck.get("clk") and lk["maxobs"] >= 2)
                        E.true("tempo2 options", r[0] == "t2" and {a: r[2][a] for a in ("sort", "planets", "drop_t2pulsar")} == {a: exp[a] for a in ("sort", "planets", "drop_t2pulsar")})
                    else:
                        E.true("PINT load options", lk["ephem"] == "DE" and lk["bipm_version"] == ["BIPM2015", None, "BIPM2017", "BIPM2017"][clocks] and lk["planets"] == exp["planets"])
                        E.true("PINT options from files", r[0] == "pint" and r[3] == {a: exp[a] for a in ("sort", "planets", "drop_pintpsr")})
                E.true("working directory restored", os.getcwd() == here)
                for a, b in ((par + "x.par", tim), (par, "no.tim")):
                    E.true("missing file reported", E.raises(IOError, lambda: pm.Pulsar(a, b, **k)))
                E.true("no data refused", E.raises(ValueError, lambda: pm.Pulsar(par, **k)))
        finally:
            os.chdir(cwd)


@instance("P32", "maxobs", bounds="tim files of up to 3 lines, each a TOA, a comment, blank or the INCLUDE of a file of 2 TOAs and a comment; with and without final newline", maxpaths=400, tmo=200)
def maxobs(E):
    pm = E.mod("pulsar")
    kinds = [E.choose("line%d" % i, 4) for i in range(3)]
    last = E.choose("newline", 2)
    with tempfile.TemporaryDirectory() as d:
        open(d + "/inc.tim", "w").write("C a comment\n x 1400 53000.1 1.0 a\n y 1400 53000.2 1.0 a\n")
        text = [" z 1400 53001.%d 1.0 a" % i if k == 0 else "C comment INCLUDE" if k == 1 else "" if k == 2 else "INCLUDE %s/inc.tim" % d for i, k in enumerate(kinds)]
        open(d + "/a.tim", "w").write("\n".join(text) + ("\n" if last else ""))
        n = sum({0: 1, 1: 0, 2: 0, 3: 2}[k] for k in kinds)
        got = pm.get_maxobs(d + "/a.tim")
        E.true("%d TOAs in %s: %d" % (n, kinds, got), got == n)
