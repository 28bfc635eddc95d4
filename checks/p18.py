"""P18: antenna patterns and burst-with-memory delays are as documented."""
from vlib.harness import instance
from . import common as c

ASSUMPTIONS = ["pulsar positions are arbitrary unit vectors, source angles arbitrary reals", "the pulsar is not exactly in the source direction (the patterns are 0/0 there)"]


def ut(E):
    return E.mod("signals.utils")


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def trig(E, x):
    a = E.array([x])
    return E.np.sin(a)[0], E.np.cos(a)[0]


def frame(E, th, ph):
    """source direction, and the two unit vectors spanning the wave front: azimuthal (reversed) and polar"""
    st, ct = trig(E, th)
    sp, cp = trig(E, ph)
    src = (st * cp, st * sp, ct)
    m = (sp, -cp, 0)
    n = (-ct * cp, -ct * sp, st)
    return src, m, n


def oracle(E, p, th, ph):
    src, m, n = frame(E, th, ph)
    mu = dot(src, p)
    d = 1 - mu
    fp = E.const(0.5) * (dot(m, p) ** 2 - dot(n, p) ** 2) / d
    fc = dot(m, p) * dot(n, p) / d
    return fp, fc, mu, d


@instance("P18", "patterns", bounds="any unit vector, any source angles")
def patterns(E):
    p = E.unit_vector("p")
    th, ph = E.real("theta", s=(0.2, 3.0)), E.real("phi", s=(0, 6))
    fp, fc, mu, d = oracle(E, p, th, ph)
    E.assume_ne(d, 0)
    got = ut(E).create_gw_antenna_pattern(p, th, ph)
    E.true("three values", len(got) == 3)
    E.eq("plus", got[0], fp)
    E.eq("cross", got[1], fc)
    E.eq("cos mu", got[2], mu)
    E.eq("norm", got[0] ** 2 + got[1] ** 2, (1 + got[2]) ** 2 / 4)
    E.eq("position unchanged", p, E.unit_vector("p"))


@instance("P18", "frame", bounds="any source angles: the implied wave frame, read off the response to the coordinate axes, is orthonormal")
def frameort(E):
    np = E.np
    th, ph = E.real("theta", s=(0.2, 3.0)), E.real("phi", s=(0, 6))
    src, m, n = frame(E, th, ph)
    for a, b, v in ((m, m, 1), (n, n, 1), (src, src, 1), (m, n, 0), (m, src, 0), (n, src, 0)):
        E.eq("oracle frame", dot(a, b), v)
    for k in range(3):
        e = E.array([1 if i == k else 0 for i in range(3)])
        fp, fc, mu = ut(E).create_gw_antenna_pattern(e, th, ph)
        E.eq("axis cos mu", mu, src[k])
        E.assume_ne(src[k], 1)
        E.eq("axis plus", fp * (1 - src[k]) * 2, m[k] * m[k] - n[k] * n[k])
        E.eq("axis cross", fc * (1 - src[k]), m[k] * n[k])


def times(E, n=3):
    return E.array([E.real("t%d" % i, s=(i, i + 1.0)) for i in range(n)])


@instance("P18", "burst", bounds="3 times in any order around the burst time, any unit vector, angles, strain and polarization", qtmo=8000)
def burst(E):
    np = E.np
    p = E.unit_vector("p")
    cth, ph, psi = E.real("cth", -1, 1, s=(-0.8, 0.8)), E.real("phi", s=(0, 6)), E.real("psi", s=(0, 3))
    lh, t0 = E.real("log10_h"), E.real("t0", s=(0.5, 2.5))
    t = times(E)
    toas = t * 86400
    tt = E.snapshot(toas)
    th = np.arccos(E.array([cth]))[0]
    fp, fc, mu, d = oracle(E, p, th, ph)
    E.assume_ne(d, 0)
    got = ut(E).bwm_delay(toas, p, log10_h=lh, cos_gwtheta=cth, gwphi=ph, gwpol=psi, t0=t0)
    s2, c2 = trig(E, 2 * psi)
    slope = 10 ** lh * (c2 * fp + s2 * fc)
    want = []
    for x in t:
        after = bool(x > t0)
        want.append(slope * (x - t0) * 86400 if after else 0)
    E.eq("delay", got, E.array(want))
    E.eq("times unchanged", toas, tt)


@instance("P18", "burst-at", bounds="a time exactly at the burst; default parameters elsewhere")
def burstat(E):
    p = E.unit_vector("p")
    t0 = E.pos("t0")
    E.assume_ne(1 - p[0], 0)
    got = ut(E).bwm_delay(E.array([t0 * 86400, t0 * 86400]), p, t0=t0)
    E.eq("continuous", got, E.array([0, 0]))


@instance("P18", "burst-pattern", bounds="2 times, any user-supplied pattern (values are arbitrary functions of position and angles), with extra return values")
def burstpattern(E):
    np = E.np
    p = E.unit_vector("p")
    cth, ph, psi, lh, t0 = E.real("cth", -1, 1, s=(-0.8, 0.8)), E.real("phi"), E.real("psi"), E.real("log10_h"), E.real("t0", s=(0.5, 1.5))
    t = times(E, 2)
    seen = []

    def pattern(pos, gwtheta, gwphi):
        seen.append((pos, gwtheta, gwphi))
        return (E.real("fplus"), E.real("fcross")) + ((7,) if E.choose("extra", 2) else ())

    got = ut(E).bwm_delay(t * 86400, p, log10_h=lh, cos_gwtheta=cth, gwphi=ph, gwpol=psi, t0=t0, antenna_pattern_fn=pattern)
    E.true("pattern called once", len(seen) == 1)
    E.eq("position", seen[0][0], p)
    E.eq("polar angle", np.cos(E.array([seen[0][1]]))[0], cth)
    E.eq("azimuth", seen[0][2], ph)
    s2, c2 = trig(E, 2 * psi)
    slope = 10 ** lh * (c2 * E.real("fplus") + s2 * E.real("fcross"))
    E.eq("delay", got, E.array([slope * (x - t0) * 86400 if bool(x > t0) else 0 for x in t]))


@instance("P18", "inputs", bounds="burst time given as an array (shape 1), evaluated twice")
def inputs(E):
    p = E.unit_vector("p")
    t0 = E.array([E.pos("t0", s=(0.2, 0.6))])
    E.assume_ne(1 - p[0], 0)
    x = E.array([E.pos("t", s=(1.0, 3.0)) * 86400])
    E.assume_lt(E.pos("t0") * 86400, x[0])
    f = ut(E).bwm_delay
    a = f(x, p, t0=t0)
    E.eq("burst time unchanged", t0, E.array([E.pos("t0")]))
    E.eq("same again", f(x, p, t0=t0), a)


@instance("P18", "as-signal", bounds="burst as a deterministic signal on one pulsar; any parameter values; 2 times after the burst")
def assignal(E):
    np = E.np
    ds, pm = E.mod("signals.deterministic_signals"), c.par(E)
    p = E.unit_vector("p")
    psr = c.pulsar(E, "A", 2, pos=p)
    U = pm.Uniform(-20, 20)
    wf = ut(E).bwm_delay(log10_h=U("bwm_log10_h"), cos_gwtheta=U("bwm_cth"), gwphi=U("bwm_phi"), gwpol=U("bwm_pol"), t0=pm.Constant(52000)("bwm_t0"))
    s = ds.Deterministic(wf, name="bwm")(psr)
    P = {"bwm_log10_h": E.real("log10_h"), "bwm_cth": E.real("cth", -1, 1, s=(-0.8, 0.8)), "bwm_phi": E.real("phi"), "bwm_pol": E.real("psi")}
    E.true("parameters", sorted(s.param_names) == sorted(P))
    th = np.arccos(E.array([P["bwm_cth"]]))[0]
    fp, fc, mu, d = oracle(E, p, th, P["bwm_phi"])
    E.assume_ne(d, 0)
    s2, c2 = trig(E, 2 * P["bwm_pol"])
    slope = 10 ** P["bwm_log10_h"] * (c2 * fp + s2 * fc)
    E.eq("delay", s.get_delay(P), E.array([slope * (x - 52000 * 86400) for x in psr.toas]))
    P["bwm_t0"] = 60000
    E.eq("no delay before the burst", s.get_delay(P), E.array([0, 0]))
