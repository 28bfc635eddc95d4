"""P28: anisotropic-background coefficients, maps and overlap matrices."""
import types

import numpy as rnp

from vlib.harness import instance
from . import common as c

ASSUMPTIONS = [
    "spherical harmonics satisfy Y(l,-m) = (-1)^m conj Y(l,m) and are otherwise arbitrary numbers per pixel",
    "HEALPix supplies pixel directions, alm indexing, and transforms between maps and alm that are the plain sums over harmonics and pixels",
    "no pulsar lies exactly in a propagation direction",
]


def mods(E):
    return E.mod("signals.anis_coefficients")


class Alm:
    """HEALPix order: m-major"""

    @staticmethod
    def getsize(lmax, mmax=None):
        return (lmax + 1) * (lmax + 2) // 2

    @staticmethod
    def getidx(lmax, l, m):
        return m * (2 * lmax + 1 - m) // 2 + l


def part(x):
    return (x.real, x.imag) if hasattr(x, "imag") else (x, 0)


class Sky:
    """npix pixels with numeric, distinct angles and arbitrary harmonics"""

    def __init__(self, E, npix, lmax, angles=None):
        self.E, self.npix, self.lmax = E, npix, lmax
        self.theta, self.phi = angles if angles else (E.array([0.3 + 0.25 * i for i in range(npix)]), E.array([1.1 + 0.4 * i for i in range(npix)]))
        self.Y = {}
        for l in range(lmax + 1):
            for m in range(l + 1):
                self.Y[l, m] = [(E.real("re%d_%d_%d" % (l, m, p)), E.real("im%d_%d_%d" % (l, m, p)) if m else 0) for p in range(npix)]
        hp = types.SimpleNamespace(Alm=Alm, nside2npix=self.nside2npix, npix2nside=self.npix2nside, pix2ang=self.pix2ang, alm2map=self.alm2map)
        hp.map2alm = self.map2alm
        hp.sphtfunc = types.SimpleNamespace(map2alm=self.map2alm, alm2map=self.alm2map)
        a = mods(E)
        E.patch(a, "hp", hp)
        if angles is None:
            E.patch(a, "ss", types.SimpleNamespace(sph_harm=self.sph_harm, sph_harm_y=lambda l, m, theta, phi: self.sph_harm(m, l, phi, theta)))

    def nside2npix(self, nside):
        assert nside == 7
        return self.npix

    def npix2nside(self, npix):
        assert npix == self.npix
        return 7

    def pix2ang(self, nside, ipix, nest=False):
        assert nside == 7 and not nest
        return self.theta[ipix], self.phi[ipix]

    def harmonic(self, l, m, p):
        re, im = self.Y[l, abs(m)][p]
        if m < 0:
            s = -1 if m % 2 else 1
            return s * re, -s * im
        return re, im

    def real(self, l, m, p):
        """real harmonic"""
        s2 = self.E.np.sqrt(2)
        re, im = self.Y[l, abs(m)][p]
        return re if m == 0 else s2 * re if m > 0 else s2 * im

    def sph_harm(self, m, l, phi, theta):
        E = self.E
        out = []
        for f, t in zip(phi, theta):
            k = [p for p in range(self.npix) if bool(f == self.phi[p]) and bool(t == self.theta[p])]
            re, im = self.harmonic(l, m, k[0]) if k and abs(m) <= l else (E.real("wrong"), E.real("wrong"))
            out.append(re + im * 1j)
        return E.np.array(out)

    def alm2map(self, alm, nside, lmax=None, **kw):
        assert nside == 7 and len(alm) == Alm.getsize(lmax)
        E = self.E
        out = []
        for p in range(self.npix):
            h = 0
            for l in range(lmax + 1):
                for m in range(l + 1):
                    a, b = part(alm[Alm.getidx(lmax, l, m)])
                    re, im = self.Y[l, m][p]
                    h = h + (a * re - b * im) * (2 if m else 1)
            out.append(h)
        return E.array(out)

    def map2alm(self, h, lmax=None, **kw):
        E, out = self.E, [None] * Alm.getsize(lmax)
        for l in range(lmax + 1):
            for m in range(l + 1):
                re = sum(h[p] * self.Y[l, m][p][0] for p in range(self.npix)) * 4 * E.np.pi / self.npix
                im = -1 * sum(h[p] * self.Y[l, m][p][1] for p in range(self.npix)) * 4 * E.np.pi / self.npix
                out[Alm.getidx(lmax, l, m)] = re + im * 1j
        return E.np.array(out)


def lms(lmax):
    return [(l, m) for l in range(lmax + 1) for m in range(-l, l + 1)]


def convert(E, lmax):
    np, a = E.np, mods(E)
    cl = E.vec("c", (lmax + 1) ** 2)
    alm = a.almFromClm(cl)
    E.true("length", len(alm) == Alm.getsize(lmax))
    E.eq("input kept", cl, E.vec("c", (lmax + 1) ** 2))
    C = dict(zip(lms(lmax), cl))
    for l in range(lmax + 1):
        for m in range(l + 1):
            re, im = part(alm[Alm.getidx(lmax, l, m)])
            E.eq("re %d %d" % (l, m), re, C[l, m] / np.sqrt(2) if m else C[l, 0])
            E.eq("im %d %d" % (l, m), im, -C[l, -m] / np.sqrt(2) if m else 0)
    E.eq("clm from alm from clm", a.clmFromAlm(alm), cl)
    z = [None] * Alm.getsize(lmax)
    for l in range(lmax + 1):
        for m in range(l + 1):
            z[Alm.getidx(lmax, l, m)] = E.real("x%d_%d" % (l, m)) + (E.real("y%d_%d" % (l, m)) if m else 0) * 1j
    z = np.array(z)
    back = a.almFromClm(a.clmFromAlm(z))
    for k in range(len(z)):
        E.eq("alm from clm from alm %d" % k, list(part(back[k])), list(part(z[k])))
    E.eq("linear", a.clmFromAlm(a.almFromClm(3 * cl)), 3 * cl)


for _l, _t in [(0, "quick"), (1, "quick"), (2, "quick"), (3, "quick"), (4, "quick"), (6, "quick"), (9, "quick"), (14, "quick")]:
    instance("P28", "conversions up to degree %d" % _l, tier=_t, bounds="all real coefficients up to degree %d, all complex ones with real m=0; healpy's own index function" % _l)(lambda E, _l=_l: convert(E, _l))


@instance("P28", "real harmonics", bounds="2 pixels, degree up to 3, any harmonics obeying the conjugation rule")
def realharm(E):
    a = mods(E)
    s = Sky(E, 2, 3)
    for l, m in lms(3):
        E.eq("Y %d %d" % (l, m), a.real_sph_harm(m, l, s.phi, s.theta), [s.real(l, m, p) for p in range(2)])


@instance("P28", "maps", bounds="2 pixels, degree up to 2, any coefficients and harmonics: both map builders, both coefficient estimators")
def maps(E):
    np, a = E.np, mods(E)
    L = E.choose("degree", 3)
    s = Sky(E, 2, L)
    cl = E.vec("c", (L + 1) ** 2)
    want = [sum(v * s.real(l, m, p) for v, (l, m) in zip(cl, lms(L))) for p in range(2)]
    E.eq("map", a.mapFromClm(cl, 7), want)
    E.eq("map, fast", a.mapFromClm_fast(cl, 7), want)
    h = E.vec("h", 2)
    est = [sum(h[p] * s.real(l, m, p) for p in range(2)) * 4 * np.pi / 2 for l, m in lms(L)]
    E.eq("coefficients", a.clmFromMap(h, L), est)
    est[0] = (h[0] + h[1]) * np.sqrt(4 * np.pi) / 2
    E.eq("coefficients, fast", a.clmFromMap_fast(h, L), est)


def cov(E, R, h):
    """doubled-diagonal sum over pixels and polarisations; R: pulsars x pixels x 2"""
    n = len(R)
    return [[sum(h[p] * R[i][p][q] * R[j][p][q] for p in range(len(h)) for q in range(2)) * (2 if i == j else 1) for j in range(n)] for i in range(n)]


def resp(E, n, npix):
    R = [[[E.real("F%d_%d_%d" % (i, p, q)) for q in range(2)] for p in range(npix)] for i in range(n)]
    return R, E.array([[R[i][p][q] for p in range(npix) for q in range(2)] for i in range(n)])


@instance("P28", "overlap from a map", bounds="3 pulsars, 3 pixels, any response, any two maps: entries, symmetry, linearity, inputs kept")
def overlap(E):
    np, a = E.np, mods(E)
    R, F = resp(E, 3, 3)
    h, g = E.vec("h", 3), E.vec("g", 3)
    O = a.orfFromMap_fast(None, h, response=F)
    E.eq("overlap", O, cov(E, R, h))
    E.eq("symmetric", O, O.T)
    E.eq("linear", a.orfFromMap_fast(None, 2 * h + g, response=F), 2 * O + a.orfFromMap_fast(None, g, response=F))
    E.eq("inputs", h, E.vec("h", 3))
    E.eq("response kept", F, resp(E, 3, 3)[1])
    E.eq("again", a.orfFromMap_fast(None, h, response=F), O)


@instance("P28", "overlap from coefficients", bounds="2 pulsars, 2 pixels, degree up to 2, any response and coefficients")
def overlapc(E):
    np, a = E.np, mods(E)
    L = E.choose("degree", 3)
    s = Sky(E, 2, L)
    R, F = resp(E, 2, 2)
    cl = E.vec("c", (L + 1) ** 2)
    h = [sum(v * s.real(l, m, p) for v, (l, m) in zip(cl, lms(L))) for p in range(2)]
    O = a.getCov(cl, 7, F)
    E.eq("covariance", O, cov(E, R, h))
    E.eq("symmetric", O, O.T)
    E.eq("same as from the map", O, a.orfFromMap_fast(None, E.array(h), response=F))


def pattern(E, pp, pt, gp, gt, npix, norm=True):
    """plus and cross response of one pulsar to one direction (Gair et al. 2014)"""
    np = E.np
    cs = np.sqrt(1.5) / np.sqrt(npix) if norm else 1 / np.sqrt(npix)
    W = [-np.sin(gt) * np.cos(gp), -np.sin(gt) * np.sin(gp), -np.cos(gt)]
    m = [-np.sin(gp), np.cos(gp), 0]
    n = [-np.cos(gp) * np.cos(gt), -np.cos(gt) * np.sin(gp), np.sin(gt)]
    p = [np.cos(pp) * np.sin(pt), np.sin(pp) * np.sin(pt), np.cos(pt)]
    d = lambda x, y: sum(u * v for u, v in zip(x, y))
    E.assume_ne(1 - d(W, p), 0)
    return [cs * (d(n, p) ** 2 - d(m, p) ** 2) / (2 * (1 - d(W, p))), cs * d(m, p) * d(n, p) / (1 - d(W, p))]


def angles(E, n, k, s=(0.3, 1.4)):
    return E.array([E.real("%s%d" % (k, i), s=s) for i in range(n)])


@instance("P28", "pattern", bounds="1 pulsar, 1 or 2 directions, any angles: both polarisations, normalised or not")
def onepattern(E):
    np, a = E.np, mods(E)
    n = 1 + E.choose("directions", 2)
    pt, pp = [angles(E, 1, k) for k in ("pt", "pp")]
    gt, gp = angles(E, n, "gt"), angles(E, n, "gp")
    norm = bool(E.choose("norm", 2))
    want = [pattern(E, pp[0], pt[0], gp[k], gt[k], n, norm) for k in range(n)]
    sh = lambda x: E.array([[x[k % len(x)] for k in range(n)]])
    for q, plus in enumerate([True, False]):
        E.eq("response %d" % q, a.createSignalResponse_pol(sh(pp), sh(pt), sh(gp), sh(gt), plus=plus, norm=norm), [[w[q] for w in want]])


@instance("P28", "response layout", bounds="2 pulsars with any angles, 3 directions with any angles: rows, interleaved polarisations, normalisation by the number of pixels")
def layout(E):
    np, a = E.np, mods(E)
    pt, pp = angles(E, 2, "pt"), angles(E, 2, "pp")
    gt, gp = angles(E, 3, "gt", (1.6, 2.9)), angles(E, 3, "gp", (2, 6))
    F = a.signalResponse_fast(pt, pp, gt, gp)
    E.true("shape", F.shape == (2, 6))
    for i in range(2):
        for k in range(3):
            E.eq("response %d %d" % (i, k), F[i, 2 * k:2 * k + 2], pattern(E, pp[i], pt[i], gp[k], gt[k], 3))


@instance("P28", "overlap from directions", bounds="2 pulsars with any angles, 2 pixels with any angles, any map", ctmo=20000)
def directions(E):
    np, a = E.np, mods(E)
    gt, gp = angles(E, 2, "gt", (1.6, 2.9)), angles(E, 2, "gp", (2, 6))
    Sky(E, 2, 0, angles=(gt, gp))
    pt, pp = angles(E, 2, "pt"), angles(E, 2, "pp")
    h = E.vec("h", 2)
    R = [[pattern(E, pp[i], pt[i], gp[k], gt[k], 2) for k in range(2)] for i in range(2)]
    O = a.orfFromMap_fast(np.array([[pp[i], pt[i]] for i in range(2)]), h)
    E.eq("overlap", O, cov(E, R, h))


@instance("P28", "basis", bounds="2 pulsars, 2 pixels at fixed directions, degree up to 2, any harmonics: one matrix per coefficient, in order", ctmo=20000)
def basis(E):
    np, a = E.np, mods(E)
    L = E.choose("degree", 3)
    s = Sky(E, 2, L)
    R, F = resp(E, 2, 2)
    seen = []

    def response(ptheta, pphi, gwtheta, gwphi):
        seen.append([list(ptheta), list(pphi), list(gwtheta), list(gwphi)])
        return F

    E.patch(a, "signalResponse_fast", response)
    locs = E.mat("loc", 2, 2)
    B = a.anis_basis(locs, L, nside=7)
    E.true("shape", B.shape == ((L + 1) ** 2, 2, 2))
    for k, (l, m) in enumerate(lms(L)):
        E.eq("basis %d" % k, B[k], cov(E, R, [s.real(l, m, p) for p in range(2)]))
    E.eq("directions", seen[-1], [locs[:, 1], locs[:, 0], s.theta, s.phi])


@instance("P28", "signal correlation", bounds="4 pulsars, degree up to 2, any basis matrices and coefficients: weighted sum of the basis entries of the pair, monopole normalised")
def correlation(E):
    np = E.np
    ut = E.mod("signals.utils")
    L = E.choose("degree", 3)
    B = np.array([[[E.real("B%d_%d_%d" % (k, i, j)) for j in range(4)] for i in range(4)] for k in range(9)])
    pos = [E.array(x) for x in ([1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 0.6, 0.8])]
    prm = E.vec("p", (L + 1) ** 2 - 1)
    for i in range(4):
        for j in range(4):
            want = 2 * np.sqrt(np.pi) * B[0][i][j] + sum(prm[k] * B[k + 1][i][j] for k in range(len(prm)))
            E.eq("correlation %d %d" % (i, j), ut.anis_orf(pos[i], pos[j], prm, anis_basis=B, psrs_pos=pos, lmax=L), want)
