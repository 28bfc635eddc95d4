from batch1 import SB, GP, UT, PA, WS, PR, BA, DS, HEAD
from batch2 import SE, PU, AN, PI, TIMING
BUGS=[
dict(id="g01-first-error", property="P04", edits=[(SB,"                niblock = 1 / self._nvec[idx]\n                beta = 1.0 / (np.einsum(\"i->\", niblock) + 1.0 / jv)\n                logdet += np.log(jv) - np.log(beta)\n","                beta = 1.0 / (len(idx) / self._nvec[idx][0] + 1.0 / jv)\n                logdet += np.log(jv) - np.log(beta)\n")],
 needs="an epoch whose TOAs have different errors",
 breaks="the determinant uses the first error of each epoch for all of its TOAs",
 demo=HEAD+'''
import numpy as np
n = np.array([1.0, 4.0, 2.0])
N = sb.ShermanMorrison(np.array([0.5]), [np.array([0, 1])], n)
x = np.arange(1.0, 4.0)
_, ld = N.solve(x, left_array=x, logdet=True)
C = np.diag(n)
C[:2, :2] += 0.5
assert np.allclose(ld, np.linalg.slogdet(C)[1]), ld
'''),
dict(id="g02-quadrant", property="P18", edits=[(UT,"    pol = np.cos(2 * gwpol) * fp + np.sin(2 * gwpol) * fc\n","    gwpol = np.mod(gwpol, np.pi / 2)\n    pol = np.cos(2 * gwpol) * fp + np.sin(2 * gwpol) * fc\n")],
 needs="a polarization angle outside the first quadrant",
 breaks="the polarization angle is reduced by the wrong period and the delay changes sign",
 demo=HEAD+'''
p = Psr("A", seed=1, toas=np.array([54999.0, 55001.0, 55002.0]) * 86400)
for g in (0.3, 2.0, -0.4):
    d = utils.bwm_delay(p.toas, p.pos, log10_h=-10, cos_gwtheta=0.3, gwphi=1.0, gwpol=g, t0=55000)
    fp, fc, _ = utils.create_gw_antenna_pattern(p.pos, np.arccos(0.3), 1.0)
    want = 1e-10 * (np.cos(2 * g) * fp + np.sin(2 * g) * fc) * np.array([0, 1, 2]) * 86400
    assert np.allclose(d, want, rtol=1e-9, atol=0), (g, d, want)
'''),
dict(id="g04-faint-nodes", property="P31", edits=[(UT,"    idx = M.sum(axis=0) != 0\n","    idx = M.sum(axis=0) > 1e-2\n")],
 needs="a node that is reached only by TOAs close to its neighbour",
 breaks="nodes with a small total weight are dropped and interpolation is no longer exact",
 demo=HEAD+'''
t = np.array([0.0, 1.0, 1.003, 1.5e-3]) * 10
t = np.array([0.0, 10.02, 20.0])
M, x = utils.linear_interp_basis(np.array([0.0, 10.02]), dt=10.0)
assert np.allclose(M.sum(axis=1), 1), M
assert np.allclose(np.dot(M, x), [0.0, 10.02]), M
'''),
dict(id="g05-offset-frame", property="P26", edits=[(UT,"    if offset is not None:\n        planet = np.array(offset) + planet\n\n    if equatorial:\n        planet = ecl2eq_vec(planet)\n","    if equatorial:\n        planet = ecl2eq_vec(planet)\n\n    if offset is not None:\n        planet = np.array(offset) + planet\n")],
 needs="an offset together with equatorial coordinates",
 breaks="the ecliptic offset is added in equatorial coordinates",
 demo=HEAD+'''
x = np.array([[1.0, 2.0, 3.0], [0.5, -1.0, 2.0]])
off = [0.1, 0.2, 0.3]
r = utils.ss_framerotate(np.array([55197.0, 56000.0]), x, 0.0, 0.0, 0.0, 0.0, offset=off, equatorial=True)
want = utils.ecl2eq_vec(utils.eq2ecl_vec(x) + np.array(off))
assert np.allclose(r, want), (r, want)
'''),
dict(id="g06-euler-order", property="P26", edits=[(UT,"    ret = np.einsum(\"ijk,ikl->ijl\", L, N)\n","    ret = np.einsum(\"ijk,ikl->ijl\", N, L)\n")],
 needs="rotations about both the x and the y axis",
 breaks="two of the three rotations are applied in the wrong order",
 demo=HEAD+'''
E = utils.euler_vec(0.3, 0.5, 0.7, 2)
def R(a, i):
    c, s = np.cos(a), np.sin(a)
    return {0: np.array([[1, 0, 0], [0, c, -s], [0, s, c]]), 1: np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]]), 2: np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])}[i]
assert np.allclose(E[1], R(0.7, 0) @ R(0.5, 1) @ R(0.3, 2))
'''),
dict(id="g07-light-companion", property="P27", edits=[(UT,"    m = (((1 + q) ** 2) / q) ** (3 / 5) * mc\n","    m = (((1 + q) ** 2) / max(q, 1 / q)) ** (3 / 5) * mc\n")],
 needs="a mass ratio below one",
 breaks="the total mass is wrong when the mass ratio is below one",
 demo=HEAD+'''
F, mc, e = 1e-8, 1e3, 0.3
for q in (0.5, 1.0, 2.0):
    m = ((1 + q) ** 2 / q) ** 0.6 * mc * 4.925490947e-6
    want = 6 * np.pi * F * (2 * np.pi * F * m) ** (2 / 3) / (1 - e**2)
    assert np.allclose(utils.get_gammadot(F, mc, q, e), want, rtol=1e-3, atol=0), q
'''),
dict(id="g08-partial-flag", property="P21", edits=[(PU,"            if flag in flagnames:\n","            if flag in flagnames and not np.all(self._flags[flag][1:] == \"\"):\n")],
 needs="a flag that only the first stored TOA has",
 breaks="a flag that only one TOA has is ignored",
 demo=HEAD+TIMING+"""
p = Base(n=4, seed=3)
p._toas = np.arange(4.0)
p._flags = {"group": np.array(["G", "", "", ""]), "f": np.array(["a", "b", "c", "d"])}
p.sort_data()
assert list(p.backend_flags) == ["G", "b", "c", "d"], p.backend_flags
"""),
dict(id="g09-flat-copy", property="P33", edits=[(PI,"        b[:] = array[:]\n","        b.ravel()[:] = array.ravel(order=\"K\")\n")],
 needs="an array that is not stored row by row (a Fortran-ordered design matrix, a view)",
 breaks="the elements of the shared array are permuted",
 demo="""import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
from enterprise.pulsar_inflate import PulsarInflater
a = np.asfortranarray(np.arange(6.0).reshape(3, 2))
i = PulsarInflater(a)
try:
    b = np.array(i.inflate())
finally:
    i.destroy()
assert np.array_equal(a, b), (a, b)
"""),
dict(id="g10-noise-accumulates", property="P05", edits=[(GP,"            return MarginalizingNmat(self.Mmat, self.Nmat + other)\n","            self.Nmat = self.Nmat + other\n            return self\n")],
 needs="a second evaluation with other white-noise parameters",
 breaks="the white noise of every evaluation accumulates in the marginalized covariance",
 demo=HEAD+'''
p = Psr("A", seed=1)
m = gp.MarginalizingTimingModel() + ws.MeasurementNoise(efac=U(0.1, 10))
a = sb.PTA([m(p)])
a.get_ndiag({"A_efac": 3.0})
b = sb.PTA([m(p)])
x = {"A_efac": 1.0}
r = np.array([1.0, -1.0] * 4)
f = lambda pta: pta.get_ndiag(x)[0].solve(r, left_array=r)
assert np.allclose(f(a), f(b))
'''),
dict(id="g11-sign-hash", property="P07", edits=[(SB,"                            colhash = hash(column.tobytes())\n","                            colhash = hash((column * (1 if column[0] >= 0 else -1)).tobytes())\n")],
 needs="two bases with columns of opposite sign, one of them with a dense prior",
 breaks="columns of opposite sign are merged; the correlations of the other columns change sign",
 demo=HEAD+'''
p = Psr("A", seed=1, n=4)
t = np.array([1.0, 2.0, 3.0, 4.0])
@parameter.function
def one(toas, k=1):
    return np.stack([t, t**2], axis=1), np.array([1.0, 2.0])
@parameter.function
def two(toas, k=1):
    return np.stack([-t], axis=1), np.array([1.0])
@parameter.function
def dense(f):
    return np.array([[2.0, 1.0], [1.0, 3.0]])
@parameter.function
def pr(f):
    return np.ones(1)
m = (ws.MeasurementNoise(efac=parameter.Constant(1.0)) + gp.BasisGP(dense(), one(), name="a") + gp.BasisGP(pr(), two(), name="b"))(p)
F, phi = m.get_basis({}), np.array(m.get_phi({}))
if phi.ndim == 1:
    phi = np.diag(phi)
A = np.stack([t, t**2], axis=1)
want = A @ np.array([[2.0, 1.0], [1.0, 3.0]]) @ A.T + np.outer(t, t)
assert np.allclose(F @ phi @ F.T, want)
'''),
dict(id="g12-distinct-priors", property="P08", edits=[(SB,"        return np.sum([p.get_logpdf(params=params) for p in self.params])\n","        return np.sum(np.unique([p.get_logpdf(params=params) for p in self.params]))\n")],
 needs="two parameters with the same prior range",
 breaks="equal log priors are counted once",
 demo=HEAD+'''
p = Psr("A", seed=1)
m = ws.MeasurementNoise(efac=U(0, 10)) + ws.TNEquadNoise(log10_tnequad=U(0, 10))
pta = sb.PTA([m(p)])
assert np.allclose(pta.get_lnprior(np.array([1.0, 2.0])), -2 * np.log(10))
'''),
dict(id="g13-inner-clique", property="P03", edits=[(UT,"            self._cliques[idxs] = maxidx\n            if len(allidx) > 1:\n","            self._cliques[idxs] = maxidx\n            if len(allidx - {-1}) > 2:\n")],
 needs="three dense processes of one pulsar, the third sharing columns with both others, in an array with a common process",
 breaks="columns of the first dense process are inverted apart from those it is correlated with",
 demo=HEAD+'''
@parameter.function
def dense(f):
    return np.array([[2.0, 0.7], [0.7, 3.0]])
@parameter.function
def pr(f):
    return 0.5 * np.ones(1)
def base(*ks):
    @parameter.function
    def b(toas, k=1):
        return np.stack([np.asarray(toas / 1e9) ** k for k in ks], axis=1), np.ones(len(ks))
    return b()
ps = [Psr("A", seed=1), Psr("B", seed=2)]
wn = ws.MeasurementNoise(efac=parameter.Constant(1.0))
g = lambda *k, n: gp.BasisGP(dense(), base(*k), name=n)
gw = gp.BasisCommonGP(pr(), base(9), utils.hd_orf(), name="gw")
pta = sb.PTA([(wn + g(1, 2, n="a") + g(3, 4, n="b") + g(2, 3, n="c") + gw)(ps[0]), (wn + gw)(ps[1])])
phi = np.array(pta.get_phi({}))
assert np.allclose(np.dot(phi, pta.get_phiinv({})), np.eye(len(phi)), atol=1e-9)
'''),
dict(id="g14-common-labels", property="P32", edits=[(PU,"        self.setpars = [sp for sp in spars if sp not in self.fitpars]\n","        self.setpars = [sp for sp in spars if not any(sp in fp for fp in self.fitpars)]\n")],
 needs="a parameter whose name is part of a fitted one (DM and DM1)",
 breaks="set parameters are lost when their name occurs inside a fitted parameter",
 demo="""import numpy as np
import logging
logging.disable(logging.CRITICAL)
from enterprise import pulsar as ep
from enterprise.signals import utils
class V:
    def __init__(self, val, err=0.0): self.val, self.err = val, err
class T2:
    name = "J1234+5678"
    n = 3
    stoas = np.arange(3.0) + 50000
    toaerrs = np.ones(3)
    psrPos = np.array([[0.6, 0.8, 0.0]] * 3)
    def toas(self): return np.arange(3.0) + 50000
    def residuals(self): return np.zeros(3)
    def designmatrix(self): return np.ones((3, 1))
    def ssbfreqs(self): return np.full(3, 1e9)
    def telescope(self): return np.array([b"ao"] * 3)
    def pars(self, which="fit"): return ("DM1",) if which == "fit" else ("DM", "DM1", "F0")
    def flags(self): return []
    def flagvals(self, k): return np.array([""] * 3)
    def __getitem__(self, k): return V(0.5)
ep.Tempo2Pulsar._get_radec = lambda self, t: (0.1, 0.2)
p = ep.Tempo2Pulsar(T2(), planets=False)
assert p.setpars == ["DM", "F0"], p.setpars
"""),
dict(id="g15-white-overlap", property="P13", edits=[(WS,"                ret += self._ndiag[key](params=params) * mask\n","                ret = np.where(mask, self._ndiag[key](params=params), ret)\n")],
 needs="a selection whose groups overlap",
 breaks="TOAs in several groups get the variance of the last group only",
 demo=HEAD+'''
p = Psr("A", seed=1)
def sel(toas):
    a = np.ones(len(toas), dtype=bool)
    b = a.copy()
    b[::2] = False
    return {"all": a, "odd": b}
s = sb.SignalCollection([ws.TNEquadNoise(log10_tnequad=U(-5, 5), selection=Selection(sel))])(p)
x = {"A_all_log10_tnequad": 0.0, "A_odd_log10_tnequad": 0.5}
want = 1.0 + np.array([0, 10.0] * (len(p.toas) // 2))
assert np.allclose(np.array(s.get_ndiag(x)), want), np.array(s.get_ndiag(x))
'''),
dict(id="g16-chromatic-zero", property="P15", edits=[(BA,"    Dm = (1400 / freqs) ** idx\n","    Dm = (1400 / freqs) ** (idx or 4)\n")],
 needs="a chromatic index of zero",
 breaks="the default chromatic index is used in place of zero",
 demo=HEAD+'''
p = Psr("A", seed=1)
F, _ = utils.createfourierdesignmatrix_chromatic(p.toas, np.full(len(p.toas), 700.0), nmodes=2, idx=0)
G, _ = utils.createfourierdesignmatrix_red(p.toas, nmodes=2)
assert np.allclose(F, G)
'''),
dict(id="g17-early-epochs", property="P26", edits=[(DS,"                U, _ = utils.create_quantization_matrix(psr.toas, nmin=1)\n","                U, _ = utils.create_quantization_matrix(psr.toas, dt=86400, nmin=1)\n")],
 needs="several observations on one day",
 breaks="the delay is averaged over a day instead of an epoch",
 demo=HEAD+'''
p = Psr("A", seed=1, n=4, toas=(55000 + np.array([0.0, 0.4, 30.0, 60.0])) * 86400)
p.planetssb = np.random.RandomState(1).normal(size=(4, 9, 6)) * 100
p.pos_t = np.tile([0.6, 0.0, 0.8], (4, 1))
off = dict(frame_drift_rate=False, d_saturn_mass=False, d_uranus_mass=False, d_neptune_mass=False, jup_orb_elements=False)
a = ds.PhysicalEphemerisSignal(use_epoch_toas=True, **off)(p).get_delay({"d_jupiter_mass": 1e-8})
b = ds.PhysicalEphemerisSignal(use_epoch_toas=False, **off)(p).get_delay({"d_jupiter_mass": 1e-8})
assert np.allclose(a, b, rtol=1e-9, atol=0), (a, b)
'''),
dict(id="g20-noise-global", property="P22", edits=[(PU,"        noisedict = getattr(self, \"noisedict\", None) if noisedict is None else noisedict\n","        noisedict = getattr(self, \"noisedict\", None) or noisedict\n")],
 needs="a pulsar that was loaded with a noise dictionary and is saved with a new one",
 breaks="the old noise dictionary is saved instead of the one given",
 demo=HEAD+'''
import tempfile
from enterprise.pulsar import FeatherPulsar
p = Psr("A", seed=1)
p.noisedict = {"A_efac": 1.0}
with tempfile.TemporaryDirectory() as d:
    FeatherPulsar.save_feather(p, d + "/a.feather", noisedict={"A_efac": 2.0})
    q = FeatherPulsar.read_feather(d + "/a.feather")
assert q.noisedict == {"A_efac": 2.0}, q.noisedict
'''),
]
