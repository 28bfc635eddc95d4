from batch1 import SB, GP, UT, PA, WS, PR, BA, DS, HEAD
SE="enterprise/signals/selections.py"; PU="enterprise/pulsar.py"; AN="enterprise/signals/anis_coefficients.py"; PI="enterprise/pulsar_inflate.py"
TIMING='''
import enterprise.pulsar as ep
class Base(ep.BasePulsar):
    def __init__(self, n=6, seed=0, sort=True, toas=None):
        r = np.random.RandomState(seed)
        self._sort = sort
        self.name = "J1234+5678"
        self._toas = r.permutation(np.arange(n) * 86400.0 * 10) if toas is None else np.array(toas, float)
        n = len(self._toas)
        self._stoas = self._toas + 1
        self._toaerrs = r.uniform(1, 2, n)
        self._residuals = r.normal(size=n)
        self._ssbfreqs = r.uniform(100, 2000, n)
        self._designmatrix = r.normal(size=(n, 3))
        self.fitpars = ["Offset", "F0", "F1"]
        self._telescope = np.array(["t%d" % i for i in range(n)])
        self._flags = {"f": np.array(["f%d" % i for i in range(n)])}
        self._planetssb = r.normal(size=(n, 9, 6))
        self._sunssb = r.normal(size=(n, 6))
        self._pos_t = r.normal(size=(n, 3))
        self._raj, self._decj = 1.0, 0.3
        self._pos = self._get_pos()
        self._pdist = (1.0, 0.2)
        self._dm, self._dmx = 10.0, None
        self.sort_data()
'''
BUGS=[
dict(id="b01-dense-clique-offset", property="P03", edits=[(SB,"                            self._cliques[slices[sc].start + phiind] = self._clcount\n","                            self._cliques[phiind] = self._clcount\n")],
 needs="a pulsar after the first with a dense process prior, together with a correlated common process",
 breaks="the dense block of a later pulsar is inverted element by element",
 demo=HEAD+'''
from enterprise.signals.parameter import function
@function
def dense(f, a=0.0):
    n = len(f)
    return 10**a * (np.eye(n) + 0.4)
@function
def basis(toas):
    t = (toas - 54000 * 86400) / 86400 / 1000
    return np.array([t, t**2]).T, np.array([1.0, 2.0])
ps = [Psr("A", seed=1), Psr("B", seed=2)]
crn = gp.FourierBasisCommonGP(gp_priors.powerlaw(log10_A=parameter.Constant(0), gamma=parameter.Constant(0)), utils.hd_orf(), components=1, Tspan=1e8, name="gw")
ker = gp.BasisGP(dense(), basis(), name="dense")
mn = ws.MeasurementNoise(efac=parameter.Constant(1.0))
pta = sb.PTA([(mn + crn)(ps[0]), (mn + crn + ker)(ps[1])])
phi = np.array(pta.get_phi({}))
inv, ld = pta.get_phiinv({}, logdet=True, method="cliques")
assert np.allclose(np.array(inv) @ phi, np.eye(len(phi)), atol=1e-6)
assert np.isclose(ld, np.linalg.slogdet(phi)[1])
'''),
dict(id="b02-svd-rank", property="P03", edits=[(UT,"                    ld = np.sum(np.log(s))\n","                    ld = np.sum(np.log(s[:-1]))\n")],
 needs="a dense prior block whose Cholesky factorization fails",
 breaks="the log-determinant from the SVD fallback misses the smallest singular value",
 demo=HEAD+'''
K = utils.KernelMatrix(np.diag([2.0, 3.0, 5.0]) + 0.5)
import scipy.linalg as sl
keep = sl.cho_factor
def fail(*a, **k):
    raise np.linalg.LinAlgError("not positive definite")
utils.sl.cho_factor = fail
try:
    inv, ld = K.inv(logdet=True)
finally:
    utils.sl.cho_factor = keep
assert np.allclose(inv @ K, np.eye(3))
assert np.isclose(ld, np.linalg.slogdet(np.array(K))[1])
'''),
dict(id="b03-partition-logdet", property="P03", edits=[(SB,"                    if logdet:\n                        ld -= np.sum(np.log(phidiag[slices[csc1]][csc1._idx[cs1]]))\n","                    if logdet and len(csc1._idx) == 1:\n                        ld -= np.sum(np.log(phidiag[slices[csc1]][csc1._idx[cs1]]))\n")],
 needs="the partition method with the log-determinant, in an array where pulsars have another process besides the correlated one",
 breaks="the log-determinant counts the per-pulsar variances of the correlated process twice",
 demo=HEAD+'''
ps = [Psr("A", seed=1), Psr("B", seed=2)]
pl = gp_priors.powerlaw(log10_A=parameter.Constant(-2), gamma=parameter.Constant(0))
crn = gp.FourierBasisCommonGP(pl, utils.hd_orf(), components=1, Tspan=1e8, name="gw")
red = gp.FourierBasisGP(gp_priors.powerlaw(log10_A=parameter.Constant(1), gamma=parameter.Constant(0)), components=1, Tspan=2e8)
mn = ws.MeasurementNoise(efac=parameter.Constant(1.0))
for m in [mn + crn, mn + crn + red]:
    pta = sb.PTA([m(p) for p in ps])
    phi = np.array(pta.get_phi({}))
    inv, ld = pta.get_phiinv({}, logdet=True, method="partition")
    assert np.isclose(ld, np.linalg.slogdet(phi)[1])
'''),
dict(id="b04-hash-alignment", property="P07", edits=[(SB,"                                hashlist.append(colhash)\n                                idx[signal].append(cc)\n","                                if signal.basis_combine:\n                                    hashlist.append(colhash)\n                                idx[signal].append(cc)\n")],
 needs="a process that does not share columns placed before processes that do",
 breaks="shared columns are attributed to the wrong column of the combined basis",
 demo=HEAD+'''
p = Psr("A", n=8)
pl = lambda a: gp_priors.powerlaw(log10_A=parameter.Constant(a), gamma=parameter.Constant(0))
s1 = gp.FourierBasisGP(pl(0), components=1, Tspan=3e8, combine=False, name="one")
s2 = gp.FourierBasisGP(pl(0.5), components=1, Tspan=2e8, combine=True, name="two")
s3 = gp.FourierBasisGP(pl(0.7), components=1, Tspan=2e8, combine=True, name="three")
m = (s1 + s2 + s3)(p)
T, phi = m.get_basis({}), np.array(m.get_phi({}))
C = (T * phi) @ T.T
E = sum((F * q) @ F.T for F, q in [(x.get_basis({}), np.array(x.get_phi({}))) for x in m.signals])
assert np.allclose(C, E)
'''),
dict(id="b05-vector-sample", property="P10", edits=[(PA,"        if value is None and \"params\" in kwargs:\n            value = kwargs[\"params\"][self.name]\n\n        if hasattr(self, \"prior\"):\n            pdf = self.prior(value, **kwargs)\n","        if value is None and \"params\" in kwargs:\n            value = kwargs.pop(\"params\")[self.name]\n\n        if hasattr(self, \"prior\"):\n            pdf = self.prior(value, **kwargs)\n")],
 needs="the density (not the log-density) of a parameter with a fixed hyperparameter that is overridden in the parameter set",
 breaks="the density is evaluated with the stored hyperparameter instead of the one in the parameter set",
 demo=HEAD+'''
c = parameter.Constant(2.0)("top")
x = parameter.Uniform(0.0, c)("x")
assert np.isclose(x.get_pdf(params={"x": 1.0}), 0.5)
assert np.isclose(np.log(x.get_pdf(params={"x": 1.0, "top": 4.0})), x.get_logpdf(params={"x": 1.0, "top": 4.0}))
'''),
dict(id="b06-mask-two-dim", property="P11", edits=[(SE,"                    if isinstance(attr, np.ndarray) and getattr(mask, \"shape\", [0])[0] == len(attr):\n","                    if isinstance(attr, np.ndarray) and attr.ndim == 1 and getattr(mask, \"shape\", [0])[0] == len(attr):\n")],
 needs="a selected function of a per-TOA attribute with more than one dimension (positions, planets, design matrix)",
 breaks="two-dimensional TOA-length attributes are not restricted by the mask",
 demo=HEAD+'''
from enterprise.signals.parameter import function
seen = {}
@function
def f(toas, pos_t):
    seen["n"] = (len(toas), len(pos_t))
    return pos_t[:, 0]
p = Psr("A", n=6)
mask = np.arange(6) < 4
out = f()("x", psr=p)(mask=mask)
assert seen["n"] == (4, 4), seen
'''),
dict(id="b07-default-over-pulsar", property="P11", edits=[(PA,"                        elif hasattr(par, \"value\"):\n                            kwargs[kw] = par.value\n","                        elif hasattr(par, \"value\") and not hasattr(self._psr, kw):\n                            kwargs[kw] = par.value\n")],
 needs="a fixed parameter for an argument with the same name as a pulsar attribute",
 breaks="the pulsar attribute takes precedence over the fixed parameter",
 demo=HEAD+'''
from enterprise.signals.parameter import function
@function
def f(toas, dm=1.0):
    return toas * 0 + dm
p = Psr("A", n=3)
assert np.allclose(f(dm=parameter.Constant(3.5))("x", psr=p)(), 3.5)
'''),
dict(id="b08-half-open", property="P12", edits=[(SE,"    return dict(zip([\"t1\", \"t2\"], [toas <= midpoint, toas > midpoint]))\n","    return dict(zip([\"t1\", \"t2\"], [toas < midpoint, toas > midpoint]))\n")],
 needs="a TOA exactly in the middle of the data set",
 breaks="a TOA at the midpoint belongs to neither half",
 demo=HEAD+'''
m = selections.cut_half(np.array([0.0, 1.0, 2.0]))
assert np.array_equal(m["t1"] ^ m["t2"], [True] * 3)
'''),
dict(id="b09-backend-dict-sticky", property="P12", edits=[(SE,"                        cb_key = list(np.atleast_1d(cb[\"backend\"]))\n","                        cb[\"backend\"] = cb_key = [b for b in np.atleast_1d(cb[\"backend\"]) if any(b in v for v in flagvals)]\n")],
 needs="one custom backend dictionary selection used for two pulsars with different backends",
 breaks="backends that the first pulsar lacks are forgotten for the pulsars after it",
 demo=HEAD+'''
s = Selection(selections.custom_backends_dict({"backend": ["ASP", "PUPPI"]}))
a = Psr("A", n=2, backends=["ASP", "ASP"])
b = Psr("B", n=3, backends=["PUPPI", "ASP", "PUPPI"])
assert set(s(a).masks) == {"ASP"}
assert set(s(b).masks) == {"ASP", "PUPPI"}
'''),
dict(id="b12-unstable-sort", property="P20", edits=[(PU,"            self._isort = np.argsort(self._toas, kind=\"mergesort\")\n            self._iisort = np.zeros(len(self._isort), dtype=int)\n","            self._isort = np.argsort(self._toas[::-1], kind=\"mergesort\")\n            self._isort = len(self._isort) - 1 - self._isort\n            self._iisort = np.zeros(len(self._isort), dtype=int)\n")],
 needs="simultaneous TOAs",
 breaks="TOAs with equal times are presented in reverse order",
 demo=HEAD+TIMING+'''
p = Base(toas=[0.0, 5.0, 5.0, 1.0])
assert list(p.isort) == [0, 3, 1, 2], p.isort
assert list(p.telescope) == ["t0", "t3", "t1", "t2"]
'''),
dict(id="b13-flag-precedence", property="P21", edits=[(PU,"        for flag in [\"f\", \"i\", \"sys\", \"g\", \"group\"]:\n","        for flag in [\"f\", \"sys\", \"i\", \"g\", \"group\"]:\n")],
 needs="TOAs with both sys and i flags",
 breaks="the i flag takes precedence over sys",
 demo=HEAD+TIMING+'''
p = Base(n=3)
p._flags = {"i": np.array(["i1", "i2", ""]), "sys": np.array(["s1", "", "s3"])}
assert sorted(p.backend_flags) == ["i2", "s1", "s3"], p.backend_flags
'''),
dict(id="b14-feather-flag-name", property="P22", edits=[(PU,"            self.flags[\"_\".join(array.split(\"_\")[1:])] = f[array].to_numpy().astype(\"U\")\n","            self.flags[array.split(\"_\")[-1]] = f[array].to_numpy().astype(\"U\")\n")],
 needs="a flag whose name contains an underscore",
 breaks="the loaded flag has only the last part of its name",
 demo=HEAD+TIMING+'''
import tempfile, os
p = Base(n=4)
p._flags["pp_dm"] = np.array(["1", "2", "3", "4"])
with tempfile.TemporaryDirectory() as d:
    p.to_feather(d + "/x.feather")
    q = ep.FeatherPulsar.read_feather(d + "/x.feather")
assert set(q.flags) == {"f", "pp_dm"}, q.flags.keys()
'''),
dict(id="b15-column-order", property="P22", edits=[(PU,"            cols = [c for c in f.column_names if c.startswith(array)]\n","            cols = sorted(c for c in f.column_names if c.startswith(array))\n")],
 needs="a design matrix with more than ten columns",
 breaks="the columns of the loaded design matrix are in another order than the saved ones",
 demo=HEAD+TIMING+'''
import tempfile
p = Base(n=4)
p._designmatrix = np.random.RandomState(1).normal(size=(4, 12))
p.fitpars = ["P%d" % i for i in range(12)]
with tempfile.TemporaryDirectory() as d:
    p.to_feather(d + "/x.feather")
    q = ep.FeatherPulsar.read_feather(d + "/x.feather")
assert np.array_equal(q.Mmat, p.Mmat)
'''),
dict(id="b16-tm-params-offset", property="P23", edits=[(UT,"                            pardict[key] = np.dot(sb[:, tm_idx], b[ntot + tm_idx]) if gp else b[ntot + tm_idx]\n","                            pardict[key] = np.dot(sb[:, tm_idx], b[ntot + tm_idx]) if gp else b[tm_idx]\n")],
 needs="timing-model coefficients requested from a model where the timing model is not the first process",
 breaks="coefficients of another process are returned as timing-model coefficients",
 demo=HEAD+'''
p = Psr("A", n=12)
red = gp.FourierBasisGP(gp_priors.powerlaw(log10_A=parameter.Constant(0), gamma=parameter.Constant(0)), components=2)
m = ws.MeasurementNoise(efac=parameter.Constant(1.0)) + red + gp.TimingModel()
pta = sb.PTA([m(p)])
c = utils.ConditionalGP(pta, tm_params=["P1"], psr=p).get_mean_coefficients({})
assert np.isclose(c["A_P1_coefficients"], c["A_linear_timing_model_coefficients"][1])
'''),
dict(id="b17-draw-untransposed", property="P23", edits=[(UT,"                        [sl.solve_triangular(c.T, np.random.randn(c.shape[0]), lower=False) for c in ch]\n","                        [sl.solve_triangular(c, np.random.randn(c.shape[0]), lower=True) for c in ch]\n")],
 needs="uncorrelated arrays with at least two coefficients that are correlated in the posterior",
 breaks="conditional draws have covariance (L L')^-1 with the factors in the wrong order",
 demo=HEAD+'''
p = Psr("A", n=12)
red = gp.FourierBasisGP(gp_priors.powerlaw(log10_A=parameter.Constant(4), gamma=parameter.Constant(0)), components=1, Tspan=3e9)
m = ws.MeasurementNoise(efac=parameter.Constant(1.0)) + red
pta = sb.PTA([m(p)])
S = pta.get_TNT({})[0] + np.diag(pta.get_phiinv({})[0])
c = utils.ConditionalGP(pta)
keep = np.random.randn
mn = c.get_mean_coefficients({})["A_red_noise_coefficients"]
L = []
for k in range(2):
    np.random.randn = lambda n: np.eye(2)[k]
    L.append(c.sample_coefficients({})[0]["A_red_noise_coefficients"] - mn)
np.random.randn = keep
L = np.array(L).T
assert np.allclose(L @ L.T @ S, np.eye(2), atol=1e-6), L @ L.T @ S
'''),
dict(id="b18-coefficient-fixed-first", property="P24", edits=[(GP,"                    c[slc] = params[p.name] if p.name in params else p.value\n","                    c[slc] = p.value if hasattr(p, \"value\") else params[p.name]\n")],
 needs="a process whose coefficients have both fixed values and supplied values",
 breaks="fixed coefficients override the supplied ones",
 demo=HEAD+'''
p = Psr("A", n=6)
red = gp.FourierBasisGP(gp_priors.powerlaw(log10_A=parameter.Constant(0), gamma=parameter.Constant(0)), components=1, coefficients=True)
s = red(p)
name = "A_red_noise_coefficients"
s._coefficients[""].value = np.array([1.0, 2.0])
F = s._basis
assert np.allclose(s.get_delay({name: np.array([3.0, 5.0])}), F @ [3.0, 5.0])
'''),
dict(id="b19-dm-variance", property="P25", edits=[(GP,"                return np.sqrt(efac_vec**2 * (self._dmerr**2 + equad_vec**2))\n","                return np.sqrt(efac_vec**2 * self._dmerr**2 + equad_vec**2)\n")],
 needs="DMEFAC different from one together with DMEQUAD",
 breaks="DMEQUAD is not scaled by DMEFAC",
 demo=HEAD+'''
p = Psr("A", n=4, nm=2, flags={"pp_dm": np.array(["10", "11", "12", "13"]), "pp_dme": np.array(["1", "2", "1", "2"])})
p.fitpars = ["Offset", "DMX_0001"]
t = p.stoas / 86400
p.dmx = {"DMX_0001": {"DMX": 0.1, "DMXerr": 0.1, "DMXR1": t.min() - 1, "DMXR2": t.max() + 1, "fit": True}}
s = gp.WidebandTimingModel(dmefac=parameter.Constant(2.0), log10_dmequad=parameter.Constant(0.0), dmjump=None)(p)
e = np.array([1.0, 2, 1, 2])
assert np.allclose(s.get_dme({}), 2.0 * np.sqrt(e**2 + 1))
'''),
dict(id="b20-an-amplitude", property="P27", edits=[(UT,"        amp = 2 * mc ** (5 / 3) * omega ** (2 / 3) / dl\n    elif h0 is not None:\n        amp = h0\n","        amp = 2 * mc ** (5 / 3) * omega ** (2 / 3) / dl\n    elif h0 is not None:\n        amp = h0 / 2.0\n")],
 needs="an eccentric binary with the strain amplitude given",
 breaks="the c_n amplitude is half its value when the strain is given instead of the distance",
 demo=HEAD+'''
from enterprise import constants as const
mc, dl, F, e, n = 1e9, 100.0, 1e-8, 0.4, np.arange(1, 5)
h0 = 2 * (mc * const.Tsun) ** (5 / 3) * (2 * np.pi * F) ** (2 / 3) / (dl * const.Mpc / const.c)
for f in (utils.get_an, utils.get_bn, utils.get_cn):
    assert np.allclose(f(n, mc, dl, None, F, e) / f(n, mc, dl, h0, F, e), 1), f
'''),
dict(id="b21-clm-sign", property="P28", edits=[(AN,"                clm[clmindex] = -alm[almindex].imag * np.sqrt(2)\n","                clm[clmindex] = (-1) ** mm * alm[almindex].imag * np.sqrt(2)\n")],
 needs="coefficients of degree two or higher with even negative order",
 breaks="even negative-order coefficients change sign",
 demo='''
import numpy as np
from enterprise.signals import anis_coefficients as ac
c = np.arange(1.0, 10.0)
assert np.allclose(ac.clmFromAlm(ac.almFromClm(c)), c)
'''),
dict(id="b23-params-by-prefix", property="P30", edits=[(SB,"                for s in self._signals:\n                    if s.signal_id == key:\n                        return s\n","                for s in self._signals:\n                    if s.signal_id.startswith(key):\n                        return s\n")],
 needs="two signals where the name of one begins with the name of the other",
 breaks="looking up a signal by name returns another signal",
 demo=HEAD+'''
p = Psr("A", n=6)
pl = gp_priors.powerlaw(log10_A=parameter.Constant(0), gamma=parameter.Constant(0))
m = (gp.FourierBasisGP(pl, components=1, name="red_two") + gp.FourierBasisGP(pl, components=2, name="red"))(p)
assert m["red"].name == "A_red", m["red"].name
'''),
dict(id="b24-interp-last-node", property="P31", edits=[(UT,"        idx = np.logical_and(toas >= x[ii], toas <= x[ii + 1])\n","        idx = np.logical_and(toas >= x[ii], toas < x[ii + 1])\n")],
 needs="the last TOA exactly at the last node",
 breaks="a TOA at the last node gets no weight",
 demo='''
import numpy as np
from enterprise.signals import utils
M, x = utils.linear_interp_basis(np.array([0.0, 3.0, 10.0, 20.0]), dt=10.0)
assert np.allclose(M.sum(axis=1), 1), M
'''),
dict(id="b25-planet-velocity", property="P32", edits=[(PU,"                    planetssb[:, ii, 3:] = utils.ecl2eq_vec(planetssb[:, ii, 3:])\n        return planetssb\n","                    planetssb[:, ii, 3:] = utils.eq2ecl_vec(planetssb[:, ii, 3:])\n        return planetssb\n")],
 needs="a tempo2 pulsar with ecliptic coordinates",
 breaks="planet velocities are rotated in the wrong direction",
 demo='''
import numpy as np
import enterprise.pulsar as ep
from enterprise import constants as const
class Par:
    val = 1.0
class T2:
    def __init__(self, n=3):
        r = np.random.RandomState(1)
        for k in ["mercury", "venus", "earth", "mars", "jupiter", "saturn", "uranus", "neptune", "pluto"]:
            setattr(self, k + "_ssb", r.normal(size=(n, 6)))
        self.p = {}
    def formbats(self):
        pass
    def pars(self, which="fit"):
        return ["ELONG", "ELAT"]
    def __getitem__(self, k):
        return self.p.setdefault(k, Par())
t = T2()
q = ep.Tempo2Pulsar.__new__(ep.Tempo2Pulsar)
q.planets, q.t2pulsar, q._toas = True, t, np.zeros(3)
out = q._get_planetssb(t)
assert np.allclose(out[:, 4, 3:], t.jupiter_ssb[:, 3:] @ const.M_ecl.T)
assert np.allclose(out[:, 4, :3], t.jupiter_ssb[:, :3] @ const.M_ecl.T)
'''),
dict(id="b26-dmx-range", property="P32", edits=[(PU,"                \"DMXR2\": float(model[par[:3] + \"R2\" + par[3:]].value),\n","                \"DMXR2\": float(model[par[:3] + \"R2_\" + par[-4:]].value),\n")],
 needs="a PINT model with a DMX bin index of more than four digits",
 breaks="the end of the bin is read from another bin",
 demo='''
import types
import enterprise.pulsar as ep
class P:
    def __init__(s, v):
        s.value, s.uncertainty_value, s.frozen = v, 0.1, False
class M:
    def __init__(s):
        s.d = {"DMX_10001": P(1.0), "DMXR1_10001": P(10.0), "DMXR2_10001": P(20.0), "DMX_0001": P(2.0), "DMXR1_0001": P(30.0), "DMXR2_0001": P(40.0)}
        s.params = list(s.d)
    def __getitem__(s, k):
        return s.d[k]
    def __getattr__(s, k):
        if k in s.__dict__.get("d", {}):
            return s.d[k]
        raise AttributeError(k)
q = ep.PintPulsar.__new__(ep.PintPulsar)
q._set_dm(M())
assert q._dmx["DMX_10001"]["DMXR2"] == 20.0 and q._dmx["DMX_0001"]["DMXR2"] == 40.0
'''),
dict(id="b27-inflate-order", property="P33", edits=[(PI,"        b = np.ndarray(array.shape, dtype=array.dtype, buffer=shm.buf)\n","        b = np.ndarray(array.shape, dtype=array.dtype, buffer=shm.buf, order=\"F\" if array.flags.f_contiguous else \"C\")\n")],
 needs="a column-major array with more than one dimension",
 breaks="the inflated array has its entries permuted",
 demo='''
import numpy as np
from enterprise.pulsar_inflate import PulsarInflater
a = np.asfortranarray(np.arange(6.0).reshape(2, 3))
p = PulsarInflater(a)
try:
    ok = np.array_equal(np.array(p.inflate()), a)
finally:
    p.destroy()
assert ok
'''),
]
