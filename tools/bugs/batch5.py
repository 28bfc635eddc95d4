from batch1 import SB, GP, UT, PA, WS, PR, BA, DS, HEAD
from batch2 import SE, PU, AN, PI, TIMING
BUGS=[
dict(id="e02-constant-first", property="P06", edits=[(PA,"                        if par.name in params:\n                            kwargs[kw] = params[par.name]\n                        elif hasattr(par, \"value\"):\n                            kwargs[kw] = par.value\n",
 "                        if getattr(par, \"value\", None) is not None:\n                            kwargs[kw] = par.value\n                        elif par.name in params:\n                            kwargs[kw] = params[par.name]\n")],
 needs="a fixed parameter whose value is given among the parameters of an evaluation",
 breaks="a value supplied for a fixed parameter is ignored by functions",
 demo=HEAD+'''
p = Psr("A", seed=1)
s = sb.SignalCollection([ws.MeasurementNoise(efac=parameter.Constant(2.0))])(p)
assert np.allclose(np.array(s.get_ndiag({"A_efac": 3.0})), 9 * p.toaerrs**2)
'''),
dict(id="e03-unsorted-epochs", property="P14", edits=[(UT,'''    """Create quantization matrix mapping TOAs to observing epochs."""
    isort = np.argsort(toas)
''','''    """Create quantization matrix mapping TOAs to observing epochs."""
    isort = np.arange(len(toas))
''')],
 needs="TOAs that are not sorted in time",
 breaks="TOAs of one epoch that are not adjacent in the data are split into several epochs, and later ones are merged with earlier ones",
 demo=HEAD+'''
t = np.array([0.0, 100.0, 0.5, 100.2])
U_, w = utils.create_quantization_matrix(t)
assert U_.shape == (4, 2) and list(U_[:, 0]) == [1, 0, 1, 0] and list(U_[:, 1]) == [0, 1, 0, 1], U_
'''),
dict(id="e04-longest-span", property="P17", edits=[(GP,"            span = Tspan if Tspan is not None else max(FourierBasisCommonGP._Tmax) - min(FourierBasisCommonGP._Tmin)\n",
 "            span = Tspan\n            if span is None:\n                span = max(t1 - t0 for t0, t1 in zip(FourierBasisCommonGP._Tmin, FourierBasisCommonGP._Tmax))\n")],
 needs="pulsars observed in different years, and no explicit span",
 breaks="the frequencies of the common process are set by the longest data set instead of the span of the array",
 demo=HEAD+'''
ps = [Psr("A", seed=1, toas=np.linspace(0, 1e8, 8)), Psr("B", seed=2, toas=np.linspace(5e7, 1.5e8, 8))]
crn = gp.FourierBasisCommonGP(gp_priors.powerlaw(log10_A=parameter.Constant(0), gamma=parameter.Constant(0)), utils.hd_orf(), components=1, name="gw")
pta = sb.PTA([(ws.MeasurementNoise(efac=parameter.Constant(1.0)) + crn)(p) for p in ps])
for p, T in zip(ps, pta.get_basis({})):
    assert np.allclose(T[:, 0], np.sin(2 * np.pi * p.toas / 1.5e8), atol=1e-9)
'''),
dict(id="e06-shared-draws", property="P23", edits=[(UT,"                if len(ret) <= j:\n                    ret.append(params.copy())\n\n                ret[j].update(pardict)\n","                if len(ret) <= j:\n                    ret.append(params)\n\n                ret[j].update(pardict)\n")],
 needs="several draws from an array without correlations, or a caller that keeps its parameters",
 breaks="every draw is the same dictionary, which is the caller's",
 demo=HEAD+'''
p = Psr("A", seed=1)
m = ws.MeasurementNoise(efac=parameter.Constant(1.0)) + gp.FourierBasisGP(gp_priors.powerlaw(log10_A=parameter.Constant(0), gamma=parameter.Constant(0)), components=1, name="rn")
x = {}
a = utils.get_coefficients(sb.PTA([m(p)]), x, n=2)
assert x == {} and not np.allclose(a[0]["A_rn_coefficients"], a[1]["A_rn_coefficients"]), (x, a)
'''),
dict(id="e07-skipped-rotation", property="P26", edits=[(UT,"    earth = ss_framerotate(mjd, earth, 0.0, 0.0, 0.0, frame_drift_rate, offset=None, equatorial=equatorial)\n","    if frame_drift_rate:\n        earth = ss_framerotate(mjd, earth, 0.0, 0.0, 0.0, frame_drift_rate, offset=None, equatorial=equatorial)\n")],
 needs="planetary masses or orbits perturbed at exactly zero frame drift",
 breaks="the perturbations are added to the pulsar's own Earth positions, so the delay vanishes and the data are changed",
 demo=HEAD+'''
p = Psr("A", seed=1)
keep = p.planetssb.copy()
d = utils.physical_ephem_delay()("x")(p.toas, p.planetssb, p.pos_t, d_jupiter_mass=1e-3)
assert np.allclose(p.planetssb, keep) and np.allclose(d, -1e-3 * np.sum(keep[:, 4, :3] * p.pos_t, axis=1)), d
'''),
dict(id="e08-delay-accumulates", property="P29", edits=[(SB,"            return sum(delay for delay in delays if delay is not None)\n","            ret = None\n            for delay in delays:\n                if isinstance(delay, np.ndarray):\n                    ret = delay if ret is None else np.add(ret, delay, out=ret)\n            return 0 if ret is None else ret\n")],
 needs="two delays on one pulsar, the second of which changes while the first does not",
 breaks="the delays of earlier evaluations accumulate in the cached delay of the first signal",
 demo=HEAD+'''
p = Psr("A", seed=1)
@parameter.function
def one(toas, h=0.0):
    return h * np.ones_like(toas)
s = (ds.Deterministic(one(h=U(0, 10)), name="x") + ds.Deterministic(one(h=U(0, 10)), name="y"))(p)
for h in [1.0, 2.0, 3.0]:
    assert np.allclose(s.get_delay({"A_x_h": 1.0, "A_y_h": h}), 1.0 + h), h
'''),
dict(id="e10-clipped-samples", property="P09", edits=[(PA,"        while samp > pmax or samp < pmin:\n            samp = np.random.normal(mu, sigma)\n","        samp = min(max(samp, pmin), pmax)\n")],
 needs="many samples of a scalar truncated normal parameter",
 breaks="samples outside the range are moved to its edges instead of being drawn again",
 demo=HEAD+'''
np.random.seed(1)
p = parameter.TruncNormal(0, 1, -0.5, 0.5)("x")
s = np.array([p.sample() for k in range(200)])
assert np.all(np.abs(s) <= 0.5) and np.sum(np.abs(s) == 0.5) == 0, np.sum(np.abs(s) == 0.5)
'''),
dict(id="e11-alpha-order", property="P16", edits=[(PR,"    alphas = np.ones_like(f) if alphas is None else np.repeat(alphas, 2)\n","    alphas = np.ones_like(f) if alphas is None else np.tile(alphas, 2)\n")],
 needs="a t-process with more than one frequency and different factors",
 breaks="the factors are applied to the columns of other frequencies",
 demo=HEAD+'''
f = np.repeat([1e-9, 2e-9, 3e-9], 2)
a = gp_priors.t_process()("x")(f, log10_A=-14, gamma=4.0, alphas=np.array([1.0, 2.0, 5.0])) / gp_priors.powerlaw()("x")(f, log10_A=-14, gamma=4.0)
assert np.allclose(a, [1, 1, 2, 2, 5, 5]), a
'''),
dict(id="e12-given-value", property="P10", edits=[(PA,'''            raise TypeError("You can only call get_pdf() on an " "instantiated (named) Parameter.")

        if value is None and "params" in kwargs:
            value = kwargs["params"][self.name]
''','''            raise TypeError("You can only call get_pdf() on an " "instantiated (named) Parameter.")

        if "params" in kwargs:
            value = kwargs["params"].get(self.name, value)
''')],
 needs="a density evaluated at an explicit value with hyperparameters taken from a dictionary that also holds the parameter",
 breaks="the explicit value is ignored",
 demo=HEAD+'''
mu = parameter.Uniform(0, 10)("mu")
x = parameter.Normal(mu=mu, sigma=1.0)("x")
v = x.get_pdf(3.0, params={"mu": 2.0, "x": 0.0})
assert np.allclose(v, np.exp(-0.5) / np.sqrt(2 * np.pi)), v
'''),
dict(id="e13-flag-width", property="P22", edits=[(PU,"f[array].to_numpy().astype(\"U\")","f[array].to_numpy().astype(\"U32\")")],
 needs="a flag value longer than 32 characters",
 breaks="long flag values are cut off when they are read back",
 demo=TIMING+'''
import tempfile, shutil
p = Base()
v = "a" * 40 + "-%d"
p._flags = {"name": np.array([v % k for k in range(6)])}
d = tempfile.mkdtemp()
try:
    p.to_feather(d + "/x.feather")
    q = ep.FeatherPulsar.read_feather(d + "/x.feather")
finally:
    shutil.rmtree(d)
assert list(q.flags["name"]) == list(p.flags["name"]), q.flags
'''),
dict(id="e14-bessel-order", property="P27", edits=[(UT,"    ret = -amp * np.sqrt(1 - e**2) * (ss.jn(n - 2, n * e) - 2 * ss.jn(n, n * e) + ss.jn(n + 2, n * e))\n","    ret = -amp * np.sqrt(1 - e**2) * (ss.jn(abs(n - 2), n * e) - 2 * ss.jn(n, n * e) + ss.jn(n + 2, n * e))\n")],
 needs="the first harmonic of an eccentric binary",
 breaks="the Bessel function of order -1 has the wrong sign in b_1",
 demo=HEAD+'''
import scipy.special as ss
e, F = 0.3, 1e-8
v = utils.get_bn(1, 1e9, 100.0, 1e-14, F, e)
w = -0.5e-14 * np.sqrt(1 - e**2) * (ss.jn(-1, e) - 2 * ss.jn(1, e) + ss.jn(3, e))
assert np.allclose(v, w, rtol=1e-9, atol=0), (v, w)
'''),
dict(id="e15-map-order", property="P28", edits=[(AN,"    sh = np.array([usermap, usermap]).T.flatten()\n","    sh = np.concatenate([usermap, usermap])\n")],
 needs="a sky map that is not uniform",
 breaks="the power of the map is attributed to other pixels and polarizations",
 demo='''
import sys, types
try:
    import healpy
except ImportError:
    sys.modules["healpy"] = types.ModuleType("healpy")
from enterprise.signals import anis_coefficients as an
m = np.array([1.0, 2.0, 5.0])
F = np.random.RandomState(0).randn(2, 6)
C = an.orfFromMap_fast(None, m, response=F)
w = sum(m[k] * (np.outer(F[:, 2 * k], F[:, 2 * k]) + np.outer(F[:, 2 * k + 1], F[:, 2 * k + 1])) for k in range(3))
w = w + np.diag(np.diag(w))
assert np.allclose(C, w), (C, w)
'''),
dict(id="e16-fitted-position", property="P32", edits=[(PU,'''        if "ELONG" and "ELAT" in np.concatenate((t2pulsar.pars(which="fit"), t2pulsar.pars(which="set"))):
            self._pos_t = utils.ecl2eq_vec(self._pos_t)
''','''        if "ELONG" and "ELAT" in t2pulsar.pars(which="fit"):
            self._pos_t = utils.ecl2eq_vec(self._pos_t)
''')],
 needs="a pulsar with ecliptic coordinates that are not fitted",
 breaks="the pulsar positions stay in the ecliptic frame",
 demo="""
from enterprise import pulsar as ep
from enterprise.signals import utils
class V:
    def __init__(self, val, err=0.0): self.val, self.err = val, err
class T2:
    name = "J1234+5678"
    n = 3
    stoas = np.arange(3.0) + 50000
    toaerrs = np.ones(3)
    psrPos = np.array([[0.6, 0.8, 0.0]] * 3)
    def toas(self): return np.arange(3.0) + 50000
    def residuals(self): return np.zeros(3)
    def designmatrix(self): return np.ones((3, 1))
    def ssbfreqs(self): return np.full(3, 1e9)
    def telescope(self): return np.array([b"ao"] * 3)
    def pars(self, which="fit"): return ("F0",) if which == "fit" else ("F0", "ELONG", "ELAT")
    def flags(self): return []
    def flagvals(self, k): return np.array([""] * 3)
    def __getitem__(self, k): return V(0.5)
ep.Tempo2Pulsar._get_radec = lambda self, t: (0.1, 0.2)
p = ep.Tempo2Pulsar(T2(), planets=False)
assert np.allclose(p.pos_t, utils.ecl2eq_vec(T2.psrPos.copy())), p.pos_t
"""),
dict(id="e18-wideband-only", property="P01", edits=[(SB,"        # get extra prior/likelihoods\n        loglike += sum(self.pta.get_logsignalprior(params))\n\n        # red noise piece\n        if self.pta._commonsignals:\n","        # red noise piece\n        if self.pta._commonsignals:\n            # get extra prior/likelihoods\n            loglike += sum(self.pta.get_logsignalprior(params))\n\n")],
 needs="a signal that contributes a likelihood term of its own (a wideband timing model) in an array without correlations",
 breaks="the terms that signals add to the likelihood are left out of uncorrelated arrays",
 demo=HEAD+'''
p = Psr("A", seed=1)
class Extra(sb.Signal, metaclass=sb.MetaSignal):
    signal_type, signal_name, signal_id = "deterministic", "extra", "extra"
    _params = {}
    def __init__(self, psr):
        super().__init__(psr); self.name = psr.name + "_extra"
    delay_params = []
    def get_delay(self, params): return None
    def get_logsignalprior(self, params): return 7.0
n = ws.MeasurementNoise(efac=parameter.Constant(1.0))
a = sb.PTA([sb.SignalCollection([n])(p)]).get_lnlikelihood({})
b = sb.PTA([sb.SignalCollection([n, Extra])(p)]).get_lnlikelihood({})
assert abs(b - a - 7.0) < 1e-9, (a, b)
'''),
]
