from batch1 import SB, GP, UT, PA, WS, PR, BA, DS, HEAD
from batch2 import SE, PU, AN, PI, TIMING
BUGS=[
dict(id="d02-any-element-same", property="P02", edits=[(SB,"all(e1 is e2 for e1, e2 in zip(key, arg))","any(e1 is e2 for e1, e2 in zip(key, arg))")],
 needs="a correlated array where the white noise of one pulsar changes between two evaluations and that of another does not",
 breaks="the joint matrix is assembled from the previous blocks when only some of the pulsars changed",
 demo=HEAD+'''
ps = [Psr("A", seed=1), Psr("B", seed=2)]
def make():
    crn = gp.FourierBasisCommonGP(gp_priors.powerlaw(log10_A=parameter.Constant(0), gamma=parameter.Constant(2)), utils.hd_orf(), components=2, Tspan=1e8, name="gw")
    m = ws.MeasurementNoise(efac=U(0.1, 10)) + crn
    return sb.PTA([m(p) for p in ps])
pta = make()
for e in [1.0, 2.0]:
    x = {"A_efac": 1.0, "B_efac": e}
    a, b = pta.get_lnlikelihood(x), make().get_lnlikelihood(x)
    assert abs(a - b) < 1e-9 * abs(b), (a, b)
'''),
dict(id="d03-two-toa-epochs", property="P04", edits=[(SB,'''        logdet = np.einsum("i->", np.log(self._nvec))
        for idx, jv in zip(self._idxs, self._jvec):
            if len(idx) > 1:
''','''        logdet = np.einsum("i->", np.log(self._nvec))
        for idx, jv in zip(self._idxs, self._jvec):
            if len(idx) > 2:
''')],
 needs="an epoch with exactly two TOAs",
 breaks="the log-determinant of the Sherman-Morrison matrix ignores epochs of two TOAs",
 demo=HEAD+'''
from enterprise.signals.signal_base import ShermanMorrison, BlockMatrix
n = np.array([1.0, 2.0, 3.0, 4.0, 5.0])
ix = [slice(0, 2), slice(2, 5)]
j = np.array([0.5, 0.7])
N = np.diag(n); N[:2, :2] += 0.5; N[2:, 2:] += 0.7
r = np.arange(5.0)
a = (ShermanMorrison(j, ix) + n).solve(r, left_array=r, logdet=True)
assert np.allclose(a[0], r @ np.linalg.solve(N, r)) and np.allclose(a[1], np.linalg.slogdet(N)[1]), a
'''),
dict(id="d04-outer-order", property="P04", edits=[(SB,"                ZNX -= beta * np.outer(zn.T, xn)\n","                ZNX -= beta * np.outer(xn, zn)\n")],
 needs="two different matrices with the same number of columns on the two sides",
 breaks="the epoch corrections of Z^T N^-1 X are transposed",
 demo=HEAD+'''
from enterprise.signals.signal_base import ShermanMorrison
n = np.array([1.0, 2.0, 3.0, 4.0, 5.0])
N = np.diag(n); N[:2, :2] += 0.5; N[2:, 2:] += 0.7
r = np.random.RandomState(0)
X, Z = r.randn(5, 2), r.randn(5, 2)
a = (ShermanMorrison(np.array([0.5, 0.7]), [slice(0, 2), slice(2, 5)]) + n).solve(X, left_array=Z)
assert np.allclose(a, Z.T @ np.linalg.solve(N, X))
assert np.allclose((ShermanMorrison(np.array([0.5, 0.7]), [slice(0, 2), slice(2, 5)]) + n).solve(X, left_array=X), X.T @ np.linalg.solve(N, X))
'''),
dict(id="d05-mapped-vector", property="P08", edits=[(SB,"    def map_params(self, xs):\n        ret = {}\n","    def map_params(self, xs):\n        if getattr(self, \"_mapped\", (None, None))[0] is xs:\n            return self._mapped[1]\n        ret = {}\n"),
  (SB,"            ret[p.name] = xs[ct : ct + n] if n > 1 else float(xs[ct])\n            ct += n\n        return ret\n","            ret[p.name] = xs[ct : ct + n] if n > 1 else float(xs[ct])\n            ct += n\n        self._mapped = (xs, ret)\n        return ret\n")],
 needs="a sampler that updates its parameter vector in place and evaluates it again",
 breaks="the parameters of the first evaluation are used for every later state of the same vector",
 demo=HEAD+'''
p = Psr("A", seed=1)
pta = sb.PTA([ws.MeasurementNoise(efac=U(0.1, 10))(p)]) if False else sb.PTA([sb.SignalCollection([ws.MeasurementNoise(efac=U(0.1, 10))])(p)])
x = np.array([1.0])
a = pta.get_lnlikelihood(x)
x[0] = 2.0
b = pta.get_lnlikelihood(x)
assert abs(b - pta.get_lnlikelihood({"A_efac": 2.0})) < 1e-9 * abs(b), (a, b)
'''),
dict(id="d07-knee-spacing", property="P16", edits=[(PR,'''    df = np.diff(np.concatenate((np.array([0]), f[::2])))
    hcf = (
        10**log10_A
        * (f / const.fyr) ** ((3 - gamma) / 2)
        * (1.0 + (f / 10**lfk)) ** delta
''','''    df = np.full(len(f[::2]), f[0])
    hcf = (
        10**log10_A
        * (f / const.fyr) ** ((3 - gamma) / 2)
        * (1.0 + (f / 10**lfk)) ** delta
''')],
 needs="frequencies that are not evenly spaced (logarithmic spacing or explicit modes)",
 breaks="the turnover-with-knee spectrum uses the first frequency as the width of every bin",
 demo=HEAD+'''
f = np.repeat([1e-9, 3e-9, 7e-9], 2)
a = gp_priors.turnover_knee()("x")(f, log10_A=-14, gamma=4.0, lfb=-8.5, lfk=-8.0, kappa=3.0, delta=0.5)
h = 1e-14 * (f * 365.25 * 86400) ** -0.5 * (1 + f / 1e-8) ** 0.5 / np.sqrt(1 + (10**-8.5 / f) ** 3)
assert np.allclose(a, h**2 / 12 / np.pi**2 / f**3 * np.repeat([1e-9, 2e-9, 4e-9], 2), rtol=1e-6, atol=0)
f = np.repeat([1e-9, 2e-9, 3e-9], 2)
'''),
dict(id="d08-jump-reference", property="P25", edits=[(GP,"                    if dmjump_ref is not None and key == dmjump_ref:\n","                    if dmjump_ref is not None and key in dmjump_ref:\n")],
 needs="a reference backend whose name contains the name of another backend",
 breaks="the DM jump of the other backend is fixed to zero and is no longer a parameter",
 demo=HEAD+'''
p = Psr("A", seed=1)
n = len(p.toas)
p.flags = dict(getattr(p, "flags", {}) or {})
p.flags["pp_dm"] = np.linspace(10, 11, n); p.flags["pp_dme"] = np.full(n, 0.1)
p.freqs = np.linspace(1000, 1500, n)
p.stoas = p.toas
p.dm = 10.0
p.dmx = {"DMX_0001": {"DMX": 0.1, "DMXR1": p.toas.min() / 86400 - 1, "DMXR2": p.toas.max() / 86400 + 1, "fit": True}}
p.fitpars = ["F0", "DMX_0001"]
p.Mmat = np.random.RandomState(0).randn(n, 2)
p.backend_flags = np.array(["Rcvr", "Rcvr_800", "Rcvr_1400"] * n)[:n]
s = gp.WidebandTimingModel(dmefac=U(0.1, 10), log10_dmequad=None, dmjump=U(-1, 1), selection=Selection(selections.no_selection), dmjump_selection=Selection(selections.by_backend), dmjump_ref="Rcvr_800")(p)
assert sorted(q.name for q in s.params) == ["A_Rcvr_1400_dmjump", "A_Rcvr_dmjump", "A_dmefac"], s.params
'''),
dict(id="d09-list-alias", property="P30", edits=[(SB,"            self._signalcollections = list(init)\n","            self._signalcollections = init\n")],
 needs="a list of pulsar models that the caller extends after building an array from it",
 breaks="the array changes when the caller's list does, and its signal dictionary no longer matches its pulsars",
 demo=HEAD+'''
m = sb.SignalCollection([ws.MeasurementNoise(efac=U(0.1, 10))])
ms = [m(Psr("A", seed=1))]
pta = sb.PTA(ms)
ms.append(m(Psr("B", seed=2)))
assert pta.pulsars == ["A"] and pta.param_names == ["A_efac"], pta.param_names
'''),
dict(id="d10-clock-overrides", property="P32", edits=[(PU,"                if (clk is not None) and (bipm_version is None):\n","                if clk is not None:\n")],
 needs="a PINT pulsar requested with both a clock and a BIPM version",
 breaks="the requested BIPM version is replaced by the one in the clock name",
 demo="""
import os, tempfile, types
import enterprise.pulsar as ep
seen = {}
def fake(par, tim, ephem=None, bipm_version=None, planets=None):
    seen["v"] = bipm_version
    raise KeyboardInterrupt
ep.pint = types.SimpleNamespace()
ep.TOAs = ep.TimingModel = type("Other", (), {})
ep.get_model_and_toas = fake
d = tempfile.mkdtemp()
open(d + "/a.par", "w").close(); open(d + "/a.tim", "w").close()
try:
    ep.Pulsar(d + "/a.par", d + "/a.tim", clk="TT(BIPM2015)", bipm_version="BIPM2019", timing_package="pint")
except KeyboardInterrupt:
    pass
import shutil; shutil.rmtree(d)
assert seen["v"] == "BIPM2019", seen
"""),
dict(id="d11-noise-substring", property="P22", edits=[(PU,"for par, val in noisedict.items() if par.startswith(self.name)}","for par, val in noisedict.items() if self.name in par}")],
 needs="an array of pulsars one of whose names contains the name of another",
 breaks="the noise dictionary saved with a pulsar holds the entries of other pulsars",
 demo=TIMING+'''
import tempfile, shutil
p = Base()
p.name = "0030+0451"
d = tempfile.mkdtemp()
try:
    p.to_feather(d + "/x.feather", noisedict={"0030+0451_efac": 1.0, "J0030+0451_efac": 2.0})
    q = ep.FeatherPulsar.read_feather(d + "/x.feather")
finally:
    shutil.rmtree(d)
assert q.noisedict == {"0030+0451_efac": 1.0}, q.noisedict
'''),
dict(id="d12-common-delay-key", property="P24", edits=[(GP,'''            @signal_base.cache_call(["basis_params", "delay_params"])
            def get_delay(self, params={}):
                self._construct_basis(params)

                p = self._coefficients[""]
''','''            @signal_base.cache_call(["delay_params"])
            def get_delay(self, params={}):
                self._construct_basis(params)

                p = self._coefficients[""]
''')],
 needs="a common process with explicit coefficients whose basis has a varying parameter",
 breaks="the delay is that of the previous basis when only the basis parameter changes",
 demo=HEAD+'''
p = Psr("A", seed=1)
@parameter.function
def basis(toas, k=1.0):
    return np.array([k * np.ones_like(toas), np.ones_like(toas)]).T, np.ones(2)
@parameter.function
def pr(f, a=1.0):
    return a * np.ones_like(f)
X = gp.BasisCommonGP(pr(), basis(k=U(0, 10)), utils.hd_orf(), coefficients=True, name="c")
s = X(p)
n = [q.name for q in s.params if q.name.endswith("_k")][0]
for k in [1.0, 2.0]:
    assert np.allclose(s.get_delay({n: k, "A_c_coefficients": np.array([1.0, 3.0])}), k + 3.0), k
'''),
dict(id="d14-half-on-average", property="P12", edits=[(SE,"    midpoint = (toas.max() + toas.min()) / 2\n","    midpoint = toas.min() + (toas[-1] - toas[0]) / 2\n")],
 needs="TOAs that are not sorted",
 breaks="the data are not split at the middle of their span",
 demo=HEAD+'''
t = np.array([5.0, 1.0, 9.0, 3.0])
m = selections.cut_half(t)
assert list(m["t1"]) == [True, True, False, True], m
'''),
dict(id="d15-env-span", property="P15", edits=[(BA,'''        toas, nmodes=nmodes, Tspan=Tspan, logf=logf, fmin=fmin, fmax=fmax, modes=modes
    )

    # compute gaussian envelope
''','''        toas, nmodes=nmodes, Tspan=Tspan, logf=logf, fmin=fmin, fmax=fmax
    )

    # compute gaussian envelope
''')],
 needs="explicit frequencies for the enveloped basis",
 breaks="the requested frequencies are ignored",
 demo=HEAD+'''
t = np.arange(8) * 1e7
F, f = gp_bases.createfourierdesignmatrix_env()("x")(t, log10_Amp=0.0, log10_Q=2.0, t0=2e7, modes=np.array([1e-8, 5e-8]))
assert np.allclose(f, [1e-8, 1e-8, 5e-8, 5e-8], atol=0), f
'''),
dict(id="d16-drift-origin", property="P26", edits=[(UT,"    t_offset = 55197.0  # MJD 2010/01/01\n","    t_offset = 55197.0 if np.ndim(mjd) == 0 else max(55197.0, np.min(mjd))\n")],
 needs="observations that all lie after 2010",
 breaks="the frame drift is referred to the first observation instead of 2010 January 1",
 demo=HEAD+'''
m = np.array([57000.0, 57100.0])
x = np.array([[1.0, 0.5, 0.2], [0.3, -1.0, 0.1]])
y = utils.ss_framerotate(m, x, 0.0, 0.0, 0.0, 1e-3)
for k in range(2):
    a = 1e-3 * (m[k] - 55197.0) / 365.25
    R = np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])
    assert np.allclose(y[k], R @ x[k], atol=1e-9) or np.allclose(y[k], R.T @ x[k], atol=1e-9), (y[k], R @ x[k])
'''),
]
