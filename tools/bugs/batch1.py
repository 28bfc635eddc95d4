SB="enterprise/signals/signal_base.py"; GP="enterprise/signals/gp_signals.py"; UT="enterprise/signals/utils.py"
PA="enterprise/signals/parameter.py"; WS="enterprise/signals/white_signals.py"; PR="enterprise/signals/gp_priors.py"; BA="enterprise/signals/gp_bases.py"; DS="enterprise/signals/deterministic_signals.py"
HEAD='''
from fakepsr import Psr
from enterprise.signals import signal_base as sb, parameter, white_signals as ws, gp_signals as gp, utils, gp_priors, gp_bases, deterministic_signals as ds
from enterprise.signals.selections import Selection
from enterprise.signals import selections
U = parameter.Uniform
'''
BUGS=[
dict(id="s01-noprocess-break", property="P01", edits=[(SB,"                if TNr is None:\n                    continue\n","                if TNr is None:\n                    break\n")],
 needs="an uncorrelated array where a pulsar without any Gaussian process precedes one that has processes",
 breaks="the Gaussian-process terms of all pulsars after one without processes are dropped from the log-likelihood",
 demo=HEAD+'''
def like(ps):
    m = []
    for k, p in enumerate(ps):
        s = sb.SignalCollection([ws.MeasurementNoise(efac=parameter.Constant(1.1))])
        if k != 0:
            s = s + gp.FourierBasisGP(gp_priors.powerlaw(log10_A=parameter.Constant(-1), gamma=parameter.Constant(2)), components=2)
        m.append(s(p))
    return sum(sb.PTA([x]).get_lnlikelihood({}) for x in m), sb.PTA(m).get_lnlikelihood({})
a, b = like([Psr("A", seed=1), Psr("B", seed=2), Psr("C", seed=3)])
assert abs(a - b) < 1e-6 * abs(a), (a, b)
'''),
dict(id="s02-adjacent-pairs", property="P02", edits=[(SB,"                pairs = itertools.combinations(csdict.items(), 2)\n","                items = list(csdict.items())\n                pairs = zip(items[:-1], items[1:])\n")],
 needs="at least three pulsars sharing a correlated process",
 breaks="cross terms between pulsars that are not neighbours in the array are left out of the prior covariance",
 demo=HEAD+'''
m = []
for k in range(3):
    s = ws.MeasurementNoise(efac=parameter.Constant(1.0))
ps = [Psr("A", seed=1), Psr("B", seed=2), Psr("C", seed=3)]
crn = gp.FourierBasisCommonGP(gp_priors.powerlaw(log10_A=parameter.Constant(0), gamma=parameter.Constant(0)), utils.hd_orf(), components=1, Tspan=1e8, name="gw")
pta = sb.PTA([(ws.MeasurementNoise(efac=parameter.Constant(1.0)) + crn)(p) for p in ps])
phi = pta.get_phi({})
for i in range(3):
    for j in range(3):
        h = 1.0 if i == j else utils.hd_orf(ps[i].pos, ps[j].pos)
        assert np.allclose(phi[2 * i, 2 * j] / phi[0, 0], h), (i, j)
'''),
dict(id="s03-invgamma", property="P09", edits=[(PR,"    return scipy.stats.invgamma.rvs(alpha, scale=gamma, size=size)\n","    return 1.0 / scipy.stats.gamma.rvs(alpha, scale=gamma, size=size)\n")],
 needs="an inverse-gamma parameter with scale different from one",
 breaks="samples of inverse-gamma parameters have scale 1/gamma instead of gamma",
 demo=HEAD+"""
np.random.seed(0)
x = gp_priors.InvGammaSampler(alpha=5.0, gamma=8.0, size=4000)
assert abs(np.mean(x) - 2.0) < 0.2, np.mean(x)
"""),
dict(id="s04-keys-masks", property="P13", edits=[(WS,"            self._masks = [sel.masks[key] for key in self._keys]\n            self._ndiag","            self._masks = list(sel.masks.values())\n            self._ndiag")],
 needs="a selection that does not list its groups in sorted order",
 breaks="the white-noise parameters of one group are applied to the TOAs of another",
 demo=HEAD+'''
p = Psr("A", n=6)
def sel(toas):
    return {"b": np.arange(len(toas)) < 2, "a": np.arange(len(toas)) >= 2}
pta = sb.PTA([sb.SignalCollection([ws.MeasurementNoise(efac=U(0, 5), selection=Selection(sel))])(p)])
N = np.array(pta.get_ndiag({"A_a_efac": 1.0, "A_b_efac": 3.0})[0])
e = np.where(np.arange(6) < 2, 9.0, 1.0) * p.toaerrs**2
assert np.allclose(N, e), (N, e)
'''),
dict(id="s05-sliding-epoch", property="P14", edits=[(UT,"            bucket_ind[-1].append(i)\n","            bucket_ind[-1].append(i)\n            bucket_ref[-1] = toas[i]\n")],
 needs="an epoch of three or more TOAs spread over more than the window",
 breaks="epochs are chained from TOA to TOA instead of being limited to the window after their first TOA",
 demo=HEAD+'''
Um, w = utils.create_quantization_matrix(np.array([0.0, 0.6, 1.2, 5.0, 5.5]), dt=1, nmin=2)
assert Um.shape == (5, 2) and Um[2].sum() == 0, Um
'''),
dict(id="s06-fmax", property="P15", edits=[(BA,"            fmax = nmodes / T\n","            fmax = nmodes * fmin\n")],
 needs="a Fourier basis with a user-given lowest frequency and no highest frequency",
 breaks="the default highest frequency is wrong when the lowest frequency is given",
 demo=HEAD+'''
F, f = gp_bases.createfourierdesignmatrix_red(np.linspace(0, 100, 11), nmodes=5, Tspan=100.0, fmin=0.001)
assert np.allclose(f[::2], np.linspace(0.001, 0.05, 5)), f
'''),
dict(id="s07-kappa", property="P16", edits=[(PR,"** (kappa * (gamma - delta) / 2)","** (0.1 * (gamma - delta) / 2)")],
 needs="a broken power law with a non-default smoothness",
 breaks="the broken power law does not have the documented low-frequency slope unless kappa = 0.1",
 demo=HEAD+'''
import enterprise.constants as const
f = np.repeat(np.array([1., 2, 3]) * 1e-8, 2)
def bp(f, log10_A, gamma, delta, log10_fb, kappa):
    df = np.diff(np.concatenate(([0], f[::2])))
    h = 10**log10_A * (f / const.fyr) ** ((3 - gamma) / 2) * (1 + (f / 10**log10_fb) ** (1 / kappa)) ** (kappa * (gamma - delta) / 2)
    return h**2 / 12 / np.pi**2 / f**3 * np.repeat(df, 2)
a = (-14., 4., 1., -7.8, 0.3)
assert np.allclose(gp_priors.broken_powerlaw(f, *a), bp(f, *a), rtol=1e-9, atol=0)
'''),
dict(id="s08-close-pulsars", property="P17", edits=[(UT,'''    """Dipole spatial correlation function."""
    if np.all(pos1 == pos2):''','''    """Dipole spatial correlation function."""
    if np.any(pos1 == pos2):''')],
 needs="two different pulsar positions that agree in one Cartesian component",
 breaks="distinct pulsars are treated as one by the dipole correlation",
 demo=HEAD+'''
a, b = np.array([0.6, 0.8, 0.0]), np.array([0.8, 0.6, 0.0])
assert abs(utils.dipole_orf(a, b) - 0.96) < 1e-12
'''),
dict(id="s09-pattern-pol", property="P18", edits=[(UT,"    pol = np.cos(2 * gwpol) * fp + np.sin(2 * gwpol) * fc\n","    pol = np.cos(2 * gwpol) * fp + (1 - np.cos(2 * gwpol) ** 2) ** 0.5 * fc\n")],
 needs="a polarization angle between pi/2 and pi",
 breaks="the cross term of the burst delay has the wrong sign for polarization angles with sin(2 psi) < 0",
 demo=HEAD+'''
p = np.array([0.0, 0.6, 0.8])
t = np.array([2.0, 3.0]) * 86400
fp, fc, _ = utils.create_gw_antenna_pattern(p, np.arccos(0.3), 1.0)
d = utils.bwm_delay(t, p, log10_h=-2.0, cos_gwtheta=0.3, gwphi=1.0, gwpol=2.0, t0=1.0)
e = 1e-2 * (np.cos(4.0) * fp + np.sin(4.0) * fc) * (t - 86400)
assert np.allclose(d, e), (d, e)
'''),
dict(id="s10-mean-zero-norm", property="P19", edits=[(UT,"    nmat = Mmat / norm\n    nmat[:, norm == 0] = 0\n","    keep = norm != 0\n    nmat = np.zeros_like(Mmat)\n    nmat[:, keep] = Mmat[:, keep] / np.max(norm[keep]) if norm.ndim == 1 and np.all(norm == norm[0]) else (Mmat / norm)[:, keep]\n")] ,
 needs="x", breaks="x", demo="pass"),
dict(id="s11-tnr-cache", property="P06", edits=[(SB,'''        @cache_call(["basis_params", "white_params", "delay_params"])
        def get_TNr''','''        @cache_call(["basis_params", "white_params"])
        def get_TNr''')],
 needs="two evaluations of one model that differ only in a deterministic-delay parameter",
 breaks="the projected residuals of the first evaluation are reused after a delay parameter changes",
 demo=HEAD+'''
p = Psr("A")
wf = parameter.function(lambda toas, amp: amp * np.ones_like(toas))
m = ws.MeasurementNoise(efac=parameter.Constant(1.)) + gp.TimingModel() + ds.Deterministic(wf(amp=U(0, 10)), name="d")
pta = sb.PTA([m(p)])
k = pta.param_names[0]
a = pta.get_TNr({k: 1.0})[0].copy()
b = pta.get_TNr({k: 5.0})[0]
c = sb.PTA([m(p)]).get_TNr({k: 5.0})[0]
assert np.allclose(b, c)
'''),
dict(id="s12-prior-twice", property="P08", edits=[(SB,"        return np.sum([p.get_logpdf(params=params) for p in self.params])\n","        return np.sum([p.get_logpdf(params=params) for sc in self._signalcollections for p in sc.params])\n")],
 needs="a parameter shared by two pulsars (or a hyperparameter)",
 breaks="the log-prior of a shared parameter is counted once per pulsar and hyperparameters are left out",
 demo=HEAD+'''
ps = [Psr("A", seed=1), Psr("B", seed=2)]
ef = U(0, 5)("shared")
pta = sb.PTA([sb.SignalCollection([ws.MeasurementNoise(efac=ef)])(p) for p in ps])
assert abs(pta.get_lnprior({"shared": 1.0}) + np.log(5)) < 1e-12
'''),
dict(id="s13-sm-vecmat", property="P04", edits=[(SB,"                ret = np.dot(other.T, self._solve_D1(left_array))\n            else:\n                raise TypeError\n        else:\n            raise TypeError\n\n        return (ret, self._get_logdet()) if logdet else ret\n","                ret = np.dot(other.T, left_array / self._nvec)\n            else:\n                raise TypeError\n        else:\n            raise TypeError\n\n        return (ret, self._get_logdet()) if logdet else ret\n")],
 needs="a Sherman-Morrison covariance solved for a matrix with a one-dimensional left array",
 breaks="the product of a left vector with the inverse and a matrix ignores the epoch correlations",
 demo=HEAD+'''
n = 5
N = sb.ShermanMorrison(np.array([2.0]), [slice(1, 4)], np.arange(1.0, 6.0))
C = np.diag(np.arange(1.0, 6.0)); C[1:4, 1:4] += 2.0
r = np.random.RandomState(0); X, v = r.normal(size=(n, 2)), r.normal(size=n)
assert np.allclose(N.solve(X, left_array=v), v @ np.linalg.solve(C, X))
'''),
dict(id="s14-memo-views", property="P05", edits=[(SB,"        return key is arg\n","        return key is arg or (np.shape(key) == np.shape(arg) and np.may_share_memory(key, arg))\n")],
 needs="two solves of one marginalized noise matrix whose arguments are different views of the same memory",
 breaks="projections computed for one view of an array are reused for another view of the same shape",
 demo=HEAD+"""
n = 6
r = np.random.RandomState(0)
M, X = r.normal(size=(n, 2)), r.normal(size=(n, 4))
d = r.uniform(1, 2, n)
N = gp.MarginalizingNmat(M) + sb.ndarray_alt(d)
Ni = np.diag(1 / d)
P = Ni - Ni @ M @ np.linalg.solve(M.T @ Ni @ M, M.T @ Ni)
for Z in (X, X[:, ::-1]):
    assert np.allclose(N.solve(Z, left_array=Z), Z.T @ P @ Z)
"""),
dict(id="s15-basis-params-cc", property="P07", edits=[(SB,"                        nf = Fmat.shape[1]\n                        idx[signal] = list(range(cc, cc + nf))\n","                        nf = Fmat.shape[1]\n                        idx[signal] = list(range(len(hashlist), len(hashlist) + nf))\n")],
 needs="x", breaks="x", demo="pass"),
dict(id="s16-neptune", property="P26", edits=[(UT,"        (uranus, d_uranus_mass),\n        (neptune, d_neptune_mass),\n","        (neptune, d_uranus_mass),\n        (uranus, d_neptune_mass),\n")],
 needs="perturbed Uranus or Neptune masses",
 breaks="the Uranus and Neptune mass perturbations use each other's positions",
 demo=HEAD+'''
p = Psr("A")
d = utils.physical_ephem_delay(p.toas, p.planetssb, p.pos_t, d_uranus_mass=1e-9)
e = -1e-9 * np.einsum("ij,ij->i", p.planetssb[:, 6, :3], p.pos_t)
assert np.allclose(d, e, rtol=1e-5, atol=1e-12), (d, e)
'''),
dict(id="s17-gammadot-q", property="P27", edits=[], needs="x", breaks="x", demo="pass"),
]
BUGS=[b for b in BUGS if b["needs"]!="x"]
