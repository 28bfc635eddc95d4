from batch1 import SB, GP, UT, PA, WS, PR, BA, DS, HEAD
from batch2 import SE, PU, AN, PI, TIMING
BUGS=[
dict(id="c01-cache-key-rounding", property="P06", edits=[(SB,"                        ret.append((key, params[key]))\n","                        ret.append((key, round(float(params[key]), 10)))\n")],
 needs="two evaluations whose parameters differ by less than 1e-10",
 breaks="small changes of a parameter (a strain or a frequency derivative) do not change the cached result",
 demo=HEAD+'''
p = Psr("A")
@parameter.function
def wave(toas, h=0.0):
    return h * np.ones_like(toas)
m = sb.SignalCollection([ws.MeasurementNoise(efac=parameter.Constant(1.0)), ds.Deterministic(wave(h=U(0, 1e-12)), name="w")])
pta = sb.PTA([m(p)])
for h in [1e-13, 2e-13, 4e-12]:
    assert np.allclose(pta.get_delay({"A_w_h": h})[0], h, rtol=1e-6, atol=0), h
'''),
dict(id="c02-delay-buffer", property="P29", edits=[(DS,"            self._ntoas = len(psr.toas)\n            self._wf, self._params = {}, {}\n","            self._ntoas = len(psr.toas)\n            self._delay = np.zeros(self._ntoas)\n            self._wf, self._params = {}, {}\n"),
  (DS,"            delay = np.zeros(self._ntoas)\n            for key, mask in zip(self._keys, self._masks):\n                delay[mask] = self._wf[key](params=params, mask=mask)\n            return delay\n","            for key, mask in zip(self._keys, self._masks):\n                self._delay[mask] = self._wf[key](params=params, mask=mask)\n            return self._delay\n")],
 needs="evaluating a delay at one point, at another, and at the first again while it is still cached",
 breaks="the delay returned for a parameter value is that of the last value evaluated",
 demo=HEAD+'''
p = Psr("A")
@parameter.function
def wave(toas, h=0.0):
    return h * np.ones_like(toas)
s = sb.SignalCollection([ds.Deterministic(wave(h=U(0, 10)), name="w")])(p)
for h in [1.0, 2.0, 1.0, 3.0]:
    assert np.allclose(s.signals[0].get_delay({"A_w_h": h}), h), h
'''),
dict(id="c03-column-hash", property="P07", edits=[(SB,"                            colhash = hash(column.tobytes())\n","                            colhash = hash(np.round(column, 9).tobytes())\n")],
 needs="two processes with basis columns that agree to nine decimals",
 breaks="columns that are close but different are combined into one",
 demo=HEAD+'''
p = Psr("A")
@parameter.function
def b1(toas):
    x = np.linspace(0, 1, len(toas)); return np.array([1e-7 * x]).T, np.array([1.0])
@parameter.function
def b2(toas):
    x = np.linspace(0, 1, len(toas)); return np.array([1e-7 * x + 3e-11 * x**2]).T, np.array([1.0])
@parameter.function
def pr(f, a=1.0):
    return a * np.ones_like(f)
m = gp.BasisGP(pr(a=parameter.Constant(1.0)), b1(), name="x") + gp.BasisGP(pr(a=parameter.Constant(2.0)), b2(), name="y")
s = m(p)
T, phi = s.get_basis({}), np.array(s.get_phi({}))
x = np.linspace(0, 1, 8)
want = np.outer(1e-7 * x, 1e-7 * x) + 2 * np.outer(1e-7 * x + 3e-11 * x**2, 1e-7 * x + 3e-11 * x**2)
assert np.allclose(T @ np.diag(phi) @ T.T, want, rtol=1e-9, atol=0)
'''),
dict(id="c04-draws-accumulate", property="P23", edits=[(UT,"                b = mn\n                if variance:\n                    b = b + ch.","                b = mn\n                if variance:\n                    b += ch.")],
 needs="several draws from an array with a common process",
 breaks="each conditional draw is centred on the previous draw instead of on the posterior mean",
 demo=HEAD+'''
ps = [Psr("A", seed=1), Psr("B", seed=2)]
crn = gp.FourierBasisCommonGP(gp_priors.powerlaw(log10_A=parameter.Constant(0), gamma=parameter.Constant(0)), utils.hd_orf(), components=1, Tspan=1e8, name="gw", combine=False)
m = ws.MeasurementNoise(efac=parameter.Constant(1.0)) + crn
pta = sb.PTA([m(p) for p in ps])
c = utils.ConditionalGP(pta)
mean = c.get_mean_coefficients({})
np.random.seed(1)
d = c.sample_coefficients({}, n=3)
np.random.seed(1)
for k in range(3):
    one = c.sample_coefficients({}, n=1)[0]
    for key in mean:
        assert np.allclose(d[k][key], one[key], rtol=1e-9), (k, key)
'''),
dict(id="c05-norm-without-exclude", property="P19", edits=[(GP,"        return utils.normed_tm_basis(norm=normed, idx_exclude=idx_exclude)\n","        return utils.normed_tm_basis(norm=normed)\n")],
 needs="a timing model with a user-given normalization and excluded columns",
 breaks="excluded timing-model columns are marginalized over all the same",
 demo=HEAD+'''
p = Psr("A", nm=4)
t = gp.TimingModel(normed=2.0, idx_exclude=[1])
s = sb.SignalCollection([t])(p)
assert s.get_basis({}).shape[1] == 3
assert np.allclose(s.get_basis({}), p.Mmat[:, [0, 2, 3]] / 2)
'''),
dict(id="c06-sticky-backends", property="P12", edits=[(SE,"        nonlocal cb\n        flagvals = np.unique(backend_flags)\n        if cb is not None:\n            cb = list(np.atleast_1d(cb))\n            flagvals","        nonlocal cb\n        flagvals = np.unique(backend_flags)\n        if cb is not None:\n            cb = [b for b in np.atleast_1d(cb) if any([b in val for val in flagvals])]\n            flagvals")],
 needs="one custom-backend selection used for two pulsars with different backends",
 breaks="backends that the first pulsar does not have are no longer selected in the next pulsar",
 demo=HEAD+'''
s = Selection(selections.custom_backends(["ASP", "PUPPI"]))
a = Psr("A", backends=["x_ASP"] * 8)
b = Psr("B", backends=["x_ASP"] * 4 + ["y_PUPPI"] * 4)
assert sorted(s(a).masks) == ["x_ASP"]
assert sorted(s(b).masks) == ["x_ASP", "y_PUPPI"], sorted(s(b).masks)
'''),
dict(id="c07-epoch-first-position", property="P26", edits=[(DS,"                pos_t = np.array([np.interp(avetoas, psr.toas, psr.pos_t[:, aa]) for aa in range(3)]).T\n","                pos_t = np.array([psr.pos_t[sc][0] for sc in self._uinds])\n")],
 needs="several TOAs in an epoch and a pulsar position that moves",
 breaks="the delay of an epoch uses the pulsar position of its first TOA",
 demo=HEAD+'''
day = 86400.0
toas = np.array([54000 * day, 54000 * day + 0.5, 54010 * day, 54010 * day + 0.8])
r = np.random.RandomState(0)
p = Psr("A", toas=toas, planetssb=r.normal(size=(4, 9, 6)) * 100, pos_t=r.normal(size=(4, 3)))
m = dict(frame_drift_rate=parameter.Constant(0.0), d_jupiter_mass=parameter.Constant(1e-3), d_saturn_mass=False, d_uranus_mass=False, d_neptune_mass=False, jup_orb_elements=False)
m["frame_drift_rate"] = False
m["d_jupiter_mass"] = U(0, 1)("d_jupiter_mass")
s = sb.SignalCollection([ds.PhysicalEphemerisSignal(**m)])(p)
d = np.array(s.get_delay({"d_jupiter_mass": 1e-3}))
jup, pos = p.planetssb[:, 4, :3], p.pos_t
want = np.repeat([-1e-3 * np.dot((jup[k] + jup[k + 1]) / 2, (pos[k] + pos[k + 1]) / 2) for k in [0, 2]], 2)
assert np.allclose(d, want, rtol=1e-4), (d, want)
'''),
dict(id="c08-closed-window", property="P14", edits=[(UT,"        if toas[i] - bucket_ref[-1] < dt:\n","        if toas[i] - bucket_ref[-1] <= dt:\n")],
 needs="two TOAs exactly one window apart",
 breaks="TOAs separated by exactly the epoch length fall in one epoch",
 demo=HEAD+'''
Um, w = utils.create_quantization_matrix(np.array([0.0, 0.5, 1.0, 1.25]), dt=1, nmin=1)
assert Um.shape == (4, 2) and np.array_equal(Um[:, 0], [1, 1, 0, 0]), Um
'''),
dict(id="c09-pattern-arguments", property="P18", edits=[(UT,"        apc = antenna_pattern_fn(pos, gwtheta, gwphi)\n","        apc = antenna_pattern_fn(pos, gwphi, gwtheta)\n")],
 needs="a burst with memory with a user-given antenna pattern function",
 breaks="the user's antenna pattern gets the two angles of the source in the wrong order",
 demo=HEAD+'''
toas = np.array([54000.0, 56000.0]) * 86400
pos = np.array([0.0, 0.6, 0.8])
kw = dict(log10_h=-3.0, cos_gwtheta=0.2, gwphi=1.1, gwpol=0.3, t0=55000)
a = utils.bwm_delay(toas, pos, **kw)
b = utils.bwm_delay(toas, pos, antenna_pattern_fn=utils.create_gw_antenna_pattern, **kw)
assert np.allclose(a, b), (a, b)
'''),
dict(id="c10-normal-cholesky", property="P09", edits=[(PA,"        return np.random.multivariate_normal(mu, sigma)\n","        return mu + np.dot(np.random.normal(size=len(sigma)), np.linalg.cholesky(sigma))\n")],
 needs="sampling a vector normal parameter with correlated entries",
 breaks="samples of multivariate normal parameters have covariance L^T L instead of L L^T",
 demo=HEAD+"""
np.random.seed(0)
S = np.array([[4.0, 1.5], [1.5, 1.0]])
x = parameter.Normal(mu=np.zeros(2), sigma=S, size=2)("x")
d = np.array([x.sample() for k in range(20000)])
assert np.allclose(np.cov(d.T), S, rtol=0.1), np.cov(d.T)
"""),
dict(id="c11-dense-coefficient-prior", property="P24", edits=[(GP,"                    return -0.5 * np.dot(c, np.dot(phiinv, c)) - 0.5 * logdet - 0.5 * phi.shape[0] * np.log(2 * np.pi)\n","                    return -0.5 * np.dot(c * np.diag(phiinv), c) - 0.5 * logdet - 0.5 * phi.shape[0] * np.log(2 * np.pi)\n")],
 needs="explicit coefficients of a process with a dense prior covariance",
 breaks="the prior of the coefficients drops their correlations",
 demo=HEAD+'''
p = Psr("A")
@parameter.function
def dense(f, a=0.0):
    n = len(f)
    return 10**a * (np.eye(n) + 0.4)
@parameter.function
def basis(toas):
    t = np.linspace(0, 1, len(toas))
    return np.array([t, t**2]).T, np.array([1.0, 2.0])
s = sb.SignalCollection([gp.BasisGP(dense(a=U(-1, 1)), basis(), coefficients=True, name="k")])(p)
par = [x for x in s.params if "coefficients" in x.name][0]
c, K = np.array([0.7, -0.4]), np.eye(2) + 0.4
want = -0.5 * c @ np.linalg.inv(K) @ c - 0.5 * np.log(np.linalg.det(2 * np.pi * K))
got = par.get_logpdf(params={par.name: c, "A_k_a": 0.0})
assert np.isclose(got, want), (got, want)
'''),
dict(id="c12-precession-frequency", property="P27", edits=[(UT,"    cm = cospm / (n * omega - 2 * gammadot) - cospp / (n * omega + 2 * gammadot)\n","    cm = cospm / (n * omega - 2 * gammadot) - cospp / (n * omega - 2 * gammadot)\n")],
 needs="an eccentric binary whose periastron advances",
 breaks="the cross polarization uses the wrong frequency of the precession sideband",
 demo=HEAD+'''
n, mc, dl, F, e, inc, l0, g, gd = 4, 1e9, 50.0, 2e-8, 0.3, 0.7, 0.4, 0.9, 1e-8
t = np.array([0.0, 1e7])
_, sc = utils.calculate_splus_scross(n, mc, dl, None, F, e, t, l0, g, gd, inc)
w = 2 * np.pi * F
want = 0
for k in range(1, n):
    an, bn = utils.get_an(k, mc, dl, None, F, e), utils.get_bn(k, mc, dl, None, F, e)
    lp, lm = k * (l0 + w * t) + 2 * (g + gd * t), k * (l0 + w * t) - 2 * (g + gd * t)
    a, b = np.cos(lm) / (k * w - 2 * gd), np.cos(lp) / (k * w + 2 * gd)
    want = want + np.cos(inc) * (an * (a - b) - bn * (a + b))
assert np.allclose(sc, want, rtol=1e-9, atol=0), (sc, want)
'''),
dict(id="c13-shared-coordinate", property="P17", edits=[(UT,"    psr2_index = [ii for ii in range(len(psrs_pos)) if np.all(psrs_pos[ii] == pos2)][0]\n","    psr2_index = [ii for ii in range(len(psrs_pos)) if np.any(psrs_pos[ii] == pos2)][0]\n")],
 needs="an anisotropic correlation for pulsars that share one coordinate of their position",
 breaks="the anisotropic correlation is read for the wrong pulsar",
 demo=HEAD+'''
pos = np.array([[0.6, 0.8, 0.0], [0.6, 0.0, 0.8], [0.0, 0.8, 0.6]])
basis = np.arange(4 * 9, dtype=float).reshape(4, 3, 3)
for i in range(3):
    for j in range(3):
        v = utils.anis_orf()("x")(pos[i], pos[j], params={}, anis_basis=basis, psrs_pos=list(pos), lmax=0) if False else utils.anis_orf.__wrapped__(pos[i], pos[j], [], anis_basis=basis, psrs_pos=list(pos), lmax=0) if hasattr(utils.anis_orf, "__wrapped__") else utils.anis_orf(pos[i], pos[j], [], anis_basis=basis, psrs_pos=list(pos), lmax=0)
        assert np.isclose(v, 2 * np.sqrt(np.pi) * basis[0, i, j]), (i, j, v)
'''),
dict(id="c14-even-spacing", property="P31", edits=[(UT,"        if epinds[-1] - epinds[0] + 1 != len(epinds) or not as_slice:\n","        if len(np.unique(np.diff(epinds))) > 1 or not as_slice:\n")],
 needs="slices of an epoch whose TOAs alternate with those of another epoch",
 breaks="the slice of such an epoch includes the TOAs of the other one",
 demo=HEAD+"""
Um = np.array([[1, 0], [0, 1], [1, 0], [0, 1], [1, 0]], float)
for k, i in enumerate(utils.quant2ind(Um, as_slice=True)):
    assert np.array_equal(np.arange(5)[i], np.flatnonzero(Um[:, k])), (k, i)
"""),
dict(id="c15-dmx-barycentric", property="P25", edits=[(GP,"                self._dmwhich.append((dmx[\"DMXR1\"] <= psr.stoas / 86400) & (psr.stoas / 86400 < dmx[\"DMXR2\"]))\n","                self._dmwhich.append((dmx[\"DMXR1\"] <= psr.toas / 86400) & (psr.toas / 86400 < dmx[\"DMXR2\"]))\n")],
 needs="a TOA that the barycentric correction moves across the edge of a DMX range",
 breaks="DM measurements are averaged into the neighbouring DMX range",
 demo=HEAD+'''
day = 86400.0
toas = np.array([54000.0, 54001.0, 54004.0, 54006.0]) * day
stoas = toas.copy(); stoas[1] = 54002.5 * day
p = Psr("A", toas=toas, nm=3, flags={"pp_dm": np.array(["10.0", "12.0", "11.0", "11.5"]), "pp_dme": np.array(["0.1"] * 4)})
p.stoas = stoas
p.dmx = {"DMX_0001": dict(DMX=0.1, DMXerr=0.1, DMXR1=53999.0, DMXR2=54002.0, fit=True), "DMX_0002": dict(DMX=0.2, DMXerr=0.1, DMXR1=54002.0, DMXR2=54008.0, fit=True)}
p.fitpars = ["Offset", "DMX_0001", "DMX_0002"]
s = sb.SignalCollection([gp.WidebandTimingModel(dmefac=parameter.Constant(1.0), log10_dmequad=None, dmjump=None)])(p)
dm = s.signals[0].get_mean_dm({})
assert np.allclose(dm, [10.0, 11.5, 11.5, 11.5]), dm
'''),
dict(id="c16-knee-grid", property="P16", edits=[(PR,"            alpha_model[2 * int(np.rint(nfreq)) + 1] = alphas_adapt\n","            alpha_model[2 * int(nfreq) + 1] = alphas_adapt\n")],
 needs="an adaptive t-process whose frequency index is sampled as a real number with a fractional part above one half",
 breaks="the sine and cosine of the chosen frequency get different factors",
 demo=HEAD+'''
f = np.repeat(np.arange(1, 5) * 1e-9, 2)
base = gp_priors.powerlaw(f, log10_A=-14, gamma=3)
for nf in [0.0, 1.2, 1.7, 2.6]:
    v = gp_priors.t_process_adapt(f, log10_A=-14, gamma=3, alphas_adapt=5.0, nfreq=nf) / base
    k = int(np.rint(nf)); want = np.ones(8); want[2 * k : 2 * k + 2] = 5
    assert np.allclose(v, want), (nf, v)
'''),
dict(id="c18-set-flags-order", property="P20", edits=[(PU,"            self._flags[flagname] = values[self._iisort]\n","            self._flags[flagname] = values[self._isort]\n")],
 needs="setting a flag of a pulsar whose sorting permutation is not its own inverse",
 breaks="flags set by the user end up on other TOAs",
 demo=HEAD+TIMING+'''
b = Base(4, toas=[3e6, 1e6, 2e6, 4e6])
v = np.array(["a", "b", "c", "d"])
b.set_flags("new", v)
assert list(b.flags["new"]) == list(v), b.flags["new"]
'''),
]
