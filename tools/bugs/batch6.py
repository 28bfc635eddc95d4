from batch1 import SB, GP, UT, PA, WS, PR, BA, DS, HEAD
from batch2 import SE, PU, AN, PI, TIMING
BUGS=[
dict(id="f01-clique-merge", property="P03", edits=[(SB,"                # clique indices that we found to maxidx\n                if len(allidx) > 1:\n","                # clique indices that we found to maxidx\n                if len(allidx) > 2:\n")],
 needs="two pulsars with dense priors, joined by a common process that touches only some of their columns",
 breaks="the rest of a dense block is inverted apart from the columns that were joined",
 demo=HEAD+'''
@parameter.function
def dense(f):
    return np.array([[2.0, 0.7], [0.7, 3.0]])
@parameter.function
def two(toas, k=1):
    return np.stack([toas / 1e9, toas**2 / 1e18], axis=1), np.array([1.0, 2.0])
@parameter.function
def one(toas, k=1):
    return np.stack([toas / 1e9], axis=1), np.array([1.0])
@parameter.function
def pr(f):
    return 0.5 * np.ones(1)
ps = [Psr("A", seed=1), Psr("B", seed=2)]
m = ws.MeasurementNoise(efac=parameter.Constant(1.0)) + gp.BasisGP(dense(), two(), name="own") + gp.BasisCommonGP(pr(), one(), utils.hd_orf(), name="gw")
pta = sb.PTA([m(p) for p in ps])
phi = np.array(pta.get_phi({}))
assert np.allclose(np.dot(phi, pta.get_phiinv({})), np.eye(len(phi)), atol=1e-9)
'''),
dict(id="f02-signal-prefix", property="P30", edits=[(SB,"                    if s.signal_id == key:\n","                    if s.signal_id.startswith(key):\n")],
 needs="a signal whose name begins with the name of a later one",
 breaks="looking a signal up by name returns another signal",
 demo=HEAD+'''
p = Psr("A", seed=1)
pl = lambda: gp_priors.powerlaw(log10_A=parameter.Constant(0), gamma=parameter.Constant(0))
m = (gp.FourierBasisGP(pl(), components=1, name="red_noise_extra") + gp.FourierBasisGP(pl(), components=2, name="red_noise"))(p)
assert m["red_noise"].signal_id == "red_noise"
'''),
dict(id="f03-set-once", property="P30", edits=[(SB,"            if par.name in params and isinstance(par, ConstantParameter):\n","            if par.name in params and isinstance(par, ConstantParameter) and (par.value is None or not par.value):\n")],
 needs="fixed parameters that are set a second time, or that have a value already",
 breaks="setting a fixed parameter that already has a value does nothing",
 demo=HEAD+'''
p = Psr("A", seed=1)
pta = sb.PTA([sb.SignalCollection([ws.MeasurementNoise(efac=parameter.Constant())])(p)])
for v in (2.0, 3.0):
    pta.set_default_params({"A_efac": v})
    assert np.allclose(np.array(pta.get_ndiag({})[0]), v**2 * p.toaerrs**2), v
'''),
dict(id="f04-late-key", property="P24", edits=[(GP,"                    logprior = parameter.Function(functools.partial(self._get_coefficient_logprior, key), **priorargs)\n","                    logprior = parameter.Function(\n                        lambda c, **params: self._get_coefficient_logprior(key, c, **params), **priorargs\n                    )\n")],
 needs="explicit coefficients of a process with a selection of several groups, whose priors differ",
 breaks="the coefficients of every group are given the prior of the last group",
 demo=HEAD+'''
p = Psr("A", seed=1, backends=["X", "Y"] * 4)
m = gp.FourierBasisGP(gp_priors.powerlaw(log10_A=U(-5, 5), gamma=parameter.Constant(0)), components=1, coefficients=True, Tspan=1e8, selection=Selection(selections.by_backend), name="rn")
pta = sb.PTA([(ws.MeasurementNoise(efac=parameter.Constant(1.0)) + m)(p)])
d = {q.name: q for q in pta.params}
x = {"A_rn_X_log10_A": 0.0, "A_rn_Y_log10_A": 2.0, "A_rn_X_coefficients": np.ones(2), "A_rn_Y_coefficients": np.ones(2)}
f = np.repeat([1e-8], 2)
for g, la in (("X", 0.0), ("Y", 2.0)):
    v = gp_priors.powerlaw(f, log10_A=la, gamma=0)
    want = np.sum(-0.5 / v - 0.5 * np.log(2 * np.pi * v))
    got = d["A_rn_%s_coefficients" % g].get_logpdf(params=x)
    assert np.allclose(got, want, rtol=1e-9, atol=0), (g, got, want)
'''),
dict(id="f05-dmequad-mask", property="P25", edits=[(GP,"                    10 ** (params[equad.name] if equad.name in params else equad.value) * mask\n","                    10 ** ((params[equad.name] if equad.name in params else equad.value) * mask)\n")],
 needs="DM errors adjusted for several groups of TOAs",
 breaks="every TOA gets one unit of extra DM error for each group it does not belong to",
 demo=HEAD+'''
p = Psr("A", n=4, seed=1, toas=np.array([1.0, 2.0, 3.0, 4.0]) * 86400, nm=2, backends=["X", "Y", "X", "Y"])
p.fitpars = ["F0", "DMX_0001"]
p.dmx = {"DMX_0001": {"DMX": 0.0, "fit": True, "DMXR1": 0.0, "DMXR2": 10.0}}
p.flags = {"pp_dm": np.ones(4) * 10, "pp_dme": np.ones(4) * 0.1}
m = gp.WidebandTimingModel(dmefac=parameter.Constant(1.0), log10_dmequad=parameter.Constant(-3), dmjump=None, selection=Selection(selections.by_backend))
s = m(p)
assert np.allclose(s.get_dme({}), np.sqrt(0.01 + 1e-6)), s.get_dme({})
'''),
dict(id="f06-none-default", property="P11", edits=[(SE,"                if funcarg not in kwargs and hasattr(psr, funcarg):\n","                if funcarg not in kwargs and getattr(psr, funcarg, None) is not None:\n")],
 needs="a pulsar attribute that is None (no planetary positions, no DMX table)",
 breaks="the function's own default is used instead of the pulsar's value",
 demo=HEAD+'''
p = Psr("A", seed=1)
p.planetssb = None
@parameter.function
def f(toas, planetssb=7.0):
    return toas * 0 + (0.0 if planetssb is None else planetssb)
assert np.allclose(f()("x", psr=p)(p.toas), 0)
'''),
dict(id="f07-equad-scale", property="P13", edits=[(WS,"    return efac**2 * (toaerrs**2 + 10 ** (2 * log10_t2equad))\n","    return efac**2 * toaerrs**2 + np.minimum(efac, efac**2) ** 2 * 10 ** (2 * log10_t2equad)\n")],
 needs="errors scaled up together with additional noise",
 breaks="additional noise is scaled by efac instead of efac squared... for factors above one",
 demo=HEAD+'''
p = Psr("A", seed=1)
s = sb.SignalCollection([ws.MeasurementNoise(efac=U(0.1, 10), log10_t2equad=U(-8, 1))])(p)
for e in (0.5, 1.0, 2.0):
    assert np.allclose(np.array(s.get_ndiag({"A_efac": e, "A_log10_t2equad": 0.0})), e**2 * (p.toaerrs**2 + 1)), e
'''),
dict(id="f08-plain-heaviside", property="P18", edits=[(UT,"    return pol * h * np.heaviside(toas - t0, 0.5) * (toas - t0)\n","    return pol * h * np.where(np.floor(toas / const.day) >= np.floor(t0 / const.day), toas - t0, 0.0)\n")],
 needs="observations on the day of the burst, before it",
 breaks="observations earlier on the day of the burst are delayed",
 demo=HEAD+'''
p = Psr("A", seed=1, toas=np.array([54999.9, 55000.1, 55000.7, 55001.2]) * 86400)
d = utils.bwm_delay(p.toas, p.pos, log10_h=-10, t0=55000.5)
assert d[0] == 0 and d[1] == 0 and d[2] != 0, d
'''),
dict(id="f09-norm-subset", property="P19", edits=[(UT,"        norm = np.sqrt(np.sum(Mmat**2, axis=0))\n\n    nmat = Mmat / norm\n","        norm = np.sqrt(np.sum(Mmat**2, axis=0))\n\n    nmat = Mmat\n    nmat /= norm\n")],
 needs="a design matrix that its owner still uses, with no column excluded",
 breaks="the caller's design matrix is normalized in place",
 demo=HEAD+'''
p = Psr("A", seed=1)
keep = p.Mmat.copy()
utils.normed_tm_basis(p.Mmat)
assert np.allclose(p.Mmat, keep)
'''),
dict(id="f10-stable-view", property="P19", edits=[(UT,"    Mm = designmat.copy()\n","    Mm = np.asarray(designmat, dtype=float)\n")],
 needs="a design matrix of floating-point numbers that its owner still uses",
 breaks="stabilizing the design matrix normalizes the caller's matrix in place",
 demo=HEAD+'''
p = Psr("A", seed=1)
keep = p.Mmat.copy()
utils.create_stabletimingdesignmatrix(p.Mmat)
assert np.allclose(p.Mmat, keep)
'''),
dict(id="f11-record-flags", property="P20", edits=[(PU,"        return {flag: self._flags[flag][self._isort] for flag in flagnames}\n","        if isinstance(self._flags, np.ndarray):\n            return {flag: self._flags[flag] for flag in flagnames}\n        return {flag: self._flags[flag][self._isort] for flag in flagnames}\n")],
 needs="flags stored in an array, and TOAs that are not stored in time order",
 breaks="flags are presented in stored order while everything else is in time order",
 demo=HEAD+TIMING+'''
p = Base(n=6, seed=3)
fl = np.zeros(6, dtype=[("f", "U8")])
fl["f"] = ["b%d" % k for k in range(6)]
p._flags = fl
p.sort_data()
assert list(p.flags["f"]) == ["b%d" % k for k in np.argsort(p._toas)]
'''),
dict(id="f12-common-everywhere", property="P17", edits=[(SB,"            self._cs = {csclass: csdict for csclass, csdict in commonsignals.items() if len(csdict) > 1}\n","            npsr = len(self._signalcollections)\n            self._cs = {csclass: csdict for csclass, csdict in commonsignals.items() if 1 < len(csdict) == npsr}\n")],
 needs="a correlated process shared by some of the pulsars only",
 breaks="a common process that is not on every pulsar is treated as uncorrelated",
 demo=HEAD+'''
ps = [Psr("A", seed=1), Psr("B", seed=2), Psr("C", seed=3)]
crn = gp.FourierBasisCommonGP(gp_priors.powerlaw(log10_A=parameter.Constant(0), gamma=parameter.Constant(0)), utils.hd_orf(), components=1, Tspan=1e8, name="gw")
wn = ws.MeasurementNoise(efac=parameter.Constant(1.0))
pta = sb.PTA([(wn + crn)(ps[0]), (wn + crn)(ps[1]), sb.SignalCollection([wn])(ps[2])])
phi = pta.get_phi({})
assert not isinstance(phi, list) and np.allclose(phi[0, 2] / phi[0, 0], utils.hd_orf(ps[0].pos, ps[1].pos))
'''),
dict(id="f13-zero-seed", property="P15", edits=[(BA,"    if pshift or pseed is not None:\n        if pseed is not None:\n","    if pshift or pseed:\n        if pseed:\n")],
 needs="phase shifts with seed zero",
 breaks="a seed of zero is ignored: no phases, or unrepeatable ones",
 demo=HEAD+'''
t = Psr("A", seed=1).toas
a = utils.createfourierdesignmatrix_red(t, nmodes=2, pseed=0)[0]
b = utils.createfourierdesignmatrix_red(t, nmodes=2)[0]
c = utils.createfourierdesignmatrix_red(t, nmodes=2, pseed=0)[0]
assert np.allclose(a, c) and not np.allclose(a, b)
'''),
dict(id="f14-bin-truncated", property="P16", edits=[(PR,"            alpha_model[2 * int(np.rint(nfreq))] = alphas_adapt\n            alpha_model[2 * int(np.rint(nfreq)) + 1] = alphas_adapt\n","            alpha_model[int(np.rint(2 * nfreq))] = alphas_adapt\n            alpha_model[int(np.rint(2 * nfreq)) + 1] = alphas_adapt\n")],
 needs="a frequency index that is not close to a whole number, as a sampler supplies",
 breaks="the adaptive factor is applied to columns of two frequencies",
 demo=HEAD+'''
f = np.repeat([1e-8, 2e-8, 3e-8, 4e-8], 2)
a = gp_priors.t_process_adapt(f, log10_A=-15, gamma=3, alphas_adapt=7.0, nfreq=1.3) / gp_priors.powerlaw(f, log10_A=-15, gamma=3)
assert np.allclose(a, [1, 1, 7, 7, 1, 1, 1, 1]), a
'''),
dict(id="f16-masked-product", property="P12", edits=[(SE,"            return {key: val * arr for key, val in masks.items()}\n","            return {key: np.where(val, arr, np.mean(arr)) for key, val in masks.items()}\n")],
 needs="a selection applied to an array",
 breaks="entries outside a group are filled with the mean",
 demo=HEAD+'''
p = Psr("A", seed=1, backends=["X", "Y"] * 4)
prm, arr = Selection(selections.by_backend)(p)("efac", U(0, 1), arr=p.toaerrs)
assert np.allclose(arr["X_efac"], p.toaerrs * (p.backend_flags == "X"))
'''),
dict(id="f19-reset-order", property="P01", edits=[(SB,"        @cache_call(\"delay_params\")\n        def get_detres(self, params):\n            return self._residuals - self.get_delay(params)\n","        @cache_call(\"delay_params\")\n        def get_detres(self, params):\n            res = self._residuals - self.get_delay(params)\n            return res - np.mean(res) * any(signal.signal_type == \"deterministic\" for signal in self._signals)\n")],
 needs="a deterministic signal in the model",
 breaks="the mean of the residuals is removed when the model has a deterministic signal",
 demo=HEAD+'''
p = Psr("A", seed=1)
@parameter.function
def wf(toas):
    return toas * 0 + 3.0
m = ws.MeasurementNoise(efac=parameter.Constant(1.0)) + ds.Deterministic(wf(), name="d")
pta = sb.PTA([m(p)])
r = p.residuals - 3.0
assert abs(pta.get_lnlikelihood({}) + 0.5 * np.sum(r**2 / p.toaerrs**2) + np.sum(np.log(p.toaerrs))) < 1e-9
'''),
]
