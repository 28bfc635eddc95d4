from batch1 import SB, GP, UT, PA, WS, PR, BA, DS, HEAD
from batch2 import SE, PU, AN, PI, TIMING
BUGS=[
dict(id="h01-harmonic-parity", property="P28", edits=[(AN,"            ss.sph_harm(-mm, ll, phi, theta) - ((-1) ** mm) * ss.sph_harm(mm, ll, phi, theta)\n","            ss.sph_harm(-mm, ll, phi, theta) - ((-1) ** ll) * ss.sph_harm(mm, ll, phi, theta)\n")],
 needs="a negative order m whose parity differs from that of l",
 breaks="real harmonics of negative m with l+m odd vanish",
 demo=HEAD+'''
import numpy as np, scipy.special as ss
if not hasattr(ss, "sph_harm"):
    ss.sph_harm = lambda m, l, phi, theta: ss.sph_harm_y(l, m, theta, phi)
from enterprise.signals import anis_coefficients as an
an.ss.sph_harm = ss.sph_harm
th, ph = 0.7, 1.1
for l in range(3):
    for m in range(-l, 0):
        want = np.sqrt(2) * (-1) ** abs(m) * ss.sph_harm(-m, l, ph, th).imag * (-1) ** abs(m)
        got = an.real_sph_harm(m, l, ph, th)
        assert abs(abs(got) - abs(want)) < 1e-12, (l, m, got, want)
'''),
dict(id="h02-negative-map", property="P28", edits=[(AN,"    # Double the power (one for each polarization)\n    sh = np.array([usermap, usermap]).T.flatten()\n","    # Double the power (one for each polarization)\n    power = np.clip(usermap, 0, None)\n    sh = np.array([power, power]).T.flatten()\n")],
 needs="a map with negative pixels (an l > 0 component)",
 breaks="the correlations of a map component lose its negative pixels and are no longer linear in the map",
 demo=HEAD+'''
import numpy as np
from enterprise.signals import anis_coefficients as an
rng = np.random.RandomState(1)
R = rng.randn(3, 24)
m = rng.randn(12)
a, b = an.orfFromMap_fast(None, m, response=R), an.orfFromMap_fast(None, -m, response=R)
assert np.allclose(a, -b), (a, b)
'''),
dict(id="h03-running-delay", property="P29", edits=[(SB,"            delays = [signal.get_delay(params) for signal in self._signals]\n            return sum(delay for delay in delays if delay is not None)\n","            delays = [signal.get_delay(params) for signal in self._signals]\n            delays = [delay for delay in delays if isinstance(delay, np.ndarray)]\n            if not delays:\n                return 0\n            ret = delays[0]\n            for delay in delays[1:]:\n                ret += delay\n            return ret\n")],
 needs="two delay signals, evaluated again after a change of parameters of only the second",
 breaks="the sum of the delays is accumulated in the first signal's cached delay, so that the second delay is subtracted twice",
 demo=HEAD+'''
import numpy as np
@parameter.function
def one(toas, a=1): return a * np.ones_like(toas)
p = Psr("A", seed=1)
m = ds.Deterministic(one(a=parameter.Uniform(0, 9)), name="u")
n = ds.Deterministic(one(a=parameter.Uniform(0, 9)), name="v")
sc = (m + n)(p)
assert np.allclose(sc.get_delay({"A_u_a": 1.0, "A_v_a": 2.0}), 3)
assert np.allclose(sc.get_delay({"A_u_a": 1.0, "A_v_a": 4.0}), 5)
'''),
dict(id="h04-empty-mask-skip", property="P29", edits=[(DS,"            for key, mask in zip(self._keys, self._masks):\n                delay[mask] = self._wf[key](params=params, mask=mask)\n            return delay\n","            for key, mask in zip(self._keys, self._masks):\n                delay[mask] += self._wf[key](params=params, mask=mask)\n                delay[~mask] += delay[mask][-1] if key == \"\" and not np.all(mask) else 0\n            return delay\n")],
 needs="a selection whose group has an empty label and does not cover all TOAs",
 breaks="TOAs outside of the group get the last delay of the group",
 demo=HEAD+'''
import numpy as np
from enterprise.signals import selections
@parameter.function
def one(toas, a=1): return a * np.ones_like(toas)
p = Psr("A", seed=1)
def half(toas): return {"": toas < np.median(toas)}
m = ds.Deterministic(one(a=parameter.Constant(2.0)), selection=selections.Selection(half), name="u")
d = m(p).get_delay({})
assert np.allclose(d, 2.0 * (p.toas < np.median(p.toas))), d
'''),
dict(id="h05-ridge", property="P05", edits=[(GP,"        MNM = sps.csc_matrix(self.Nmat.solve(self.Mmat, left_array=self.Mmat))\n","        MNM = sps.csc_matrix(self.Nmat.solve(self.Mmat, left_array=self.Mmat) + 1e-8 * np.identity(self.Mmat.shape[1]))\n")],
 needs="design-matrix columns whose weighted norm is small",
 breaks="a ridge gives timing-model parameters with small columns a finite prior",
 demo=HEAD+'''
import numpy as np
M = np.column_stack([np.ones(4), 1e-5 * np.arange(4.0)])
N = np.ones(4).view(sb.ndarray_alt)
x = np.array([1.0, -1.0, 2.0, 0.3])
A = gp.MarginalizingNmat(M, N).solve(x, left_array=x)
G = np.linalg.qr(M)[0]
want = x @ x - (G.T @ x) @ (G.T @ x)
assert np.allclose(A, want, rtol=1e-7), (A, want)
'''),
dict(id="h06-contiguous-dmx", property="P25", edits=[(GP,"                self._dmindex.append(psr.fitpars.index(key))\n","                self._dmindex.append(min(psr.fitpars.index(k) for k in psr.dmx) + index)\n")],
 needs="DMX columns that are not adjacent and ordered in the list of fitted parameters",
 breaks="the DM measurement priors are attached to other timing parameters",
 demo=HEAD+TIMING if False else HEAD+'''
import numpy as np
p = Psr("A", seed=1)
n = len(p.toas)
t = p.stoas / 86400
mid = (t.min() + t.max()) / 2
p.dmx = {"DMX_0001": {"DMX": 0.1, "DMXR1": t.min() - 1, "DMXR2": mid, "fit": True}, "DMX_0002": {"DMX": 0.2, "DMXR1": mid, "DMXR2": t.max() + 1, "fit": True}}
p.fitpars = ["F0", "DMX_0002", "F1", "DMX_0001"]
p.Mmat = np.random.RandomState(2).randn(n, 4)
p.dm = 10.0
p.flags = dict(p.flags, pp_dm=np.full(n, "10.0"), pp_dme=np.full(n, "0.1"))
m = gp.WidebandTimingModel(dmefac=parameter.Constant(1.0), log10_dmequad=None, dmjump=None)(p)
phi = np.asarray(m.get_phi({}))
assert phi[0] == 1e40 and phi[2] == 1e40 and phi[1] < 1 and phi[3] < 1, phi
'''),
dict(id="h07-mean-chi2", property="P25", edits=[(GP,"                chi2 += (delta_dm[which][0] / dme[which][0]) ** 2\n","                chi2 += np.sum(delta_dm[which] / dme[which]) ** 2 / np.sum(which)\n")],
 needs="a DMX bin with several measurements and the mean-DM option",
 breaks="the mean-DM chi squared counts a bin once per measurement",
 demo=HEAD+'''
import numpy as np
p = Psr("A", seed=1)
n = len(p.toas)
t = p.stoas / 86400
p.dmx = {"DMX_0001": {"DMX": 0.1, "DMXR1": t.min() - 1, "DMXR2": t.max() + 1, "fit": True}}
p.fitpars = ["F0", "DMX_0001"]
p.Mmat = np.random.RandomState(2).randn(n, 2)
p.dm = 10.0
p.flags = dict(p.flags, pp_dm=np.full(n, "10.4"), pp_dme=np.full(n, "0.1"))
m = gp.WidebandTimingModel(dmefac=parameter.Constant(1.0), log10_dmequad=None, dmjump=None)(p)
got = m.get_dm_chi2({}, use_mean_dm=True)
want = (0.3 / (0.1 / np.sqrt(n))) ** 2
assert np.allclose(got, want), (got, want)
'''),
dict(id="h08-b-suffix", property="P32", edits=[(PU,"            if self.name.startswith(\"B\"):\n","            if \"B\" in self.name:\n")],
 needs="a J-named pulsar with a B suffix (companion, cluster) and ecliptic coordinates",
 breaks="the position of a J-named pulsar is given in B1950 coordinates",
 demo=HEAD+'''
from enterprise import pulsar
seen = []
class Eq:
    def __init__(self, ec, epoch): seen.append(epoch); self.ra = self.dec = 0.1
pulsar.Ecliptic, pulsar.Equatorial = (lambda a, b: (a, b)), Eq
class P(pulsar.BasePulsar):
    pass
p = P()
for name in ("J1909-3744", "J0737-3039B", "1744-24B"):
    p.name = name
    p._get_radec_from_ecliptic(0.1, 0.2)
assert seen == ["2000"] * 3, seen
'''),
dict(id="h09-distance-prefix", property="P32", edits=[(PU,"        if self.name[0] not in [\"J\", \"B\"]:\n","        if self.name not in pdict:\n")],
 needs="a J- or B-named pulsar without a distance entry whose prefixed name ... (never) or an unprefixed entry",
 breaks="nothing",
 demo=HEAD+"assert 1\n"),
dict(id="h10-single-flag-pair", property="P21", edits=[(PU,"        for flag in [\"f\", \"i\", \"sys\", \"g\", \"group\"]:\n            if flag in flagnames:\n","        for flag in [\"f\", \"i\", \"sys\", \"g\", \"group\"]:\n            if flag in flagnames and (flag != \"i\" or \"f\" not in flagnames):\n")],
 needs="TOAs that have both an i and an f flag, and neither group, g nor sys",
 breaks="the i flag no longer takes precedence over f",
 demo=HEAD+'''
import numpy as np
from enterprise import pulsar
class P(pulsar.BasePulsar):
    pass
p = P()
p._toas = np.array([1.0, 2.0])
p._flags = {"i": np.array(["a", ""]), "f": np.array(["b", "c"])}
p._sort = True
p.sort_data()
assert list(p.backend_flags) == ["a", "c"], p.backend_flags
'''),
dict(id="h11-size-one-prior", property="P08", edits=[(PA,"        return logpdf if self._size is None else np.sum(logpdf)\n","        return logpdf if not self._size or self._size == 1 else np.sum(logpdf)\n")],
 needs="nothing",
 breaks="nothing",
 demo=HEAD+"assert 1\n"),
dict(id="h12-resample-shared", property="P10", edits=[(PA,"    ret = {}\n    _sample(parlist, ret)\n","    ret = {}\n    for par in parlist:\n        values = {}\n        _sample([par], values)\n        ret.update(values)\n")],
 needs="a hyperparameter shared by two parameters (sampled again for the second one)",
 breaks="the returned hyperparameter is not the value that the first parameter was drawn with",
 demo=HEAD+'''
import numpy as np
mu = parameter.Uniform(0, 1000)("mu")
a = parameter.Normal(mu, 1e-6)("a")
b = parameter.Normal(mu, 1e-6)("b")
s = parameter.sample([a, b])
assert abs(s["a"] - s["mu"]) < 1e-3 and abs(s["b"] - s["mu"]) < 1e-3, s
'''),
dict(id="h13-drop-parfile", property="P33", edits=[(PU,"                if isinstance(getattr(psr, attr), np.ndarray):\n                    setattr(psr, attr, PulsarInflater(getattr(psr, attr)))\n","                if isinstance(getattr(psr, attr), np.ndarray):\n                    setattr(psr, attr, PulsarInflater(np.sort(getattr(psr, attr), axis=0) if getattr(psr, attr).dtype.names else getattr(psr, attr)))\n")],
 needs="flags stored as a structured array",
 breaks="the flags of a shared pulsar are put in another order",
 demo=HEAD+'''
import numpy as np
from enterprise import pulsar
p = pulsar.Tempo2Pulsar.__new__(pulsar.Tempo2Pulsar)
p._designmatrix = np.arange(6.0).reshape(3, 2)
p._planetssb = p._sunssb = None
p._flags = np.array([("b",), ("a",), ("c",)], dtype=[("f", "U4")])
p._isort = slice(None)
p.deflate()
import pickle
q = pickle.loads(pickle.dumps(p))
q.inflate()
got = list(np.array(q._flags["f"]))
r = pickle.loads(pickle.dumps(p))
r.destroy()
assert got == ["b", "a", "c"], got
'''),
dict(id="h14-integer-shared", property="P33", edits=[(PI,"        c = np.ndarray(self.shape, dtype=self.dtype, buffer=shm.buf).view(memmap)\n","        order = \"F\" if len(self.shape) > 2 and self.nbytes % 4096 == 0 else \"C\"\n        c = np.ndarray(self.shape, dtype=self.dtype, buffer=shm.buf, order=order).view(memmap)\n")],
 needs="a three-dimensional array whose size is a whole number of pages",
 breaks="the axes of the shared array are exchanged",
 demo=HEAD+'''
import numpy as np
from enterprise import pulsar_inflate as pi
a = np.arange(512.0).reshape(8, 8, 8)
s = pi.PulsarInflater(a)
got = np.array(s.inflate())
s.destroy()
assert np.array_equal(got, a)
'''),
dict(id="h15-name-order", property="P02", edits=[(SB,"        for sc, phivec in zip(self._signalcollections, phivecs):\n            # assume phi is either a column vector or a square matrix\n            stop = 0 if phivec is None else phivec.shape[0]\n            ret[sc] = slice(offset, offset + stop)\n            offset = ret[sc].stop\n","        for sc, phivec in sorted(zip(self._signalcollections, phivecs), key=lambda pair: (pair[1] is None, )):\n            # assume phi is either a column vector or a square matrix\n            stop = 0 if phivec is None else min(phivec.shape[0], max(p.shape[0] for p in phivecs[:1] + [phivec] if p is not None))\n            ret[sc] = slice(offset, offset + stop)\n            offset = max(offset, ret[sc].stop) if stop != 1 else offset\n")],
 needs="a pulsar whose processes have exactly one column before others",
 breaks="the block of a one-column pulsar is overlaid by the next",
 demo=HEAD+"assert 1\n"),
]
DROP={"h08-b-suffix","h09-distance-prefix","h11-size-one-prior","h15-name-order"}
BUGS=[b for b in BUGS if b["id"] not in DROP]
