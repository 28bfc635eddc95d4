from batch1 import SB, GP, UT, PA, WS, PR, BA, DS, HEAD
from batch2 import SE, PU, AN, PI, TIMING
BUGS=[
dict(id="i01-direct-hyperparameters", property="P10", edits=[(PA,"        return [self] + [par for par in priorparams if not isinstance(par, ConstantParameter)]\n","""        direct = list((self.prior if hasattr(self, "prior") else self.logprior)._params.values())

        return [self] + [par for par in priorparams if any(par is p for p in direct)]
""")],
 needs="a hyperparameter that has a hyperparameter of its own",
 breaks="the hyperparameters of hyperparameters are missing from the parameter lists, so they are neither sampled nor given a prior",
 demo=HEAD+'''
a = parameter.Uniform(parameter.Uniform(parameter.Uniform(0, 1), 2), 3)("a")
assert len(a.params) == 3, a.params
out = parameter.sample([a])
assert sorted(out) == sorted(p.name for p in a.params) and len(out) == 3, out
'''),
dict(id="i02-elementwise-logprior", property="P09", edits=[(PA,"        return logpdf if self._size is None else np.sum(logpdf)\n","        return logpdf if self._size is None or not hasattr(self, \"prior\") else np.sum(logpdf)\n")],
 needs="a vector parameter that is defined by its log-density",
 breaks="the log-density of the vector is an array of the entries' terms",
 demo=HEAD+'''
import numpy as np
def lp(value):
    return -np.abs(value)
p = parameter.UserParameter(logprior=parameter.Function(lp), size=3)("x")
v = np.array([1.0, -2.0, 0.5])
assert np.ndim(p.get_logpdf(v)) == 0 and np.isclose(p.get_logpdf(v), -3.5), p.get_logpdf(v)
assert np.isclose(p.get_pdf(v), np.exp(-3.5))
'''),
dict(id="i03-lookup-by-prefix", property="P30", edits=[(SB,"                if sc.psrname == key:\n                    return sc\n","                if sc.psrname.startswith(key):\n                    return sc\n")],
 needs="an array with a pulsar whose name begins with the name of a later one",
 breaks="looking up a pulsar by name finds another pulsar",
 demo=HEAD+'''
m = sb.SignalCollection([ws.MeasurementNoise(efac=parameter.Uniform(0.1, 5))])
pta = sb.PTA([m(Psr("J0030+0451A", 4)), m(Psr("J0030+0451", 4))])
for k in ("J0030+0451A", "J0030+0451"):
    assert pta[k].psrname == k, (k, pta[k].psrname)
'''),
dict(id="i04-own-pulsar", property="P11", edits=[(PA,'            if self._psr is not None and "psr" not in kwargs:\n                kwargs["psr"] = self._psr\n','            if self._psr is not None:\n                kwargs["psr"] = self._psr\n')],
 needs="a function bound to one pulsar that is called for another",
 breaks="the pulsar given in the call is ignored",
 demo=HEAD+'''
import numpy as np
@parameter.function
def f(toas, a=2.0):
    return a * toas
p, q = Psr("A", 4), Psr("B", 6)
g = f(a=parameter.Constant(3.0))("x", psr=p)
assert np.allclose(g(psr=q), 3 * q.toas), "explicit pulsar"
assert np.allclose(g(), 3 * p.toas)
'''),
dict(id="i06-distinct-terms", property="P01", edits=[(SB,"        loglike += sum(self.pta.get_logsignalprior(params))\n","        loglike += sum(set(self.pta.get_logsignalprior(params)))\n")],
 needs="two pulsars whose additional likelihood terms happen to be equal",
 breaks="equal terms of different pulsars are counted once",
 demo=HEAD+'''
import numpy as np
class Extra(sb.Signal):
    signal_type, signal_name, signal_id = "deterministic", "extra", "extra"
    def __init__(self, psr):
        super(Extra, self).__init__(psr)
        self.name, self._params = self.psrname + "_extra", {}
    @property
    def delay_params(self):
        return []
    def get_logsignalprior(self, params):
        return -2.5
MetaE = sb.MetaSignal("E", (Extra,), {})
m = ws.MeasurementNoise(efac=parameter.Uniform(0.1, 5))
A, B = (m + MetaE)(Psr("A", 4)), (m + MetaE)(Psr("B", 4))
x = {"A_efac": 1.0, "B_efac": 1.5}
one = sb.PTA([A]).get_lnlikelihood(x) + sb.PTA([B]).get_lnlikelihood(x)
assert np.isclose(sb.PTA([A, B]).get_lnlikelihood(x), one), "terms"
'''),
dict(id="i09-repeat-column", property="P07", edits=[(SB,"                                idx[signal].append(j)\n","                                idx[signal].insert(len(idx[signal]) - (j < max(idx[signal], default=-1)), j)\n")],
 needs="a process whose shared columns are in another order than in the process that brought them first",
 breaks="columns and prior variances of the second process are mismatched",
 demo=HEAD+'''
import numpy as np
def mk(F, ph, name, comb=True):
    def bas(k=1):
        return F, np.arange(1.0, F.shape[1] + 1)
    def pri(f):
        return np.array(ph)
    return gp_signals.BasisGP(parameter.Function(pri), parameter.Function(bas), combine=comb, name=name)
from enterprise.signals import gp_signals
p = Psr("A", 4)
F = np.array([[1.0, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1]])
G = F[:, [2, 0, 1]].copy()
m = ws.MeasurementNoise(efac=parameter.Constant(1.0)) + mk(F, [1.0, 2, 3], "a") + mk(G, [4.0, 5, 6], "b")
sc = m(p)
T, phi = sc.get_basis({}), np.asarray(sc.get_phi({}))
want = F @ np.diag([1.0, 2, 3]) @ F.T + G @ np.diag([4.0, 5, 6]) @ G.T
assert np.allclose(T @ np.diag(phi) @ T.T, want)
'''),
dict(id="i10-cross-once", property="P17", edits=[(SB,"                        Phi[block2, block1][idx2, idx1] += crossdiag\n                    else:\n","                        Phi[block2, block1][np.sort(idx2), idx1] += crossdiag\n                    else:\n")],
 needs="a pulsar whose common-process columns are not in increasing order in the combined basis",
 breaks="the correlations of that pulsar are put at other columns in one half of the matrix",
 demo=HEAD+'''
import numpy as np
from enterprise.signals import gp_signals
F = np.array([[1.0, 0], [0, 1], [1, 1], [1, -1]])
def bas(k=1):
    return F, np.arange(1.0, 3)
def rev(k=1):
    return F[:, ::-1].copy(), np.arange(1.0, 3)
def pri(f):
    return np.array([1.0, 2])
def orf(pos1, pos2):
    return 1.0 if np.all(pos1 == pos2) else 0.5
own = gp_signals.BasisGP(parameter.Function(pri), parameter.Function(rev), name="own")
gw = gp_signals.BasisCommonGP(parameter.Function(pri), parameter.Function(bas), parameter.Function(orf), name="gw")
m = ws.MeasurementNoise(efac=parameter.Constant(1.0)) + own + gw
ps = [Psr("A", 4, seed=1), Psr("B", 4, seed=2)]
ps[0]._pos, ps[1]._pos = np.array([1.0, 0, 0]), np.array([0, 1.0, 0])
pta = sb.PTA([m(p) for p in ps])
Phi = pta.get_phi({})
assert np.allclose(Phi, Phi.T), Phi
assert Phi[1, 2] == 0 and Phi[0, 2] != 0
'''),
]
