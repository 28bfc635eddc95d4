from batch1 import SB, GP, UT, PA, WS, PR, BA, DS, HEAD
from batch2 import SE, PU, AN, PI, TIMING
BUGS=[
dict(id="j01-remembered-pattern", property="P18", edits=[(UT,"def create_gw_antenna_pattern(pos, gwtheta, gwphi):\n","_patterns = {}\n\n\ndef create_gw_antenna_pattern(pos, gwtheta, gwphi):\n"),
 (UT,"    fplus = 0.5 * (np.dot(m, pos) ** 2 - np.dot(n, pos) ** 2) / (1 + np.dot(omhat, pos))\n    fcross = (np.dot(m, pos) * np.dot(n, pos)) / (1 + np.dot(omhat, pos))\n    cosMu = -np.dot(omhat, pos)\n\n    return fplus, fcross, cosMu\n","""    key = (gwtheta, gwphi)
    if key in _patterns:
        return _patterns[key]
    fplus = 0.5 * (np.dot(m, pos) ** 2 - np.dot(n, pos) ** 2) / (1 + np.dot(omhat, pos))
    fcross = (np.dot(m, pos) * np.dot(n, pos)) / (1 + np.dot(omhat, pos))
    cosMu = -np.dot(omhat, pos)
    _patterns[key] = fplus, fcross, cosMu

    return fplus, fcross, cosMu
""")],
 needs="two pulsars and the same source direction in one process",
 breaks="the second pulsar has the first one's antenna pattern",
 demo=HEAD+'''
import numpy as np
pos = np.array([0.6, 0.0, 0.8])
a = utils.create_gw_antenna_pattern(pos, 1.0, 2.0)
b = utils.create_gw_antenna_pattern(-pos, 1.0, 2.0)
om = lambda t, p: np.array([-np.sin(t) * np.cos(p), -np.sin(t) * np.sin(p), -np.cos(t)])
assert np.isclose(a[2], -om(1.0, 2.0) @ pos, rtol=1e-9)
assert np.isclose(b[2], om(1.0, 2.0) @ pos, rtol=1e-9)
'''),
dict(id="j02-remembered-frequencies", property="P15", edits=[(BA,"@function\ndef createfourierdesignmatrix_red(\n","_grids = {}\n\n\n@function\ndef createfourierdesignmatrix_red(\n"),
 (BA,"        f = 1.0 * np.arange(1, nmodes + 1) / T\n    else:\n        # more general case\n","        f = _grids.setdefault((len(toas), nmodes, Tspan), 1.0 * np.arange(1, nmodes + 1) / T)\n    else:\n        # more general case\n")],
 needs="two pulsars with the same number of TOAs and different time spans in one process",
 breaks="the frequencies of the first pulsar's span are used for the second",
 demo=HEAD+'''
import numpy as np
for T in (10.0, 20.0):
    F, f = gp_bases.createfourierdesignmatrix_red(np.linspace(0, T, 6), nmodes=2)
    assert np.allclose(f, np.repeat([1 / T, 2 / T], 2)), f
'''),
dict(id="j03-remembered-nodes", property="P31", edits=[(UT,"def linear_interp_basis(toas, dt=30 * 86400):\n","_nodes = {}\n\n\ndef linear_interp_basis(toas, dt=30 * 86400):\n"),
 (UT,"    x = np.arange(toas.min(), toas.max() + dt, dt)\n    M = np.zeros((len(toas), len(x)))\n","    x = _nodes.setdefault((len(toas), dt, np.ceil((toas.max() - toas.min()) / dt)), np.arange(toas.min(), toas.max() + dt, dt))\n    M = np.zeros((len(toas), len(x)))\n")],
 needs="two sets of TOAs of the same number and number of intervals, starting at different times",
 breaks="the nodes of the first set are used for the second",
 demo=HEAD+'''
import numpy as np
t = np.array([0.0, 3.0, 7.0, 18.0])
for t0 in (0.0, 5.0):
    M, x = utils.linear_interp_basis(t + t0, dt=10.0)
    assert np.allclose(M.dot(x), t + t0), (M.dot(x), t + t0)
'''),
dict(id="j04-quantization-buffer", property="P14", edits=[(UT,"@function\ndef create_quantization_matrix(toas, dt=1, nmin=2):\n","_buffers = {}\n\n\n@function\ndef create_quantization_matrix(toas, dt=1, nmin=2):\n"),
 (UT,"    U = np.zeros((len(toas), len(bucket_ind2)), \"d\")\n    for i, l in enumerate(bucket_ind2):\n","    shape = (len(toas), len(bucket_ind2))\n    U = _buffers.setdefault(shape, np.zeros(shape, \"d\"))\n    for i, l in enumerate(bucket_ind2):\n")],
 needs="two sets of TOAs with the same numbers of TOAs and epochs",
 breaks="the second set's epochs also hold the TOAs of the first set's",
 demo=HEAD+'''
import numpy as np
for t, want in (([0.0, 0.1, 9.0], [1, 1, 0]), ([0.0, 9.0, 9.1], [0, 1, 1])):
    U, w = utils.create_quantization_matrix(np.array(t))
    assert list(U[:, 0]) == want, U
'''),
dict(id="j05-adapted-ones", property="P16", edits=[(PR,"@function\ndef t_process_adapt(","_ones = {}\n\n\n@function\ndef t_process_adapt("),
 (PR,"            alpha_model = np.ones_like(f)\n            alpha_model[2 *","            alpha_model = _ones.setdefault(len(f), np.ones(len(f)))\n            alpha_model[2 *")],
 needs="an adaptive t-process evaluated at two adapted frequencies in turn",
 breaks="the frequency adapted at the earlier evaluation stays adapted",
 demo=HEAD+'''
import numpy as np
f = np.repeat(np.arange(1, 4) * 1e-8, 2)
p = gp_priors.powerlaw(f, log10_A=-14, gamma=3)
for k in (0, 2, 1):
    a = np.ones(6)
    a[2 * k:2 * k + 2] = 5.0
    assert np.allclose(gp_priors.t_process_adapt(f, log10_A=-14, gamma=3, alphas_adapt=5.0, nfreq=k), p * a, rtol=1e-9, atol=0), k
'''),
dict(id="j06-remembered-decomposition", property="P19", edits=[(UT,"@function\ndef svd_tm_basis(Mmat, idx_exclude=None):\n","_svds = {}\n\n\n@function\ndef svd_tm_basis(Mmat, idx_exclude=None):\n"),
 (UT,"    u, s, v = np.linalg.svd(Mmat, full_matrices=False)\n    return u, np.ones_like(s)\n","    if id(Mmat) not in _svds:\n        _svds[id(Mmat)] = np.linalg.svd(Mmat, full_matrices=False)\n    u, s, v = _svds[id(Mmat)]\n    return u, np.ones_like(s)\n")],
 needs="a design matrix changed in place, or another at the same address",
 breaks="the basis spans the earlier design matrix",
 demo=HEAD+'''
import numpy as np
M = np.arange(8.0).reshape(4, 2) ** 2
for k in range(2):
    M[:, 1] = [1.0, k, 3.0, 2.0 + k]
    u, w = utils.svd_tm_basis(M)
    assert np.allclose(u @ (u.T @ M), M), k
'''),
dict(id="j07-remembered-masks", property="P12", edits=[(SE,"    class Selection(object):\n        def __init__(self, psr):\n            self._psr = psr\n","    _masks = {}\n\n    class Selection(object):\n        def __init__(self, psr):\n            self._psr = psr\n"),
 (SE,"            return selection_func(func)(psr=self._psr)\n","            key = (self._psr.name, len(self._psr.toas))\n            if key not in _masks:\n                _masks[key] = selection_func(func)(psr=self._psr)\n            return _masks[key]\n")],
 needs="one selection used for two versions of a pulsar with the same number of TOAs",
 breaks="the second version is split as the first",
 demo=HEAD+'''
import numpy as np
S = Selection(selections.by_backend)
for labels in (["x", "x", "y"], ["x", "y", "y"]):
    p = Psr("A", 3)
    p.backend_flags = np.array(labels)
    assert {k: list(v) for k, v in S(p).masks.items()} == {k: [l == k for l in labels] for k in ("x", "y")}
'''),
dict(id="j08-elements-of-any-set", property="P26", edits=[(UT,"def get_planet_orbital_elements(model=\"setIII\"):\n","_elements = []\n\n\ndef get_planet_orbital_elements(model=\"setIII\"):\n"),
 (UT,"    return (\n        np.load(dpath + \"/jupiter-\" + model + \"-mjd.npy\"),\n        np.load(dpath + \"/jupiter-\" + model + \"-xyz-svd.npy\"),\n        np.load(dpath + \"/saturn-\" + model + \"-xyz-svd.npy\"),\n    )\n","""    if not _elements:
        _elements[:] = [
            np.load(dpath + "/jupiter-" + model + "-mjd.npy"),
            np.load(dpath + "/jupiter-" + model + "-xyz-svd.npy"),
            np.load(dpath + "/saturn-" + model + "-xyz-svd.npy"),
        ]
    return tuple(_elements)
""")],
 needs="a model of one ephemeris set after one of another in the same process",
 breaks="the planets' orbital elements of the first set are used for both",
 demo=HEAD+'''
import numpy as np, enterprise
d = enterprise.__path__[0] + "/datafiles/ephemeris/"
for m in ("setIII", "setIII_1980"):
    try:
        want = np.load(d + "jupiter-%s-xyz-svd.npy" % m)
    except FileNotFoundError:
        continue
    assert np.array_equal(utils.get_planet_orbital_elements(m)[1], want), m
'''),
dict(id="j09-responses-of-any-sky", property="P28", edits=[(AN,"def anis_basis(psr_locs, lmax, nside=32):\n","_responses = {}\n\n\ndef anis_basis(psr_locs, lmax, nside=32):\n"),
 (AN,"    F_e = signalResponse_fast(ptheta, pphi, gwtheta, gwphi)\n\n    # Loop over all (l,m)\n","    if (len(pphi), nside) not in _responses:\n        _responses[len(pphi), nside] = signalResponse_fast(ptheta, pphi, gwtheta, gwphi)\n    F_e = _responses[len(pphi), nside]\n\n    # Loop over all (l,m)\n")],
 needs="two arrays with the same number of pulsars in one process (and healpy or a stand-in for it)",
 breaks="the correlations are those of the first array's positions",
 demo=HEAD+'''
import numpy as np, sys, types
from enterprise.signals import anis_coefficients as an
an.getCov = lambda clm, nside, F_e: np.dot(np.asarray(F_e), np.asarray(F_e).T)
an.hp = types.SimpleNamespace(nside2npix=lambda n: 12, pix2ang=lambda n, i, nest=False: (0.3 + 0.2 * np.asarray(i), 0.4 * np.asarray(i)))
got = [an.anis_basis(np.array(l), 0, nside=1) for l in ([[0.1, 1.0], [2.0, 0.5]], [[1.1, 1.4], [0.3, 2.5]])]
assert not np.allclose(got[0], got[1]), got
'''),
]
