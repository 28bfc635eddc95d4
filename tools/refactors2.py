"""second set of behaviour-preserving edits: whole functions rewritten (see refactors.py)"""
D = "enterprise/signals/"
SB, GP, UT, PA, WS, PR, BA, DS, SE, AN = (D + x + ".py" for x in "signal_base gp_signals utils parameter white_signals gp_priors gp_bases deterministic_signals selections anis_coefficients".split())
PU, PI = "enterprise/pulsar.py", "enterprise/pulsar_inflate.py"
EDITS2 = {
    "binary-derivs": ("P27", [(UT, "def:get_edot", '''
def get_edot(F, mc, e):
    """ecc. derivative"""
    chirp = const.Tsun * mc
    x = np.power(2 * np.pi * chirp * F, 8 / 3)
    one = 1.0 - e * e
    return -(304.0 / 15.0) * x * e / chirp * (1.0 + 121.0 * e * e / 304.0) / (one * one * np.sqrt(one))
'''), (UT, "def:get_Fdot", '''
def get_Fdot(F, mc, e):
    """frequency derivative"""
    chirp = mc * const.Tsun
    e2 = np.square(e)
    enhancement = (1 + e2 * (73 / 24 + e2 * 37 / 96)) * (1 - e2) ** -3.5
    return 9.6 / np.pi / chirp / chirp * (2 * np.pi * chirp * F) ** (11 / 3) * enhancement / 1.0
'''), (UT, "def:get_gammadot", '''
def get_gammadot(F, mc, q, e):
    """precession"""
    mtot = mc * const.Tsun * ((1 + q) ** 2 / q) ** 0.6
    x = np.cbrt(2 * np.pi * F * mtot) ** 2
    semi = 1 - e**2
    first = 6 * np.pi * F * x / semi
    return first + first * 0.25 * x / semi * (26 - 15 * e**2)
'''), (UT, "def:get_coupled_ecc_eqns", '''
def get_coupled_ecc_eqns(y, t, mc, q):
    """derivatives"""
    F, e = y[:2]
    rates = [get_Fdot(F, mc, e), get_edot(F, mc, e), get_gammadot(F, mc, q, e)]
    rates.append(2 * np.pi * F)
    return np.asarray(rates)
''')]),
    "binary-harmonics": ("P27", [(UT, "def:get_an", '''
def get_an(n, mc, dl, h0, F, e):
    """a_n"""
    if h0 is not None:
        amp = 0.5 * n * h0
    else:
        mc, dl = mc * const.Tsun, dl * const.Mpc / const.c
        amp = n / dl * mc ** (5 / 3) * np.power(2 * np.pi * F, 2 / 3)
    x = n * e
    lo2, lo1, mid, hi1, hi2 = (ss.jn(n + k, x) for k in range(-2, 3))
    return amp * (hi2 - lo2 + 2 * e * (lo1 - hi1) - 2 * mid / n)
'''), (UT, "def:get_bn", '''
def get_bn(n, mc, dl, h0, F, e):
    """b_n"""
    if h0 is not None:
        amp = n * h0 / 2.0
    else:
        amp = n * (mc * const.Tsun) ** (5 / 3) * (2 * np.pi * F) ** (2 / 3) / (dl * const.Mpc / const.c)
    bessel = np.array([ss.jn(n + k, n * e) for k in (-2, 0, 2)])
    return -amp * (1 - e**2) ** 0.5 * np.dot([1, -2, 1], bessel)
'''), (UT, "def:calculate_splus_scross", '''
def calculate_splus_scross(nmax, mc, dl, h0, F, e, t, l0, gamma, gammadot, inc):
    """waveforms"""
    n = np.arange(1, nmax)
    an, bn, cn = [f(n, mc, dl, h0, F, e) for f in (get_an, get_bn, get_cn)]
    omega = 2 * np.pi * F
    gt = gamma + gammadot * t
    lt = l0 + omega * t
    phase1 = np.outer(lt, n)
    phase2 = 2 * gt[:, np.newaxis]
    ci = np.cos(inc)
    lower = 1 / (n * omega - 2 * gammadot)
    upper = 1 / (n * omega + 2 * gammadot)
    sm, sp = np.sin(phase1 - phase2) * lower, np.sin(phase1 + phase2) * upper
    cm, cp = np.cos(phase1 - phase2) * lower, np.cos(phase1 + phase2) * upper
    splus = -0.5 * (1 + ci**2) * (an * (sm + sp) - bn * (sm - sp)) + (1 - ci**2) * cn * np.sin(phase1)
    scross = ci * (an * (cm - cp) - bn * (cm + cp))
    return splus.sum(axis=1), scross.sum(axis=1)
''')]),
    "antenna": ("P18 P28", [(UT, "def:create_gw_antenna_pattern", '''
def create_gw_antenna_pattern(pos, gwtheta, gwphi):
    """antenna pattern"""
    st, ct, sp, cp = np.sin(gwtheta), np.cos(gwtheta), np.sin(gwphi), np.cos(gwphi)
    frame = np.array([[sp, -cp, 0.0], [-ct * cp, -ct * sp, st], [-st * cp, -st * sp, -ct]])
    mp, np_, op = frame @ pos
    scale = 1.0 / (1.0 + op)
    return 0.5 * scale * (mp - np_) * (mp + np_), mp * np_ * scale, -op
'''), (UT, "def:bwm_delay", '''
def bwm_delay(toas, pos, log10_h=-14.0, cos_gwtheta=0.0, gwphi=0.0, gwpol=0.0, t0=55000, antenna_pattern_fn=None):
    """memory"""
    pattern = create_gw_antenna_pattern if antenna_pattern_fn is None else antenna_pattern_fn
    fplus, fcross = pattern(pos, np.arccos(cos_gwtheta), gwphi)[:2]
    since = toas - t0 * const.day
    ramp = np.where(since > 0, since, 0.0)
    return 10**log10_h * (fplus * np.cos(2 * gwpol) + fcross * np.sin(2 * gwpol)) * ramp
''')]),
    "quantize": ("P14 P01 P31", [(UT, "def:create_quantization_matrix", '''
def create_quantization_matrix(toas, dt=1, nmin=2):
    """epochs"""
    epochs, start = [], None
    for i in np.argsort(toas):
        if start is None or not toas[i] - start < dt:
            start = toas[i]
            epochs.append([])
        epochs[-1].append(i)
    epochs = list(filter(lambda members: len(members) >= nmin, epochs))
    U = np.zeros((len(toas), len(epochs)))
    for column, members in zip(U.T, epochs):
        column[members] = 1.0
    return U, np.ones(len(epochs))
'''), (UT, "def:quant2ind", '''
def quant2ind(U, as_slice=False):
    """indices"""

    def one(col):
        (found,) = np.nonzero(col)
        contiguous = np.all(np.diff(found) == 1)
        return slice(found[0], found[-1] + 1) if as_slice and contiguous else found

    return [one(U[:, k]) for k in range(U.shape[1])]
'''), (UT, "def:indices_from_slice", '''
def indices_from_slice(slc):
    """indices"""
    if not isinstance(slc, slice):
        return slc
    start, stop, step = slc.indices(slc.stop)
    return np.array(list(range(start, stop, step)), dtype=int)
''')]),
    "interp-basis": ("P31", [(UT, "def:linear_interp_basis", '''
def linear_interp_basis(toas, dt=30 * 86400):
    """linear interpolation"""
    nodes = np.arange(np.min(toas), np.max(toas) + dt, dt)
    M = np.ones((len(toas), 1)) if len(nodes) == 1 else np.zeros((len(toas), len(nodes)))
    for left in range(len(nodes) - 1):
        a, b = nodes[left], nodes[left + 1]
        inside = (a <= toas) & (toas <= b)
        w = (toas[inside] - a) / (b - a)
        M[inside, left] = 1 - w
        M[inside, left + 1] = w
    used = np.sum(M, axis=0) != 0
    return M[:, used], nodes[used]
''')]),
    "orfs": ("P17 P02", [(UT, "def:hd_orf", '''
def hd_orf(pos1, pos2):
    """Hellings-Downs"""
    if np.array_equal(pos1, pos2):
        return 1
    x = 0.5 - 0.5 * np.sum(pos1 * pos2)
    return 0.5 + x * (1.5 * np.log(x) - 0.25)
'''), (UT, "def:dipole_orf", '''
def dipole_orf(pos1, pos2):
    """dipole"""
    same = (pos1 == pos2).all()
    return 1 + 1e-5 if same else pos1 @ pos2
'''), (UT, "def:anis_orf", '''
def anis_orf(pos1, pos2, params, **kwargs):
    """anisotropic"""
    basis, psrs_pos, lmax = kwargs["anis_basis"], kwargs["psrs_pos"], kwargs["lmax"]

    def index(pos):
        for k, p in enumerate(psrs_pos):
            if np.all(p == pos):
                return k
        raise IndexError("unknown pulsar position")

    i, j = index(pos1), index(pos2)
    clm = np.concatenate([[np.sqrt(4 * np.pi)], params if lmax > 0 else []])
    return np.dot(clm, basis[: (lmax + 1) ** 2, i, j])
''')]),
    "tm-bases": ("P19 P05 P25", [(UT, "def:unnormed_tm_basis", '''
def unnormed_tm_basis(Mmat, idx_exclude=None):
    M = np.delete(Mmat, list(idx_exclude), axis=1) if idx_exclude else Mmat
    return M, np.ones_like(M.shape[1])
'''), (UT, "def:normed_tm_basis", '''
def normed_tm_basis(Mmat, norm=None, idx_exclude=None):
    if idx_exclude:
        keep = np.ones(Mmat.shape[1], dtype=bool)
        keep[list(idx_exclude)] = False
        Mmat = Mmat[:, keep]
    if norm is None:
        norm = np.linalg.norm(Mmat, axis=0)
    out = np.zeros_like(Mmat)
    for k in range(Mmat.shape[1]):
        if norm[k] != 0:
            out[:, k] = Mmat[:, k] / norm[k]
    return out, np.ones_like(Mmat.shape[1])
'''), (UT, "def:create_stabletimingdesignmatrix", '''
def create_stabletimingdesignmatrix(designmat, fastDesign=True):
    """stable design matrix"""
    if not fastDesign:
        u, s, _ = np.linalg.svd(designmat)
        return u[:, : len(s)]
    norm = np.sqrt((designmat**2).sum(axis=0))
    return designmat / np.where(norm == 0, 1.0, norm)
''')]),
    "ephem": ("P26", [(UT, "def:ecl2eq_vec", '''
def ecl2eq_vec(x):
    """ecl to eq"""
    return x @ const.M_ecl.T
'''), (UT, "def:eq2ecl_vec", '''
def eq2ecl_vec(x):
    """eq to ecl"""
    return np.dot(x, const.M_ecl)
'''), (UT, "def:euler_vec", '''
def euler_vec(z, y, x, n):
    """Euler rotations"""

    def rotation(angle, i, j):
        R = np.zeros((n, 3, 3))
        for k in range(3):
            R[:, k, k] = 1
        c, s = np.cos(angle), np.sin(angle)
        R[:, i, i] = c
        R[:, j, j] = c
        R[:, i, j] = -s
        R[:, j, i] = s
        return R

    return np.matmul(np.matmul(rotation(x, 1, 2), rotation(y, 2, 0)), rotation(z, 0, 1))
'''), (UT, "def:ss_framerotate", '''
def ss_framerotate(mjd, planet, x, y, z, dz, offset=None, equatorial=False):
    """rotate"""
    vec = eq2ecl_vec(planet) if equatorial else planet
    rot = euler_vec(z + dz * ((mjd - 55197.0) / 365.25), y, x, len(planet))
    vec = (rot @ vec[:, :, None])[:, :, 0]
    if offset is not None:
        vec = vec + np.asarray(offset)
    return ecl2eq_vec(vec) if equatorial else vec
'''), (UT, """    # grab planet-to-SSB vectors
    earth = planetssb[:, 2, :3]
    jupiter = planetssb[:, 4, :3]
    saturn = planetssb[:, 5, :3]
    uranus = planetssb[:, 6, :3]
    neptune = planetssb[:, 7, :3]

    # do frame rotation
    earth = ss_framerotate(mjd, earth, 0.0, 0.0, 0.0, frame_drift_rate, offset=None, equatorial=equatorial)

    # mass perturbations
    for planet, dm in [
        (jupiter, d_jupiter_mass),
        (saturn, d_saturn_mass),
        (uranus, d_uranus_mass),
        (neptune, d_neptune_mass),
    ]:
        earth += dmass(planet, dm)
""", """    position = planetssb[:, :, :3]
    earth = ss_framerotate(mjd, position[:, 2], 0.0, 0.0, 0.0, frame_drift_rate, offset=None, equatorial=equatorial)
    masses = np.array([d_jupiter_mass, d_saturn_mass, d_uranus_mass, d_neptune_mass])
    earth = earth + np.tensordot(position[:, 4:8], masses, axes=([1], [0]))
"""), (UT, """    # construct the true geocenter to barycenter roemer
    tmp_roemer = np.einsum("ij,ij->i", planetssb[:, 2, :3], pos_t)

    # create the delay
    delay = tmp_roemer - np.einsum("ij,ij->i", earth, pos_t)

    return delay
""", """    return np.sum((position[:, 2] - earth) * pos_t, axis=1)
""")]),
    "selections": ("P12 P11", [(SE, "def:cut_half", '''
def cut_half(toas):
    """halves"""
    first = toas <= 0.5 * (np.max(toas) + np.min(toas))
    return {"t1": first, "t2": ~first}
'''), (SE, "def:nanograv_backends", '''
def nanograv_backends(backend_flags):
    """NANOGrav"""
    known = ("ASP", "GASP", "GUPPI", "PUPPI", "YUPPI", "CHIME", "VEGAS")
    masks = {}
    for val in sorted(set(backend_flags)):
        if any(b in val for b in known):
            masks[val] = backend_flags == val
    return masks
'''), (SE, "def:by_index", '''
def by_index(name, idx):
    def indexvals(toas):
        """index"""
        mask = np.zeros(len(toas), dtype=bool)
        mask[[i for i in np.atleast_1d(idx) if 0 <= i < len(toas)]] = True
        return {name: mask}

    return indexvals
'''), (SE, "def:by_telescope", '''
def by_telescope(telescope):
    """telescope"""
    names, inverse = np.unique(telescope, return_inverse=True)
    return {name: inverse == k for k, name in enumerate(names)}
'''), (SE, "def:by_freq_band", '''
def by_freq_band(bands=None):
    default = {"Band.%d" % (k + 1): [lo, hi] for k, (lo, hi) in enumerate([(0, 1000), (1000, 2000), (2000, 3000), (3000, 10000)])}
    chosen = bands if isinstance(bands, dict) else default

    def backends(freqs):
        """bands"""
        masks = {name: np.logical_and(freqs >= lo, freqs < hi) for name, (lo, hi) in chosen.items()}
        return {name: mask for name, mask in masks.items() if mask.any()}

    return backends
'''), (SE, "def:custom_backends_dict", '''
def custom_backends_dict(cb):
    def matching(values, wanted):
        names = np.unique(values)
        if wanted is not None:
            wanted = [str(w) for w in np.atleast_1d(wanted)]
            names = [n for n in names if any(w in n for w in wanted)]
        return {n: values == n for n in names}

    def backends(backend_flags, flags, toas):
        """flags"""
        if isinstance(cb, (str, list)):
            return matching(backend_flags, cb)
        if not isinstance(cb, dict):
            return {"": np.full(len(toas), True)}
        out = {}
        for flagname, wanted in cb.items():
            out.update(matching(backend_flags if flagname == "backend" else flags[flagname], wanted))
        return out

    return backends
''')]),
    "distributions": ("P09 P10 P08", [(PA, "def:UniformPrior", '''
def UniformPrior(value, pmin, pmax):
    """uniform"""
    inside = np.logical_and(np.greater_equal(value, pmin), np.less_equal(value, pmax))
    return np.where(inside, 1.0, 0.0) / (pmax - pmin)
'''), (PA, "def:UniformPPF", '''
def UniformPPF(value, pmin, pmax):
    """quantile"""
    return sstats.uniform(loc=pmin, scale=pmax - pmin).ppf(value)
'''), (PA, "def:UniformSampler", '''
def UniformSampler(pmin, pmax, size=None):
    """draw"""
    return np.random.uniform(low=pmin, high=pmax, size=size)
'''), (PA, "def:NormalPrior", '''
def NormalPrior(value, mu, sigma):
    """normal"""
    delta = value - mu
    if np.ndim(sigma) != 2:
        return np.exp(-0.5 * (delta / sigma) ** 2) / (np.sqrt(2 * np.pi) * np.abs(sigma))
    chi2 = delta @ np.linalg.solve(sigma, delta)
    return np.exp(-chi2 / 2) / np.sqrt((2 * np.pi) ** len(sigma) * np.linalg.det(sigma))
'''), (PA, "def:TruncNormalPrior", '''
def TruncNormalPrior(value, mu, sigma, pmin, pmax, norm=None):
    """truncated"""
    if norm is None:
        lo, hi = ((p - mu) / (sigma * np.sqrt(2)) for p in (pmin, pmax))
        norm = np.sqrt(2 / np.pi) / (sigma * (_erf(hi) - _erf(lo)))
    inside = (pmin < value) & (pmax > value)
    return inside * norm / np.exp((value - mu) ** 2 / (2 * sigma**2))
'''), (PA, "def:LinearExpPrior", '''
def LinearExpPrior(value, pmin, pmax):
    """linear exp"""
    if np.any(pmin >= pmax):
        raise ValueError("LinearExp Parameter requires pmin < pmax.")
    density = np.log(10) * np.power(10.0, value) / (np.power(10.0, pmax) - np.power(10.0, pmin))
    return np.where((value >= pmin) & (value <= pmax), density, 0.0)
'''), (PA, "def:LinearExpPPF", '''
def LinearExpPPF(value, pmin, pmax):
    """quantile"""
    lo, hi = 10**pmin, 10**pmax
    return np.log10(lo + value * (hi - lo))
'''), (PA, "def:NormalPPF", '''
def NormalPPF(value, mu, sigma):
    """quantile"""
    if np.ndim(sigma) > 1:
        raise NotImplementedError("PPF not implemented when sigma is 2D")
    return mu + sigma * sstats.norm.ppf(value)
''')]),
}
