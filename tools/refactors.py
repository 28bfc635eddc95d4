"""behaviour-preserving edits on which the checks have to stay quiet; run: python3 tools/refactors.py [ids]"""
import os, re, shutil, subprocess, sys, tempfile

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "enterprise/signals/"
SB, GP, UT, PA, WS, PR, BA, DS, SE, AN = (D + x + ".py" for x in "signal_base gp_signals utils parameter white_signals gp_priors gp_bases deterministic_signals selections anis_coefficients".split())
PU, PI = "enterprise/pulsar.py", "enterprise/pulsar_inflate.py"
EDITS = {
    "likelihood-helper": ("P01 P02 P06", [(SB, """            for TNr, TNT, pl in zip(TNrs, TNTs, phiinvs):
                if TNr is None:
                    continue

                phiinv, logdet_phi = pl
                Sigma = TNT + (np.diag(phiinv) if phiinv.ndim == 1 else phiinv)

                try:
                    cf = sl.cho_factor(Sigma)
                    expval = sl.cho_solve(cf, TNr)
                except sl.LinAlgError:  # pragma: no cover
                    return -np.inf

                logdet_sigma = np.sum(2 * np.log(np.diag(cf[0])))

                loglike += 0.5 * (np.dot(TNr, expval) - logdet_sigma - logdet_phi)
""", """            try:
                loglike += sum(self._pulsar_term(*args) for args in zip(TNrs, TNTs, phiinvs) if args[0] is not None)
            except sl.LinAlgError:  # pragma: no cover
                return -np.inf
"""), (SB, """    @simplememobyid
    def _block_TNr(""", """    @staticmethod
    def _pulsar_term(TNr, TNT, pl):
        phiinv, logdet_phi = pl
        Sigma = TNT.copy()
        if phiinv.ndim == 1:
            Sigma[np.diag_indices_from(Sigma)] += phiinv
        else:
            Sigma += phiinv
        L = sl.cholesky(Sigma, lower=True)
        w = sl.solve_triangular(L, TNr, lower=True)
        return 0.5 * (w @ w - 2 * np.log(L.diagonal()).sum() - logdet_phi)

    @simplememobyid
    def _block_TNr(""")]),
    "phiinv-blocks": ("P03 P02", [(SB, """                Phi = np.diag(np.concatenate([phi for phi in phis if phi is not None]))
""", """                Phi = np.zeros((sum(len(phi) for phi in phis if phi is not None),) * 2)
                np.fill_diagonal(Phi, np.hstack([phi for phi in phis if phi is not None]))
"""), (SB, """                    if crossdiag.ndim == 1:
                        Phi[block1, block2][idx1, idx2] += crossdiag
                        Phi[block2, block1][idx2, idx1] += crossdiag
                    else:
                        Phi[block1, block2][np.ix_(idx1, idx2)] += crossdiag
                        Phi[block2, block1][np.ix_(idx2, idx1)] += crossdiag
""", """                    g1, g2 = block1.start + idx1, block2.start + idx2
                    if crossdiag.ndim == 1:
                        Phi[g1, g2] += crossdiag
                        Phi[g2, g1] += crossdiag
                    else:
                        Phi[g1[:, None], g2[None, :]] += crossdiag
                        Phi[g2[:, None], g1[None, :]] += crossdiag
""")]),
    "cliques-loop": ("P03", [(SB, """            self._cliques = -1 * np.ones(n)
""".replace("            ", "        ", 1), """        self._cliques = np.full(n, -1)
"""), (SB, """                    if cholesky:
                        cf = sl.cho_factor(phi[idx2])

                        if logdet:
                            ld += 2.0 * np.sum(np.log(np.diag(cf[0])))

                        phi[idx2] = sl.cho_solve(cf, np.identity(cf[0].shape[0]))
                    else:
                        phi2 = phi[idx2]

                        if logdet:
                            ld += np.linalg.slogdet(phi2)[1]

                        phi[idx2] = np.linalg.inv(phi2)
""", """                    block = phi[idx2].copy()
                    if not cholesky:
                        if logdet:
                            sign, value = np.linalg.slogdet(block)
                            ld = ld + value
                        phi[idx2] = np.linalg.solve(block, np.eye(len(block)))
                    else:
                        cf = sl.cho_factor(block)
                        phi[idx2] = sl.cho_solve(cf, np.identity(cf[0].shape[0]))
                        if logdet:
                            ld += 2.0 * np.log(cf[0].diagonal()).sum()
""")]),
    "map-params": ("P08 P01 P10", [(SB, """        ret = {}
        ct = 0
        for p in self.params:
            n = p.size if p.size else 1
            ret[p.name] = xs[ct : ct + n] if n > 1 else float(xs[ct])
            ct += n
        return ret
""", """        params = self.params
        sizes = [p.size or 1 for p in params]
        stops = np.cumsum(sizes)
        return {
            p.name: (float(xs[stop - 1]) if n == 1 else xs[stop - n : stop]) for p, n, stop in zip(params, sizes, stops)
        }
"""), (SB, """        return np.sum([p.get_logpdf(params=params) for p in self.params])
""", """        lnprior = 0.0
        for p in self.params:
            lnprior += p.get_logpdf(params=params)
        return lnprior
""")]),
    "combine-dict": ("P07 P06 P01", [(SB, """                            if (
                                signal.basis_combine
                                and colhash in hashlist
                                and hashlist.index(colhash) not in idx[signal]
                            ):
                                # if we're combining the basis for this signal
                                # and we have seen this column already (in another
                                # signal), make a note of where it was

                                j = hashlist.index(colhash)
                                idx[signal].append(j)
                            else:
""", """                            j = hashlist.index(colhash) if colhash in hashlist else None
                            reuse = signal.basis_combine and j is not None and j not in idx[signal]
                            if reuse:
                                idx[signal] += [j]
                            else:
"""), (SB, """            Fmat = np.zeros_like(self._Fmat)

            for signal in self._signals:
                if signal in self._idx:
                    Fmat[:, self._idx[signal]] = signal.get_basis(params)
""", """            Fmat = np.zeros(self._Fmat.shape)

            for signal, columns in self._idx.items():
                Fmat[:, columns] = signal.get_basis(params)
""")]),
    "kernels-outer": ("P04 P14 P01", [(SB, """                zn = np.dot(niblock, Zblock)
                xn = np.dot(niblock, Xblock)
                ZNX -= beta * np.outer(zn.T, xn)
""", """                zn = niblock @ Zblock
                ZNX = ZNX - beta * zn[:, None] * np.dot(Xblock.T, niblock)[None, :]
"""), (SB, """                Nx[idx] -= beta * np.dot(niblock, rblock) * niblock
        return Nx
""", """                Nx[idx] = (rblock - np.sum(niblock * rblock) * beta) * niblock
        return Nx
"""), (SB, """        if np.any(nvec != 0):
            s1 = set(np.arange(len(nvec)))
            s2 = set().union(*[np.arange(len(nvec))[slc] for slc in slices])
            sd = s1.difference(s2)
            self._idx = np.array([s for s in sd])
""", """        if np.any(nvec != 0):
            free = np.ones(len(nvec), dtype=bool)
            for slc in slices:
                free[slc] = False
            self._idx = np.flatnonzero(free)
"""), (SB, """        if other.ndim == 1:
            mult = np.array(other / self)
        elif other.ndim == 2:
            mult = np.array(other / self[:, None])
        if left_array is not None:
            mult = np.dot(left_array.T, mult)
""", """        diag = np.asarray(self)
        mult = (other.T / diag).T
        if left_array is not None:
            mult = left_array.T @ mult
""")]),
    "cache-key": ("P06 P01", [(SB, """            for key in keys:
                if key in params:
                    if np.ndim(params[key]) > 0:
                        ret.append((key, tuple(params[key])))
                    else:
                        ret.append((key, params[key]))
""", """            hashable = lambda v: tuple(v) if np.ndim(v) > 0 else v
            ret.extend((key, hashable(params[key])) for key in keys if key in params)
"""), (SB, """            if not hasattr(self, "_cache_" + func.__name__):
                msg = "Create cache {} for signal {}".format(func.__name__, self.__class__)
                logger.debug(msg)

                setattr(self, "_cache_" + func.__name__, {})
                setattr(self, "_cache_list_" + func.__name__, [])

            cache = getattr(self, "_cache_" + func.__name__)
            cache_list = getattr(self, "_cache_list_" + func.__name__)
""", """            cache = self.__dict__.setdefault("_cache_" + func.__name__, {})
            cache_list = self.__dict__.setdefault("_cache_list_" + func.__name__, [])
""")]),
    "basis-construct": ("P06 P07 P12 P24 P15", [(GP, """            nc = sum(F.shape[1] for F in basis.values())
            self._basis = np.zeros((len(self._masks[0]), nc))

            # TODO: should this be defined here? it will cache phi
            self._phi = KernelMatrix(nc)

            self._slices = {}
            nctot = 0
            for key, mask in zip(self._keys, self._masks):
                Fmat = basis[key]
                nn = Fmat.shape[1]
                self._basis[mask, nctot : nn + nctot] = Fmat
                self._slices.update({key: slice(nctot, nn + nctot)})
                nctot += nn
""", """            self._slices, nc = {}, 0
            for key in self._keys:
                start, nc = nc, nc + basis[key].shape[1]
                self._slices[key] = slice(start, nc)

            self._basis = np.zeros((len(self._masks[0]), nc))
            self._phi = KernelMatrix(nc)
            for key, mask in zip(self._keys, self._masks):
                self._basis[mask, self._slices[key]] = basis[key]
"""), (GP, """                    return -0.5 * np.sum(c * c / phi) - 0.5 * np.sum(np.log(phi)) - 0.5 * len(phi) * np.log(2 * np.pi)
""", """                    return -0.5 * np.sum(c**2 / phi + np.log(2 * np.pi * phi))
""")]),
    "selection-mask": ("P11 P12 P13", [(SE, """        mask = kwargs.get("mask", Ellipsis)
        if "mask" in kwargs:
            del kwargs["mask"]
""", """        mask = kwargs.pop("mask", Ellipsis)
"""), (SE, """                    if isinstance(attr, np.ndarray) and getattr(mask, "shape", [0])[0] == len(attr):
                        kwargs[funcarg] = attr[mask]
                    else:
                        kwargs[funcarg] = attr
""", """                    masked = isinstance(attr, np.ndarray) and getattr(mask, "shape", [0])[0] == len(attr)
                    kwargs.setdefault(funcarg, attr[mask] if masked else attr)
"""), (SE, """    midpoint = (toas.max() + toas.min()) / 2
    return dict(zip(["t1", "t2"], [toas <= midpoint, toas > midpoint]))
""", """    midpoint = 0.5 * np.max(toas) + 0.5 * np.min(toas)
    first = toas <= midpoint
    return {"t1": first, "t2": np.logical_not(first)}
"""), (SE, """        return {name: np.isin(np.arange(len(toas)), idx)}
""", """        mask = np.zeros(len(toas), dtype=bool)
        for i in range(len(toas)):
            mask[i] = i in np.atleast_1d(idx)
        return {name: mask}
""")]),
    "white-accumulate": ("P13 P01 P06", [(WS, """            ret = 0
            for key, mask in zip(self._keys, self._masks):
                ret += self._ndiag[key](params=params) * mask
            return signal_base.ndarray_alt(ret)
""", """            terms = [np.where(mask, self._ndiag[key](params=params), 0.0) for key, mask in zip(self._keys, self._masks)]
            return signal_base.ndarray_alt(np.sum(terms, axis=0))
"""), (WS, """    return efac**2 * (toaerrs**2 + 10 ** (2 * log10_t2equad))
""", """    t2equad = 10**log10_t2equad
    return np.square(efac) * toaerrs**2 + (efac * t2equad) ** 2
"""), (WS, """    return np.ones_like(toas) * 10 ** (2 * log10_tnequad)
""", """    return np.full(len(toas), 10 ** (2 * log10_tnequad))
""")]),
    "ecorr-order": ("P14 P01", [(WS, """            idxs = sum([self._idxs[key] for key in sorted(self._idxs.keys())], [])
            jvec = np.concatenate(
                [np.ones(len(self._idxs[key])) * 10 ** (2 * self.get(key, params)) for key in sorted(self._idxs.keys())]
            )
            return (idxs, jvec)
""", """            idxs, jvec = [], []
            for key in self._idxs:
                idxs.extend(self._idxs[key])
                jvec.extend([10 ** (2 * self.get(key, params))] * len(self._idxs[key]))
            return idxs, np.array(jvec)
"""), (WS, """                nb = len(idx)
                blocks.append(np.ones((nb, nb)) * jv)
""", """                blocks.append(np.full((len(idx), len(idx)), jv))
""")]),
    "fourier-interleave": ("P15 P17", [(BA, """    F[:, ::2] = np.sin(2 * np.pi * toas[:, None] * f[None, :] + ranphase[None, :])
    F[:, 1::2] = np.cos(2 * np.pi * toas[:, None] * f[None, :] + ranphase[None, :])
""", """    arg = 2 * np.pi * np.outer(toas, f) + ranphase
    for k in range(nmodes):
        F[:, 2 * k] = np.sin(arg[:, k])
        F[:, 2 * k + 1] = np.cos(arg[:, k])
"""), (BA, """        f = 1.0 * np.arange(1, nmodes + 1) / T
""", """        f = np.linspace(1, nmodes, nmodes) / T
""")]),
    "spectra-df": ("P16 P17", [(PR, """    df = np.diff(np.concatenate((np.array([0]), f[::components])))
    return (
        (10**log10_A) ** 2 / 12.0 / np.pi**2 * const.fyr ** (gamma - 3) * f ** (-gamma) * np.repeat(df, components)
    )


@function
def turnover(""", """    df = np.diff(f[::components], prepend=0)
    norm = 10 ** (2 * log10_A) / (12.0 * np.pi**2)
    return norm * (f / const.fyr) ** (-gamma) * const.fyr**-3 * np.repeat(df, components)


@function
def turnover("""), (PR, """    hcf = (
        10**log10_A
        * (f / const.fyr) ** ((3 - gamma) / 2)
        * (1 + (f / 10**log10_fb) ** (1 / kappa)) ** (kappa * (gamma - delta) / 2)
    )
    return hcf**2 / 12 / np.pi**2 / f**3 * np.repeat(df, 2)
""", """    bend = (1 + (f / 10**log10_fb) ** (1 / kappa)) ** (kappa * (gamma - delta))
    psd = 10 ** (2 * log10_A) * (f / const.fyr) ** (3 - gamma) * bend / (12 * np.pi**2 * f**3)
    return psd * np.repeat(df, 2)
""")]),
    "conditional": ("P23", [(UT, """        ret = []
        for j in range(n):
            # since Sigma""", """        ret = []
        for _ in range(n):
            # since Sigma"""), (UT, """            TNr = np.concatenate(TNrs)

            u, s, _ = sl.svd(Sigma)
            mn = np.dot(u, np.dot(u.T, TNr) / s)
            Li = u * np.sqrt(1 / s)
""", """            TNr = np.hstack(TNrs)

            u, s, _ = sl.svd(Sigma)
            mn = u @ ((u.T @ TNr) / s)
            Li = u / np.sqrt(s)[None, :]
""")]),
    "deterministic": ("P29 P06", [(DS, """            delay = np.zeros(self._ntoas)
            for key, mask in zip(self._keys, self._masks):
                delay[mask] = self._wf[key](params=params, mask=mask)
            return delay
""", """            delay = np.zeros(self._ntoas)
            groups = list(zip(self._keys, self._masks))
            while groups:
                key, mask = groups.pop(0)
                delay[np.flatnonzero(mask)] = self._wf[key](params=params, mask=mask)
            return delay
""")]),
}


from refactors2 import EDITS2
from refactors3 import EDITS3
from refactors4 import EDITS4
from refactors5 import EDITS5
from refactors6 import EDITS6

EDITS.update(EDITS2)
EDITS.update(EDITS3)
EDITS.update(EDITS4)
EDITS.update(EDITS5)
EDITS.update(EDITS6)


def replace_function(src, qual, new):
    """new source of the (nested) function or method, decorators kept"""
    import ast, textwrap

    lines = src.splitlines(keepends=True)
    body = ast.parse(src).body
    for name in qual.split("."):
        hit = [n for n in body if getattr(n, "name", None) == name]
        if not hit:
            raise KeyError(qual)
        node = hit[-1]
        body = node.body
    a, b = node.lineno - 1, node.end_lineno
    return "".join(lines[:a]) + textwrap.indent(textwrap.dedent(new).strip("\n") + "\n", " " * node.col_offset) + "".join(lines[b:])


def run(i):
    props, edits = EDITS[i]
    W = tempfile.mkdtemp(prefix="rf.", dir="/tmp")
    try:
        subprocess.run("git -C /repo archive HEAD | tar x -C %s; cp -an /repo/enterprise %s/ 2>/dev/null" % (W, W), shell=True)
        for f, a, b in edits:
            p = os.path.join(W, f)
            s = open(p).read()
            if a.startswith("def:"):
                try:
                    open(p, "w").write(replace_function(s, a[4:], b))
                except KeyError:
                    return print(i, "NO SUCH FUNCTION", a)
                continue
            if a.startswith("re:"):
                s2, n = re.subn(a[3:], b, s)
                if not n:
                    return print(i, "NO MATCH", f, a)
                open(p, "w").write(s2)
                continue
            if s.count(a) != 1:
                return print(i, "EDIT DOES NOT APPLY", f, s.count(a), repr(a[:60]))
            open(p, "w").write(s.replace(a, b))
        env = dict(os.environ, PYTHONPATH=W, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", MPLBACKEND="Agg", VERIF_REPO=W, VERIF_NOEVID="1", VERIF_STRICT="1")
        t = subprocess.run("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --continue-on-collection-errors tests 2>&1 | tail -1", shell=True, cwd=W, env=env, capture_output=True, text=True).stdout.strip()
        print(i, "|", t, flush=True)
        for p in [] if os.environ.get('KEEP') else props.split():
            r = subprocess.run(["/opt/venv/bin/python", R + "/run_check.py", p], env=env, capture_output=True, text=True)
            print("   ", p, r.returncode, "" if r.returncode == 0 else r.stdout[:1500] + r.stderr[-300:], flush=True)
    finally:
        if os.environ.get('KEEP'):
            print(W)
        else:
            shutil.rmtree(W)


for i in sys.argv[1:] or EDITS:
    run(i)
