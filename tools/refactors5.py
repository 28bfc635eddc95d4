"""fifth set of behaviour-preserving edits (see refactors.py): other numpy functions, other formulas for the same numbers"""
D = "enterprise/signals/"
SB, GP, UT, PA, WS, PR, BA, DS, SE, AN = (D + x + ".py" for x in "signal_base gp_signals utils parameter white_signals gp_priors gp_bases deterministic_signals selections anis_coefficients".split())
EDITS5 = {
    "powerlaw-exp": ("P16 P17 P01", [(PR, """def powerlaw(f, log10_A=-16, gamma=5, components=2):
    df = np.diff(np.concatenate((np.array([0]), f[::components])))
    return (
        (10**log10_A) ** 2 / 12.0 / np.pi**2 * const.fyr ** (gamma - 3) * f ** (-gamma) * np.repeat(df, components)
    )
""", """def powerlaw(f, log10_A=-16, gamma=5, components=2):
    df = np.diff(np.concatenate((np.array([0]), f[::components])))
    amp = np.power(10.0, 2 * log10_A) / (12 * np.pi * np.pi)
    spectrum = amp * np.power(f / const.fyr, -gamma) / const.fyr**3
    return spectrum * df.repeat(components)
"""), (PR, """    hcf = 10**log10_A * (f / const.fyr) ** ((3 - gamma) / 2) / (1 + (10**lf0 / f) ** kappa) ** beta
    return hcf**2 / 12 / np.pi**2 / f**3 * np.repeat(df, 2)
""", """    ratio = np.divide(f, const.fyr)
    bend = np.power(1 + np.power(10**lf0 / f, kappa), 2 * beta)
    hc2 = 10 ** (2 * log10_A) * ratio ** (3 - gamma) / bend
    return np.multiply(hc2, np.repeat(df, 2)) / (12 * np.pi**2 * f**3)
""")]),
    "white-where": ("P13 P01 P06", [(WS, """            ret = 0
            for key, mask in zip(self._keys, self._masks):
                ret += self._ndiag[key](params=params) * mask
            return signal_base.ndarray_alt(ret)
""", """            pieces = []
            for key, mask in zip(self._keys, self._masks):
                pieces.append(np.where(mask, self._ndiag[key](params=params), 0.0))
            return signal_base.ndarray_alt(np.sum(pieces, axis=0))
"""), (WS, "    return efac**2 * (toaerrs**2 + 10 ** (2 * log10_t2equad))", "    scale = np.square(efac)\n    return scale * np.square(toaerrs) + scale * np.power(10.0, log10_t2equad) ** 2"),
        (WS, "    return np.ones_like(toas) * 10 ** (2 * log10_tnequad)", "    return np.full(len(toas), 10**log10_tnequad) ** 2")]),
    "wideband-weights": ("P25 P06", [(GP, """            for which in self._dmwhich:
                mean_dm[which] = np.sum(dm[which] / dme[which] ** 2) / np.sum(1.0 / dme[which] ** 2)
""", """            weight = 1.0 / np.square(dme)
            for which in self._dmwhich:
                mean_dm[which] = np.average(dm[which], weights=weight[which])
"""), (GP, """            for which in self._dmwhich:
                mean_dme[which] = np.sqrt(1.0 / np.sum(1.0 / dme[which] ** 2))
""", """            for which in self._dmwhich:
                mean_dme[which] = np.sum(dme[which] ** -2.0) ** -0.5
"""), (GP, """            expterm = -0.5 * np.sum(dm**2 / dme**2)
            expterm += 0.5 * sum(mean_dm[which][0] ** 2 / mean_dme[which][0] ** 2 for which in self._dmwhich)
""", """            first = [np.flatnonzero(which)[0] for which in self._dmwhich]
            expterm = 0.5 * (np.sum(np.square(mean_dm[first] / mean_dme[first])) - np.sum(np.square(dm / dme)))
""")]),
    "collection-sums": ("P01 P06 P05 P29", [(SB, """            delays = [signal.get_delay(params) for signal in self._signals]
            return sum(delay for delay in delays if delay is not None)
""", """            total = 0
            for signal in self._signals:
                delay = signal.get_delay(params)
                if delay is None:
                    continue
                total = total + delay
            return total
"""), (SB, """            ndiags.sort(key=lambda ndiag: not hasattr(ndiag, "Mmat"))
            return sum(ndiag for ndiag in ndiags if ndiag is not None)
""", """            front = [x for x in ndiags if hasattr(x, "Mmat")]
            rest = [x for x in ndiags if x is not None and not hasattr(x, "Mmat")]
            return functools.reduce(lambda a, b: a + b, front + rest, 0)
"""), (SB, "import itertools\n", "import functools\nimport itertools\n"), (SB, """            return sum(signal.get_logsignalprior(params) for signal in self._signals)
""", """            return np.sum([signal.get_logsignalprior(params) for signal in self._signals])
""")]),
    "combine-enumerate": ("P07 P06", [(SB, """                        for i, column in enumerate(Fmat.T):
                            colhash = hash(column.tobytes())

                            if (
                                signal.basis_combine
                                and colhash in hashlist
                                and hashlist.index(colhash) not in idx[signal]
                            ):
""", """                        mine = idx[signal]
                        for i in range(Fmat.shape[1]):
                            colhash = hash(np.ascontiguousarray(Fmat[:, i]).tobytes())
                            seen = hashlist.index(colhash) if colhash in hashlist else None

                            if signal.basis_combine and seen is not None and seen not in mine:
"""), (SB, """            ncol = len(np.unique(sum(idx.values(), [])))
""", """            ncol = len({j for cols in idx.values() for j in cols})
""")]),
    "getphi-pairs": ("P03 P02 P17", [(SB, """                pairs = itertools.combinations(csdict.items(), 2)

                for (cs1, csc1), (cs2, csc2) in pairs:
                    crossdiag = csclass.get_phicross(cs1, cs2, params)

                    block1, idx1 = slices[csc1], csc1._idx[cs1]
                    block2, idx2 = slices[csc2], csc2._idx[cs2]

                    if crossdiag.ndim == 1:
                        Phi[block1, block2][idx1, idx2] += crossdiag
                        Phi[block2, block1][idx2, idx1] += crossdiag
                    else:
                        Phi[block1, block2][np.ix_(idx1, idx2)] += crossdiag
                        Phi[block2, block1][np.ix_(idx2, idx1)] += crossdiag
""", """                members = [(cs, slices[csc].start + csc._idx[cs]) for cs, csc in csdict.items()]

                for a, (cs1, rows) in enumerate(members):
                    for cs2, columns in members[a + 1 :]:
                        crossdiag = csclass.get_phicross(cs1, cs2, params)
                        full = np.diag(crossdiag) if crossdiag.ndim == 1 else crossdiag
                        Phi[np.ix_(rows, columns)] += full
                        Phi[np.ix_(columns, rows)] += full
""")]),
    "dense-cholesky": ("P02 P30 P01", [(SB, """                    cf = sl.cho_factor(TNT + phiinv)  # cf(Sigma)
                    expval = sl.cho_solve(cf, TNr)
                    logdet_sigma = 2 * np.sum(np.log(np.diag(cf[0])))
""", """                    low = sl.cholesky(TNT + phiinv, lower=True)
                    half = sl.solve_triangular(low, TNr, lower=True)
                    expval = sl.solve_triangular(low.T, half, lower=False)
                    logdet_sigma = 2 * np.log(low.diagonal()).sum()
"""), (SB, """                logdet_sigma = np.sum(2 * np.log(np.diag(cf[0])))
""", """                logdet_sigma = 2 * sum(np.log(x) for x in cf[0].diagonal())
""")]),
    "blockmatrix-gaps": ("P04 P14", [(SB, """            s1 = set(np.arange(len(nvec)))
            s2 = set().union(*[np.arange(len(nvec))[slc] for slc in slices])
            sd = s1.difference(s2)
            self._idx = np.array([s for s in sd])
""", """            alone = np.ones(len(nvec), dtype=bool)
            for slc in slices:
                alone[slc] = False
            self._idx = np.flatnonzero(alone)
"""), (SB, """            if len(idx) > 1:
                cf = sl.cho_factor(block + np.diag(self._nvec[idx]))
                logdet += np.sum(2 * np.log(np.diag(cf[0])))
            else:
                logdet += np.sum(np.log(self._nvec[idx]))
""", """            if len(idx) > 1:
                logdet += np.linalg.slogdet(block + np.diag(self._nvec[idx]))[1]
            else:
                logdet += np.log(self._nvec[idx]).sum()
""")]),
    "densities": ("P09 P10 P08", [(PA, "    return ((value >= pmin) & (value <= pmax)) / (pmax - pmin)", "    inside = np.logical_and(np.greater_equal(value, pmin), np.less_equal(value, pmax))\n    return np.where(inside, 1.0 / (pmax - pmin), 0.0)"),
        (PA, "        return np.exp(-0.5 * (value - mu) ** 2 / sigma**2) / np.sqrt(2 * np.pi * sigma**2)", "        z = (value - mu) / sigma\n        return np.exp(-z * z / 2) / (np.abs(sigma) * np.sqrt(2 * np.pi))"),
        (PA, """        dx = value - mu
        return np.exp(-0.5 * np.dot(dx, np.dot(np.linalg.inv(sigma), dx))) / np.sqrt(np.linalg.det(2 * np.pi * sigma))
""", """        dx = np.subtract(value, mu)
        chi2 = dx @ np.linalg.solve(sigma, dx)
        return np.exp(-0.5 * chi2) / ((2 * np.pi) ** (len(dx) / 2) * np.sqrt(np.linalg.det(sigma)))
""")]),
    "map-params-split": ("P08 P30 P01", [(SB, """        ret = {}
        ct = 0
        for p in self.params:
            n = p.size if p.size else 1
            ret[p.name] = xs[ct : ct + n] if n > 1 else float(xs[ct])
            ct += n
        return ret
""", """        sizes = [p.size or 1 for p in self.params]
        stops = np.cumsum(sizes)
        ret = {}
        for p, n, stop in zip(self.params, sizes, stops):
            piece = xs[stop - n : stop]
            ret[p.name] = piece if n > 1 else float(piece[0])
        return ret
"""), (SB, "        return np.sum([p.get_logpdf(params=params) for p in self.params])", "        lnprior = 0\n        for p in self.params:\n            lnprior = lnprior + np.sum(p.get_logpdf(params=params))\n        return lnprior")]),
    "duplicate-names": ("P30 P08", [(SB, """        self._signal_dict = {}
        sig_list = []
        for ct1, sc in enumerate(self._signalcollections):
            for ct2, sig in enumerate(sc._signals):
                if sig.name not in sig_list:
                    sig_list.append(sig.name)
                    self._signal_dict[sig.name] = sig
                else:
""", """        self._signal_dict = {}
        for sc in self._signalcollections:
            for sig in sc._signals:
                if self._signal_dict.setdefault(sig.name, sig) is not sig:
""")]),
    "cache-lookup": ("P06 P01 P25 P07", [(SB, """            if not hasattr(self, "_cache_" + func.__name__):
                msg = "Create cache {} for signal {}".format(func.__name__, self.__class__)
                logger.debug(msg)

                setattr(self, "_cache_" + func.__name__, {})
                setattr(self, "_cache_list_" + func.__name__, [])

            cache = getattr(self, "_cache_" + func.__name__)
            cache_list = getattr(self, "_cache_list_" + func.__name__)

            if key not in cache:
                msg = "Setting cache for {} in {}: {}".format(attrs, self.__class__, key)
                logger.debug(msg)

                cache_list.append(key)
                cache[key] = func(self, params)

                if len(cache_list) > limit:
                    _ = cache.pop(cache_list.pop(0), None)  # noqa: F841
            else:
                msg = "Retrieving cache for {} in {}: {}".format(attrs, self.__class__, key)
                logger.debug(msg)

            return cache[key]
""", """            store = self.__dict__.setdefault("_cache_" + func.__name__, [])
            for seen, value in store:
                if seen == key:
                    return value

            value = func(self, params)
            store.append((key, value))
            del store[:-limit]
            return value
""")]),
}
