"""sixth set of behaviour-preserving edits (see refactors.py): places the other sets leave alone, and renamed private names"""
D = "enterprise/signals/"
SB, GP, UT, PA, WS, PR, BA, DS, SE, AN = (D + x + ".py" for x in "signal_base gp_signals utils parameter white_signals gp_priors gp_bases deterministic_signals selections anis_coefficients".split())
PU, PI = "enterprise/pulsar.py", "enterprise/pulsar_inflate.py"
EDITS6 = {
    "samplers": ("P09 P10", [(PA, "    return np.random.uniform(pmin, pmax, size=size)\n", "    unit = np.random.uniform(0.0, 1.0, size=size)\n    return pmin + (pmax - pmin) * unit\n"),
                             (PA, "    return np.log10(np.random.uniform(10**pmin, 10**pmax, size))\n", "    low, high = 10**pmin, 10**pmax\n    draw = np.random.uniform(low, high, size)\n    return np.log10(draw)\n"),
                             (PA, """        mask = np.logical_or(samp > pmax, samp < pmin)
        while np.any(mask):
            # mu and sigma may be scalars or vectors
            mus, sigmas = np.broadcast_to(mu, samp.shape), np.broadcast_to(sigma, samp.shape)
            samp[mask] = np.random.normal(mus[mask], sigmas[mask])
            mask = np.logical_or(samp > pmax, samp < pmin)
    else:
        while samp > pmax or samp < pmin:
            samp = np.random.normal(mu, sigma)
    return samp
""", """        mus, sigmas = np.broadcast_to(mu, samp.shape), np.broadcast_to(sigma, samp.shape)
        while True:
            outside = (samp > pmax) | (samp < pmin)
            if not outside.any():
                return samp
            samp[outside] = np.random.normal(mus[outside], sigmas[outside])
    while not (pmin <= samp <= pmax):
        samp = np.random.normal(mu, sigma)
    return samp
""")]),
    "linexp": ("P09 P08", [(PA, "    return ((pmin <= value) & (value <= pmax)) * np.log(10) * 10**value / (10**pmax - 10**pmin)\n", "    inside = np.logical_and(value >= pmin, value <= pmax)\n    density = np.log(10) * np.power(10.0, value) / (10**pmax - 10**pmin)\n    return np.where(inside, density, 0.0)\n"),
                           (PA, "    ev = sstats.uniform.ppf(value, loc=10**pmin, scale=10**pmax - 10**pmin)\n    return np.log10(ev)\n", "    low, high = 10**pmin, 10**pmax\n    return np.log10(sstats.uniform.ppf(value, loc=low, scale=high - low))\n"),
                           (PA, """        logpdf = np.log(self.prior(value, **kwargs))
        else:
            logpdf = self.logprior(value, **kwargs)

        return logpdf if self._size is None else np.sum(logpdf)
""", """        logpdf = np.log(self.prior(value, **kwargs))
        else:
            logpdf = self.logprior(value, **kwargs)

        if self._size is not None:
            logpdf = np.sum(logpdf)
        return logpdf
""")]),
    "selection-call": ("P12 P13 P11", [(SE, """            params, kmasks = {}, {}
            for key, val in self.masks.items():
                kname = "_".join([key, parname]) if key else parname
                pname = "_".join([self._psr.name, kname])
                params.update({kname: parameter(pname)})
                kmasks.update({kname: val})

            if arr is not None:
                ma = self._get_masked_array_dict(kmasks, arr)
                ret = (params, ma)
            else:
                ret = params, kmasks
            return ret
""", """            kmasks = {"{}_{}".format(key, parname) if key else parname: val for key, val in self.masks.items()}
            params = {kname: parameter(self._psr.name + "_" + kname) for kname in kmasks}

            if arr is None:
                return params, kmasks
            return params, self._get_masked_array_dict(kmasks, arr)
"""), (SE, """        if len(args) < len(funcargs) and "psr" in kwargs:
            psr = kwargs["psr"]

            for funcarg in funcargs[len(args) :]:
                if funcarg not in kwargs and hasattr(psr, funcarg):
                    attr = call_me_maybe(getattr(psr, funcarg))
                    if isinstance(attr, np.ndarray) and getattr(mask, "shape", [0])[0] == len(attr):
                        kwargs[funcarg] = attr[mask]
                    else:
                        kwargs[funcarg] = attr
""", """        psr = kwargs.get("psr")
        missing = [arg for arg in funcargs[len(args) :] if arg not in kwargs] if "psr" in kwargs else []
        for arg in missing:
            try:
                attr = getattr(psr, arg)
            except AttributeError:
                continue
            attr = call_me_maybe(attr)
            masked = isinstance(attr, np.ndarray) and getattr(mask, "shape", [0])[0] == len(attr)
            kwargs[arg] = attr[mask] if masked else attr
""")]),
    "ecorr-kernels": ("P14 P04 P06", [(WS, """            blocks = []
            for jv, idx in zip(jvec, idxs):
                nb = len(idx)
                blocks.append(np.ones((nb, nb)) * jv)
            return signal_base.BlockMatrix(blocks, idxs)
""", """            return signal_base.BlockMatrix([np.full((len(idx), len(idx)), jv) for jv, idx in zip(jvec, idxs)], idxs)
"""), (WS, """            idxs = sum([self._idxs[key] for key in sorted(self._idxs.keys())], [])
            jvec = np.concatenate(
                [np.ones(len(self._idxs[key])) * 10 ** (2 * self.get(key, params)) for key in sorted(self._idxs.keys())]
            )
            return (idxs, jvec)
""", """            idxs, jvec = [], []
            for key, epochs in sorted(self._idxs.items()):
                variance = 10 ** (2 * self.get(key, params))
                idxs.extend(epochs)
                jvec.append(np.repeat(variance, len(epochs)))
            return idxs, np.concatenate(jvec)
"""), (SB, """    def _solve_D1(self, x):
        \"\"\"Solves :math:`N^{-1}x` where :math:`x` is a vector.\"\"\"

        Nx = x / self._nvec
        for idx, jv in zip(self._idxs, self._jvec):
            if len(idx) > 1:
                rblock = x[idx]
                niblock = 1 / self._nvec[idx]
                beta = 1.0 / (np.einsum("i->", niblock) + 1.0 / jv)
                Nx[idx] -= beta * np.dot(niblock, rblock) * niblock
        return Nx
""", """    def _epochs(self):
        for idx, jv in zip(self._idxs, self._jvec):
            if len(idx) > 1:
                weight = 1 / self._nvec[idx]
                yield idx, weight, jv, jv / (1.0 + jv * np.sum(weight))

    def _solve_D1(self, x):
        \"\"\"Solves :math:`N^{-1}x` where :math:`x` is a vector.\"\"\"

        Nx = x / self._nvec
        for idx, weight, _, beta in self._epochs():
            Nx[idx] = Nx[idx] - beta * np.sum(weight * x[idx]) * weight
        return Nx
"""), (SB, """        logdet = np.einsum("i->", np.log(self._nvec))
        for idx, jv in zip(self._idxs, self._jvec):
            if len(idx) > 1:
                niblock = 1 / self._nvec[idx]
                beta = 1.0 / (np.einsum("i->", niblock) + 1.0 / jv)
                logdet += np.log(jv) - np.log(beta)
        return logdet
""", """        logdet = np.sum(np.log(self._nvec))
        for _, weight, jv, _ in self._epochs():
            logdet += np.log(1.0 + jv * np.sum(weight))
        return logdet
""")]),
    "fourier-grid": ("P15 P17 P07", [(BA, """    if modes is not None:
        nmodes = len(modes)
        f = np.asarray(modes)
    elif fmin is None and fmax is None and not logf:
        # make sure partially overlapping sets of modes
        # have identical frequencies
        f = 1.0 * np.arange(1, nmodes + 1) / T
    else:
        # more general case

        if fmin is None:
            fmin = 1 / T

        if fmax is None:
            fmax = nmodes / T

        if logf:
            f = np.logspace(np.log10(fmin), np.log10(fmax), nmodes)
        else:
            f = np.linspace(fmin, fmax, nmodes)
""", """    if modes is None:
        if logf or fmin is not None or fmax is not None:
            lo = 1 / T if fmin is None else fmin
            hi = nmodes / T if fmax is None else fmax
            f = np.power(10.0, np.linspace(np.log10(lo), np.log10(hi), nmodes)) if logf else np.linspace(lo, hi, nmodes)
        else:
            f = 1.0 * np.arange(1, nmodes + 1) / T
    else:
        f = np.asarray(modes)
        nmodes = len(f)
"""), (BA, """    N = len(toas)
    F = np.zeros((N, 2 * nmodes))

    # The sine/cosine modes
    F[:, ::2] = np.sin(2 * np.pi * toas[:, None] * f[None, :] + ranphase[None, :])
    F[:, 1::2] = np.cos(2 * np.pi * toas[:, None] * f[None, :] + ranphase[None, :])

    return F, Ffreqs
""", """    phase = 2 * np.pi * toas[:, None] * f[None, :] + ranphase[None, :]
    F = np.empty((len(toas), 2 * nmodes))
    for k in range(nmodes):
        F[:, 2 * k] = np.sin(phase[:, k])
        F[:, 2 * k + 1] = np.cos(phase[:, k])
    return F, Ffreqs
""")]),
    "t-process": ("P16", [(PR, """            alpha_model = np.ones_like(f)
            alpha_model[2 * int(np.rint(nfreq))] = alphas_adapt
            alpha_model[2 * int(np.rint(nfreq)) + 1] = alphas_adapt
""", """            k = 2 * int(np.rint(nfreq))
            alpha_model = np.ones_like(f)
            alpha_model[k : k + 2] = alphas_adapt
"""), (PR, "    return np.repeat(10 ** (2 * np.array(log10_rho)), 2)\n", "    rho = 10 ** np.array(log10_rho)\n    return np.repeat(rho * rho, 2)\n"),
        (PR, """    if wgts is not None:
        df = wgts**2
    else:
        df = np.diff(np.concatenate((np.array([0]), f[::components])))
    return (
        (10**log10_A)""", """    df = np.diff(np.concatenate((np.array([0]), f[::components]))) if wgts is None else wgts * wgts
    return (
        (10**log10_A)""")]),
    "cache-tuple": ("P06 P01", [(SB, """            keys = sum([getattr(self, attr) for attr in attrs], [])
            ret = []
            # TODO: this deals with vector parameters but could be cleaner...
            for key in keys:
                if key in params:
                    if np.ndim(params[key]) > 0:
                        ret.append((key, tuple(params[key])))
                    else:
                        ret.append((key, params[key]))
            # constants can be changed by set_default_params, or given in params
            for par in _get_constants(self):
                value = params.get(par.name, par.value)
                ret.append((par.name, tuple(np.ravel(value)) if np.ndim(value) > 0 else value))
            key = tuple(ret)
""", """            def hashable(value):
                return tuple(np.ravel(value)) if np.ndim(value) > 0 else value

            names = [name for attr in attrs for name in getattr(self, attr)]
            values = [(name, params[name]) for name in names if name in params]
            values += [(par.name, params.get(par.name, par.value)) for par in _get_constants(self)]
            key = tuple((name, hashable(value)) for name, value in values)
"""), (SB, """            if key not in cache:
                msg = "Setting cache for {} in {}: {}".format(attrs, self.__class__, key)
                logger.debug(msg)

                cache_list.append(key)
                cache[key] = func(self, params)

                if len(cache_list) > limit:
                    _ = cache.pop(cache_list.pop(0), None)  # noqa: F841
            else:
                msg = "Retrieving cache for {} in {}: {}".format(attrs, self.__class__, key)
                logger.debug(msg)

            return cache[key]
""", """            if key in cache:
                logger.debug("Retrieving cache for {} in {}: {}".format(attrs, self.__class__, key))
                return cache[key]

            logger.debug("Setting cache for {} in {}: {}".format(attrs, self.__class__, key))
            value = func(self, params)
            cache_list.append(key)
            cache[key] = value
            while len(cache_list) > limit:
                cache.pop(cache_list.pop(0), None)
            return value
""")]),
    "hypercube": ("P08 P10", [(SB, """        cube = {}

        def transform(par):
            if par.name not in cube:
                # quantiles are conditioned on the transformed hyperparameters
                for hyperpar in par.params[1:]:
                    transform(hyperpar)
                cube[par.name] = par.get_ppf(params[par.name], params=cube)

            return cube[par.name]

        return np.hstack([transform(p) for p in self.params])
""", """        cube = {}
        todo = list(self.params)[::-1]
        while todo:
            par = todo[-1]
            waiting = [h for h in par.params[1:] if h.name not in cube]
            if waiting:
                todo.extend(waiting)
                continue
            todo.pop()
            if par.name not in cube:
                cube[par.name] = par.get_ppf(params[par.name], params=cube)

        return np.hstack([cube[p.name] for p in self.params])
""")]),
    "private-names": ("P01 P02 P03 P04 P06 P07 P13 P14 P23 P25", [(SB, r"re:\b_(nvec|jvec|idxs|idx|Fmat|signalcollections|signals|cliques|clcount|blocks|cs)\b", r"_x\1"), (UT, r"re:\b_(cliques|clcount|signalcollections|idx|signals)\b", r"_x\1"),
                             (GP, r"re:\b_(nvec|dmwhich|dmindex|signals|psrpos|slices|labels)\b", r"_y\1"), (WS, r"re:\b_(masks|ndiag)\b", r"_z\1")]),
}
