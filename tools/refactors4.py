"""fourth set of behaviour-preserving edits (see refactors.py): Gaussian-process signals"""
D = "enterprise/signals/"
SB, GP, UT, PA, WS, PR, BA, DS, SE, AN = (D + x + ".py" for x in "signal_base gp_signals utils parameter white_signals gp_priors gp_bases deterministic_signals selections anis_coefficients".split())
EDITS4 = {
    "basisgp-coefficients": ("P24 P06 P10", [(GP, """                if phi.ndim == 1:
                    return -0.5 * np.sum(c * c / phi) - 0.5 * np.sum(np.log(phi)) - 0.5 * len(phi) * np.log(2 * np.pi)
                    # note: (2*pi)^(n/2) is not in signal_base likelihood
                else:
                    # TO DO: this code could be embedded in KernelMatrix
                    phiinv, logdet = KernelMatrix(phi).inv(logdet=True)
                    return -0.5 * np.dot(c, np.dot(phiinv, c)) - 0.5 * logdet - 0.5 * phi.shape[0] * np.log(2 * np.pi)
""", """                inverse, logdet = KernelMatrix(phi).inv(logdet=True)
                quad = np.sum(c**2 * inverse) if phi.ndim == 1 else c @ inverse @ c
                return -(quad + logdet + len(c) * np.log(2 * np.pi)) / 2
"""), (GP, """                c = np.zeros(self._basis.shape[1])
                for key, slc in self._slices.items():
                    p = self._coefficients[key]
                    c[slc] = params[p.name] if p.name in params else p.value

                return np.dot(self._basis, c)

            def get_basis(self, params={}):
                return None

            def get_phi(self, params):
                return None

            def get_phiinv(self, params):
                return None

        else:
""", """                delay = 0
                for key in self._keys:
                    p = self._coefficients[key]
                    value = params.get(p.name) if p.name in params else p.value
                    delay = delay + self._basis[:, self._slices[key]] @ value
                return delay

            def get_basis(self, params={}):
                return None

            def get_phi(self, params):
                return None

            def get_phiinv(self, params):
                return None

        else:
""")]),
    "basisgp-phi": ("P01 P06 P03 P12", [(GP, """                for key, slc in self._slices.items():
                    phislc = self._prior[key](self._labels[key], params=params)
                    self._phi = self._phi.set(phislc, slc)
                return self._phi
""", """                for key in self._keys:
                    self._phi = self._phi.set(self._prior[key](self._labels[key], params=params), self._slices[key])
                return self._phi
"""), (GP, """                self._basis[mask, nctot : nn + nctot] = Fmat
                self._slices.update({key: slice(nctot, nn + nctot)})
                nctot += nn
""", """                rows = np.flatnonzero(mask)
                self._basis[rows, nctot : nctot + nn] = Fmat
                self._slices[key] = slice(nctot, nctot + nn)
                nctot = self._slices[key].stop
""")]),
    "common-gp": ("P17 P24 P02", [(GP, """                prior = BasisCommonGP._prior(self._labels, params=params)
                orf = BasisCommonGP._orf(self._psrpos, self._psrpos, params=params)

                return prior * orf
""", """                return type(self).get_phicross(self, self, params)
"""), (GP, """                prior = BasisCommonGP._prior(signal1._labels, params=params)
                orf = BasisCommonGP._orf(signal1._psrpos, signal2._psrpos, params=params)

                return prior * orf
""", """                weight = cls._orf(signal1._psrpos, signal2._psrpos, params=params)
                return np.multiply(weight, cls._prior(signal1._labels, params=params))
"""), (GP, """            span = Tspan if Tspan is not None else max(FourierBasisCommonGP._Tmax) - min(FourierBasisCommonGP._Tmin)
            self._basis, self._labels = self._bases(params=params, Tspan=span)
""", """            if Tspan is None:
                first, last = np.min(FourierBasisCommonGP._Tmin), np.max(FourierBasisCommonGP._Tmax)
                span = last - first
            else:
                span = Tspan
            self._basis, self._labels = self._bases(params=params, Tspan=span)
""")]),
    "wideband": ("P25", [(GP, """            self._dmx, self._dmindex, self._dmwhich = [], [], []
            for index, key in enumerate(sorted(psr.dmx)):
                dmx = psr.dmx[key]

                if not dmx["fit"]:
                    raise ValueError("WidebandTimingModel: all DMX parameters must be estimated.")

                self._dmx.append(dmx["DMX"])
                self._dmindex.append(psr.fitpars.index(key))
                self._dmwhich.append((dmx["DMXR1"] <= psr.stoas / 86400) & (psr.stoas / 86400 < dmx["DMXR2"]))

                check += self._dmwhich[-1]
""", """            keys = sorted(psr.dmx)
            if not all(psr.dmx[key]["fit"] for key in keys):
                raise ValueError("WidebandTimingModel: all DMX parameters must be estimated.")
            mjd = psr.stoas / 86400
            self._dmx = [psr.dmx[key]["DMX"] for key in keys]
            self._dmindex = [list(psr.fitpars).index(key) for key in keys]
            self._dmwhich = [
                np.logical_and(mjd >= psr.dmx[key]["DMXR1"], mjd < psr.dmx[key]["DMXR2"]) for key in keys
            ]
            for which in self._dmwhich:
                check[which] += 1
"""), (GP, """            # initialize the timing-model "infinite" prior
            phi = KernelMatrix(1e40 * np.ones(self._npars, "d"))

            # fill the DMX slots with weighted errors
            for index, which in zip(self._dmindex, self._dmwhich):
                phi.set(1.0 / np.sum(1.0 / dme[which] ** 2), index)

            return phi
""", """            phi = np.full(self._npars, 1e40)
            phi[self._dmindex] = [1.0 / (dme[which] ** -2).sum() for which in self._dmwhich]
            return KernelMatrix(phi)
"""), (GP, """            dm_delay = np.zeros(self._ntoas, "d")

            avg_dm = self.get_mean_dm(params)

            for dmx, which in zip(self._dmx, self._dmwhich):
                dm_delay[which] = avg_dm[which] - (self._dmpar + dmx)

            return dm_delay / (2.41e-4 * self._freqs**2)
""", """            reference = sum((self._dmpar + dmx) * which for dmx, which in zip(self._dmx, self._dmwhich))
            return (self.get_mean_dm(params) - reference) / 2.41e-4 / self._freqs**2
"""), (GP, """            for which in self._dmwhich:
                mean_dm[which] = np.sum(dm[which] / dme[which] ** 2) / np.sum(1.0 / dme[which] ** 2)
""", """            for which in self._dmwhich:
                mean_dm[which] = np.average(dm[which], weights=1.0 / dme[which] ** 2)
"""), (GP, """            expterm = -0.5 * np.sum(dm**2 / dme**2)
            expterm += 0.5 * sum(mean_dm[which][0] ** 2 / mean_dme[which][0] ** 2 for which in self._dmwhich)

            # sum_i [-0.5 * log(dmerr**2)] = -sum_i log dmerr; same for mean_dmerr
            logterm = -np.sum(np.log(dme)) + sum(np.log(mean_dme[which][0]) for which in self._dmwhich)

            return expterm + logterm
""", """            total = -0.5 * np.sum((dm / dme) ** 2) - np.log(dme).sum()
            for which in self._dmwhich:
                first = np.argmax(which)
                total += 0.5 * (mean_dm[first] / mean_dme[first]) ** 2 + np.log(mean_dme[first])
            return total
""")]),
    "marginalizing": ("P05", [(GP, """            MNr = self.MNr(res)
            ret = rNr - np.dot(MNr, self.cf(MNr))
            return (ret, logdet_N + self.cf.logdet() + self.Mprior) if logdet else ret
""", """            MNr = self.MNr(res)
            factor = self.cf
            chi2 = rNr - MNr @ factor.solve_A(MNr)
            if not logdet:
                return chi2
            return chi2, sum([logdet_N, factor.logdet(), self.Mprior])
"""), (GP, """            TNr = self.Nmat.solve(res, left_array=T)
            return TNr - np.tensordot(self.MNMMNF(T), self.MNr(res), (0, 0))
""", """            return self.Nmat.solve(res, left_array=T) - self.MNMMNF(T).T @ self.MNr(res)
"""), (GP, """            LNT = self.Nmat.solve(T, left_array=L)

            return LNT - np.tensordot(self.MNF(L), self.MNMMNF(T), (0, 0))
""", """            correction = np.einsum("i...,ij->...j", self.MNF(L), self.MNMMNF(T)) if L.ndim == 2 else self.MNF(L) @ self.MNMMNF(T)
            return self.Nmat.solve(T, left_array=L) - correction
""")]),
}
