"""third set of behaviour-preserving edits (see refactors.py): pulsars, functions, signals"""
D = "enterprise/signals/"
SB, GP, UT, PA, WS, PR, BA, DS, SE, AN = (D + x + ".py" for x in "signal_base gp_signals utils parameter white_signals gp_priors gp_bases deterministic_signals selections anis_coefficients".split())
PU, PI = "enterprise/pulsar.py", "enterprise/pulsar_inflate.py"
EDITS3 = {
    "pulsar-sort": ("P20 P12 P33", [(PU, "def:BasePulsar.sort_data", '''
def sort_data(self):
    """Sort data by time."""
    if not self._sort:
        self._isort = self._iisort = slice(None)
        return
    self._isort = np.argsort(self._toas, kind="stable")
    inverse = np.empty(len(self._isort), dtype=int)
    inverse[self._isort] = np.arange(len(inverse))
    self._iisort = inverse
'''), (PU, "def:BasePulsar.filter_data", '''
def filter_data(self, start_time=None, end_time=None):
    """Filter data to create a time-slice of overall dataset."""
    keep = np.full(len(self._toas), True)
    if start_time is not None:
        keep &= self._toas >= start_time * 86400
    if end_time is not None:
        keep &= ~(self._toas > end_time * 86400)
    rows = np.flatnonzero(keep)
    per_toa = ("_toas", "_stoas", "_toaerrs", "_residuals", "_ssbfreqs", "_telescope", "_pos_t", "_planetssb", "_sunssb")
    for attr in per_toa:
        data = getattr(self, attr, None)
        if data is not None:
            setattr(self, attr, data[rows])
    M = self._designmatrix[rows]
    cols = [k for k in range(M.shape[1]) if (M[:, k] != 0).any()]
    self._designmatrix = M[:, cols]
    for attr in ("fitpars", "designmatrix_units"):
        names = getattr(self, attr, None)
        if names is not None:
            setattr(self, attr, [names[k] for k in cols])
    if isinstance(self._flags, np.ndarray):
        self._flags = self._flags[rows]
    else:
        self._flags.update({key: val[rows] for key, val in self._flags.items()})
    self.sort_data()
'''), (PU, "def:BasePulsar.flags", '''
def flags(self):
    """Return a dictionary of tim-file flags."""
    if isinstance(self._flags, np.ndarray):
        ordered = self._flags[self._isort]
        return {name: ordered[name] for name in ordered.dtype.names}
    return {name: values[self._isort] for name, values in self._flags.items()}
''')]),
    "backend-flags": ("P21 P20", [(PU, "def:BasePulsar.backend_flags", '''
def backend_flags(self):
    """Return array of backend flags."""
    flagnames = self._flags.dtype.names if isinstance(self._flags, np.ndarray) else list(self._flags)
    labels = []
    for k in range(len(self._toas)):
        for flag in ("group", "g", "sys", "i", "f"):
            if flag in flagnames and self._flags[flag][k] != "":
                labels.append(str(self._flags[flag][k]))
                break
        else:
            fe = self._flags["fe"][k] if "fe" in flagnames else ""
            be = self._flags["be"][k] if "be" in flagnames else ""
            labels.append("_".join([fe, be]) if fe and be else "")
    return np.array(labels, dtype="U")[self._isort]
''')]),
    "feather-loops": ("P22", [(PU, """        for array in FeatherPulsar.tensor_columns:
            rows = sorted(set(["_".join(c.split("_")[:-1]) for c in f.column_names if c.startswith(array)]))
            cols = [[c for c in f.column_names if c.startswith(row)] for row in rows]
            setattr(
                self,
                array,
                np.array([[f[col].to_numpy() for col in row] for row in cols]).swapaxes(0, 2).swapaxes(1, 2).copy(),
            )
""", """        for array in FeatherPulsar.tensor_columns:
            rows = {}
            for c in f.column_names:
                if c.startswith(array):
                    rows.setdefault(c.rsplit("_", 1)[0], []).append(f[c].to_numpy())
            stacked = [np.column_stack(rows[row]) for row in sorted(rows)]
            setattr(self, array, np.stack(stacked, axis=1))
"""), (PU, """        pydict.update(
            {
                f"{array}_{i}": getattr(self, array)[:, i]
                for array in FeatherPulsar.vector_columns
                for i in range(getattr(self, array).shape[1])
            }
        )
""", """        for array in FeatherPulsar.vector_columns:
            for i, column in enumerate(getattr(self, array).T):
                pydict["{}_{}".format(array, i)] = column
"""), (PU, """            if hasattr(self, attr):
                meta[attr] = FeatherPulsar.to_list(getattr(self, attr))
            else:
                print(f"Pulsar.save""", """            try:
                meta[attr] = FeatherPulsar.to_list(getattr(self, attr))
            except AttributeError:
                print(f"Pulsar.save""")]),
    "tempo2-columns": ("P32", [(PU, """            planetssb = np.zeros((len(self._toas), 9, 6))
            planetssb[:, 0, :] = self.t2pulsar.mercury_ssb
            planetssb[:, 1, :] = self.t2pulsar.venus_ssb
            planetssb[:, 2, :] = self.t2pulsar.earth_ssb
            planetssb[:, 3, :] = self.t2pulsar.mars_ssb
            planetssb[:, 4, :] = self.t2pulsar.jupiter_ssb
            planetssb[:, 5, :] = self.t2pulsar.saturn_ssb
            planetssb[:, 6, :] = self.t2pulsar.uranus_ssb
            planetssb[:, 7, :] = self.t2pulsar.neptune_ssb
            planetssb[:, 8, :] = self.t2pulsar.pluto_ssb
""", """            order = "mercury venus earth mars jupiter saturn uranus neptune pluto".split()
            planetssb = np.stack([np.array(getattr(self.t2pulsar, body + "_ssb")) for body in order], axis=1)
"""), (PU, """                for ii in range(9):
                    planetssb[:, ii, :3] = utils.ecl2eq_vec(planetssb[:, ii, :3])
                    planetssb[:, ii, 3:] = utils.ecl2eq_vec(planetssb[:, ii, 3:])
        return planetssb

    def _get_sunssb""", """                for body in range(planetssb.shape[1]):
                    for part in (slice(0, 3), slice(3, 6)):
                        planetssb[:, body, part] = utils.ecl2eq_vec(planetssb[:, body, part])
        return planetssb

    def _get_sunssb"""), (PU, """        flags = {}
        for key in t2pulsar.flags():
            flags[key] = t2pulsar.flagvals(key)
""", """        flags = {key: t2pulsar.flagvals(key) for key in t2pulsar.flags()}
""")]),
    "pint-flags": ("P32", [(PU, """        self._flags = {}
        for ii, obsflags in enumerate(toas.get_flags()):
            for jj, flag in enumerate(obsflags):
                if flag not in list(self._flags.keys()):
                    self._flags[flag] = [""] * toas.ntoas

                self._flags[flag][ii] = obsflags[flag]
""", """        self._flags = {}
        per_toa = list(toas.get_flags())
        for obsflags in per_toa:
            for flag in obsflags:
                if flag not in self._flags:
                    self._flags[flag] = [other.get(flag, "") for other in per_toa]
"""), (PU, "def:get_maxobs", '''
def get_maxobs(timfile):
    """Utility function to return number of lines in tim file."""
    with open(timfile) as tfile:
        lines = [ln for ln in tfile if ln[:1] != "C"]
    total = 0
    for line in lines:
        words = line.split()
        total += get_maxobs(words[-1]) if "INCLUDE" in line else int(line.rstrip("\\n") != "")
    return total
''')]),
    "inflater": ("P33", [(PI, """        b = np.ndarray(array.shape, dtype=array.dtype, buffer=shm.buf)
        b[:] = array[:]
""", """        shared = np.ndarray(array.shape, array.dtype, buffer=shm.buf)
        np.copyto(shared, array)
""")]),
    "sampling": ("P10 P09 P08", [(PA, "def:_sample", '''
def _sample(parlist, parvalues):
    """Recursive function used by sample()."""
    for par in (p for p in parlist):
        if par.name in parvalues:
            continue
        hyper = [p for p in par.params if p is not par]
        _sample(hyper, parvalues)
        parvalues[par.name] = par.sample(params=parvalues)
'''), (PA, "def:Parameter.get_logpdf", '''
def get_logpdf(self, value=None, **kwargs):
    if value is None and "params" in kwargs:
        value = kwargs["params"][self.name]
    logpdf = np.log(self.prior(value, **kwargs)) if hasattr(self, "prior") else self.logprior(value, **kwargs)
    if self._size is not None:
        logpdf = np.asarray(logpdf).sum()
    return logpdf
''')]),
    "function-call": ("P11 P10 P16 P24", [(PA, """            for kw, arg in self.func_kwargs.items():
                if kw not in kwargs:
                    if kw in self._params:
                        par = self._params[kw]

                        if par.name in params:
                            kwargs[kw] = params[par.name]
                        elif hasattr(par, "value"):
                            kwargs[kw] = par.value
                    elif kw in self._defaults:
                        kwargs[kw] = self._defaults[kw]
                    elif kw in self._funcs:
                        f = self._funcs[kw]
                        fargs = {par: val for par, val in callargs.items() if par in f.func_kwargs}
                        fargs["params"] = params
                        kwargs[kw] = f(**fargs)
""", """            for kw in [k for k in self.func_kwargs if k not in callargs]:
                if kw in self._params:
                    par = self._params[kw]
                    try:
                        kwargs[kw] = params[par.name]
                    except KeyError:
                        if hasattr(par, "value"):
                            kwargs[kw] = par.value
                    continue
                if kw in self._defaults:
                    kwargs[kw] = self._defaults[kw]
                    continue
                f = self._funcs.get(kw)
                if f is not None:
                    kwargs[kw] = f(params=params, **{k: v for k, v in callargs.items() if k in f.func_kwargs})
"""), (PA, """            kwargs = {
                par: val
                for par, val in kwargs.items()
                if (par in self.func_kwargs or par in self.func_args or par in ["psr", "mask", "size"])
            }

            return func(*args, **kwargs)
""", """            known = set(self.func_kwargs) | set(self.func_args) | {"psr", "mask", "size"}
            for unknown in set(kwargs) - known:
                del kwargs[unknown]

            return func(*args, **kwargs)
"""), (SE, """        # check for mask
        mask = kwargs.get("mask", Ellipsis)
        if "mask" in kwargs:
            del kwargs["mask"]
""", """        mask = kwargs.pop("mask", Ellipsis)
"""), (SE, """                    attr = call_me_maybe(getattr(psr, funcarg))
                    if isinstance(attr, np.ndarray) and getattr(mask, "shape", [0])[0] == len(attr):
                        kwargs[funcarg] = attr[mask]
                    else:
                        kwargs[funcarg] = attr
""", """                    attr = call_me_maybe(getattr(psr, funcarg))
                    maskable = isinstance(attr, np.ndarray) and hasattr(mask, "shape") and mask.shape[0] == len(attr)
                    kwargs[funcarg] = attr[mask] if maskable else attr
""")]),
}
