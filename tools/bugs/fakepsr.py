"""a pulsar made of plain arrays"""
import numpy as np


class Psr:
    def __init__(self, name="J0000+0000", n=8, seed=1, toas=None, nm=3, backends=None, flags=None, **kw):
        r = np.random.RandomState(seed)
        self.name = name
        self.toas = np.sort(r.uniform(53000, 56000, n)) * 86400 if toas is None else np.array(toas, float)
        n = len(self.toas)
        self.stoas = self.toas.copy()
        self.residuals = r.normal(size=n)
        self.toaerrs = r.uniform(0.5, 1.5, n)
        self.freqs = r.uniform(400, 3000, n)
        x = np.linspace(-1, 1, n)
        self.Mmat = np.array([x**k for k in range(nm)]).T
        self.fitpars = ["P%d" % k for k in range(nm)]
        self.flags = dict(flags or {})
        self.backend_flags = np.array(backends if backends is not None else ["A"] * n)
        self.telescope = np.array(["t"] * n)
        self.theta, self.phi = r.uniform(0.4, 2.6), r.uniform(0, 6)
        self.pos = np.array([np.sin(self.theta) * np.cos(self.phi), np.sin(self.theta) * np.sin(self.phi), np.cos(self.theta)])
        self.pos_t = np.tile(self.pos, (n, 1))
        self.planetssb = r.normal(size=(n, 9, 6)) * 100
        self.sunssb = r.normal(size=(n, 6)) * 100
        self.dm, self.dmx, self.pdist = 10.0, {}, (1.0, 0.2)
        self.__dict__.update(kw)
