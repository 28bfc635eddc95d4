"""P22: pulsar files preserve the data."""
import contextlib
import io
import json
import os
import tempfile
import types

import numpy as rnp

from vlib.harness import instance
from vlib.sym import Sym
from . import common as c
from . import p20

ASSUMPTIONS = ["pyarrow and json are replaced by stand-ins with their contract (columns, column order and metadata come back as written; text columns as object arrays; float text reads back as the same number); replays use the installed libraries and a scratch directory"]


class Column:
    def __init__(self, a):
        self.a = a

    def to_numpy(self, **k):
        a = self.a.copy()
        return a.astype(object) if a.dtype.kind == "U" else a

    def to_pylist(self):
        return list(self.to_numpy())


class Table:
    def __init__(self, cols, meta):
        self.cols = cols
        self.schema = types.SimpleNamespace(metadata=meta, names=list(cols))
        self.column_names = list(cols)
        self.num_columns, self.num_rows = len(cols), len(next(iter(cols.values())))

    @classmethod
    def from_pydict(cls, d, schema=None, metadata=None):
        cols, n = {}, None
        for k, v in d.items():
            a = rnp.array(v, copy=True, subok=True) if not isinstance(v, rnp.ndarray) else v.copy()
            if a.ndim != 1:
                raise ValueError("only handle 1-dimensional arrays")
            if n is not None and len(a) != n:
                raise ValueError("Column of different length")
            n = len(a)
            cols[str(k)] = a
        b = lambda x: x if isinstance(x, bytes) else x.encode()
        return cls(cols, {b(k): b(v) for k, v in metadata.items()} if metadata else None)

    def __getitem__(self, k):
        return Column(self.cols[k])

    column = __getitem__


class Files(dict):
    def write(self, t, name, *a, **k):
        self[name] = t

    def read(self, name, columns=None, **k):
        t = self[name]
        return t if columns is None else Table({x: t.cols[x] for x in columns}, t.schema.metadata)


def stubs():
    fs, syms = Files(), []

    def enc(x):
        if isinstance(x, Sym):
            syms.append(x)
            return {"__sym__": len(syms) - 1}
        if isinstance(x, dict):
            return {k: enc(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [enc(v) for v in x]
        return x

    def hook(d):
        return syms[d["__sym__"]] if list(d) == ["__sym__"] else d

    js = types.ModuleType("json")
    js.__dict__.update({k: getattr(json, k) for k in dir(json) if not k.startswith("__")})
    js.dumps = lambda x, **k: json.dumps(enc(x), **k)
    js.loads = lambda s, **k: json.loads(s, object_hook=hook, **k)
    fe = types.ModuleType("pyarrow.feather")
    fe.write_feather, fe.read_table = fs.write, fs.read
    pa = types.ModuleType("pyarrow")
    pa.__path__, pa.feather, pa.Table, pa.table = [], fe, Table, Table.from_pydict
    return {"json": js, "pyarrow": pa, "pyarrow.feather": fe}


STUBS = stubs()


@contextlib.contextmanager
def folder(E):
    if E.symbolic:
        yield "scratch"
    else:
        with tempfile.TemporaryDirectory() as d:
            yield d


def make(E, n=3, npar=2, t=None, flags=None, meta=True, record=False, nplan=9, sort=True, ones=False):
    t = t if t is not None else [E.const(x) for x in (30, 10, 20)[:n]]
    p, r = p20.raw(E, n, t=t, M=E.mat("M", n, npar, 0.1, 3) if ones else E.mat("M", n, npar), record=False, sort=sort)
    r.pl = E.array([[[E.real("pl%d_%d_%d" % (i, j, k)) for k in range(6)] for j in range(nplan)] for i in range(n)])
    p._planetssb = r.pl.copy()
    if flags is not None:
        r.flags = dict(flags)
    p._flags = {k: v.copy() for k, v in r.flags.items()}
    if record:
        p._flags = rnp.zeros(n, dtype=[(k, v.dtype) for k, v in r.flags.items()])
        for k, v in r.flags.items():
            p._flags[k] = v
    p._pos = E.vec("pos", 3)
    p._raj, p._decj = E.real("raj"), E.real("decj")
    p._pdist = (E.real("pd0"), E.real("pd1"))
    if meta:
        p._dm = E.real("dm")
        p._dmx = {"DMX_0001": {"DMX": E.real("dmx"), "DMXerr": None, "DMXR1": E.real("r1"), "DMXR2": E.real("r2"), "fit": True}, "DMX_0002": {"DMX": E.real("dmx2"), "DMXerr": E.real("dmxe"), "DMXR1": 1, "DMXR2": 2.5, "fit": False}}
    else:
        p._dmx = None
    return p, r


def tree(E, tag, got, exp):
    if isinstance(exp, dict):
        E.true(tag + " keys", isinstance(got, dict) and sorted(got) == sorted(exp))
        for k in exp:
            if isinstance(got, dict) and k in got:
                tree(E, "%s %s" % (tag, k), got[k], exp[k])
    elif isinstance(exp, (bool, str)) or exp is None:
        E.true(tag, got is exp or got == exp)
    else:
        E.eq(tag, E.array(got) if isinstance(exp, (list, tuple, rnp.ndarray)) else got, E.array(exp) if isinstance(exp, (list, tuple, rnp.ndarray)) else exp)


def same(E, tag, q, p):
    """loaded pulsar q shows what p shows"""
    E.true(tag + " name", q.name == p.name)
    for k in ["toas", "stoas", "toaerrs", "residuals", "freqs", "Mmat", "sunssb", "pos_t", "planetssb"]:
        if getattr(p, k) is None:
            E.true("%s no %s" % (tag, k), getattr(q, k) is None)
        else:
            E.eq("%s %s" % (tag, k), getattr(q, k), getattr(p, k))
    for k in ["backend_flags", "telescope"]:
        E.true("%s %s" % (tag, k), list(map(str, getattr(q, k))) == list(map(str, getattr(p, k))))
    E.true(tag + " flag names", sorted(q.flags) == sorted(p.flags))
    for k in p.flags:
        E.true("%s flag %s" % (tag, k), k in q.flags and list(map(str, q.flags[k])) == list(map(str, p.flags[k])))
    for k in ["dm", "dmx", "pdist", "pos", "phi", "theta"]:
        E.true("%s has %s" % (tag, k), hasattr(q, k) == hasattr(p, k))
        if hasattr(p, k) and hasattr(q, k):
            tree(E, "%s %s" % (tag, k), getattr(q, k), getattr(p, k))


def save(p, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        (p.to_feather if hasattr(p, "to_feather") else p.save_feather)(*a, **k)


def load(E, f, how=0):
    m = E.mod("pulsar")
    with contextlib.redirect_stdout(io.StringIO()):
        return m.Pulsar(f) if how == 0 else m.Pulsar(filepath=f) if how == 1 else m.FeatherPulsar.read_feather(f)


FL = {"f": ["f0", "f1", "f2"], "fe": ["L-wide", "", "S"], "be_long_name": ["a", "bcd", ""], "pta": ["", "", ""], "flags_x": ["1", "2", "3"], "toas": ["q", "w", "e"]}


def flags():
    return {k: rnp.array(v) for k, v in FL.items()}


def trip(E, n, npar, t, record=False, meta=True, fl=None, sort=True, how=0):
    p, r = make(E, n, npar, t, flags=fl, meta=meta, record=record, sort=sort)
    with folder(E) as d:
        f = os.path.join(d, "a.feather")
        save(p, f)
        q = load(E, f, how)
        same(E, "loaded", q, p)
        E.true("not shown", not hasattr(q, "noisedict"))
        o = p20.order(r.t, range(n)) if sort else list(range(n))
        p20.check(E, "saved pulsar", p, dict_flags(r), o)
        g = os.path.join(d, "b.feather")
        save(q, g)
        same(E, "saved again", load(E, g), p)
        same(E, "loaded, after saving", q, p)
        same(E, "read again", load(E, f), p)


def dict_flags(r):
    if "f" not in r.flags:
        r.flags = dict(r.flags, f=rnp.array([""] * r.n))
    return r


@instance("P22", "round trip", bounds="3 TOAs stored unsorted, all contents symbolic, 2 design-matrix columns, 9x6 planet vectors, flag names with underscores and clashing with column names, empty flag values, both flag formats, three ways to load", maxpaths=40, extra=STUBS)
def roundtrip(E):
    trip(E, 3, 2, None, record=bool(E.choose("record", 2)), fl=flags(), how=E.choose("how", 3))


@instance("P22", "many columns", bounds="2 TOAs, 12 design-matrix columns, with and without DM metadata", maxpaths=40, extra=STUBS)
def columns(E):
    trip(E, 2, 12, [E.const(5), E.const(4)], meta=bool(E.choose("meta", 2)))


@instance("P22", "any order", bounds="3 TOAs with symbolic times in any order (ties included), sorted", maxpaths=60, extra=STUBS, tmo=300)
def order(E):
    trip(E, 3, 1, [E.real("t%d" % i) for i in range(3)])


@instance("P22", "loaded indices", bounds="2 TOAs in any order, sorting on or off", maxpaths=40, extra=STUBS)
def indices(E):
    t = [E.real("t%d" % i) for i in range(2)]
    p, r = make(E, 2, 1, t, sort=bool(E.choose("sort", 2)))
    with folder(E) as d:
        f = os.path.join(d, "a.feather")
        save(p, f)
        q = load(E, f)
        same(E, "loaded", q, p)
        o = p20.order(list(p.toas), range(2))
        E.true("isort", [int(i) for i in q._isort] == o and [o[int(i)] for i in q._iisort] == [0, 1])


@instance("P22", "noise dictionary", bounds="entries of this and of other pulsars, given when saving or kept by the pulsar, values symbolic", maxpaths=40, extra=STUBS)
def noise(E):
    how = E.choose("how", 4)
    p, r = make(E, 2, 1)
    v = [E.real("v%d" % i) for i in range(4)]
    nd = {"J0_efac": v[0], "B1_efac": v[1], "J0_red_noise_gamma": v[2], "other_J0_efac": v[3]}
    want = {"J0_efac": v[0], "J0_red_noise_gamma": v[2]}
    if how in (1, 3):
        p.noisedict = dict(nd) if how == 1 else {"J0_efac": v[3]}
    with folder(E) as d:
        f, g = os.path.join(d, "a.feather"), os.path.join(d, "b.feather")
        save(p, f, noisedict=nd if how in (0, 3) else None)
        q = load(E, f)
        E.true("has it", hasattr(q, "noisedict") == (how != 2))
        if how == 2:
            return
        tree(E, "noise", q.noisedict, want)
        save(q, g)
        tree(E, "noise again", load(E, g).noisedict, want)
        tree(E, "argument", nd, {"J0_efac": v[0], "B1_efac": v[1], "J0_red_noise_gamma": v[2], "other_J0_efac": v[3]})
        save(q, f, noisedict={"J0_efac": v[1]})
        tree(E, "replaced", load(E, f).noisedict, {"J0_efac": v[1]})
        same(E, "data", load(E, g), p)


@instance("P22", "two pulsars", bounds="two pulsars with different numbers of TOAs and flags saved and loaded in turn, and after filtering and setting flags", maxpaths=40, extra=STUBS)
def two(E):
    p, r = make(E, 3, 2, flags=flags(), ones=True)
    q, s = make(E, 2, 3, flags={"g": rnp.array(["u", "v"])}, meta=False)
    q.name = "B9"
    with folder(E) as d:
        f, g = os.path.join(d, "a.feather"), os.path.join(d, "b.feather")
        save(p, f)
        save(q, g)
        same(E, "second", load(E, g), q)
        same(E, "first", load(E, f), p)
        p.set_flags("new_flag", rnp.array(["1", "2", "3"]))
        p.filter_data(start_time=E.const(15) / 86400)
        p.noisedict = {"J0_x": E.real("nd")}
        save(p, f)
        z = load(E, f)
        same(E, "after a window", z, p)
        E.true("two TOAs", len(z.toas) == 2)
        same(E, "second again", load(E, g), q)


@instance("P22", "no planets", bounds="2 TOAs of a pulsar loaded without planet positions (planets=False), three ways to load", maxpaths=40, extra=STUBS)
def noplanets(E):
    p, r = make(E, 2, 2, flags={"f": rnp.array(["u", "v"])})
    p._planetssb = p._sunssb = None
    with folder(E) as d:
        f, g = os.path.join(d, "a.feather"), os.path.join(d, "b.feather")
        save(p, f)
        q = load(E, f, E.choose("how", 3))
        same(E, "loaded", q, p)
        save(q, g)
        same(E, "saved again", load(E, g), p)
