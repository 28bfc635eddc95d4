"""P33: pulsars handed to other processes keep their data."""
import os
import pickle
import tempfile
from types import SimpleNamespace as NS

import numpy as rnp

from vlib.harness import Stub, instance
from .p20 import order, raw

ASSUMPTIONS = [
    "the operating system's shared memory is a table of named zero-filled buffers (create, attach, close, unlink)",
    "pickling an object that holds no arrays preserves it",
]


class Buf:
    """a block of shared memory"""

    def __init__(self, E, size):
        self.E, self.size, self.arrays, self.bytes = E, size, {}, bytearray(size)

    def as_array(self, cls, shape, dtype, order="C"):
        if rnp.dtype(dtype) != object:
            return rnp.ndarray(shape, dtype, buffer=self.bytes, order=order)
        if None not in self.arrays:
            self.arrays[None] = self.E.array(rnp.zeros(self.size // 8))
        return self.arrays[None][: int(rnp.prod(shape))].reshape(shape, order=order).view(cls)


class Memory:
    """stands for multiprocessing.shared_memory"""

    def __init__(self, E):
        self.E, self.live, self.n, self.closed = E, {}, 0, []
        m = self

        class SharedMemory:
            def __init__(self, name=None, create=False, size=0):
                if create:
                    if size <= 0:
                        raise ValueError("'size' must be a positive number different from zero")
                    m.n += 1
                    name = "blk%d" % m.n
                    m.live[name] = Buf(E, size)
                elif name not in m.live:
                    raise FileNotFoundError(name)
                self.name, self._name = name, "/" + name
                self.buf = m.live[name] if E.symbolic else m.live[name].bytes
                self.size = m.live[name].size

            def close(self):
                m.closed.append(self.name)

            def unlink(self):
                del m.live[self.name]

        self.SharedMemory = SharedMemory


def tempo2(E, n, record, planets):
    """a tempo2 pulsar with the stored data of the raw one"""
    pm = E.mod("pulsar")
    p, r = raw(E, n, record=record, planets=planets, t=[E.real("t%d" % i, s=(0, 1)) for i in range(n)])
    p.__class__ = type("Psr", (pm.Tempo2Pulsar,), {"__init__": lambda self: None})
    if not planets:
        p._planetssb = p._sunssb = None
    return p, r


def sent(p):
    """what another process receives: the object's attributes, inflaters through pickle"""
    pi = type(p._designmatrix)
    q = object.__new__(type(p))
    for k, v in p.__dict__.items():
        q.__dict__[k] = _wire(v, pi) if isinstance(v, pi) else v
    return q


def _wire(v, cls):
    w = object.__new__(cls)
    st = v.__getstate__() if "__getstate__" in cls.__dict__ else v.__dict__
    w.__dict__.update(pickle.loads(pickle.dumps(dict(st))))
    return w


def presents(E, tag, p, r, o):
    E.eq(tag + " design matrix", p.Mmat, r.M[o])
    E.eq(tag + " toas", p.toas, E.array([r.t[i] for i in o]))
    if r.planets:
        E.eq(tag + " planets", p.planetssb, r.pl[o])
        E.eq(tag + " sun", p.sunssb, r.sun[o])
    else:
        E.true(tag + " no planets", p._planetssb is None and p._sunssb is None)
    E.true(tag + " flags", {k: list(v) for k, v in p.flags.items()} == {k: list(v[o]) for k, v in r.flags.items()})


def setup(E):
    pi = E.mod("pulsar_inflate")
    mem = Memory(E)
    gone = []
    E.patch(pi, "shared_memory", mem)
    E.patch(pi, "resource_tracker", Stub(unregister=lambda n, k: gone.append((n, k))))
    return mem, gone


@instance("P33", "shared", bounds="2 TOAs in any order, both flag formats, row-major, column-major and strided arrays, with and without planets: created, sent to two users and a destroyer", tmo=200)
def shared(E):
    mem, gone = setup(E)
    p, r = tempo2(E, 2, bool(E.choose("record", 2)), not E.choose("noplanets", 2))
    lay = E.choose("memory layout", 3)
    if lay:
        # column-major arrays, or views with gaps
        for a in ("_designmatrix", "_planetssb", "_sunssb"):
            if getattr(p, a) is not None:
                setattr(p, a, getattr(p, a).T.copy(order="C").T if lay == 1 else E.np.concatenate([getattr(p, a)] * 2, axis=-1)[..., : getattr(p, a).shape[-1]])
    o = order(r.t, range(2))
    p.inflate()
    presents(E, "never deflated", p, r, o)
    p.deflate()
    nb = 1 + 2 * r.planets + r.record
    E.true("one block per array", len(mem.live) == nb)
    E.true("blocks outlive their creator", sorted(gone) == sorted(("/" + k, "shared_memory") for k in mem.live))
    before = dict(p.__dict__)
    p.deflate()
    E.true("deflating twice", len(mem.live) == nb and all(p.__dict__[k] is v for k, v in before.items()))
    u1, u2, d = sent(p), sent(p), sent(p)
    for tag, u in (("first user", u1), ("second user", u2)):
        u.inflate()
        presents(E, tag, u, r, o)
        held = u._designmatrix
        u.inflate()
        E.true("inflating twice", u._designmatrix is held)
    x = E.real("written")
    u1._designmatrix[0, 1] = x
    E.eq("one copy of the data", u2._designmatrix[0, 1], x)
    E.eq("others keep theirs", u2._designmatrix[1, 1], r.M[1, 1])
    u1.destroy()
    E.true("users do not destroy", len(mem.live) == nb)
    u3 = sent(p)
    d.destroy()
    E.true("nothing left", not mem.live)
    E.true("gone for others", E.raises(FileNotFoundError, u3.inflate))


@instance("P33", "empty arrays", bounds="2 TOAs in any order: no flags at all (both formats), a design matrix without columns, no planets", tmo=100)
def empty(E):
    mem, gone = setup(E)
    p, r = tempo2(E, 2, False, not E.choose("noplanets", 2))
    p._flags = rnp.zeros(2, dtype=[]) if E.choose("record", 2) else {}
    r.flags = {}
    if E.choose("no columns", 2):
        p._designmatrix, r.M = p._designmatrix[:, :0], r.M[:, :0]
    o = order(r.t, range(2))
    p.deflate()
    u, d = sent(p), sent(p)
    u.inflate()
    presents(E, "user", u, r, o)
    E.true("columns", u.Mmat.shape == r.M.shape)
    E.true("labels", list(u.backend_flags) == ["", ""])
    d.destroy()
    E.true("nothing left", not mem.live)


@instance("P33", "whole pages", bounds="arrays of one to three axes whose size is exactly one memory page, one entry more, or two pages; every entry arbitrary", tmo=100)
def pages(E):
    mem, gone = setup(E)
    pi = E.mod("pulsar_inflate")
    shape = [(512,), (16, 32), (8, 8, 8), (513,), (1024,), (27, 19), (2, 512), (16, 8, 8)][E.choose("shape", 8)]
    a = E.vec("a", int(rnp.prod(shape))).reshape(shape)
    s = pi.PulsarInflater(a)
    w = _wire(s, pi.PulsarInflater)
    E.eq("received", w.inflate(), a)
    E.eq("received again", w.inflate(), a)
    w.destroy()
    E.true("nothing left", not mem.live)


@instance("P33", "two-pulsars", bounds="2 pulsars of 2 TOAs: each one's data come back to it")
def two(E):
    mem, gone = setup(E)
    pm = E.mod("pulsar")
    ps = []
    for k in range(2):
        p, r = raw(E, 2, name="p%d" % k, t=[E.const(k), E.const(k + 1)])
        p.__class__ = type("Psr", (pm.Tempo2Pulsar,), {"__init__": lambda self: None})
        ps.append((p, r))
    for p, r in ps:
        p.deflate()
    us = [sent(p) for p, r in ps]
    us[1].inflate()
    sent(ps[0][0]).destroy()
    presents(E, "second pulsar", us[1], ps[1][1], [0, 1])
    E.true("its blocks stay", len(mem.live) == 3)


@instance("P33", "pickle", bounds="any pulsar name; given, missing, nested or default folder: the whole pulsar is written to <folder>/<name>.pkl without the timing package's objects")
def to_pickle(E):
    pm = E.mod("pulsar")
    p, r = raw(E, 2, t=[E.const(1), E.const(2)])
    kind = E.choose("class", 3)
    cls = [pm.BasePulsar, pm.Tempo2Pulsar, pm.PintPulsar][kind]
    p.__class__ = type("Psr", (cls,), {"__init__": lambda self: None})
    p.name = ["J1", "B2+3"][E.choose("name", 2)]
    if kind == 1:
        p.t2pulsar = object()
    if kind == 2:
        p.model, p.pint_toas = object(), object()
        p.parfile, p.timfile = "PAR", "TIM"
    out = []
    E.patch(pm, "pickle", Stub(HIGHEST_PROTOCOL=pickle.HIGHEST_PROTOCOL, DEFAULT_PROTOCOL=pickle.DEFAULT_PROTOCOL, dump=lambda ob, f, *a, **k: out.append((ob, f.name, dict(ob.__dict__)))))
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        d = os.path.realpath(d)
        try:
            os.chdir(d)
            how = E.choose("folder", 3)
            arg, want = [(None, d), (d + "/x/y", d + "/x/y"), (".", d)][how]
            for k in range(2):
                p.to_pickle() if arg is None else p.to_pickle(arg) if k else p.to_pickle(outdir=arg)
            E.true("written once per call", len(out) == 2 and all(a[0] is p for a in out))
            E.true("file %s" % out[0][1], os.path.realpath(out[0][1]) == want + "/" + p.name + ".pkl" and os.listdir(want) == [p.name + ".pkl"])
            E.true("no package objects", not any(k in out[0][2] for k in ("t2pulsar", "model", "pint_toas")))
            E.true("par and tim text kept", kind != 2 or (out[0][2]["parfile"], out[0][2]["timfile"]) == ("PAR", "TIM"))
        finally:
            os.chdir(cwd)
    E.eq("data untouched", p.Mmat, r.M)
    E.eq("times untouched", p.toas, E.array(r.t))
    E.eq("residuals untouched", p.residuals, r.v["residuals"])
