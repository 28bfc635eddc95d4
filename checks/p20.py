"""P20: per-TOA data stay aligned through sorting, filtering and flags."""
import numpy as rnp

from vlib.harness import instance
from . import common as c

ASSUMPTIONS = ["times, values and windows are arbitrary reals; pulsars are built directly from stored arrays (the timing packages are not installed)"]
VEC = {"toaerrs": "_toaerrs", "residuals": "_residuals", "freqs": "_ssbfreqs", "stoas": "_stoas"}


class Raw:
    pass


def raw(E, n, name="", t=None, M=None, planets=True, record=False, sort=True, npar=2):
    """stored (unsorted) pulsar data and the pulsar"""
    bp = E.mod("pulsar").BasePulsar()
    r = Raw()
    r.n, r.planets, r.record = n, planets, record
    r.t = t if t is not None else [E.real("%st%d" % (name, i), s=(-1, 1)) for i in range(n)]
    r.v = {k: E.vec(name + k, n) for k in VEC}
    r.M = M if M is not None else E.mat(name + "M", n, npar)
    r.pos_t, r.sun = E.mat(name + "pos", n, 3), E.mat(name + "sun", n, 6)
    r.pl = E.array([[[E.real("%spl%d_%d_%d" % (name, i, j, k)) for k in range(2)] for j in range(2)] for i in range(n)])
    r.flags = {"f": rnp.array(["f%d" % i for i in range(n)]), "be_x": rnp.array(["b%d" % i for i in range(n)])}
    r.tel = rnp.array(["tel%d" % i for i in range(n)])
    r.fitpars = ["P%d" % i for i in range(r.M.shape[1])]
    bp.name, bp._sort = "J0", sort
    bp._toas = E.array(r.t)
    for k, a in VEC.items():
        setattr(bp, a, r.v[k].copy())
    bp._designmatrix, bp.fitpars = r.M.copy(), list(r.fitpars)
    bp._pos_t, bp._sunssb, bp._planetssb = r.pos_t.copy(), r.sun.copy() if planets else None, r.pl.copy() if planets else None
    bp._telescope = r.tel.copy()
    if record:
        bp._flags = rnp.zeros(n, dtype=[(k, v.dtype) for k, v in r.flags.items()])
        for k, v in r.flags.items():
            bp._flags[k] = v
    else:
        bp._flags = {k: v.copy() for k, v in r.flags.items()}
    bp._pdist, bp._raj, bp._decj = (1.0, 0.2), 1.0, 0.5
    bp.sort_data()
    return bp, r


def order(t, idx):
    """stable time order of the rows idx"""
    out = []
    for i in idx:
        k = len(out)
        while k > 0 and bool(t[i] < t[out[k - 1]]):
            k -= 1
        out.insert(k, i)
    return out


def check(E, tag, p, r, o, cols=None, flags=None):
    """presented data are the stored rows o"""
    cols = list(range(r.M.shape[1])) if cols is None else cols
    E.eq(tag + " toas", p.toas, E.array([r.t[i] for i in o]))
    for k in VEC:
        E.eq("%s %s" % (tag, k), getattr(p, k), r.v[k][o])
    E.eq(tag + " Mmat", p.Mmat, r.M[o][:, cols])
    E.true(tag + " fitpars", list(p.fitpars) == [r.fitpars[i] for i in cols])
    E.eq(tag + " pos_t", p.pos_t, r.pos_t[o])
    if r.planets:
        E.eq(tag + " sunssb", p.sunssb, r.sun[o])
        E.eq(tag + " planetssb", p.planetssb, r.pl[o])
    E.true(tag + " telescope", list(p.telescope) == list(r.tel[o]))
    fl = dict(r.flags, **(flags or {}))
    E.true(tag + " flag names", sorted(p.flags) == sorted(fl))
    for k, v in fl.items():
        E.true("%s flag %s" % (tag, k), k in p.flags and list(p.flags[k]) == [v[i] for i in o])
    E.true(tag + " backends", list(p.backend_flags) == list(r.flags["f"][o]))


@instance("P20", "sorting", bounds="4 TOAs in any order, ties included; both flag formats", maxpaths=400, tmo=200)
def sorting(E):
    p, r = raw(E, 4, record=bool(E.choose("record", 2)))
    o = order(r.t, range(4))
    check(E, "sorted", p, r, o)
    E.eq("inverse", p.toas[p.iisort], E.array(r.t))
    E.true("permutation", [int(i) for i in p.isort] == o and [o[int(i)] for i in p.iisort] == [0, 1, 2, 3])
    p.sort_data()
    check(E, "sorted again", p, r, o)


@instance("P20", "unsorted", bounds="3 TOAs in any order with sorting switched off: presented, filtered and flagged in the stored order", maxpaths=200, tmo=200)
def unsorted(E):
    p, r = raw(E, 3, M=ones(E, 3), sort=False)
    check(E, "unsorted", p, r, [0, 1, 2])
    p.set_flags("new", rnp.array(["x", "y", "z"]))
    check(E, "flagged", p, r, [0, 1, 2], flags={"new": ["x", "y", "z"]})
    a, b = E.real("a", s=(-1, 0)), E.real("b", s=(0, 1))
    p.filter_data(a / 86400, b / 86400)
    o = [i for i in range(3) if bool(r.t[i] >= a) and bool(r.t[i] <= b)]
    if not o:
        return
    check(E, "filtered", p, r, o, flags={"new": ["x", "y", "z"]})


def window(E, kind, a, b):
    return {0: {}, 1: {"start_time": a / 86400}, 2: {"end_time": b / 86400}, 3: {"start_time": a / 86400, "end_time": b / 86400}}[kind]


def inside(r, kind, a, b, i):
    return (not kind & 1 or bool(r.t[i] >= a)) and (not kind & 2 or bool(r.t[i] <= b))


def ones(E, n):
    """design matrix without zeros"""
    M = E.mat("M", n, 2, 0.1, 3)
    return M


@instance("P20", "filter", bounds="3 TOAs in any order, any window (both ends, one end or none), with and without planet data, both flag formats", maxpaths=1200, tmo=400)
def filt(E):
    kind, form = E.choose("kind", 4), E.choose("form", 2)
    p, r = raw(E, 3, M=ones(E, 3), planets=not form, record=bool(form))
    a, b = E.real("a", s=(-1, 0)), E.real("b", s=(0, 1))
    p.filter_data(**window(E, kind, a, b))
    o = order(r.t, [i for i in range(3) if inside(r, kind, a, b, i)])
    check(E, "filtered", p, r, o, cols=[0, 1] if o else [])


@instance("P20", "columns", bounds="3 TOAs (stored in a fixed, unsorted order), any window, any design matrix entries for 2 columns", maxpaths=400, tmo=400)
def columns(E):
    t = [E.const(20), E.const(10), E.const(30)]
    p, r = raw(E, 3, t=t)
    k = E.choose("window", 3)
    p.filter_data(*[x / 86400 for x in [(5, 25), (15, 35), (15, 25)][k]])
    o = [[1, 0], [0, 2], [0]][k]
    check(E, "filtered", p, r, o, cols=[j for j in range(2) if any(bool(r.M[i, j] != 0) for i in o)])


@instance("P20", "cancelling", bounds="4 TOAs, windows; design matrix with columns summing to zero, zero columns and columns supported on one TOA, entries symbolic", maxpaths=200, tmo=200)
def cancelling(E):
    x, y, z = (E.pos(k) for k in "xyz")
    M = E.array([[1, x, 0, 0, y], [1, -x, 0, z, 0], [1, x, 0, 0, -y], [1, -x, 0, 0, 0]])
    t = [E.const(v) for v in (30, 10, 40, 20)]
    p, r = raw(E, 4, t=t, M=M)
    k = E.choose("window", 4)
    lo, hi, o = [(5, 45, [1, 3, 0, 2]), (5, 25, [1, 3]), (25, 45, [0, 2]), (15, 35, [3, 0])][k]
    p.designmatrix_units = ["u%d" % i for i in range(5)]
    p.filter_data(lo / 86400, hi / 86400)
    cols = [j for j in range(5) if any(bool(M[i, j] != 0) for i in o)]
    check(E, "filtered", p, r, o, cols=cols)


@instance("P20", "flags", bounds="3 TOAs in any order, any flag values set in presented order, new and existing names, read back, then a window applied", maxpaths=300, tmo=300)
def flags(E):
    p, r = raw(E, 3, M=ones(E, 3))
    o = order(r.t, range(3))
    v = [E.real("v%d" % i) for i in range(3)]
    p.set_flags("val", E.array(v))
    E.eq("values", p.flags["val"], E.array(v))
    new = rnp.array(["p", "q", "r"])
    p.set_flags("be_x", new)
    E.true("existing name", list(p.flags["be_x"]) == ["p", "q", "r"] and list(new) == ["p", "q", "r"])
    E.true("other flags", list(p.flags["f"]) == [r.flags["f"][i] for i in o])
    b = E.real("b", s=(0, 1))
    p.filter_data(end_time=b / 86400)
    kept = [k for k, i in enumerate(o) if bool(r.t[i] <= b)]
    E.eq("values in the window", p.flags["val"], E.array([v[k] for k in kept]))
    E.true("labels in the window", list(p.flags["be_x"]) == [new[k] for k in kept] and list(p.flags["f"]) == [r.flags["f"][o[k]] for k in kept])


@instance("P20", "sequences", bounds="3 TOAs in any order: window, then flags, then a second window", maxpaths=400, tmo=400)
def sequences(E):
    t = [[30, 10, 20], [20, 30, 10], [10, 10, 5]][E.choose("order", 3)]
    p, r = raw(E, 3, t=[E.const(x) for x in t], M=ones(E, 3))
    a, b = E.real("a", s=(0, 20)), E.real("b", s=(10, 40))
    p.filter_data(start_time=a / 86400)
    o = order(r.t, [i for i in range(3) if bool(r.t[i] >= a)])
    p.set_flags("new", rnp.array(["n%d" % k for k in range(len(o))]))
    f = {"new": {i: "n%d" % k for k, i in enumerate(o)}}
    check(E, "first", p, r, o, cols=[0, 1] if o else [], flags=f)
    E.eq("inverse", p.toas[p.iisort], E.array([r.t[i] for i in sorted(o)]))
    if not o:
        return
    p.filter_data(end_time=b / 86400)
    o = [i for i in o if bool(r.t[i] <= b)]
    check(E, "second", p, r, o, cols=[0, 1] if o else [], flags=f)
