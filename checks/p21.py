"""P21: backend labels follow the documented precedence."""
import numpy as rnp

from vlib.harness import instance
from . import common as c
from .p20 import order

ASSUMPTIONS = ["whether a flag is set for a TOA is symbolic (a sign, decided by forking); the label texts are one per flag and TOA, of different lengths"]
NAMES = ["group", "g", "sys", "i", "f"]


def psr(E, flags, t, record):
    p = E.mod("pulsar").BasePulsar()
    p.name, p._sort = "J0", True
    p._toas = E.array(t)
    if record:
        p._flags = rnp.zeros(len(t), dtype=[(k, v.dtype) for k, v in flags.items()])
        for k, v in flags.items():
            p._flags[k] = v
    else:
        p._flags = dict(flags)
    p.sort_data()
    return p


def text(name, i):
    return {"group": "Grp%d", "g": "g%d", "sys": "SYS.longer-%d", "i": "i%d", "f": "f%d", "fe": "front-end-%d", "be": "b%d", "other": "x%d"}[name] % i


def values(E, name, n):
    return rnp.array([text(name, i) if bool(E.real("%s_set%d" % (name, i)) > 0) else "" for i in range(n)])


def want(flags, i):
    for k in NAMES:
        if k in flags and flags[k][i]:
            return str(flags[k][i])
    if "fe" in flags and "be" in flags and flags["fe"][i] and flags["be"][i]:
        return "%s_%s" % (flags["fe"][i], flags["be"][i])
    return ""


def run(E, names, n, t, extra=()):
    flags = {k: values(E, k, n) for k in names}
    for k in extra:
        flags[k] = rnp.array(["x%d" % i for i in range(n)])
    p = psr(E, flags, t, bool(E.choose("record", 2)))
    o = order(t, range(n))
    for _ in range(2):
        E.true("labels", [str(x) for x in p.backend_flags] == [want(flags, i) for i in o])
    E.true("flags unchanged", all([str(x) for x in p.flags[k]] == [str(flags[k][i]) for i in o] for k in flags))


@instance("P21", "subsets", bounds="1 TOA, every subset of the seven flag names (dictionary order reversed), each value set or empty", maxpaths=5000, tmo=600)
def subsets(E):
    k = E.choose("subset", 128)
    names = [x for i, x in enumerate(["be", "fe", "f", "i", "sys", "g", "group"]) if k >> i & 1]
    run(E, names, 1, [E.const(1)], extra=["other"] if k % 3 == 0 else [])


def pairs(a, b):
    def h(E):
        run(E, [a, b], 2, [E.real("t0"), E.real("t1")], extra=["other"])

    return h


for _a, _b in [("g", "group"), ("sys", "g"), ("i", "sys"), ("f", "i"), ("fe", "be"), ("group", "fe")]:
    instance("P21", "two TOAs %s/%s" % (_a, _b), bounds="2 TOAs in any order, each value set or empty, both formats", maxpaths=200, tmo=200)(pairs(_a, _b))


@instance("P21", "three", bounds="3 TOAs in any order, flags f, fe and be set or empty", maxpaths=3000, tmo=400)
def three(E):
    t = [[E.const(x) for x in v] for v in ([3, 1, 2], [2, 3, 1])][E.choose("order", 2)]
    run(E, ["f", "fe", "be"], 3, t)


@instance("P21", "after sorting and filtering", bounds="3 TOAs in any order, f and group set or empty, a window applied", maxpaths=1500, tmo=400)
def filtered(E):
    t = [E.const(x) for x in ([30, 10, 20], [20, 30, 10])[E.choose("order", 2)]]
    flags = {k: values(E, k, 3) for k in ["f", "group"]}
    p = psr(E, flags, t, False)
    p._toaerrs, p._residuals, p._ssbfreqs, p._stoas = (E.vec(k, 3) for k in "abcd")
    p._designmatrix, p.fitpars, p._planetssb, p._sunssb = E.array([[1], [1], [1]]), ["X"], None, None
    p._pos_t, p._telescope = E.mat("p", 3, 3), rnp.array(["a", "b", "c"])
    a = E.real("a", s=(0, 40))
    p.filter_data(start_time=a / 86400)
    o = [i for i in order(t, range(3)) if bool(t[i] >= a)]
    E.true("labels", [str(x) for x in p.backend_flags] == [want(flags, i) for i in o])
