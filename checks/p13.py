"""P13: white-noise variances follow the documented formulas per selected TOA."""
from vlib.harness import instance
from . import common as c

ASSUMPTIONS = ["TOA errors are arbitrary non-zero reals; log10 equads arbitrary reals"]


def setup(E, n=4):
    import numpy as rnp

    p = c.pulsar(E, "A", n, toaerrs=E.array([E.pos("s%d" % i) for i in range(n)]), residuals=E.array([1] * n), backend_flags=rnp.array(["x", "y", "y", "x"][:n]))
    return p


def sel(E):
    se = E.mod("signals.selections")
    return se.Selection(se.by_backend)


def vec(x):
    import numpy as np

    return np.array(x)


def kinds(E, kind, by=None, const=False, name=""):
    ws, pm = E.mod("signals.white_signals"), c.par(E)
    u = lambda: pm.Constant() if const else c.U(E)
    kw = dict(name=name)
    if by is not None:
        kw["selection"] = by
    if kind == "efac":
        return ws.MeasurementNoise(efac=u(), **kw)
    if kind == "t2":
        return ws.MeasurementNoise(efac=u(), log10_t2equad=u(), **kw)
    if kind == "tn":
        return ws.TNEquadNoise(log10_tnequad=u(), **kw)


def oracle(E, kind, p, P, groups, name=""):
    """groups: list of group label per TOA ('' = unselected model, None = no contribution)"""
    out = []
    for s, g in zip(p.toaerrs, groups):
        if g is None:
            out.append(0)
            continue
        pre = "_".join([k for k in ("A", name, g) if k]) + "_"
        if kind == "efac":
            out.append(P[pre + "efac"] ** 2 * s ** 2)
        elif kind == "t2":
            out.append(P[pre + "efac"] ** 2 * (s ** 2 + 10 ** (2 * P[pre + "log10_t2equad"])))
        else:
            out.append(10 ** (2 * P[pre + "log10_tnequad"]))
    return E.array(out)


def names(kind, groups, name=""):
    q = {"efac": ["efac"], "t2": ["efac", "log10_t2equad"], "tn": ["log10_tnequad"]}[kind]
    return sorted({"_".join([k for k in ("A", name, g) if k]) + "_" + x for g in groups if g is not None for x in q})


def values(E, ns, tag=""):
    return {n: E.real(tag + n) for n in ns}


def single(kind, selected, name):
    @instance("P13", "%s-%s%s" % (kind, "selected" if selected else "all", "-named" if name else ""), bounds="4 TOAs in 2 groups; varying, fixed and overridden fixed parameters")
    def h(E):
        p = setup(E)
        groups = list(p.backend_flags) if selected else [""] * 4
        by = sel(E) if selected else None
        ns = names(kind, groups, name)
        s = kinds(E, kind, by, name=name)(p)
        E.true("names", sorted(s.param_names) == ns)
        P = values(E, ns)
        got = vec(s.get_ndiag(P))
        E.eq("variance", got, oracle(E, kind, p, P, groups, name))
        if kind != "tn":
            E.eq("errors unchanged", p.toaerrs, E.array([E.pos("s%d" % i) for i in range(4)]))
        # fixed parameters: set by name, overridden by supplied values
        f = kinds(E, kind, by, const=True, name=name)(p)
        E.true("no varying parameters", f.param_names == [])
        Q = values(E, ns, "fixed_")
        f.set_default_params(Q)
        E.eq("fixed variance", vec(f.get_ndiag({})), oracle(E, kind, p, Q, groups, name))
        E.true("still no varying parameters", f.param_names == [])

    return h


for k in ("efac", "t2", "tn"):
    for sl in (False, True):
        for nm in ("", "w"):
            single(k, sl, nm)


@instance("P13", "missing-group", bounds="4 TOAs, one TOA in no group, one group empty")
def missing(E):
    import numpy as rnp

    se = E.mod("signals.selections")
    p = setup(E)

    def part(backend_flags):
        return {"x": backend_flags == "x", "q": backend_flags == "q"}

    for kind in ("efac", "t2", "tn"):
        s = kinds(E, kind, se.Selection(part))(p)
        groups = [g if g == "x" else None for g in p.backend_flags]
        P = values(E, names(kind, ["x", "q"]))
        E.eq(kind, vec(s.get_ndiag(P)), oracle(E, kind, p, P, groups))


@instance("P13", "sum-of-signals", bounds="4 TOAs; measurement noise per group plus legacy equad plus a second named measurement noise on one group")
def total(E):
    se = E.mod("signals.selections")
    p = setup(E)
    one = se.Selection(lambda backend_flags: {"y": backend_flags == "y"})
    m = kinds(E, "t2", sel(E)) + kinds(E, "tn") + kinds(E, "efac", one, name="z") + kinds(E, "tn", one, name="q")
    sc = m(p)
    groups = list(p.backend_flags)
    ns = names("t2", groups) + names("tn", [""]) + names("efac", ["y"], "z") + names("tn", ["y"], "q")
    E.true("names", sorted(sc.param_names) == sorted(ns))
    P = values(E, ns)
    gy = [g if g == "y" else None for g in groups]
    ex = oracle(E, "t2", p, P, groups) + oracle(E, "tn", p, P, [""] * 4) + oracle(E, "efac", p, P, gy, "z") + oracle(E, "tn", p, P, gy, "q")
    E.eq("sum", vec(sc.get_ndiag(P)), ex)
    E.eq("likelihood noise", E.array(list(c.sb(E).PTA([sc]).get_ndiag(P)[0])), ex)


@instance("P13", "functions", bounds="2 TOAs; the variance functions with defaults and explicit values")
def funcs(E):
    ws = E.mod("signals.white_signals")
    p = setup(E, 2)
    s, e, q = p.toaerrs, E.real("e"), E.real("q")
    E.eq("efac", ws.efac_ndiag(s, efac=e), e ** 2 * s ** 2)
    E.eq("efac default", ws.efac_ndiag(s), s ** 2)
    E.eq("combined", ws.combined_ndiag(s, efac=e, log10_t2equad=q), e ** 2 * (s ** 2 + 10 ** (2 * q)))
    E.eq("combined default", ws.combined_ndiag(s, efac=e), e ** 2 * (s ** 2 + E.array([1e-16])[0]))
    E.eq("tnequad", ws.tnequad_ndiag(s, log10_tnequad=q), E.array([10 ** (2 * q)] * 2))
