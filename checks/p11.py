"""P11: function arguments come from the right source; masks are applied once."""
import numpy as rnp

from vlib.harness import instance
from . import common as c

ASSUMPTIONS = ["argument, parameter and attribute values are arbitrary reals; declarations, presence of each source and masks are enumerated by the solver's path exploration"]


def pm(E):
    return c.par(E)


def psr(E, **kw):
    return c.pulsar(E, "A", 4, **kw)


DECL = ["nothing", "value", "parameter class", "parameter", "constant class", "constant", "function class", "function"]


@instance("P11", "precedence", bounds="one argument: every declaration kind x explicit value x value in params x pulsar attribute x own default", maxpaths=400, tmo=200)
def precedence(E):
    p = pm(E)
    v = {k: E.real(k) for k in ("explicit", "supplied", "fixed", "declared", "attribute", "own", "nested", "other")}
    decl = DECL[E.choose("declaration", len(DECL))]
    explicit, supplied, attribute, own = (E.choose(k, 2) for k in ("explicit", "supplied", "attribute", "own"))
    if own:
        def f(toas, a=v["own"], b=None):
            return a
    else:
        def f(toas, a, b=None):
            return a

    def g(q):
        return q * v["nested"]

    inner = p.Function(g, q=p.Uniform(0, 1))
    if decl in ("constant class", "constant"):
        K = p.Constant(v["fixed"])
    arg = {
        "value": lambda: v["declared"], "parameter class": lambda: p.Uniform(0, 1), "parameter": lambda: p.Uniform(0, 1)("mine"),
        "constant class": lambda: K, "constant": lambda: K("mine"), "function class": lambda: inner, "function": lambda: inner("mine"),
    }
    kw = {} if decl == "nothing" else dict(a=arg[decl]())
    F = p.Function(f, "fn", b=v["other"], **kw)("own")
    ps = psr(E, a=v["attribute"]) if attribute else psr(E)
    F = p.Function(f, "fn", b=v["other"], **kw)("own", psr=ps)
    name = {"parameter class": "own_fn_a", "constant class": "own_fn_a", "parameter": "mine", "constant": "mine", "function class": "own_fn_a_q", "function": "mine_q"}.get(decl)
    E.true("parameter names", sorted(q.name for q in F._params.values()) == ([name] if name else []))
    E.true("varying parameters", [q.name for q in F.params] == ([name] if name and "constant" not in decl else []))
    params = {"x": v["other"], "a": v["other"], "own_a": v["other"], "fn_a": v["other"]}
    if supplied and name:
        params[name] = v["supplied"]
    elif "function" in decl:
        params[name] = v["supplied"]
    call = dict(params=params)
    if explicit:
        call["a"] = v["explicit"]
    if explicit:
        want = v["explicit"]
    elif "function" in decl:
        want = v["nested"] * v["supplied"]
    elif supplied and name:
        want = v["supplied"]
    elif "constant" in decl:
        want = v["fixed"]
    elif decl == "value":
        want = v["declared"]
    elif attribute:
        want = v["attribute"]
    elif own:
        want = v["own"]
    else:
        E.true("missing argument reported", E.raises(TypeError, lambda: F(**call)))
        return
    for k in range(2):
        E.eq("argument", F(**{**call, "params": dict(params)}), want)
    E.true("params unchanged", len(params) == 4 + (1 if name and (supplied or "function" in decl) else 0))
    if attribute and not explicit and decl == "nothing":
        ps.a = v["other"]
        E.eq("attribute read at the call", F(**call), v["other"])


@instance("P11", "masks", bounds="4 TOAs, all 16 masks or no mask: 1-d, 2-d, 3-d arrays, text arrays, other lengths, lists, dictionaries, scalars, methods, explicit arguments", maxpaths=40)
def masks(E):
    p = pm(E)
    n = 4
    k = E.choose("mask", 2 ** n + 1)
    ps = psr(E, Mmat=E.mat("M", n, 2), planetssb=E.array([[[E.real("q%d%d%d" % (i, j, m)) for m in range(3)] for j in range(2)] for i in range(n)]),
             backend_flags=rnp.array(["a", "b", "c", "d"]), flags={"f": rnp.array(list("wxyz"))}, pos=E.vec("pos", 3), fitpars=["a", "b", "c", "d"], scalar=E.real("scalar"))
    ps.method = lambda: ps.toaerrs
    ps.short = E.vec("short", n - 1)
    ps.square = E.mat("square", n - 1, n)

    def f(toas, toaerrs, Mmat, planetssb, backend_flags, flags, pos, fitpars, scalar, method, short, square, given, declared):
        return toas, toaerrs, Mmat, planetssb, backend_flags, flags, pos, fitpars, scalar, method, short, square, given, declared

    declared, given = E.vec("declared", n), E.vec("given", n)
    F = p.Function(f, declared=declared)("own", psr=ps)
    if k < 2 ** n:
        m = rnp.array([bool(k >> i & 1) for i in range(n)])
        out = F(given=given, mask=m)
    else:
        m = rnp.array([True] * n)
        out = F(given=given)
    for nm, i in (("toas", 0), ("toaerrs", 1), ("Mmat", 2), ("planetssb", 3)):
        E.eq(nm, out[i], getattr(ps, nm)[m])
    E.true("backend_flags", list(out[4]) == [x for x, q in zip("abcd", m) if q])
    E.true("flags", out[5] is ps.flags)
    E.eq("pos", out[6], ps.pos)
    E.true("fitpars", list(out[7]) == list("abcd"))
    E.eq("scalar", out[8], ps.scalar)
    E.eq("method", out[9], ps.toaerrs[m])
    E.eq("short", out[10], ps.short)
    E.eq("square", out[11], ps.square)
    E.eq("given", out[12], given)
    E.eq("declared", out[13], declared)
    E.eq("pulsar unchanged", ps.toas, c.toas(E, n))


@instance("P11", "nested", bounds="two levels of nested functions with the same argument names, shared and own parameters, constants, declared values and explicit arguments passed down", maxpaths=40)
def nested(E):
    p = pm(E)

    def inner(toas, a, b=2):
        return a * 3 + b

    def mid(toas, a, b, q=1):
        return a * 5 + b * 7 + q

    def outer(toas, a, b, z):
        return a * 11 + b * 13 + z

    shared = p.Uniform(0, 1)("shared")
    fi = p.Function(inner, a=shared, b=p.Uniform(0, 1))
    fm = p.Function(mid, "m", a=fi, b=p.Uniform(0, 1), q=p.Constant(E.real("cq")))
    F = p.Function(outer, "o", a=fm, b=shared, z=p.Uniform(0, 1))("top", psr=psr(E))
    names = sorted({q.name for q in F.params})
    E.true("names", names == ["shared", "top_o_a_m_a_b", "top_o_a_m_b", "top_o_z"])
    P = {k: E.real(k) for k in names}
    kw = {}
    q = E.real("cq")
    explicit = E.choose("explicit", 4)
    b = P["shared"]
    if explicit == 1:
        # an argument named by the caller is also passed to nested functions that declare it
        kw["b"] = b = E.real("given")
    if explicit == 2:
        kw["q"] = q = E.real("given")
    if explicit == 3:
        P["top_o_a_m_q"] = q = E.real("override")
    i = P["shared"] * 3 + (b if explicit == 1 else P["top_o_a_m_a_b"])
    m = i * 5 + (b if explicit == 1 else P["top_o_a_m_b"]) * 7 + q
    E.eq("value", F(params=P, **kw), m * 11 + b * 13 + P["top_o_z"])


@instance("P11", "decorator", bounds="decorated function called directly (positional, keyword, defaults), as a declaration with parameters, and with arguments missing; two instances on two pulsars")
def decorator(E):
    p = pm(E)

    def raw(toas, a, b=2):
        return toas * a + b

    f = p.function(raw)
    t, a, b = E.vec("t", 3), E.real("a"), E.real("b")
    E.eq("positional", f(t, a), t * a + 2)
    E.eq("positional all", f(t, a, b), t * a + b)
    E.eq("keywords", f(toas=t, b=b, a=a), t * a + b)
    E.eq("mixed", f(t, a=a), t * a + 2)
    p1, p2 = c.pulsar(E, "A", 2, toas=E.vec("ta", 2)), c.pulsar(E, "B", 3, toas=E.vec("tb", 3))
    for how in ("a", "ab", "all"):
        if how == "a":
            cls = f(a=p.Uniform(0, 1))
        elif how == "ab":
            cls = f(a=p.Uniform(0, 1), b=b)
        else:
            cls = f(t, a=p.Uniform(0, 1))
        E.true("class", isinstance(cls, type) and issubclass(cls, p.FunctionBase))
        for ps in (p1, p2):
            g = cls(ps.name, psr=ps)
            E.true("name", [q.name for q in g.params] == [ps.name + "_a"])
            x = E.real("x" + ps.name)
            E.eq("value", g(params={"A_a": E.real("xA"), "B_a": E.real("xB")}), ps.toas * x + (b if how == "ab" else 2))
            E.eq("explicit", g(a=a, params={"A_a": x, "B_a": x}), ps.toas * a + (b if how == "ab" else 2))
            E.eq("explicit first", g(t, params={"A_a": x, "B_a": x}), t * x + (b if how == "ab" else 2))
    E.true("no parameters left", f()("own").params == [])


@instance("P11", "names", bounds="owner, function name and argument names, each present or empty; parameters, constants, nested functions")
def names(E):
    p = pm(E)
    own, fname, gname = (E.choose(k, 2) for k in ("owner", "function name", "nested name"))

    def g(y):
        return y

    def f(toas, x, k, n):
        return x * 100 + k * 10 + n

    G = p.Function(g, "gn" if gname else "", y=p.Uniform(0, 1))
    F = p.Function(f, "fn" if fname else "", x=p.Uniform(0, 1), k=p.Constant(), n=G)("own" if own else "", psr=psr(E))
    pre = ("own_" if own else "") + ("fn_" if fname else "")
    gn = "gn_" if gname else ""
    want = [pre + "x", pre + "k", pre + "n_" + gn + "y"]
    E.true("names", sorted(q.name for q in F._params.values()) == sorted(want))
    E.true("varying", sorted(q.name for q in F.params) == sorted([want[0], want[2]]))
    v = [E.real("v%d" % i) for i in range(3)]
    E.eq("value", F(params=dict(zip(want, v))), v[0] * 100 + v[1] * 10 + v[2])


@instance("P11", "signals", bounds="a white-noise signal, a deterministic signal and a process whose functions take masked attributes, parameters, constants, nested functions; all 14 splits of 4 TOAs in two groups", maxpaths=40)
def signals(E):
    np = E.np
    p, ws, ds, gp, se = pm(E), E.mod("signals.white_signals"), E.mod("signals.deterministic_signals"), E.mod("signals.gp_signals"), E.mod("signals.selections")
    k = E.choose("split", 14) + 1
    lab = ["x" if k >> i & 1 else "y" for i in range(4)]
    ps = psr(E, backend_flags=rnp.array(lab), freqs=E.vec("f", 4))
    sel = se.Selection(se.by_backend)

    def scale(freqs, s):
        return s

    def wave(toas, freqs, amp, off=0):
        return freqs * amp + off

    def basis(toas, freqs, h=1):
        return E.array([[x * h] for x in freqs]), E.array([1])

    fs = p.Function(scale, s=p.Uniform(0, 1))
    d = ds.Deterministic(p.Function(wave, amp=fs, off=p.Constant(E.real("off"))), selection=sel, name="d")
    w = ws.WhiteNoise(p.Function(lambda toaerrs, freqs, e: toaerrs * e, e=p.Uniform(0, 1)), selection=sel, name="w")
    g = gp.BasisGP(c.diag_prior_class(E, 1), p.Function(basis, h=p.Uniform(0, 1)), selection=sel, name="g")
    pta = c.sb(E).PTA([(d + w + g)(ps)])
    P = c.params(E, pta)
    sc = pta.pulsarmodels[0]
    # white-noise functions see all TOAs and are masked afterwards
    E.eq("noise", w(ps).get_ndiag(P), E.array([e * P["A_w_%s_e" % l] for e, l in zip(ps.toaerrs, lab)]))
    E.eq("delay", sc.get_delay(P), E.array([f * P["A_d_%s_amp_s" % l] + E.real("off") for f, l in zip(ps.freqs, lab)]))
    T = sc.get_basis(P)
    E.eq("basis", T, E.array([[f * P["A_g_%s_h" % l] if l == m else 0 for m in sorted(set(lab))] for f, l in zip(ps.freqs, lab)]))
