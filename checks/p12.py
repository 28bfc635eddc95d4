"""P12: selections split TOAs exactly as documented."""
import numpy as rnp

from vlib.harness import instance
from . import common as c

ASSUMPTIONS = ["TOAs, frequencies and band limits are arbitrary reals; flag values come from a list of labels (all assignments explored)"]
LABELS = ["GASP", "ASP_430", "other", ""]


def se(E):
    return E.mod("signals.selections")


def labels(E, name, n, ls):
    return rnp.array([ls[E.choose("%s%d" % (name, i), len(ls))] for i in range(n)])


def check(E, tag, masks, want):
    """want: ordered list of (group, marks)"""
    E.true(tag + " groups", sorted(masks) == sorted(k for k, _ in want))
    for k, m in want:
        got = masks.get(k)
        E.true("%s mask type %s" % (tag, k), isinstance(got, rnp.ndarray) and got.dtype == bool and got.shape == (len(m),))
        E.true("%s mask %s" % (tag, k), got is not None and list(map(bool, got)) == list(map(bool, m)))


def by(vals, keep=None):
    """one group per value present"""
    return [(g, [v == g for v in vals]) for g in sorted(set(map(str, vals))) if keep is None or any(k in g for k in keep)]


def ps(E, name, n, **kw):
    return c.pulsar(E, name, n, **kw)


NG = ["ASP", "GASP", "GUPPI", "PUPPI", "YUPPI", "CHIME", "VEGAS"]


@instance("P12", "labels", bounds="3 TOAs, every assignment of 4 backend labels; by backend, NANOGrav backends, custom backend lists (one, several, none, a name as text), telescope", maxpaths=200, tmo=200)
def bylabel(E):
    s = se(E)
    lab = labels(E, "b", 3, LABELS)
    p = ps(E, "A", 3, backend_flags=lab, telescope=lab[::-1].copy())
    cases = [
        ("backend", s.by_backend, None), ("nanograv", s.nanograv_backends, NG), ("custom list", s.custom_backends(["GASP", "other"]), ["GASP", "other"]),
        ("custom part", s.custom_backends(["ASP"]), ["ASP"]), ("custom text", s.custom_backends("430"), ["430"]), ("custom none", s.custom_backends(None), None),
        ("custom absent", s.custom_backends(["nothing"]), ["nothing"]),
        ("dict backend", s.custom_backends_dict({"backend": None}), None), ("dict backend list", s.custom_backends_dict({"backend": ["ASP_"]}), ["ASP_"]),
        ("dict backend text", s.custom_backends_dict({"backend": "GASP"}), ["GASP"]),
        ("list", s.custom_backends_dict(["ASP_", "oth"]), ["ASP_", "oth"]), ("text", s.custom_backends_dict("oth"), ["oth"]),
    ]
    for nm, f, keep in cases:
        check(E, nm, s.Selection(f)(p).masks, by(lab, keep))
    check(E, "telescope", s.Selection(s.by_telescope)(p).masks, by(lab[::-1]))
    check(E, "none", s.Selection(s.no_selection)(p).masks, [("", [True] * 3)])
    check(E, "dict none", s.Selection(s.custom_backends_dict(None))(p).masks, [("", [True] * 3)])
    E.true("labels unchanged", list(p.backend_flags) == list(lab))


@instance("P12", "flags", bounds="3 TOAs, every assignment of 3 values to two flags; bands (-B), frontends (-fe), custom flag dictionaries", maxpaths=800, tmo=300)
def byflag(E):
    s = se(E)
    B, fe = labels(E, "B", 3, ["10CM", "20CM", ""]), labels(E, "fe", 3, ["L", "LX", "S"])
    p = ps(E, "A", 3, flags={"B": B, "fe": fe}, backend_flags=rnp.array(["x", "y", "x"]))
    check(E, "band", s.Selection(s.by_band)(p).masks, by(B))
    check(E, "frontend", s.Selection(s.by_frontend)(p).masks, by(fe))
    check(E, "dict band", s.Selection(s.custom_backends_dict({"B": None}))(p).masks, by(B))
    check(E, "dict frontend", s.Selection(s.custom_backends_dict({"fe": ["L"]}))(p).masks, by(fe, ["L"]))
    check(E, "dict text", s.Selection(s.custom_backends_dict({"fe": "LX"}))(p).masks, by(fe, ["LX"]))
    check(E, "dict both", s.Selection(s.custom_backends_dict({"fe": ["S"], "B": "CM", "backend": "y"}))(p).masks, by(fe, ["S"]) + by(B, ["CM"]) + [("y", [False, True, False])])
    E.true("flags unchanged", list(p.flags["B"]) == list(B) and list(p.flags["fe"]) == list(fe))


@instance("P12", "halves", bounds="1 to 4 TOAs in any order, ties included", maxpaths=200, tmo=200)
def halves(E):
    s = se(E)
    n = E.choose("n", 4) + 1
    t = [E.real("t%d" % i, s=(0, 10)) for i in range(n)]
    p = ps(E, "A", n, toas=E.array(t))
    m = s.Selection(s.cut_half)(p).masks
    lo, hi = t[0], t[0]
    for x in t[1:]:
        lo = x if bool(x < lo) else lo
        hi = x if bool(x > hi) else hi
    first = [bool(2 * x <= lo + hi) for x in t]
    check(E, "halves", m, [("t1", first), ("t2", [not q for q in first])])


@instance("P12", "frequency", bounds="2 TOAs at any positive frequency; the default bands", maxpaths=200, tmo=200)
def frequency(E):
    s = se(E)
    f = [E.pos("f%d" % i, s=(100.0, 4000.0)) for i in range(2)]
    p = ps(E, "A", 2, freqs=E.array(f))
    edges = [("Band.1", 0, 1000), ("Band.2", 1000, 2000), ("Band.3", 2000, 3000), ("Band.4", 3000, 10000)]
    want = [(k, [bool(x >= a) and bool(x < b) for x in f]) for k, a, b in edges]
    check(E, "bands", s.Selection(s.by_freq_band())(p).masks, [(k, m) for k, m in want if any(m)])


@instance("P12", "custom-bands", bounds="2 TOAs at any frequency; two adjacent custom bands with any limits, used for two pulsars in turn", maxpaths=300, tmo=200)
def custombands(E):
    s = se(E)
    a, b, d = (E.real(k, s=(0.0, 3.0)) for k in "abd")
    E.assume_lt(a, b, d)
    bands = {"hi": [b, d], "lo": [a, b]}
    sel = s.Selection(s.by_freq_band(bands))
    for name in "AB":
        f = [E.real("f%s%d" % (name, i), s=(0.0, 3.0)) for i in range(2 if name == "A" else 1)]
        p = ps(E, name, len(f), freqs=E.array(f))
        want = [(k, [bool(x >= l) and bool(x < h) for x in f]) for k, (l, h) in bands.items()]
        check(E, "bands " + name, sel(p).masks, [(k, m) for k, m in want if any(m)])
    E.true("bands unchanged", list(bands) == ["hi", "lo"])


@instance("P12", "index", bounds="4 TOAs, all 16 index sets, given as list or array, other indices added")
def index(E):
    s = se(E)
    k, arr = E.choose("set", 16), E.choose("array", 2)
    idx = [i for i in range(4) if k >> i & 1] + [7]
    p = ps(E, "A", 4)
    m = s.Selection(s.by_index("grp", rnp.array(idx) if arr else idx))(p).masks
    check(E, "index", m, [("grp", [bool(k >> i & 1) for i in range(4)])])


@instance("P12", "reuse", bounds="one selection object applied to pulsars with different TOAs, labels, flags and frequencies, in both orders and again: results as for a new selection")
def reuse(E):
    s = se(E)
    fl = [1500, 500, 2500, 3500]
    A = ps(E, "A", 3, backend_flags=rnp.array(["GASP", "x", "GASP"]), flags={"B": rnp.array(["1", "2", "2"]), "fe": rnp.array(["u", "u", "v"])}, freqs=E.array(fl[:3]))
    B = ps(E, "B", 4, toas=E.array([4, 1, 3, 2]), backend_flags=rnp.array(["y", "ASP", "x", "y"]), telescope=rnp.array(["p", "q", "q", "r"]), flags={"B": rnp.array(["3", "2", "2", "1"]), "fe": rnp.array(["w", "u", "v", "w"])}, freqs=E.array(fl[::-1]))
    make = [lambda: s.by_backend, lambda: s.nanograv_backends, lambda: s.custom_backends(["x"]), lambda: s.custom_backends("x"), lambda: s.custom_backends(None),
            lambda: s.custom_backends_dict(["x"]), lambda: s.custom_backends_dict({"B": None, "backend": ["GASP", "ASP"]}), lambda: s.custom_backends_dict(None), lambda: s.by_band, lambda: s.by_frontend,
            lambda: s.custom_backends_dict({"backend": ["GASP", "y"]}), lambda: s.custom_backends_dict({"backend": "y", "fe": ["u", "w"], "B": ["1", "3"]}), lambda: s.custom_backends_dict("y"), lambda: s.custom_backends(["GASP", "y"]), lambda: s.by_telescope, lambda: s.cut_half, lambda: s.by_freq_band(), lambda: s.by_freq_band({"b": [0, 1600]}), lambda: s.by_index("i", [0, 2]), lambda: s.no_selection]
    k = E.choose("selection", len(make))
    order = [[A, B, A], [B, A, B]][E.choose("order", 2)]
    sel = s.Selection(make[k]())
    objs = [sel(p) for p in order]
    for p, o in list(zip(order, objs)) * 2:
        m, w = o.masks, s.Selection(make[k]())(p).masks
        E.true("groups", list(m) == list(w))
        for g in w:
            E.true("mask " + g, list(map(bool, m[g])) == list(map(bool, w[g])) and len(m[g]) == len(p.toas))


@instance("P12", "parameters", bounds="3 TOAs, every assignment of 2 labels or no selection: names and masks given to parameters; array argument restricted to the group", maxpaths=40)
def parameters(E):
    s, pm = se(E), c.par(E)
    lab = labels(E, "b", 3, ["x", "y"])
    p = ps(E, "psr", 3, backend_flags=lab)
    P, m = s.Selection(s.by_backend)(p)("efac", pm.Uniform(0, 1))
    gs = sorted(set(map(str, lab)))
    E.true("names", {k: v.name for k, v in P.items()} == {g + "_efac": "psr_%s_efac" % g for g in gs})
    E.true("classes", all(isinstance(v, pm.Parameter) for v in P.values()))
    check(E, "masks", m, [(g + "_efac", [x == g for x in lab]) for g in gs])
    arr = E.vec("arr", 3)
    P, m = s.Selection(s.by_backend)(p)("efac", pm.Uniform(0, 1), arr)
    for g in gs:
        E.eq("array " + g, m[g + "_efac"], E.array([a if x == g else 0 for a, x in zip(arr, lab)]))
    P, m = s.Selection(s.no_selection)(p)("efac", pm.Uniform(0, 1))
    E.true("plain name", {k: v.name for k, v in P.items()} == {"efac": "psr_efac"})
    check(E, "plain mask", m, [("efac", [True] * 3)])


@instance("P12", "models", bounds="3 TOAs, every assignment of 2 labels and two pulsars: parameter names of noise, processes, jitter and delays of one model class", maxpaths=40)
def models(E):
    s, pm = se(E), c.par(E)
    ws, gp, ds = E.mod("signals.white_signals"), E.mod("signals.gp_signals"), E.mod("signals.deterministic_signals")
    sel = s.Selection(s.by_backend)
    m = ws.MeasurementNoise(efac=c.U(E), selection=sel) + ws.EcorrKernelNoise(log10_ecorr=c.U(E), selection=sel) + ws.TNEquadNoise(log10_tnequad=c.U(E), selection=sel, name="q")
    m = m + gp.BasisGP(c.diag_prior_class(E, 1), c.fn(E, lambda toas: (E.array([[1]] * len(toas)), E.array([1])))(), selection=sel, name="g")
    m = m + ds.Deterministic(c.fn(E, lambda toas, amp: toas * amp)(amp=c.U(E)), selection=sel, name="d")
    for name in "AB":
        lab = labels(E, name, 3, ["x", "y"]) if name == "A" else rnp.array(["y", "z", "y"])
        p = ps(E, name, 3, backend_flags=lab)
        want = []
        for g in sorted(set(map(str, lab))):
            want += ["%s_%s_efac" % (name, g), "%s_%s_log10_ecorr" % (name, g), "%s_q_%s_log10_tnequad" % (name, g), "%s_g_%s_phi0" % (name, g), "%s_d_%s_amp" % (name, g)]
        E.true("parameter names " + name, [q.name for q in m(p).params] == sorted(want))


@instance("P12", "custom functions", bounds="3 TOAs, every assignment of 2 labels, any limits; user-written selection functions with attributes and optional values in several orders, and called with explicit values", maxpaths=1000)
def customfns(E):
    s = se(E)
    lab, t, f = labels(E, "b", 3, ["x", "y"]), E.array([3, 1, 2]), E.array([5, 7, 6])
    p = ps(E, "A", 3, backend_flags=lab, toas=t, freqs=f)
    cut = E.real("cut")

    def first(toas, limit=cut, freqs=None, nothing=None, backend_flags=None):
        return {"hi": toas * freqs > limit, "x": backend_flags == "x", "none": (toas > limit) & (nothing is not None)}

    def second(limit=cut, backend_flags=None, toas=None):
        return {"": (toas > limit) & (backend_flags != "x")}

    hi = [bool(t[i] * f[i] > cut) for i in range(3)]
    x = [str(v) == "x" for v in lab]
    check(E, "first", s.Selection(first)(p).masks, [("hi", hi), ("x", x), ("none", [False] * 3)])
    after = [bool(v > cut) for v in t]
    check(E, "second", s.Selection(second)(p).masks, [("", [a and not b for a, b in zip(after, x)])])
    two = E.real("two")
    m = s.selection_func(second)(limit=two, psr=p)
    check(E, "explicit", m, [("", [bool(v > two) and not b for v, b in zip(t, x)])])
    m = s.selection_func(second)(two, psr=p)
    check(E, "positional", m, [("", [bool(v > two) and not b for v, b in zip(t, x)])])
    m = s.selection_func(second)(toas=f, psr=p, mask=rnp.array([True, False, True]), backend_flags=lab)
    check(E, "replaced", m, [("", [bool(v > cut) and not b for v, b in zip(f, x)])])
