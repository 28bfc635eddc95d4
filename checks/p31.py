"""P31: interpolation bases and index helpers reconstruct what they index."""
from vlib.harness import instance
from . import common as c

ASSUMPTIONS = ["observation times are arbitrary reals in any order, the step any positive real with at most the stated number of nodes"]


def ut(E):
    return E.mod("signals.utils")


def lerp(E, n, nodes, tier="quick", kind="free"):
    @instance("P31", "interp-%s-%d" % (kind, n), tier=tier, bounds="%d TOAs in any order (ties included), any step, at most %d nodes" % (n, nodes), maxpaths=3000, tmo=300)
    def h(E):
        np, u = E.np, ut(E)
        t = E.array([E.real("t%d" % i, s=(0.0, 3.0)) for i in range(n)])
        if kind == "nodes":
            # TOAs exactly on nodes (representable values: no rounding in the replay)
            dt = E.const(2)
            t = E.array([5 + E.choose("k%d" % i, nodes) * dt for i in range(n)])
        else:
            dt = E.pos("dt", s=(0.9, 2.5))
            for i in range(n):
                for j in range(n):
                    if i != j:
                        E.assume_le(t[i] - t[j], (nodes - 1) * dt)
        old = E.snapshot(t)
        M, x = u.linear_interp_basis(t, dt=dt)
        k = len(x)
        E.true("shape", M.shape == (n, k))
        E.eq("rows sum to one", np.sum(M, axis=1) if k else E.array([0] * n), E.array([1] * n))
        E.le("non-negative", 0, M)
        E.le("at most one", M, 1)
        # any function linear between nodes: checked for the values at the nodes (a, b arbitrary)
        a, b = E.real("a"), E.real("b")
        E.eq("linear functions", np.dot(M, a + b * x) if k else E.array([0] * n), a + b * t)
        if k > 1:
            E.lt("nodes increasing", x[:-1], x[1:])
        for i in range(n):
            nz = [j for j in range(k) if bool(M[i, j] != 0)]
            E.true("at most two adjacent", len(nz) in (1, 2) and nz[-1] - nz[0] <= 1)
            # the interpolation interval contains the time
            E.le("interval", x[nz[0]], t[i])
            E.le("interval end", t[i], x[nz[-1]])
            if len(nz) == 2:
                E.eq("spacing", x[nz[1]] - x[nz[0]], dt)
        lo = t[0]
        for s in t[1:]:
            lo = s if bool(s < lo) else lo
        E.eq("first node", x[0], lo)
        E.eq("times unchanged", t, old)
    return h


lerp(None, 1, 1)
lerp(None, 2, 3)
lerp(None, 3, 3)
lerp(None, 3, 4, kind="nodes")
lerp(None, 3, 5, "thorough", kind="deep")
lerp(None, 4, 3, "thorough", kind="wide")


@instance("P31", "interp-default", bounds="default step of 30 days, 2 TOAs up to 75 days apart in any order")
def default(E):
    np = E.np
    t0, d = E.real("t0"), E.pos("d", s=(5, 70))
    E.assume_lt(d, E.const(75))
    t = E.array([t0, t0 + d]) * 86400
    if E.choose("order", 2):
        t = t[::-1]
    M, x = ut(E).linear_interp_basis(t)
    E.eq("nodes", M.dot(x) if not E.symbolic else np.dot(M, x), t)
    day = E.const(30 * 86400)
    for k in range(1, len(x)):
        E.among("nodes are steps from the first", x[k] - x[0], [day, 2 * day, 3 * day])


def matrices(E, n, m):
    """every 0/1 grouping matrix: each TOA in one of m groups or none; entries 1 or any positive weight"""
    w = E.choose("weights", 2)
    U = [[0] * m for _ in range(n)]
    idx = [[] for _ in range(m)]
    for i in range(n):
        g = E.choose("g%d" % i, m + 1)
        if g < m:
            U[i][g] = E.pos("w%d" % i) if w else 1
            idx[g].append(i)
    return U, idx


def indices(x, n):
    import numpy as np

    return list(range(n))[x] if isinstance(x, slice) else [int(k) for k in np.asarray(x)]


@instance("P31", "quant2ind", bounds="every grouping of 4 TOAs into up to 2 non-empty groups, unit or any positive weights")
def quant2ind(E):
    u = ut(E)
    U, idx = matrices(E, 4, 2)
    E.assume(lambda: all(idx))
    M = E.array(U)
    for sl in (False, True):
        got = u.quant2ind(M, as_slice=sl)
        E.true("one entry per column", len(got) == 2)
        for g in range(2):
            contiguous = idx[g][-1] - idx[g][0] + 1 == len(idx[g])
            E.true("kind", isinstance(got[g], slice) == (sl and contiguous))
            E.true("indices", indices(got[g], 4) == idx[g])
            E.true("as array", indices(u.indices_from_slice(got[g]), 4) == idx[g])
    E.eq("default is index lists", E.array(indices(u.quant2ind(M)[0], 4)), E.array(idx[0]))


@instance("P31", "from-slice", bounds="every slice with start 0-4, stop 0-5, steps 1-2, and start omitted; index arrays are passed through")
def fromslice(E):
    import numpy as rnp

    u = ut(E)
    st = E.choose("start", 6)
    en = E.choose("stop", 6)
    by = (None, 1, 2)[E.choose("step", 3)]
    s = slice(None if st == 5 else st, en, by)
    E.true("indices", list(u.indices_from_slice(s)) == list(range(en))[s])
    a = rnp.array([3, 1, 2])
    E.true("array", list(u.indices_from_slice(a)) == [3, 1, 2])


@instance("P31", "quantize", bounds="3 TOAs at any times in any order, any window, minimum group size 1-3: groups read back from the grouping matrix")
def quantize(E):
    u = ut(E)
    t = E.array([E.real("t%d" % i, s=(0, 3)) for i in range(3)])
    w = E.pos("dt", s=(0.4, 1.5))
    nmin = 1 + E.choose("nmin", 3)
    U, wt = u.create_quantization_matrix(t, dt=w, nmin=nmin)
    order = sorted(range(3), key=__import__("functools").cmp_to_key(lambda i, j: -1 if bool(t[i] < t[j]) else 1 if bool(t[j] < t[i]) else i - j))
    groups = []
    for i in order:
        if groups and bool(t[i] - t[groups[-1][0]] < w):
            groups[-1].append(i)
        else:
            groups.append([i])
    groups = [sorted(g) for g in groups if len(g) >= nmin]
    E.true("groups", [indices(x, 3) for x in u.quant2ind(U)] == groups)
    E.true("groups as slices", [indices(x, 3) for x in u.quant2ind(U, as_slice=True)] == groups)
    E.eq("weights", wt, E.array([1] * len(groups)))
