"""P04: every white-noise covariance representation solves the dense matrix it stands for."""
from vlib.harness import instance

ASSUMPTIONS = [
    "epoch blocks are disjoint and hold at least two TOAs (what create_quantization_matrix(nmin=2) produces)",
    "noise variances and jitter variances are positive",
]
LAYOUTS = {
    "two-blocks": (5, [[0, 1], [2, 3, 4]]),
    "gap": (5, [[1, 2, 3]]),
    "interleaved": (5, [[0, 3], [1, 4]]),
    "none": (3, []),
    "one": (2, [[0, 1]]),
}


def contiguous(b):
    return b == list(range(b[0], b[-1] + 1))


def slices(E, blocks, style):
    import numpy as np

    if style == "slice":
        return [slice(b[0], b[-1] + 1) for b in blocks]
    return [np.array(b) for b in blocks]


def build(E, rep, n, blocks, nv, jv, style):
    sb = E.mod("signals.signal_base")
    if rep == "diag":
        return sb.ndarray_alt(nv)
    sl = slices(E, blocks, style)
    if rep == "sm":
        return sb.ShermanMorrison(jv, sl)
    if rep == "fsm":
        ws = E.mod("signals.white_signals")
        return ws.fastshermanmorrison.FastShermanMorrison(jv, sl)
    if rep == "block":
        bl = [E.array([[jv[k]] * len(b)] * len(b)) for k, b in enumerate(blocks)]
        return sb.BlockMatrix(bl, sl, nvec=E.array([0] * n) + 0 * nv)
    if rep == "sparse":
        d = E.np.zeros((n, n))
        for k, b in enumerate(blocks):
            for i in b:
                for j in b:
                    d[i, j] = jv[k]
        return sb.csc_matrix_alt(d)


def dense(E, n, blocks, nv, jv):
    N = E.np.diag(nv)
    for k, b in enumerate(blocks):
        for i in b:
            for j in b:
                N[i, j] = N[i, j] + jv[k]
    return N


def combos(E, N, D, n, rep, m=2):
    """solve() against the dense matrix D for the argument shapes the library uses"""
    np = E.np
    r, l = E.vec("r", n), E.vec("l", n)
    A, B = E.mat("A", n, m), E.mat("B", n, 3)
    keep = [E.snapshot(x) for x in (r, l, A, B)]
    Di = E.inv(D)
    ld = E.logdet(D)
    E.eq("N^-1 r", N.solve(r), np.dot(Di, r))
    v, g = N.solve(r, left_array=l, logdet=True)
    E.eq("l N^-1 r", v, np.dot(l, np.dot(Di, r)))
    E.eq("logdet", g, ld)
    v, g = N.solve(r, left_array=r, logdet=True)
    E.eq("r N^-1 r", v, np.dot(r, np.dot(Di, r)))
    E.eq("A N^-1 r", N.solve(r, left_array=A), np.dot(A.T, np.dot(Di, r)))
    E.eq("A N^-1 A", N.solve(A, left_array=A), np.dot(A.T, np.dot(Di, A)))
    v, g = N.solve(B, left_array=A, logdet=True)
    E.eq("A N^-1 B", v, np.dot(A.T, np.dot(Di, B)))
    E.eq("logdet2", g, ld)
    if rep != "fsm":
        v = N.solve(A, left_array=r)
        E.eq("r N^-1 A", v, np.dot(r, np.dot(Di, A)) if rep not in ("sm",) else np.dot(A.T, np.dot(Di, r)))
    if rep not in ("sm", "fsm"):
        E.eq("N^-1 A", N.solve(A), np.dot(Di, A))
    v, g = N.solve(r, logdet=True)
    E.eq("N^-1 r with logdet", v, np.dot(Di, r))
    E.eq("logdet1", g, ld)
    for nm, x, y in zip("rlAB", (r, l, A, B), keep):
        E.eq("input %s unchanged" % nm, x, y)


def make(rep, lay, style, order):
    n, blocks = LAYOUTS[lay]

    @instance("P04", "%s-%s-%s-%s" % (rep, lay, style, order), bounds="n=%d TOAs, blocks %s, 2/3-column left/right arrays" % (n, blocks),
              tier="quick")
    def h(E):
        ws = E.mod("signals.white_signals")
        sb = E.mod("signals.signal_base")
        nv = E.array([E.pos("n%d" % i) for i in range(n)])
        jv = E.array([E.pos("j%d" % k) for k in range(len(blocks))])
        w = sb.ndarray_alt(nv)
        keepn, keepj = E.snapshot(nv), E.snapshot(jv)
        if rep == "diag":
            w2 = E.array([E.pos("m%d" % i) for i in range(n)])
            N = {"left": lambda: w + sb.ndarray_alt(w2), "right": lambda: sb.ndarray_alt(w2) + w, "sum": lambda: sum([w, sb.ndarray_alt(w2)]),
                 "late": lambda: sum([w, sb.ndarray_alt(w2)])}[order]()
            D = E.np.diag(nv + w2)
        else:
            K = build(E, rep, n, blocks, nv, jv, style)
            D = dense(E, n, blocks, nv, jv)
            if order == "left":
                N = w + K
            elif order == "right":
                N = K + w
            elif order == "late":
                w2 = E.array([E.pos("m%d" % i) for i in range(n)])
                N = sum([w, K, sb.ndarray_alt(w2)])
                D = dense(E, n, blocks, nv + w2, jv)
            else:
                N = sum([K, w])
            if rep != "diag":
                # adding noise to a kernel must not change the kernel already built
                N2 = K + sb.ndarray_alt(nv + 1)
        combos(E, N, D, n, rep)
        E.eq("nvec unchanged", nv, keepn)
        E.eq("jvec unchanged", jv, keepj)

    return h


for rep in ("sm", "fsm", "block", "sparse"):
    for lay, style, order in (("two-blocks", "slice", "sum"), ("gap", "slice", "left"), ("interleaved", "index", "right"), ("gap", "index", "late"), ("one", "slice", "sum")):
        make(rep, lay, style, order)
for order in ("left", "right", "sum"):
    make("diag", "none", "slice", order)


# one-column left and right arrays keep their documented shapes for every representation
def make1(rep):
    @instance("P04", "%s-one-column" % rep, bounds="n=4, one-column left and right arrays")
    def h(E):
        np = E.np
        n, blocks = 4, [[0, 1], [2, 3]]
        nv = E.array([E.pos("n%d" % i) for i in range(n)])
        jv = E.array([E.pos("j%d" % k) for k in range(2)])
        N = sum([E.mod("signals.signal_base").ndarray_alt(nv), build(E, rep, n, blocks, nv, jv, "slice")])
        Di = E.inv(dense(E, n, blocks, nv, jv))
        r, A, B = E.vec("r", n), E.mat("A", n, 1), E.mat("B", n, 3)
        E.eq("A N^-1 A", N.solve(A, left_array=A), np.dot(A.T, np.dot(Di, A)))
        E.eq("A N^-1 B", N.solve(B, left_array=A), np.dot(A.T, np.dot(Di, B)))
        E.eq("B N^-1 A", N.solve(A, left_array=B), np.dot(B.T, np.dot(Di, A)))
        E.eq("A N^-1 r", N.solve(r, left_array=A), np.dot(A.T, np.dot(Di, r)))

    return h


for rep in ("sm", "fsm", "block", "sparse"):
    make1(rep)
