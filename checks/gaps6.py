"""instances for objects that are used again with other data: one selection, model or matrix after another"""
from vlib.harness import instance
from . import common as c


@instance("P12", "selection used again", bounds="one selection (5 kinds) used for two pulsars of the same name and number of TOAs, every assignment of 2 labels to the 2 x 3 TOAs, then again for the first", maxpaths=64)
def used(E):
    from .p12 import by, check, labels, ps, se

    s = se(E)
    A, B = (labels(E, k, 3, ["ASP", "x"]).astype("U8") for k in "ab")
    mk = lambda l: ps(E, "A", 3, backend_flags=l, telescope=l.copy(), flags={"fe": l.copy(), "B": l.copy()})
    p, q = mk(A), mk(B)
    for nm, f, keep in (("backend", s.by_backend, None), ("telescope", s.by_telescope, None), ("frontend", s.by_frontend, None),
                        ("band", s.by_band, None), ("list", s.custom_backends(["ASP"]), ["ASP"])):
        S = s.Selection(f)
        for k, (x, l) in enumerate(((p, A), (q, B), (p, A))):
            check(E, "%s use %d" % (nm, k), S(x).masks, by(l, keep))
        # one pulsar whose labels are corrected between two uses
        r = mk(A.copy())
        sel = S(r)
        check(E, nm + " before", sel.masks, by(A, keep))
        r.backend_flags[:] = B
        r.telescope[:] = B
        r.flags["fe"][:] = B
        r.flags["B"][:] = B
        check(E, nm + " after", S(r).masks, by(B, keep))


@instance("P19", "matrix changed in place", bounds="3x2 design matrix (rational-rotation singular vectors) replaced in place by another one between two uses: unscaled, scaled and singular-vector bases, and the timing-model signal built from it")
def inplace(E):
    from .p19 import rot_svd, scaled, ut

    np, u, gp = E.np, ut(E), E.mod("signals.gp_signals")
    M, W = rot_svd(E), E.known_svd(np.eye(3), E.array([2, 1]), np.eye(2))
    want = E.snapshot(M)
    for k in range(2):
        if k:
            W[...] = want
        B = u.svd_tm_basis(W)[0]
        E.eq("orthonormal %d" % k, np.dot(B.T, B), np.eye(2), atol=1e-9)
        E.eq("column space %d" % k, np.dot(B, np.dot(B.T, W)), W)
        E.eq("unscaled %d" % k, u.unnormed_tm_basis(W)[0], W)
        E.eq("scaled %d" % k, u.normed_tm_basis(W)[0], scaled(E, W, [0, 1]))
        E.eq("stabilized %d" % k, u.create_stabletimingdesignmatrix(W), scaled(E, W, [0, 1]))
        s = gp.TimingModel(normed=True)(c.pulsar(E, "A", 3, Mmat=W))
        E.eq("signal %d" % k, s.get_basis({}), scaled(E, W, [0, 1]))


@instance("P26", "tables of every model", bounds="the orbital-element tables of two of the four models (every ordered pair), asked for in turn and the first again: any entries")
def tables(E):
    import os

    from .p26 import ut

    u = ut(E)
    models = ("setIII", "setIII_1980", "orbel", "orbel-v2")
    data = {}
    for m in models:
        for f in ("jupiter-%s-mjd.npy", "jupiter-%s-xyz-svd.npy", "saturn-%s-xyz-svd.npy"):
            data[f % m] = E.vec((f % m).replace("-", "_").replace(".", "_"), 2)
    E.patch(E.np, "load", lambda p, *a, **k: data[os.path.basename(getattr(p, "name", str(p)))].copy())
    a = models[E.choose("first", 4)]
    b = models[E.choose("second", 4)]
    for k, m in enumerate((a, b, a)):
        t, j, s = u.get_planet_orbital_elements(m)
        E.eq("epochs %d" % k, t, data["jupiter-%s-mjd.npy" % m])
        E.eq("jupiter %d" % k, j, data["jupiter-%s-xyz-svd.npy" % m])
        E.eq("saturn %d" % k, s, data["saturn-%s-xyz-svd.npy" % m])
    E.eq("default", u.get_planet_orbital_elements()[1], data["jupiter-setIII-xyz-svd.npy"])
