"""Redistancing.  The fast marching module is called on random fields of every
shape and spacing; signs, distances and slopes of the result are compared with
what a signed distance satisfies, exactly where it is known (planar interfaces
along the axes), through the discrete equation elsewhere, and through mirrors,
exchange of axes and scaling."""
from env import *

RULE = ("random level-set fields (planes, discs, bands, noise, smooth waves, "
        "zeros at cell centres) on 1-D and 2-D grids of 3-30 cells a side, cell "
        "sizes over five decades and unequal in the directions; non-trivial: "
        "the field changes sign")
ASSUME = ["values not below 1e-15 in size unless zero (the code's threshold)"]


def jobs(tier):
    q = tier == "quick"
    n = 2000 if q else 30000
    J = []
    for f in ("line", "planar", "general", "round_", "helpers"):
        J += jobs_for(["default"] if q else ["default", "multi3"], f,
                      parts=1 if q else 2, args=dict(n=n))
    return J


def dist(phi, dX):
    f = np.ascontiguousarray(np.ravel(phi)).copy()
    return np.array(GPRpy.system.multi.distance(
        f, np.array(dX, float), np.array(np.shape(phi), np.int32))).reshape(
            np.shape(phi))


def line(m, n, part=0):
    """In one dimension the answer is known exactly."""
    for k, g in m.cases(f"line{part}", n):
        nx = int(g.integers(3, 40))
        h = float(10 ** g.uniform(-4, 3))
        x = (np.arange(nx) + .5) * h
        kind = k % 4
        if kind == 0:           # one crossing
            c = g.uniform(0, nx) * h
            phi = (x - c) * (1 - 2 * (g.random() < .5)) * g.uniform(.3, 3)
        elif kind == 1:         # bands
            cs = np.sort(g.uniform(0, nx, int(g.integers(2, 5)))) * h
            phi = np.prod([(x - c) / h for c in cs], axis=0) * h
        elif kind == 2:
            phi = g.normal(size=nx) * h
        else:
            phi = np.round(g.normal(size=nx) * 1.5) * h
        phi = np.where(np.abs(phi) < 1e-12 * h, 0., phi)
        m.desc(phi, nx=nx, h=h, kind=kind)
        d = dist(phi, [h])
        sgn(m, phi, d)
        # crossings: zeros, and linear interpolation between opposite signs
        z = [x[i] for i in range(nx) if phi[i] == 0]
        near = {}
        for i in range(nx - 1):
            if phi[i] * phi[i + 1] < 0:
                c = x[i] + h * phi[i] / (phi[i] - phi[i + 1])
                near.setdefault(i, []).append(c)
                near.setdefault(i + 1, []).append(c)
                z.append(c)
        if not z:
            m.ok("no interface: unchanged", np.array_equal(d, phi),
                 f"{phi} -> {d}")
            m.trivial()
            continue
        s = np.where(phi >= 0, 1., -1.)
        want = s * np.min(np.abs(x[:, None] - np.array(z)[None]), axis=1)
        m.close("distance on a line", d, want, 1e-11, h * nx, ctx=f"{phi}")


def sgn(m, phi, d):
    m.ok("finite", np.isfinite(d).all(), f"{phi.shape}")
    ok = (np.sign(phi) == np.sign(d)) | ((phi == 0) & (d == 0))
    m.ok("signs kept", ok.all(), f"{phi[~ok][:4]} became {d[~ok][:4]}")
    m.ok("same material", np.array_equal(phi >= 0, d >= 0))
    m.count("cells", phi.size)
    m.count("interface cells", np.sum(np.abs(np.diff(phi >= 0, axis=0))))


def planar(m, n, part=0):
    for k, g in m.cases(f"planar{part}", n):
        nX = [int(x) for x in g.integers(3, 20, 2)]
        dX = 10 ** g.uniform(-3, 2) * np.array([1., 10 ** g.uniform(-1, 1)])
        a = int(g.integers(2))
        x = (np.arange(nX[a]) + .5) * dX[a]
        L = nX[a] * dX[a]
        c = g.uniform(.02, .98) * L
        s = 1 - 2 * (g.random() < .5)
        if k % 3:
            f = s * (x - c)
        else:
            f = s * (np.abs(x - c) - g.uniform(.5, 4) * dX[a])
        f1 = f * float(10 ** g.uniform(-1, 1))      # not a distance yet
        phi = np.broadcast_to(f1[:, None] if a == 0 else f1[None], nX).copy()
        m.desc(phi, nX=nX, dX=list(dX), axis=a)
        d = dist(phi, dX)
        sgn(m, phi, d)
        if not (f < 0).any() or not (f >= 0).any():
            m.trivial()
            m.ok("no interface: unchanged", np.array_equal(d, phi))
            continue
        d1 = dist(f1, [dX[a]])
        want = np.broadcast_to(d1[:, None] if a == 0 else d1[None], nX)
        m.close("rows of a planar interface are the line", d, want, 1e-11, L)
        if k % 3:
            want = np.broadcast_to(f[:, None] if a == 0 else f[None], nX)
            m.close("distance to a planar interface", d, want, 1e-11, L)


def field(g, nX, dX):
    X = np.stack(np.meshgrid(*[(np.arange(n) + .5) * h for n, h in
                               zip(nX, dX)], indexing="ij"), -1)
    L = np.array(nX) * dX
    kind = int(g.integers(5))
    c = L * g.uniform(.1, .9, len(nX))
    h = max(dX)
    if kind == 0:
        nn = g.normal(size=len(nX))
        return (X - c) @ (nn / np.linalg.norm(nn)), "plane"
    if kind == 1:
        return (1 - 2 * (g.random() < .5)) * (np.linalg.norm(X - c, axis=-1)
                                              - min(L) * g.uniform(.1, .6)), \
            "disc"
    if kind == 2:
        return h * g.normal(size=nX), "noise"
    if kind == 3:
        f = sum(np.sin(2 * np.pi * (X / L @ g.uniform(-2, 2, len(nX)))
                       + g.uniform(0, 6)) for _ in range(3)) + g.normal() * .5
        return f * h, "waves"
    return h * np.round(g.normal(size=nX)), "integers"


def border(phi):
    """Cells next to a change of sign, or zero."""
    b = phi == 0
    for d in range(phi.ndim):
        p = np.moveaxis(phi, d, 0)
        c = p[1:] * p[:-1] < 0
        q = np.moveaxis(b, d, 0)
        q[1:] |= c
        q[:-1] |= c
    return b


def crossing(phi, dX):
    """Smallest distance to a crossing along an axis."""
    out = np.full(phi.shape, np.inf)
    per = []
    for d in range(phi.ndim):
        p = np.moveaxis(phi, d, 0)
        o = np.full(p.shape, np.inf)
        with np.errstate(all="ignore"):
            t = np.where(p[1:] * p[:-1] < 0, p[:-1] / (p[:-1] - p[1:]), np.nan)
        o[:-1] = np.fmin(o[:-1], t * dX[d])
        o[1:] = np.fmin(o[1:], (1 - t) * dX[d])
        o = np.moveaxis(o, 0, d)
        per.append(o)
        out = np.minimum(out, o)
    # the plane through the crossings
    with np.errstate(all="ignore"):
        perp = sum(np.where(np.isfinite(o), 1 / o ** 2, 0.)
                   for o in per) ** -.5
    return np.where(phi == 0, 0., out), np.where(phi == 0, 0., perp)


def general(m, n, part=0):
    for k, g in m.cases(f"general{part}", n):
        nX = [int(x) for x in g.integers(3, 24 if k % 20 else 70, 2)]
        h = float(10 ** g.uniform(-4, 3))
        dX = h * np.array([1., 1. if g.random() < .4 else
                           10 ** g.uniform(-.7, .7)])
        phi, kind = field(g, nX, dX)
        phi = np.where(np.abs(phi) < 1e-12 * h, 0., phi)
        m.desc(phi, nX=nX, dX=list(dX), kind=kind)
        d = dist(phi, dX)
        sgn(m, phi, d)
        b = border(phi)
        if not b.any():
            m.trivial()
            m.ok("no interface: unchanged", np.array_equal(d, phi))
            continue
        ad = np.abs(d)
        ax, perp = crossing(phi, dX)
        L = h * max(nX) * 10
        m.ok("interface cells: not beyond the nearest crossing",
             (ad[b] <= ax[b] * (1 + 1e-9) + 1e-12 * h).all(),
             f"{kind} {nX} {dX}")
        m.ok("interface cells: not nearer than the crossings' plane",
             (ad[b] >= perp[b] * (1 - 1e-9) - 1e-12 * h).all(),
             f"{kind} {nX} {dX}")
        # elsewhere: upwind slope of one
        lo = np.full(ad.shape, np.inf)
        res = np.zeros(ad.shape)
        for a in range(2):
            p = np.moveaxis(ad, a, 0)
            q = np.full(p.shape, np.inf)
            q[1:] = np.minimum(q[1:], p[:-1])
            q[:-1] = np.minimum(q[:-1], p[1:])
            # only cells of the same side, or on it
            s = np.moveaxis(phi >= 0, a, 0)
            q = np.moveaxis(q, 0, a)
            lo = np.minimum(lo, q)
            res += (np.maximum(ad - q, 0) / dX[a]) ** 2
        far = ~b
        if dX[0] != dX[1]:
            # next to interface cells of long cells the marching also uses
            # neighbours further than the cell itself
            nb = b.copy()
            for a in range(2):
                q, p = np.moveaxis(nb, a, 0), np.moveaxis(b, a, 0)
                q[1:] |= p[:-1]
                q[:-1] |= p[1:]
            m.ok("slope at most one next to the interface",
                 (res[nb & ~b] <= 1 + 1e-6).all() and
                 (res[nb & ~b] > .1).all(), f"{kind} {nX} {dX} "
                 f"{res[nb & ~b].min(initial=9)}")
            far = ~nb
        m.close("slope of one away from the interface", res[far],
                np.ones(far.sum()), 1e-6, 1., ctx=f"{kind} {nX} {dX}")
        # symmetries
        for a in range(2):
            m.close("mirrors", np.flip(dist(np.flip(phi, a).copy(), dX), a), d,
                    1e-10, L, ctx=f"{kind} {nX} {dX} axis {a}")
        m.close("axes exchanged", dist(phi.T.copy(), dX[::-1].copy()).T, d,
                1e-10, L, ctx=f"{kind} {nX} {dX}")
        m.close("both sides exchanged", -dist(-phi, dX), d, 1e-10, L,
                ctx=f"{kind} {nX} {dX}")
        c = float(10 ** g.uniform(-2, 2))
        m.close("steeper field, same interface", dist(phi * c, dX), d, 1e-10,
                L, ctx=f"{kind} {nX} {dX}")
        m.close("lengths scaled", dist(phi * c, dX * c) / c, d, 1e-10, L,
                ctx=f"{kind} {nX} {dX}")
        # once a distance, the interface stays
        d2 = dist(d, dX)
        m.ok("again: same signs", np.array_equal(np.sign(d2), np.sign(d)),
             f"{kind} {nX} {dX}")


def round_(m, n, part=0):
    """Accuracy for circles and oblique lines, and its order."""
    for k, g in m.cases(f"round{part}", max(10, n // 10)):
        ang = g.uniform(0, 2 * np.pi)
        c = g.uniform(.4, .6, 2)
        r = g.uniform(.2, .35)
        what = "disc" if k % 2 else "plane"
        asp = float(g.choice([1., 1., .5, 2.]))
        errs = []
        for nx in (20, 40):
            dX = np.array([1., asp]) / nx
            nX = [nx, int(round(nx / asp))]
            X = np.stack(np.meshgrid(*[(np.arange(q) + .5) * h for q, h in
                                       zip(nX, dX)], indexing="ij"), -1)
            if what == "disc":
                f = np.linalg.norm(X - c, axis=-1) - r
            else:
                f = (X - c) @ np.array([np.cos(ang), np.sin(ang)])
            w = f * (1 + .5 * np.sin(3 * X[..., 0]) ** 2) * 2   # not a distance
            d = dist(w, dX)
            sgn(m, w, d)
            h = max(dX)
            near = np.abs(f) < 3 * h
            if what == "plane":
                # characteristics that enter through the edge are unknown
                foot = X - f[..., None] * np.array([np.cos(ang), np.sin(ang)])
                inside = ((foot > 2 * h) & (foot < 1 - 2 * h)).all(-1)
            else:
                inside = np.linalg.norm(X - c, axis=-1) > 3 * h
            e1 = np.abs(d - f)[near & inside]
            e2 = np.abs(d - f)[inside]
            m.close("near distances", e1, np.zeros(e1.size), 1.2 * h, 1.,
                    ctx=f"{what} {nx}")
            m.close("far distances", e2, np.zeros(e2.size), 2.2 * h, 1.,
                    ctx=f"{what} {nx}")
            errs.append(e2.max(initial=0))
        m.desc(c, what=what, r=r, angle=ang, errors=errs)


def helpers(m, n, part=0):
    """The functions around it."""
    for k, g in m.cases(f"helpers{part}", n):
        ndim = 1 + k % 2
        nX = [int(x) for x in g.integers(3, 16, ndim)]
        h = float(10 ** g.uniform(-3, 2))
        dX = h * np.array([1., 10 ** g.uniform(-.5, .5)])[:ndim]
        nc = int(np.prod(nX))
        u = g.normal(size=(nc, NV))
        ls = np.stack([field(g, nX, dX)[0].ravel() for _ in range(LSET)], -1)
        ls = np.where(np.abs(ls) < 1e-12 * h, 0., ls)
        u[:, NV - LSET:] = ls
        m.desc(u, nX=nX, dX=list(dX))
        un = np.asarray(u.copy())
        r = GPRpy.multi.renormalize_levelsets(un, np.array(dX, float),
                                              np.array(nX, np.int32))
        m.ok("only level sets change", np.array_equal(
            un[:, :NV - LSET], u[:, :NV - LSET]))
        for j in range(LSET):
            want = dist(ls[:, j].reshape(nX), dX).ravel()
            m.close("each level set by itself", un[:, NV - LSET + j], want,
                    1e-12, h * 100)
        # finite differences: exact for linear and, inside, quadratic fields
        X = np.stack(np.meshgrid(*[(np.arange(q) + .5) * s for q, s in
                                   zip(nX, dX)], indexing="ij"),
                     -1).reshape(nc, ndim) / h
        a, B = g.normal(size=ndim), g.normal(size=(ndim, ndim))
        quad = g.random() < .5
        f = X @ a + (np.einsum("ni,ij,nj->n", X, B, X) if quad else 0)
        D = np.zeros((nc, ndim))
        GPRpy.multi.finite_difference(D, f.copy(), np.array(dX, float),
                                      np.array(nX, np.int32))
        want = (a + (X @ (B + B.T) if quad else 0)) / h * np.ones((nc, 1))
        G = D.reshape(tuple(nX) + (ndim,))
        W = want.reshape(tuple(nX) + (ndim,))
        for d in range(ndim):
            x = np.moveaxis(G[..., d], d, 0)
            w = np.moveaxis(W[..., d], d, 0)
            m.close("derivatives inside", x[1:-1], w[1:-1], 1e-9,
                    np.abs(f).max() / min(dX))
            m.close("derivatives at the edge", x[[0, -1]], x[[1, -2]], 0., 1.)
        # material indicator: negative exactly in the own cells
        nmat = LSET + 1
        v = un.copy()
        v[:, NV - LSET:] = -np.sort(-v[:, NV - LSET:], axis=1)
        mi = (v[:, NV - LSET:] >= 0).sum(1)
        for mat in range(nmat):
            phi = np.zeros(nc)
            GPRpy.multi.material_indicator(phi, v, mat, nmat,
                                           np.array(dX, float),
                                           np.array(nX, np.int32))
            zero = phi == 0
            m.ok("indicator tells the own cells", np.array_equal(
                (phi <= 0), mi == mat),
                f"material {mat} of {nmat} {nX}: {np.flatnonzero((phi <= 0) != (mi == mat))[:4]}")
