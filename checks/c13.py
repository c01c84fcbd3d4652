"""Boundary conditions: one step on a domain with a boundary condition is
compared with one step on a larger domain whose extra cells are laid out, by an
independent rule, as the condition prescribes."""
from env import *
if WORKER:
    import sim
    import work

# seen from the name of the build, as the module does not tell
DESTRESS = "DESTRESStrue" in os.path.basename(os.environ.get("GPRMON_SO", ""))
RULE = ("random rough fields x the 6 conditions on every side x 3 fluxes x both "
        "schemes x 16 materials, one and two dimensions, grids down to the "
        "smallest, 1-3 threads; non-trivial: distinct fields")
ASSUME = ["two-dimensional grids are compared in a configuration without "
          "one-sided reconstruction (NO_CORNERS off), or away from the edges"]
NAMES = ["transmissive", "periodic", "slip", "stick", "moving", "symmetric"]


def jobs(tier):
    q = tier == "quick"
    n = 300 if q else 2500
    J = jobs_for(["default", "thermulti"] if q else
                 ["default", "thermulti", "n1", "n3", "n4", "prim", "bare",
                  "multi3"],
                 "one", args=dict(n=n), parts=2)
    J += jobs_for(["destress"], "one", args=dict(n=n // 2))
    J += jobs_for(["corners"] if q else ["corners", "corners_t", "corners_n3"],
                  "two", args=dict(n=n // 2), parts=3)
    J += jobs_for(["lset1"] if q else ["lset1", "default"], "interface",
                  args=dict(n=n // 2), parts=2)
    J += jobs_for(["default"], "masks", args=dict(n=4 * n))
    return J


def ghost(c, kind, d):
    """The mirror image of a cell."""
    q = np.array(c)
    if kind == 0:
        return q
    if kind == 2:
        q[2 + d] = -q[2 + d]
    elif kind == 3:
        q[2:5] = -q[2:5]
    elif kind == 4:
        v = q[2:5] / q[0]
        w = np.array([2., 0, 0]) - v
        q[2:5] = q[0] * w
        q[1] += q[0] * (w @ w - v @ v) / 2
    if kind in (2, 3, 4) and DESTRESS:
        # the mean of a cell and its image has a distortion without strain
        A = q[5:14].reshape(3, 3)
        w, R = np.linalg.eigh(A.T @ A)
        q[5:14] = (2 * abs(np.linalg.det(A)) ** (1 / 3) * A @
                   (R / np.sqrt(w)) @ R.T - A).ravel()
    if kind == 5:
        s = np.ones(3)
        s[d] = -1
        q[2:5] *= s
        q[5:14] = (np.outer(s, s) * q[5:14].reshape(3, 3)).ravel()
        if THERMAL:
            q[14:17] *= s
    return q


def extend(u, kinds, d, n):
    """n more cells on both sides of dimension d."""
    u = np.moveaxis(u, d, 0)
    L = len(u)
    out = np.zeros((L + 2 * n,) + u.shape[1:])
    out[n:n + L] = u
    for k in range(n):
        for side in (0, 1):
            kind = kinds[side]
            src = {0: 0, 1: L - 1 - k}.get(kind, k)
            if side:
                src = L - 1 - src
            dst = n - 1 - k if not side else n + L + k
            for i in np.ndindex(*u.shape[1:-1]):
                out[(dst,) + i] = u[(src,) + i] if kind < 2 else \
                    ghost(u[(src,) + i], kind, d)
    return np.moveaxis(out, 0, d)


def pair(m, g, u, nX, dX, MPs, M, bcs, o, oracle, ctx, tol, inner=None):
    dt = .01 * work.dt_est(u, dX, M, .5) if M is not None else o.pop("tf")
    big = u
    for d in range(len(nX)):
        big = extend(big, bcs[2 * d:2 * d + 2], d, N)
    bX = list(big.shape[:-1])
    a = sim.run(u, dt, nX, dX, MPs, bcs=bcs, cfl=.9, **o)
    omp(1)
    b = sim.run(big, dt, bX, dX, MPs, cfl=.9, **o)
    if not m.ok("one step", len(a.dt) == 1 and len(b.dt) == 1, ctx):
        return
    got = a.final.reshape(u.shape)
    want = b.final.reshape(big.shape)[tuple(slice(N, -N) for _ in nX)]
    if not np.isfinite(want).all():
        m.trivial()
        return
    return got, want, a


def judge(m, u, got, want, a, M, oracle, ctx, tol):
    # errors are measured against what the step changes and against rounding
    sc = work.scale(u, M)
    ch = np.abs(want - u).reshape(-1, NV).max(0)
    m.close(oracle, got - u, want - u, tol, np.broadcast_to(
        ch + sc * 1e-13 / tol, u.shape), ctx=ctx)


def options(g, nm):
    mild = nm in work.MILD
    split = bool(g.random() < (.5 if mild else 1.))
    return dict(split=split, half=bool(g.random() < .7), stiff=False, flux=0)


def kinds(g, ndim, k):
    b = []
    for d in range(ndim):
        a = [int(g.integers(6)), int(g.integers(6))]
        if d == 0:
            a[k % 2] = (k // 2) % 6
        if 1 in a:
            a = [1, 1] if g.random() < .5 or a[k % 2] == 1 else \
                [x if x != 1 else 0 for x in a]
        b += a
    return b


def one(m, n, part=0):
    for k, g in m.cases(f"one{part}", n):
        nm = str(g.choice(work.ANY))
        M = mats.mat(nm)
        nX = [int(g.integers(max(N, 2), 12))]
        dX = [float(10 ** g.uniform(-2, 1))]
        u, _ = work.field(g, nX, nm, M, "rough", .5)
        bcs = kinds(g, 1, k)
        o = options(g, nm)
        if not any(x > 1 for x in bcs):
            o["flux"] = int(g.integers(3))
        omp(int(g.integers(1, min(4, nX[0] + 1))))
        ctx = f"{nm} {nX} {[NAMES[x] for x in bcs]} {o}"
        m.desc(u, material=nm, nX=nX, bcs=[NAMES[x] for x in bcs], **o)
        r = pair(m, g, u, nX, dX, [M] * (LSET + 1), M, bcs, o, "", ctx, 0)
        if r:
            judge(m, u, *r, M, "step next to " + NAMES[bcs[k % 2]], ctx,
                  1e-8 if not (THERMAL or o["flux"] or DESTRESS) else 1e-4)


def two(m, n, part=0):
    for k, g in m.cases(f"two{part}", n):
        nm = str(g.choice(work.ANY))
        M = mats.mat(nm)
        nX = [int(g.integers(max(N, 2), 6)) for _ in range(2)]
        dX = list(10 ** g.uniform(-1, 1, 2))
        u, _ = work.field(g, nX, nm, M, "rough", .4)
        bcs = kinds(g, 2, k)
        if k % 3 == 0:
            bcs = bcs[2:] + bcs[:2]
        o = options(g, nm)
        omp(int(g.integers(1, min(4, nX[0] + 1))))
        ctx = f"{nm} {nX} {[NAMES[x] for x in bcs]} {o}"
        m.desc(u, material=nm, nX=nX, bcs=[NAMES[x] for x in bcs], **o)
        r = pair(m, g, u, nX, dX, [M] * (LSET + 1), M, bcs, o, "", ctx, 0)
        if r:
            judge(m, u, *r, M, "step in two dimensions", ctx,
                  1e-8 if not THERMAL else 1e-4)


def interface(m, n, part=0):
    """Two materials in one dimension, the interface anywhere in the domain."""
    pairs = [("airnd", "viscous"), ("air", "helium"), ("cu_gr", "steel_el"),
             ("airnd", "cu_nd"), ("water", "air")]
    for k, g in m.cases(f"interface{part}", n):
        a, b = pairs[k % len(pairs)]
        Ms = [mats.mat(a), mats.mat(b)]
        nX = [int(g.integers(4, 14))]
        dX = [float(10 ** g.uniform(-1, 0))]
        x = (np.arange(nX[0]) + .5) * dX[0]
        c = dX[0] * (g.integers(1, nX[0]) + g.uniform(-.4, .4))
        ls = (x - c) * (1 - 2 * (g.random() < .5))
        u = np.zeros((nX[0], NV))
        for s, nm in enumerate((a, b)):
            f, _ = work.field(g, nX, nm, Ms[s], "rough", .1)
            u[(ls >= 0) == s] = f[(ls >= 0) == s]
        u[:, NV - LSET:] = -1e3 * dX[0]
        u[:, NV - LSET] = ls
        bcs = [int(g.choice([0, 2, 3, 5])), int(g.choice([0, 2, 3, 5]))]
        # a mirrored level set has a kink at the wall, and its ghost state
        # there is found from the wall's other side: the interface stays away
        i0 = int(np.floor(c / dX[0]))
        o = dict(split=True, half=bool(g.random() < .7), stiff=False, flux=0)
        t = min(work.dt_est(u[(ls >= 0) == s], dX, Ms[s], .5)
                for s in range(2) if ((ls >= 0) == s).any())
        MPs = Ms + [Ms[1]] * (LSET - 1)
        m.desc(u, pair=(a, b), nX=nX, at=i0, bcs=bcs)
        omp(int(g.integers(1, 3)))
        # the level set outside continues the one inside, as it is far away
        big = extend(u, bcs, 0, N)
        X = (np.arange(nX[0] + 2 * N) - N + .5) * dX[0]
        big[:, NV - LSET] = (X - c) * np.sign(ls[-1] - ls[0])
        A = sim.run(u, .004 * t, nX, dX, MPs, bcs=bcs, cfl=.9, **o)
        B = sim.run(big, .004 * t, [nX[0] + 2 * N], dX, MPs, cfl=.9, **o)
        ctx = f"{a}|{b} {nX} {bcs} at {i0}"
        if not m.ok("one step", len(A.dt) == 1 and len(B.dt) == 1, ctx):
            continue
        got = A.final.reshape(u.shape)
        want = B.final.reshape(-1, NV)[N:-N]
        if not np.isfinite(want).all():
            m.trivial()
            continue
        # ghost states spread outwards from the interface alike, but outside
        # of the domain they are mirrored in one of the runs only
        far = min(i0, nX[0] - 1 - i0)
        w = np.ones(nX[0], bool)
        lo, hi = i0 - 3, i0 + 3
        w[max(0, lo):hi + 1] = far >= 2 * N
        for s in range(2):
            me = ((ls >= 0) == s) & w
            if me.any():
                sc = work.scale(u[me], Ms[s])
                k_ = slice(0, NV - LSET)
                ch = np.abs(want - u)[me].max(0)
                m.close("step next to a boundary, with an interface",
                        (got - u)[me][:, k_], (want - u)[me][:, k_], 1e-6,
                        np.broadcast_to((ch + sc * 1e-7)[k_],
                                        (me.sum(), NV - LSET)), ctx=ctx)


def masks(m, n):
    """The cells that are predicted: the active ones and all cells across a face
    from them, also outside the domain; no cell further away."""
    for k, g in m.cases("masks", n):
        nd = 1 + int(g.random() < .7)
        sh = tuple(int(x) for x in g.integers(1, 9, nd))
        a = g.random(sh) < float(g.choice([.05, .3, .7, .95]))
        if g.random() < .2:                     # one cell, often at an edge
            a[:] = False
            a[tuple(int(g.choice([0, s // 2, s - 1])) for s in sh)] = True
        m.desc(shape=sh, active=np.packbits(a).tolist())
        need = np.zeros([s + 2 for s in sh], bool)
        may = need.copy()
        for i in zip(*np.nonzero(a)):
            i = np.array(i) + 1
            may[tuple(slice(j - 1, j + 2) for j in i)] = True
            need[tuple(i)] = True
            for d in range(nd):
                for s in (-1, 1):
                    j = i.copy()
                    j[d] += s
                    need[tuple(j)] = True
        # the outer layer may copy the edge's mark
        for d in range(nd):
            x = np.moveaxis(may, d, 0)
            x[0] |= x[1]
            x[-1] |= x[-2]
        got = []
        mk = a.ravel().copy()
        for before in (False, True):
            b = np.full(need.size, before)
            GPRpy.extend_mask(mk, b, np.array(sh, np.int32))
            got.append(b.reshape(need.shape))
        ctx = f"shape {sh}, active {np.argwhere(a)[:6].tolist()}"
        for b in got:
            m.ok("mask reaches across every face", not (need & ~b).any(),
                 f"{ctx}: missing {np.argwhere(need & ~b)[:4].tolist()}")
            m.ok("mask goes no further than neighbours", not (b & ~may).any(),
                 f"{ctx}: extra {np.argwhere(b & ~may)[:4].tolist()}")
        m.ok("mask depends on the active cells alone",
             np.array_equal(got[0], got[1]), ctx)
        m.ok("active cells unchanged", np.array_equal(mk, a.ravel()), ctx)
        m.count("masks")
        if a.all() or not a.any():
            m.trivial()
