"""Material separation and reassembly.  Random layouts of up to four materials
(planes, discs, bands, thin layers, noise, layers at the edge of the domain) are
given to the function that fills each material's grid; every cell of every grid
and mask is compared with what the layout demands, ghost states with the
interface solver applied to the states on the two sides.  Reassembly is compared
with a transcription of its rule, and whole simulations with the composition of
the separately monitored parts."""
import importlib.util
from env import *
if WORKER:
    import sim
    import work

RULE = ("random layouts of 2-4 materials (vacuum included) on 1-D and 2-D grids "
        "with per-cell or uniform states; non-trivial: more than one material "
        "is present")
ASSUME = ["level sets are nested (the second is negative where the first is), "
          "as the project's own set-ups make them",
          "equal cell sizes in all directions, as the code says"]


def jobs(tier):
    q = tier == "quick"
    n = 60 if q else 2000
    J = jobs_for(["lset1", "default"] if q else
                 ["lset1", "default", "multi3", "thermal1", "n3d", "stick"],
                 "fill1", args=dict(n=n))
    J += jobs_for(["lset1", "default"] if q else
                  ["lset1", "default", "multi3", "thermal1", "n3d", "stick"],
                  "fill2", args=dict(n=n))
    J += jobs_for(["default", "multi3"] if q else
                  ["lset1", "default", "multi3", "thermal1", "thermulti"],
                  "reassemble", args=dict(n=4 * n))
    J += jobs_for(["lset1", "default", "thermulti"] if q else
                  ["lset1", "default", "multi3", "thermal1", "thermulti",
                   "n3d"], "composed", args=dict(n=n // 2))
    return J


FL = ["air", "water", "helium", "cu_gr", "steel_el", "nm_cc", "jwl"]


def c05():
    from importlib import util
    sp = util.spec_from_file_location("c05", os.path.dirname(__file__)
                                      + "/c05.py")
    mod = util.module_from_spec(sp)
    sp.loader.exec_module(mod)
    return mod


def layout(g, nX, dX, nls):
    """Nested level sets."""
    itf = c05().interface
    h = float(dX[0])
    out = []
    for _ in range(nls):
        kind = g.random()
        if kind < .6:
            ls = itf(g, nX, dX)
        elif kind < .75:                        # noise
            ls = h * g.normal(size=nX)
        elif kind < .9:                         # near to the edge
            ls = itf(g, nX, dX)
            X = (np.arange(nX[0]) + .5) * h
            off = h * g.uniform(.1, 2.4)
            e = X - off if g.random() < .5 else X[-1] + h / 2 - off - X
            if g.random() < .5:
                e = -e
            ls = np.broadcast_to(e.reshape((-1,) + (1,) * (len(nX) - 1)),
                                 nX).copy()
        else:                                   # through the centres of cells
            ls = itf(g, nX, dX)
            ls = h * np.round(ls / h)
        out.append(ls)
    a = np.stack(out, -1)
    a = -np.sort(-a, axis=-1)
    if g.random() < .2:
        a[..., 1:] = -h * max(nX)
    return a


def state(g, nm, M, th=None, amp=.3):
    th = g.uniform(-1, 1, work.NT) if th is None else th
    P = work.prim_of(th, nm, M, vel=.3)
    return P


def setup(g, ndim, uniform, FL=FL):
    """materials, states and layout"""
    nmat = LSET + 1
    names = [str(g.choice(FL)) for _ in range(nmat)]
    if g.random() < .3:
        names[int(g.integers(nmat))] = "vac"
    if all(x == "vac" for x in names):
        names[0] = "air"
    if nmat > 2 and g.random() < .3:
        names[-1] = "vac"
    Ms = [mats.mat(x) for x in names]
    nX = [int(x) for x in g.integers(5, 26 if ndim == 1 else 11, ndim)]
    h = float(10 ** g.uniform(-3, 1))
    dX = np.array([h] * ndim)
    ls = layout(g, nX, dX, LSET)
    u = np.zeros(tuple(nX) + (NV,))
    mi = (ls >= 0).sum(axis=-1)
    th0 = [g.uniform(-1, 1, work.NT) for _ in range(nmat)]
    thf = [th0[k] + (0 if uniform else .3) * work.thetas(
        g, nX, "rough" if g.random() < .5 else "smooth") for k in range(nmat)] \
        if not uniform else None
    for i in np.ndindex(*nX):
        k = int(mi[i])
        if names[k] != "vac":
            P = state(g, names[k], Ms[k],
                      th0[k] if uniform else np.clip(thf[k][i], -1.2, 1.2))
            P.ls = ls[i]
            u[i] = spec.cons(P, Ms[k])
        u[i][NV - LSET:] = ls[i]
    return names, Ms, nX, dX, u, mi


def fill(u, nX, dX, dt, Ms):
    n = u.size // NV
    us = np.ascontiguousarray(u.ravel()).copy()
    G = VV([us.copy() for _ in Ms])
    B = VB([np.ones(n, bool) for _ in Ms])
    S_ = GPRpy.multi.fill_ghost_cells
    S_(G, B, us, np.array(nX, np.int32), np.array(dX, float), dt, Ms)
    return (us.reshape(-1, NV), [np.array(x).reshape(-1, NV) for x in G],
            [np.array(x).astype(bool) for x in B])


def neighbours(i, nX):
    """4-neighbours of a flat index."""
    ix = np.unravel_index(i, nX)
    for d in range(len(nX)):
        for s in (-1, 1):
            j = list(ix)
            j[d] += s
            if 0 <= j[d] < nX[d]:
                yield int(np.ravel_multi_index(j, nX))


def common(m, u, us, G, B, mi, nX, Ms, ctx):
    """What holds for every layout.  Returns the boundary ghosts of each
    material and its isolated cells."""
    n = us.shape[0]
    u0 = u.reshape(-1, NV)
    mi = mi.ravel()
    m.ok("states not touched", np.array_equal(
        us[:, :NV - LSET], u0[:, :NV - LSET]), ctx)
    m.ok("no cell changes its material",
         np.array_equal((us[:, NV - LSET:] >= 0).sum(1), mi), ctx)
    m.ok("level sets keep their sign", np.array_equal(
        us[:, NV - LSET:] >= 0, u0[:, NV - LSET:] >= 0), ctx)
    ghosts, isol = [], []
    for k, M in enumerate(Ms):
        own = mi == k
        iso = np.zeros(n, bool)
        if len(nX) == 2:
            for i in np.flatnonzero(own):
                iso[i] = not any(own[j] for j in neighbours(i, nX))
        gh = np.zeros(n, bool)
        for i in np.flatnonzero(~own):
            gh[i] = any(own[j] and not iso[j] for j in neighbours(i, nX))
        ghosts.append(gh)
        isol.append(iso)
        if M.EOS == -1:
            m.ok("vacuum is never updated", not B[k].any(), ctx)
            continue
        core = own & ~iso
        m.ok("own cells kept", np.array_equal(G[k][core], us[core]),
             f"material {k} {ctx} at "
             f"{np.flatnonzero((G[k][core] != us[core]).any(1))[:5]}")
        m.ok("grids share the level sets", np.array_equal(
            G[k][:, NV - LSET:], us[:, NV - LSET:]), f"material {k} {ctx}")
        m.ok("cells to be updated: own ones and their neighbours",
             np.array_equal(B[k], core | gh),
             f"material {k} {ctx}: wrong at "
             f"{np.flatnonzero(B[k] != (core | gh))[:5]}")
        m.count("own cells", core.sum())
        m.count("isolated cells", iso.sum())
        m.count("boundary ghosts", gh.sum())
        # further ghosts are copies of boundary ghosts
        dist = np.where(gh, 1, 0)
        fr = list(np.flatnonzero(gh))
        while fr:
            nx = []
            for i in fr:
                for j in neighbours(i, nX):
                    if not dist[j] and (not own[j] or iso[j]):
                        dist[j] = dist[i] + 1
                        if not iso[j]:      # nothing passes isolated cells
                            nx.append(j)
            fr = nx
        have = {G[k][i, :NV - LSET].tobytes(): i for i in np.flatnonzero(gh)}
        far = (dist > 1) & (dist <= 10 * N) & ~own
        bad = [int(i) for i in np.flatnonzero(far)
               if G[k][i, :NV - LSET].tobytes() not in have]
        m.ok("ghosts copy the boundary ghosts", not bad,
             f"material {k} {ctx}: {bad[:5]}")
        m.count("further ghosts", far.sum())
    return ghosts, isol


def indicator(us, nX, dX, k, nmat):
    """Negative inside of material k."""
    ls = us[:, NV - LSET:]
    f = ls[:, 0].copy() if k == 0 else -ls[:, 0]
    if nmat > 2:
        for i in range(1, k):
            f = np.maximum(f, -ls[:, i])
        for i in range(k, LSET):
            f = np.maximum(f, ls[:, i])
        f = np.array(GPRpy.system.multi.distance(
            f.copy(), np.array(dX, float), np.array(nX, np.int32)))
    return f


def gradient(f, nX, dX):
    f = f.reshape(nX)
    out = []
    for d in range(len(nX)):
        f_ = np.moveaxis(f, d, 0)
        r = np.empty_like(f_)
        r[1:-1] = (f_[2:] - f_[:-2]) / (2 * dX[d])
        r[0], r[-1] = r[1], r[-2]
        out.append(np.moveaxis(r, 0, d).ravel())
    return np.stack(out, -1)


def star(QL, QR, ML, MR, dt, n):
    with np.errstate(all="ignore"):
        return np.array(GPRpy.system.multi.left_star_state(
            np.ascontiguousarray(QL).copy(), np.ascontiguousarray(QR).copy(),
            ML, MR, dt, np.array(n, float)))


def same(a, b, sc, tol=1e-9):
    return bool(np.all(np.abs(a - b) <= tol * sc) or
                np.array_equal(a, b, equal_nan=True))


def fill1(m, n):
    for k_, g in m.cases("fill 1d", n):
        names, Ms, nX, dX, u, mi = setup(g, 1, False)
        dt = float(g.choice([0., 1e-7]))
        ctx = f"{names} {nX}"
        m.desc(u, materials=names, nX=nX)
        if len(set(mi.ravel())) == 1:
            m.trivial()
        us, G, B = fill(u, nX, dX, dt, Ms)
        if not us.shape == (u.size // NV, NV):
            m.violate("shape", ctx)
            continue
        gh, _ = common(m, u, us, G, B, mi, nX, Ms, ctx)
        nx = nX[0]
        h = dX[0]
        for k, M in enumerate(Ms):
            if M.EOS == -1:
                continue
            f = indicator(us, nX, dX, k, len(Ms))
            d = gradient(f, nX, dX)[:, 0]
            near = np.flatnonzero(gh[k])
            for i in near:
                s = 1. if d[i] >= 0 else -1.
                xp = (i + .5) * h
                pos = (xp - f[i] * s) / h
                if abs(pos - round(pos)) < 1e-6 or abs(d[i]) < 1e-9:
                    m.count("interfaces between two cells")
                    continue
                cell = lambda x: int(min(max(x, 0), nx - 1))  # noqa: E731
                I, L, R = cell(pos), cell(pos - s), cell(pos + s)
                nn = s
                if mi[I] == k:
                    QL = us[I]
                elif mi[L] == k:
                    QL = us[L]
                else:
                    j = i - 1 if i > 0 and mi[i - 1] == k else i + 1
                    QL, nn = us[j], float(i - j)
                want = star(QL, us[R], M, Ms[int(mi[R])], dt, [nn])
                got = G[k][i]
                if not np.isfinite(want).all():
                    m.count("no star state")
                    continue
                sc = qscale(want, M)[:NV - LSET]
                # another ghost may have filled this cell as its interface cell
                m.close("ghost is the star state of the two sides",
                        got[:NV - LSET], want[:NV - LSET], 1e-9, sc,
                        ctx=f"cell {i} of material {k} {ctx}")
            # the nearest ghost decides
            for i in np.flatnonzero(mi != k):
                if gh[k][i] or not len(near):
                    continue
                best = [j for j in near if all(
                    mi[x] != k for x in range(min(i, j), max(i, j) + 1))]
                if not best:
                    continue
                ds = sorted((abs(i - j), j) for j in best)
                if ds[0][0] > 10 * N - 1:
                    continue
                ok = [j for dd, j in ds if dd <= ds[0][0] + 1]
                m.ok("ghost copies the nearest", any(np.array_equal(
                    G[k][i, :NV - LSET], G[k][j, :NV - LSET], equal_nan=True)
                    for j in ok), f"cell {i} of material {k} {ctx}")


def fill2(m, n):
    for k_, g in m.cases("fill 2d", n):
        uniform = k_ % 3 > 0
        names, Ms, nX, dX, u, mi = setup(g, 2, uniform)
        if not uniform and g.random() < .5:
            axis_aligned(m, g, names, Ms, nX, dX, u, mi)
            continue
        dt = 0.
        ctx = f"{names} {nX} uniform={uniform}"
        m.desc(u, materials=names, nX=nX)
        if len(set(mi.ravel())) == 1:
            m.trivial()
        omp(int(g.integers(1, 4)))
        us, G, B = fill(u, nX, dX, dt, Ms)
        gh, iso = common(m, u, us, G, B, mi, nX, Ms, ctx)
        if not uniform:
            continue
        mf = mi.ravel()
        present = sorted(set(int(x) for x in mf))
        ref = {k: us[np.flatnonzero(mf == k)[0]] for k in present}
        cache = {}
        for k, M in enumerate(Ms):
            if M.EOS == -1 or k not in ref:
                continue
            f = indicator(us, nX, dX, k, len(Ms))
            d = gradient(f, nX, dX)
            for i in np.flatnonzero(gh[k]):
                # its own normal, that of a ghost whose interface lies in this
                # cell, or an axis
                ns = []
                ix = np.unravel_index(i, nX)
                for j in [i] + [j for j in np.flatnonzero(gh[k]) if j != i and
                                max(np.abs(np.subtract(np.unravel_index(
                                    j, nX), ix))) < 2]:
                    nd = np.linalg.norm(d[j])
                    ns += [tuple(d[j] / nd)] if nd > 0 else [(1., 0.)]
                ns += [(1., 0.), (-1., 0.), (0., 1.), (0., -1.)]
                got = G[k][i, :NV - LSET]
                sc = qscale(ref[k], M)[:NV - LSET]
                hit, failed = False, False
                for o in present:
                    for nn in ns:
                        key = (k, o, nn)
                        if key not in cache:
                            cache[key] = star(ref[k], ref[o], M, Ms[o], dt,
                                              nn)[:NV - LSET]
                        w = cache[key]
                        if not np.isfinite(w).all():
                            failed = True
                        if same(got, w, sc):
                            hit = True
                            break
                    if hit:
                        break
                if not hit and failed and not np.isfinite(got).all():
                    m.count("no star state")
                    continue
                m.ok("ghost is a star state of two materials at the interface",
                     hit, f"cell {np.unravel_index(i, nX)} of material {k} "
                     f"{ctx}: {got[:5]}")


def axis_aligned(m, g, names, Ms, nX, dX, u, mi):
    """Layouts and states that do not depend on one axis: rows agree with the
    one-dimensional filling."""
    a = int(g.integers(2))
    u = np.moveaxis(u, a, 0)[:, :1] * np.ones((1, nX[1 - a], 1))
    u1 = np.ascontiguousarray(u[:, 0])
    u2 = np.ascontiguousarray(np.moveaxis(u, 0, a))
    if a == 1:
        # rotate vectors: exchange the axes 0 and 1
        p = np.arange(NV)
        p[[2, 3]] = [3, 2]
        A = np.arange(5, 14).reshape(3, 3)[[1, 0, 2]][:, [1, 0, 2]]
        p[5:14] = A.ravel()
        if THERMAL:
            p[[14, 15]] = [15, 14]
        u1 = np.ascontiguousarray(u1[..., p])
    else:
        p = np.arange(NV)
    n1 = nX[a]
    mi1 = (u1[:, NV - LSET:] >= 0).sum(1)
    ctx = f"{names} {nX} along {a}"
    m.desc(u1, materials=names, nX=nX, axis=a)
    if len(set(mi1)) == 1:
        m.trivial()
    us1, G1, B1 = fill(u1, [n1], dX[:1], 0., Ms)
    us2, G2, B2 = fill(u2, nX, dX, 0., Ms)
    common(m, u2, us2, G2, B2, (u2[..., NV - LSET:] >= 0).sum(-1), nX, Ms, ctx)
    # positions where rounding decides on a neighbour are left out
    for k, M in enumerate(Ms):
        if M.EOS == -1:
            continue
        f = indicator(us1, [n1], dX[:1], k, len(Ms))
        pos = (np.abs(f) / dX[0] + .5) % 1.
        d = gradient(f, [n1], dX[:1])[:, 0]
        if (np.minimum(pos, 1 - pos) < 1e-6).any() or \
                (np.abs(d) < 1e-6).any():
            m.count("rounding decides")
            continue
        X = np.moveaxis(G2[k].reshape(tuple(nX) + (NV,)), a, 0)[..., p]
        Mk = np.moveaxis(B2[k].reshape(nX), a, 0)
        sc = np.array([qscale(q, M) for q in np.where(
            G1[k][:, :1] > 0, G1[k], 1.)])[:, :NV - LSET]
        # one row thick is not isolated
        far = mi1 == k
        dist = np.array([min([abs(i - j) for j in np.flatnonzero(far)],
                             default=99) for i in range(n1)])
        use = (dist <= 10 * N - 1) & (mi1 != k)
        # with ties between two sides the choice may differ
        for i in range(n1):
            js = np.flatnonzero(far)
            lo = [j for j in js if j < i]
            hi = [j for j in js if j > i]
            if lo and hi and abs((i - lo[-1]) - (hi[0] - i)) <= 1:
                use[i] = False
        ok = use & np.isfinite(G1[k]).all(1)
        for j in range(X.shape[1]):
            m.ok("columns have the mask of the line", np.array_equal(
                Mk[:, j], B1[k]), f"material {k} {ctx}")
            m.close("columns are filled as the line", X[ok, j, :NV - LSET],
                    G1[k][ok, :NV - LSET], 1e-7, sc[ok],
                    ctx=f"material {k} column {j} {ctx}")


def reassemble(m, n):
    for k_, g in m.cases("reassemble", n):
        nmat = LSET + 1
        Ms = [mats.mat("vac" if g.random() < .25 else str(g.choice(FL)))
              for _ in range(nmat)]
        nc = int(g.integers(3, 30))
        u = g.normal(size=(nc, NV))
        Gs = [g.normal(size=(nc, NV)) for _ in Ms]
        if g.random() < .3:
            for x in Gs:        # sets that agree in sign
                x[:, NV - LSET:] = np.abs(x[:, NV - LSET:]) * np.sign(
                    u[:, NV - LSET:])
        if g.random() < .3:
            for x in Gs:
                x[:, NV - LSET:] *= g.random((nc, LSET)) < .8   # exact zeros
        Bs = [(g.random(nc) < g.choice([.2, .7, 1.])) & (M.EOS > -1)
              for M in Ms]
        m.desc(u, *Gs, materials=[M.EOS for M in Ms], cells=nc)
        us = u.ravel().copy()
        GG = VV([x.ravel().copy() for x in Gs])
        BB = VB([b.copy() for b in Bs])
        SO.make_u(us, GG, BB, Ms)
        got = us.reshape(-1, NV)
        for i in range(nc):
            on = [x[i, NV - LSET:] for x, b in zip(Gs, Bs) if b[i]]
            ls = u[i, NV - LSET:] if not on else np.sum(on, axis=0) / len(on)
            m.close("level sets averaged over the updated grids",
                    got[i, NV - LSET:], ls, 1e-14, 1., ctx=f"cell {i}")
            mi = int((got[i, NV - LSET:] >= 0).sum())
            if Ms[mi].EOS > -1:
                m.ok("state of the cell's own material", np.array_equal(
                    got[i, :NV - LSET], Gs[mi][i, :NV - LSET]),
                    f"cell {i} of material {mi}")
            else:
                m.ok("vacuum is empty", not got[i, :NV - LSET].any(),
                     f"cell {i}")
        m.ok("the grids are inputs", all(np.array_equal(
            np.array(a).ravel(), b.ravel()) for a, b in zip(GG, Gs)))


def composed(m, n):
    """The iteration is the composition of its parts."""
    for k_, g in m.cases("composed", n):
        ndim = 1 + int(g.random() < .5)
        names, Ms, nX, dX, u, mi = setup(g, ndim, g.random() < .3,
                                         ["cu_gr", "steel_el", "c4_el"]
                                         if g.random() < .3 else FL)
        nc = u.size // NV
        us = u.reshape(-1, NV)
        dts = []
        for k, M in enumerate(Ms):
            x = us[(mi.ravel() == k)]
            if M.EOS > -1 and len(x):
                dts.append(work.dt_est(x, dX, M, .3))
        if not dts:
            m.desc(u)
            m.trivial()
            continue
        steps = int(g.integers(1, 4))
        tf = min(dts) * .2 * steps
        cfl = .3
        # the explicit predictor cannot resolve fast relaxation
        split = bool(g.random() < .4) or any(
            M.EOS > -1 and (not M.SOLID or THERMAL) for M in Ms)
        half = bool(g.random() < .7)
        flux = int(g.choice([0, 0, 1, 2]))
        bcs = [int(g.choice([0, 1, 2])) for _ in range(2 * ndim)]
        for d in range(ndim):
            if 1 in bcs[2 * d:2 * d + 2]:
                bcs[2 * d:2 * d + 2] = [1, 1]
        ctx = f"{names} {nX} split={split} half={half} flux={flux} {bcs}"
        m.desc(u, materials=names, nX=nX, split=split, flux=flux)
        if len(set(mi.ravel())) == 1:
            m.trivial()
        omp(1)
        tr = sim.run(u, tf, nX, dX, Ms, bcs=bcs, cfl=cfl, split=split,
                     half=half, flux=flux)
        if not m.ok("state observed", tr.same and len(tr.u) == len(tr.dt), ctx):
            continue
        x = us.ravel().copy()
        nXi = np.array(nX, np.int32)
        dXa = np.array(dX, float)
        b = np.array(bcs, np.int32)
        t, dt = 0., 0.
        ext = int(GPRpy.solvers.extended_dimensions(nXi, N))
        ex1 = int(GPRpy.solvers.extended_dimensions(nXi, 1))
        for s in range(len(tr.dt)):
            old = x.copy()
            G = VV([x.copy() for _ in Ms])
            B = VB([np.ones(nc, bool) for _ in Ms])
            GPRpy.multi.fill_ghost_cells(G, B, x, nXi, dXa, dt, Ms)
            dt = SO.timestep(G, B, dXa, cfl, t, tf, s, Ms, len(Ms))
            m.close("time step", tr.dt[s], dt, 1e-5, abs(dt),
                    ctx=f"step {s} {ctx}")
            new = []
            for k, M in enumerate(Ms):
                q = np.array(G[k]).copy()
                if M.EOS > -1:
                    ub = np.zeros(ext * NV)
                    mb = np.zeros(ex1, bool)
                    before = q.copy()
                    mk = np.array(B[k])
                    GPRpy.boundaries(q, ub, nXi, b)
                    GPRpy.extend_mask(mk, mb, nXi)
                    if split:
                        SO.split_stepper(q, ub, nXi, dt, dXa, half, flux, M, mb)
                    else:
                        SO.ader_stepper(q, ub, nXi, dt, dXa, False, flux, M, mb)
                    q = q.reshape(-1, NV)
                    q[~mk] = before.reshape(-1, NV)[~mk]
                new.append(np.ascontiguousarray(q).ravel())
            SO.make_u(x, VV(new), B, Ms)
            c = x.reshape(-1, NV)
            if MULTI:
                c[:, MVI] = np.maximum(np.minimum(c[:, MVI], c[:, 0]), 0)
            t += dt
            SO.renorm_distortion(x, Ms)
            if (s + 1) % 10 == 0 and rotates():
                SO.rotate_distortion(x, Ms)
            got = sim.cells(tr.u[s])
            c = x.reshape(-1, NV)
            if not np.isfinite(c).all() or not np.isfinite(got).all():
                m.ok("both fail", np.isfinite(c).all() ==
                     np.isfinite(got).all(), ctx)
                m.count("runs that failed")
                break
            sc = np.maximum(np.abs(c).max(0), np.abs(got).max(0)) + 1e-300
            m.close("a step is the composition of its parts", got, c, 1e-9,
                    np.broadcast_to(sc, got.shape), ctx=f"step {s} {ctx}")
            m.count("steps")
            # each cell holds its own material, or vacuum
            ki = (got[:, NV - LSET:] >= 0).sum(1)
            for k, M in enumerate(Ms):
                mine = got[ki == k]
                if M.EOS == -1:
                    m.ok("vacuum is empty",
                         not mine[:, :NV - LSET].any(), ctx)
            # cells that no grid updated keep their level sets
            off = ~np.any([np.array(y) for y in B], axis=0)
            m.count("cells that nothing updates", off.sum())


def rotates():
    return False
