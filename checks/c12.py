"""The space-time predictor, seen through the unsplit step: the step must be the
finite-volume balance of the solution of the local space-time problem, which is
solved here independently (collocation in space, discontinuous Galerkin in time)
from the module's own pointwise flux, product and source."""
from env import *
if WORKER:
    import spec
    import work
    from scipy.optimize import root
    I_N = np.eye(N)

RULE = ("smooth, rough and discontinuous fields in 1D and 2D at up to the CFL "
        "limit, fluids, power-law and Bingham fluids, elastic and plastic solids, "
        "reactions and body forces, explicit iteration and implicit solver, random "
        "masks; non-trivial: the fields vary")
ASSUME = ["the local problem can be solved by the reference iteration (a fixed "
          "point, or a root found by scipy); others are counted",
          "the reconstruction, the fluxes and the balance of the volume are "
          "those of the module (decided by C10, C09 and C25)"]
NAMES = ["airnd", "viscous", "cu_nd", "dilatant", "shearthin", "bingham", "air",
         "cu_smg", "water", "c4_el", "nm_cc", "jwl"]


def jobs(tier):
    q = tier == "quick"
    n = 150 if q else 900
    c = ["default", "n3", "thermulti", "bare"] if q else [
        "default", "n3", "n4", "thermulti", "bare", "thermal", "n3d", "prim"]
    J = jobs_for(c, "step", args=dict(n=n), parts=2)
    J += jobs_for(["default", "n3"], "implicit", args=dict(n=max(6, n // 6)),
                  budget=40 if q else 600)
    J += jobs_for(["default", "n3", "bare", "n4"][:2 if q else 4], "exact",
                  args=dict(n=n))
    J += jobs_for(["default", "n3", "thermulti"], "local", args=dict(n=n // 2))
    return J


# ------------------------------------------------------------------- reference

def nodes():
    x, w = np.polynomial.legendre.leggauss(N)
    x, w = (x + 1) / 2, w / 2
    Vm = np.vander(x, N, increasing=True)
    I = np.linalg.inv(Vm)               # monomial coefficients of the basis
    ev = np.stack([np.vander([s], N, increasing=True)[0] @ I for s in (0., 1.)])
    D = np.stack([np.array([k * xi ** (k - 1) if k else 0. for k in range(N)])
                  for xi in x]) @ I
    # in time: ψ(1)ψᵀ(1) - <ψ', ψ>;  <ψ_i', ψ_j> = w_j D[j, i]
    K = np.outer(ev[1], ev[1]) - (w[:, None] * D).T
    T = np.linalg.solve(K, np.diag(w))      # q = T0 w - dt T R
    T0 = np.linalg.solve(K, ev[0])
    return x, w, ev, D, T, T0


def residual_terms(q, nd, dX, M, D, fb):
    """∂F/∂x + B ∂q/∂x - S at every node of one cell; q[t, nodes..., NV]."""
    F, Bp, Sr = fb
    out = np.zeros_like(q)
    for d in range(nd):
        f = np.zeros_like(q)
        der = np.moveaxis(np.tensordot(D, q, (1, d + 1)), 0, d + 1) / dX[d]
        for s in np.ndindex(*q.shape[:-1]):
            f[s] = F(q[s], d)
            out[s] += Bp(q[s], der[s], d)
        out += np.moveaxis(np.tensordot(D, f, (1, d + 1)), 0, d + 1) / dX[d]
    for s in np.ndindex(*q.shape[:-1]):
        out[s] -= Sr(q[s])
    return out


def pointwise(M):
    def F(q, d):
        f = np.zeros(NV)
        S.flux(f, np.ascontiguousarray(q), d, M)
        return f

    def Bp(q, dq, d):
        f = np.zeros(NV)
        S.Bdot(f, np.ascontiguousarray(q), np.ascontiguousarray(dq), d, M)
        return f

    def Sr(q):
        f = np.zeros(NV)
        S.source(f, np.ascontiguousarray(q), M)
        return f
    return F, Bp, Sr


def solve_cell(w0, nd, dX, dt, M, nds, sc, implicit):
    """The space-time solution in a cell with initial data w0[nodes..., NV]; None
    if it was not found."""
    x, w, ev, D, T, T0 = nds
    fb = pointwise(M)

    def G(q):
        R = residual_terms(q, nd, dX, M, D, fb)
        return T0.reshape((N,) + (1,) * (nd + 1)) * w0 \
            - dt * np.tensordot(T, R, (1, 0))

    q = np.broadcast_to(w0, (N,) + w0.shape).copy()
    if not implicit:
        last = np.inf
        for k in range(60):
            q1 = G(q)
            if not np.isfinite(q1).all():
                return None
            e = np.max(np.abs(q1 - q) / sc)
            q = q1
            if e < 1e-12:
                return q, k
            if k > 25 and e > last:
                if e < 1e-9:
                    return q, k
                break
            last = e
    if nd > 1 or N > 3:
        return None
    shape = q.shape
    q = np.broadcast_to(w0, (N,) + w0.shape).copy()
    f = lambda z: ((lambda Z: (Z - G(Z)) / sc)(z.reshape(shape) * sc)).ravel()
    try:
        r = root(f, (q / sc).ravel(), method="hybr", tol=1e-11)
    except Exception:
        return None
    if np.max(np.abs(r.fun)) > 1e-9:
        return None
    return r.x.reshape(shape) * sc, 99


def material(g, k):
    nm = NAMES[k % len(NAMES)]
    M = mats.mat(nm)
    if g.random() < .3:
        M.δp = g.normal(size=3) * M.ρ0 * mats.ref(nm)[2]
    if MULTI and g.random() < .4 and nm in ("airnd", "viscous", "dilatant"):
        M.REACTION, M.Qc, M.Bc, M.Ea, M.Rc = 1, .1 * M.cv, 3., .1, .01
    return nm, M


def one(m, g, nm, M, nd, amp, stiff, cfl, kind):
    # (grids narrower than the stencils have no reconstruction)
    nX = [int(a) for a in g.integers(3, 7 if nd == 1 else 5, nd)]
    dX = np.ones(nd) * 10 ** g.uniform(-2, 1)
    if nd == 2:
        dX[1] *= g.uniform(.5, 2)
    full = [a + 2 * N for a in nX]
    ub, _ = work.field(g, full, nm, M, kind, amp)
    lam = max(sum(work.speed(q, d, M) / dX[d] for d in range(nd))
              for q in ub.reshape(-1, NV))
    dt = cfl / lam
    # relaxation times
    if not stiff:
        q = ub.reshape(-1, NV)[0]
        s = np.abs(pointwise(M)[2](q) / qscale(q, M))[5:14].max()
        if s * dt > .3:
            return None
    return nX, dX, ub, dt


def compare(m, nm, M, nd, nX, dX, ub, dt, stiff, flux, mask, name):
    nds = nodes()
    u0 = ub[tuple(slice(N, -N) for _ in range(nd))].copy()
    eX = [a + 2 for a in nX]
    wh = np.zeros(int(np.prod(eX)) * N ** nd * NV)
    SO.weno.weno_launcher(wh, ub.ravel().copy(), i32(*nX), M)
    wh = wh.reshape(tuple(eX) + (N,) * nd + (NV,))
    if not np.isfinite(wh).all():
        m.trivial()
        return
    sc = np.max([qscale(q, M) for q in ub.reshape(-1, NV)[::3]], 0)
    qh = np.zeros(tuple(eX) + (N,) * (nd + 1) + (NV,))
    most = 0
    for c in np.ndindex(*eX):
        if not mask[c]:
            qh[c] = np.nan
            continue
        r = solve_cell(wh[c], nd, dX, dt, M, nds, sc, stiff)
        if r is None:
            m.count("local problems not solved by the reference")
            m.trivial()
            return
        qh[c] = r[0]
        most = max(most, r[1])
    if most > 30 and mats.ref(nm)[1] > 100:
        # the explicit iteration gives up and the implicit solver's tolerance
        # is absolute
        m.count("hard local problems in SI units, not judged")
        m.trivial()
        return
    want = u0.ravel().copy()
    SO.fv.fv_launcher(want, qh.ravel().copy(), i32(*nX), dt, dX, True, True,
                      flux, M, mask.ravel())
    got = u0.ravel().copy()
    try:
        SO.ader_stepper(got, ub.ravel().copy(), i32(*nX), dt, dX, stiff, flux, M,
                        mask.ravel())
    except Exception as e:
        m.violate(f"{name}: a step is taken", repr(e))
        return
    act = np.array([mask[tuple(a + 1 for a in i)] for i in np.ndindex(*nX)])
    got, want = got.reshape(-1, NV), want.reshape(-1, NV)
    m.most("most iterations of the reference", most)
    m.count(f"cells compared, {nm}", act.sum())
    if stiff and nm in ("dilatant", "shearthin"):
        # Newton's method may stall on power laws
        with np.errstate(all="ignore"):
            good = np.abs(got - want).max() <= 1e-3 * sc.max()
        m.count(f"implicit steps with a power law, {'solved' if good else 'lost'}")
        if not good:
            return
    # (fixed point: stops at changes of 6e-6 (1+|q|); scale of the others'
    # share of a change; implicit: residual of 6e-6)
    lim = 1e-5 * (sc + 1)
    m.close(f"{name}: step of the local solutions", got[act], want[act], 1.,
            np.broadcast_to(lim * (4 if most > 25 else 1) * (3 if stiff else 1),
                            got[act].shape), ctx=f"{nm} dt={dt}")


def step(m, n, part=0):
    for k, g in m.cases(f"step{part}", n):
        nm, M = material(g, k)
        nd = 1 if g.random() < .6 or N > 3 else 2
        kind = str(g.choice(["smooth", "rough", "blocks"]))
        r = one(m, g, nm, M, nd, g.uniform(.02, .4), False,
                g.uniform(.1, .8 if N < 3 else .5), kind)
        if r is None:
            m.trivial()
            m.count("relaxation too fast for the explicit iteration")
            continue
        nX, dX, ub, dt = r
        eX = [a + 2 for a in nX]
        mask = np.ones(eX, bool) if g.random() < .5 else g.random(eX) < .75
        m.desc(ub, material=nm, nX=nX, kind=kind)
        compare(m, nm, M, nd, nX, dX, ub, dt, False, 0, mask, "explicit")


def implicit(m, n):
    for k, g in m.cases("implicit", n):
        nm, M = material(g, k)
        if g.random() < .5:
            nm = str(g.choice(["viscous", "dilatant", "shearthin", "cu_smg"]))
            M = mats.mat(nm)
        r = one(m, g, nm, M, 1, g.uniform(.02, .2), True, g.uniform(.1, .6),
                "smooth")
        nX, dX, ub, dt = r
        if mats.ref(nm)[1] > 100:
            m.trivial()         # its tolerance is absolute
            continue
        m.desc(ub, material=nm, nX=nX)
        compare(m, nm, M, 1, nX, dX, ub, dt, True, 0,
                np.ones([a + 2 for a in nX], bool), "implicit")
    lost, ok = [m.counts.get(f"implicit steps with a power law, {x}", 0)
                for x in ("lost", "solved")]
    for _, g in m.cases("all", 1):
        m.ok("implicit steps are solved for power laws", lost <= ok + 2,
             f"{lost} lost, {ok} solved")


# ---------------------------------------------------------------------- exact

def exact(m, n):
    """A density profile of degree N-1 carried along by a uniform flow (with no
    shear stress) is reproduced exactly."""
    for k, g in m.cases("exact", n):
        nd = 1 if g.random() < .6 else 2
        M = mats.mat("airnd", b02=1e-14, cα2=1e-14)
        nX = [int(a) for a in g.integers(N, 6, nd)]
        dX = 10 ** g.uniform(-1, 1, nd)
        v = g.normal(size=3)
        p = g.uniform(.5, 2)
        # linear fields: the stencils agree on them
        grad = g.normal(size=nd) * .02 / max(nX)
        full = [a + 2 * N for a in nX]
        X = np.stack(np.meshgrid(*[np.arange(a) - a / 2 for a in full],
                                 indexing="ij"), -1)

        def fieldat(t):
            r = 1 + (X - v[:nd] * t / dX) @ grad
            u = np.zeros(tuple(full) + (NV,))
            u[..., 0] = r
            u[..., 2:5] = r[..., None] * v
            u[..., 1] = p / (M.γ - 1) + r * (v @ v) / 2
            u[..., 5] = u[..., 9] = u[..., 13] = 1.
            if LSET:
                u[..., NV - LSET:] = -1.
            return u
        ub = fieldat(0)
        lam = sum((np.abs(v[d]) + 1.6) / dX[d] for d in range(nd))
        dt = g.uniform(.1, .9) / lam
        m.desc(ub, nX=nX, dt=dt)
        inner = tuple(slice(N, -N) for _ in range(nd))
        stiff = bool(g.random() < .2)
        for fl in (0, 1, 2):
            u = ub[inner].ravel().copy()
            SO.ader_stepper(u, ub.ravel().copy(), i32(*nX), dt, dX, stiff, fl, M,
                            np.ones(int(np.prod([a + 2 for a in nX])), bool))
            want = fieldat(dt)[inner]
            d = np.abs(want - ub[inner]).max() + 1e-3
            m.close("a density profile is carried along", u.reshape(want.shape),
                    want, 1e-3 if stiff else 1e-5, d, ctx=f"{nX} flux {fl}")


# ---------------------------------------------------------------------- local

def local(m, n):
    """A cell depends on its N neighbours and on nothing else."""
    for k, g in m.cases("local", n):
        nm, M = material(g, k % 3)      # (whose local problems are easy)
        nd = 1 if g.random() < .5 or N > 3 else 2
        r = one(m, g, nm, M, nd, g.uniform(.02, .2), False, .3, "rough")
        if r is None:
            m.trivial()
            continue
        nX, dX, ub, dt = r
        eX = [a + 2 for a in nX]
        mask = np.ones(eX, bool)
        inner = tuple(slice(N, -N) for _ in range(nd))
        m.desc(ub, nX=nX, material=nm)

        def go(ub, mask):
            u = ub[inner].ravel().copy()
            SO.ader_stepper(u, ub.ravel().copy(), i32(*nX), dt, dX, False, 0, M,
                            mask.ravel())
            return u.reshape(tuple(nX) + (NV,))
        a = go(ub, mask)
        if not np.isfinite(a).all():
            m.trivial()
            continue
        # another field beyond the reach of a cell
        c = tuple(int(g.integers(x)) for x in nX)
        oth, _ = work.field(g, list(ub.shape[:-1]), nm, M, "rough", .2)
        d = np.max(np.abs(np.stack(np.meshgrid(
            *[np.arange(x) for x in ub.shape[:-1]], indexing="ij"), -1)
            - (np.array(c) + N)), -1)
        ub2 = np.where((d > N)[..., None], oth, ub)
        b = go(ub2, mask)
        m.ok("what lies beyond the stencil has no influence",
             np.array_equal(a[c], b[c]), f"{nm} {nX} {c}")
        # another mask: cells whose neighbours are unchanged
        mk = g.random(eX) < .7
        b = go(ub, mk)
        for i in np.ndindex(*nX):
            e = tuple(x + 1 for x in i)
            if not mk[e]:
                m.ok("a cell that is not asked for is kept", np.array_equal(
                    b[i], ub[inner][i]), f"{nX} {i}")
                continue
            if all(mk[tuple(e[q] + s * (q == dd) for q in range(nd))]
                   for dd in range(nd) for s in (-1, 1)):
                m.ok("a cell does not depend on the others' being asked for",
                     np.array_equal(a[i], b[i]), f"{nm} {nX} {i}")
