"""Pairs of simulations related by a symmetry of the equations must be related by
it all along: the monitor compares the steps and the final states."""
import copy
from env import *
if WORKER:
    import sim
    import scen
    import work

RULE = ("random simulations (1-D/2-D, all boundaries but moving, fluxes, schemes, "
        "1-3 materials) paired with their image; non-trivial: the state is not "
        "its own image")
ASSUME = ["materials are separated by a plane or a disc some cells away from "
          "other interfaces (ties between equally near neighbours are broken by "
          "the order of the cells)", "runs that fail are not judged"]
W = {"mirror": 3, "turn": 1, "exchange": 1, "repeat": 1, "shift": 1,
     "rescale": 2}


def jobs(tier):
    q = tier == "quick"
    J = []
    for c in ["default", "thermulti", "bare", "corners", "corners_t"] if q else [
            "default", "thermulti", "bare", "corners", "n3", "n3d", "prim",
            "thermal1", "corners_t", "multi3", "tm0"]:
        if c == "corners":
            J += jobs_for([c], "work_", parts=2, args=dict(n=200 if q else 800),
                          budget=70 if q else 1800)
        else:
            J += jobs_for([c], "work_", parts=2, args=dict(n=150 if q else 400),
                          budget=70 if q else 1800)
    return J


# ---- images of states: u has shape nX + [NV]
def signs(d):
    """Of the components under the mirror of axis d."""
    s = np.ones(NV)
    s[2 + d] = -1
    M = np.ones(3)
    M[d] = -1
    s[5:14] = np.outer(M, M).ravel()
    if THERMAL:
        s[14 + d] = -1
    return s


def turned(u, R):
    v = u.copy()
    v[..., 2:5] = u[..., 2:5] @ R.T
    A = u[..., 5:14].reshape(u.shape[:-1] + (3, 3))
    v[..., 5:14] = (R @ A @ R.T).reshape(u.shape[:-1] + (9,))
    if THERMAL:
        v[..., 14:17] = u[..., 14:17] @ R.T
    return v


def layout(g, nX, dX):
    """Level sets: nothing, planes across one axis, or a disc."""
    nd = len(nX)
    if nd == 2 and g.random() < .4 and LSET == 1:
        c = np.array(nX) * dX * g.uniform(.35, .65, 2)
        X = np.stack(np.meshgrid(*[(np.arange(n) + .5) * h for n, h in
                                   zip(nX, dX)], indexing="ij"), -1)
        r = g.uniform(.2, .4) * min(np.array(nX) * dX)
        return (r - np.linalg.norm(X - c, axis=-1))[..., None], None
    d = int(g.integers(nd))
    L = nX[d] * dX[d]
    pos = np.sort(g.uniform(.2, .8, LSET)) * L
    for k in range(1, LSET):
        pos[k] = max(pos[k], pos[k - 1] + 5 * dX[d])
    # nested: later interfaces further on; materials 1, 2, .. lie behind them
    x = (np.arange(nX[d]) + .5) * dX[d]
    sg = 1 if g.random() < .5 else -1
    if sg < 0:
        pos = L - pos
    ls = np.stack([sg * (x - p) for p in pos], -1)
    sh = [1] * nd
    sh[d] = nX[d]
    return np.broadcast_to(ls.reshape(sh + [LSET]),
                           tuple(nX) + (LSET,)).copy(), d


def build(g, ndim, kind=None, vary=None):
    """A scenario whose layout is simple; vary: the only axis of variation."""
    while True:
        s = scen.scenario(g, ndim=ndim, single=True)
        if "viscous" not in s.names:    # amplifies rounding most
            break
    s.vary = vary
    nX = s.nX
    multi = LSET > 0 and g.random() < .6
    if LSET:
        s.nX = nX = [int(g.integers(10, 18 if ndim == 1 else 12))
                     if vary in (None, d) else nX[d] for d in range(ndim)]
        s.dX = [s.dX[0]] * ndim
    dX = np.array(s.dX)
    nmat = LSET + 1
    if LSET:
        if multi:
            pool = scen.ELASTIC + ["airnd", "air", "helium"]
            s.names = [str(g.choice(pool)) for _ in range(nmat)]
            if g.random() < .7:     # comparable ones
                s.names = [s.names[0]] * nmat
            s.Ms = [mats.mat(x) for x in s.names]
            ls, d = layout(g, nX, dX)
            if vary is not None and d != vary:
                sh = [1, 1, LSET][-ndim - 1:]
                x = (np.arange(nX[vary]) + .5) * dX[vary]
                p = nX[vary] * dX[vary] * g.uniform(.3, .7)
                sh[vary] = nX[vary]
                ls = np.stack([x - p - 6 * dX[vary] * k for k in range(LSET)],
                              -1).reshape(sh)
                ls = np.broadcast_to(ls, tuple(nX) + (LSET,)).copy()
        else:
            ls = np.full(tuple(nX) + (LSET,), -50 * dX[0])
    s.kind = kind or str(g.choice(["smooth", "rough", "blocks"]))
    amp = float(g.choice([.02, .1]))
    sz = list(nX)
    if vary is not None:
        sz = [nX[d] if d == vary else 1 for d in range(ndim)]
    th = work.thetas(g, sz, s.kind, amp)
    th = np.broadcast_to(th, tuple(nX) + th.shape[-1:])
    u = np.zeros(tuple(nX) + (NV,))
    for i in np.ndindex(*nX):
        k = int((ls[i] >= 0).sum()) if LSET else 0
        P = work.prim_of(np.clip(th[i], -2, 2), s.names[k], s.Ms[k], vel=.3)
        if LSET:
            P.ls = ls[i]
        u[i] = spec.cons(P, s.Ms[k])
    s.u = u
    f = u.reshape(-1, NV)
    mi = (f[:, NV - LSET:] >= 0).sum(1) if LSET else np.zeros(len(f), int)
    s.present = sorted(set(int(x) for x in mi))
    dts = [work.dt_est(f[mi == j], dX, s.Ms[j], s.cfl) for j in s.present]
    s.tf = min(dts) * .2 * s.steps
    # solids whose relaxation is slow may use the unsplit scheme
    slow = all(M.SOLID and not M.POWER_LAW for M in s.Ms) and not THERMAL
    if not slow:
        s.opt.update(split=True, stiff=False)
    s.opt.update(flux=0, stiff=False)
    s.multi = multi and len(s.present) > 1
    s.bcs = [b if b != 4 else 3 for b in s.bcs]
    if s.multi and 1 in s.bcs:
        s.bcs = [0 if b == 1 else b for b in s.bcs]
    return s


def run(s, u, **kw):
    return sim.run(
        u.reshape(-1, NV), kw.pop("tf", s.tf), kw.pop("nX", s.nX),
        kw.pop("dX", s.dX), kw.pop("Ms", s.Ms), cfl=s.cfl,
        bcs=kw.pop("bcs", s.bcs), **s.opt, most=100, **kw)


def compare(m, what, s, a, b, image, u0):
    """image(a) must be b; a and b are traces."""
    ctx = f"{what} {s} {s.steps}"
    fa, fb = a.final, b.final
    if not (np.isfinite(fa).all() and np.isfinite(fb).all()):
        m.count("failed runs, not judged")
        return
    # the last may be one of rounding
    na, nb = [int((x.dt > 1e-7 * x.dt.sum()).sum()) for x in (a, b)]
    if not m.ok(f"{what}: number of steps", na == nb, ctx):
        return
    m.count(f"{what}, steps", len(a.dt))
    want, got = image(fa), fb.reshape(-1, NV)
    sc = np.maximum(np.abs(want).max(0), np.abs(u0.reshape(-1, NV)).max(0))
    sc = np.maximum(sc, 1e-300)
    # momenta: also of the waves
    k = s.present
    c = max(work.speed(q, 0, s.Ms[j]) for j in k for q in
            u0.reshape(-1, NV)[material(u0) == j][:1])
    sc[2:5] = max(sc[2:5].max(), .1 * sc[0] * c)
    sc[5:14] = max(1., sc[5:14].max())
    if THERMAL:
        sc[14:17] = max(sc[14:17].max(), 1e-3 * sc[0])
    # relaxing distortions lose digits (the relaxation is nearly a projection),
    # the predictor stops at its tolerance
    solid = all(s.Ms[j].SOLID for j in k)
    tol = np.full(NV, 1e-7 if solid else 5e-5)
    tol[5:14] = 1e-7 if solid else 2e-3
    if THERMAL:
        tol[14:17] = np.maximum(tol[14:17], 1e-6)
    if not s.opt["split"]:
        tol = np.maximum(tol, 2e-5)
    if s.multi or any(M.POWER_LAW for M in s.Ms):
        tol = np.maximum(tol, 1e-5)
        tol[5:14] = 3e-3
    if len(a.dt) != len(b.dt) and LSET:
        tol[NV - LSET:] = 1.        # redistanced another time
    if s.multi:
        # states at interfaces may amplify rounding, where their iteration
        # does not converge
        e = (np.abs(got - want) / (sc * tol)).max(1)
        m.close(f"{what}: most cells' final state",
                np.sort(e)[int(.85 * len(e))], 0., 1., 1., ctx=f"{ctx} {e}")
        return
    m.close(f"{what}: final state", got, want, 1., sc * tol, ctx=ctx)


def material(u):
    f = u.reshape(-1, NV)
    return (f[:, NV - LSET:] >= 0).sum(1) if LSET else np.zeros(len(f), int)


def mirror(m, g, k):
    nd = 1 + int(g.random() < .5)
    s = build(g, nd)
    ds = [0] if nd == 1 else [[0], [1], [0, 1]][int(g.integers(3))]
    m.desc(s.u, scenario=str(s), axes=str(ds))
    sg = np.ones(NV)
    for d in ds:
        sg = sg * signs(d)
    bcs = list(s.bcs)
    for d in ds:
        bcs[2 * d:2 * d + 2] = bcs[2 * d:2 * d + 2][::-1]

    def im(x):
        x = x.reshape(tuple(s.nX) + (NV,))
        return (np.flip(x, ds) * sg).reshape(-1, NV)
    tol = float(g.choice([1e300, 1e-3]))
    a = run(s, s.u, contorted_tol=tol)
    b = run(s, im(s.u), bcs=bcs, contorted_tol=tol)
    compare(m, f"mirror {nd}-D" + (" several materials" if s.multi else ""), s,
            a, b, im, s.u)


def turn(m, g, k):
    """Quarter and half turns about the axis of variation."""
    s = build(g, 1)
    m.desc(s.u, scenario=str(s))
    R = [np.array([[1., 0, 0], [0, 0, -1], [0, 1, 0]]),
         np.diag([1., -1, -1])][int(g.integers(2))]
    a = run(s, s.u)
    b = run(s, turned(s.u, R))
    compare(m, "turn about the axis", s, a, b, lambda x: turned(
        x.reshape(-1, NV), R), s.u)


def corners():
    # without, the corners of a domain are not its inside, see C04
    return "NO_CORNERSfalse" in os.environ["GPRMON_SO"]


def exchange(m, g, k):
    if not corners():
        return mirror(m, g, k)
    s = build(g, 2, vary=int(g.integers(2)))
    P = np.array([[0., 1, 0], [1, 0, 0], [0, 0, 1]])
    if g.random() < .5:
        P = np.array([[0., -1, 0], [1, 0, 0], [0, 0, 1]])
    rot = np.linalg.det(P) > 0
    m.desc(s.u, scenario=str(s), rotation=rot)

    def im(x):
        x = turned(x.reshape(tuple(s.nX) + (NV,)), P)
        x = np.swapaxes(x, 0, 1)
        if rot:             # x' = -y
            x = x[::-1]
        return x.reshape(-1, NV)
    d = 1 - s.vary
    s.bcs[2 * d:2 * d + 2] = [0, 0] if s.multi or g.random() < .5 else [1, 1]
    bx, by = s.bcs[:2], s.bcs[2:]
    bcs = list(by[::-1] if rot else by) + list(bx)
    a = run(s, s.u)
    b = run(s, im(s.u), nX=s.nX[::-1], dX=list(s.dX)[::-1], bcs=bcs)
    compare(m, "quarter turn" if rot else "exchange", s, a, b, im, s.u)


def repeat(m, g, k):
    s = build(g, 1)
    if s.multi:     # redistancing with unequal cell sizes, see C17
        m.trivial()
        return
    r = int(g.integers(3, 6))
    m.desc(s.u, scenario=str(s), times=r)
    h = s.dX[0] * 2. ** 40
    nX = [s.nX[0], r]
    u2 = np.repeat(s.u[:, None], r, 1)
    a = run(s, s.u)
    b = run(s, u2, nX=nX, dX=[s.dX[0], h], bcs=list(s.bcs) +
            [[0, 0], [1, 1]][int(g.integers(2)) if not s.multi else 0])
    compare(m, "repeated along y", s, a, b, lambda x: np.repeat(
        x.reshape(-1, 1, NV), r, 1).reshape(-1, NV), s.u)


def shift(m, g, k):
    nd = 1 + int(g.random() < .5) if corners() else 1
    s = build(g, nd)
    if s.multi:
        m.trivial()
        return
    d = int(g.integers(nd))
    s.bcs[2 * d:2 * d + 2] = [1, 1]
    n = int(g.integers(1, s.nX[d]))
    m.desc(s.u, scenario=str(s), axis=d, by=n)

    def im(x):
        return np.roll(x.reshape(tuple(s.nX) + (NV,)), n, d).reshape(-1, NV)
    a = run(s, s.u)
    b = run(s, im(s.u))
    compare(m, "shift", s, a, b, im, s.u)


def rescale(m, g, k):
    """Lengths and times together, by a power of two; the coefficients of the
    relaxation processes are times."""
    nd = 1 + int(g.random() < .5)
    s = build(g, nd)
    # (distances below 1e-10 or so count as zero)
    c = 2. ** float(g.choice([-5, -3, -1, 1, 2, 10]))
    if any(M.POWER_LAW and not M.SOLID or M.BINGHAM for M in s.Ms):
        m.trivial()
        return
    m.desc(s.u, scenario=str(s), factor=c)
    Ms = []
    for x in s.names:
        M = mats.mat(x)
        M.μ = M.μ * c
        M.κ = M.κ * c
        M.τ0 = M.τ0 * c
        Ms.append(M)
    if len(s.names) > 1 and all(M is s.Ms[0] for M in s.Ms):
        Ms = [Ms[0]] * len(Ms)

    def im(x):
        x = x.reshape(-1, NV).copy()
        x[:, NV - LSET:] *= c if LSET else 1
        return x

    def im2(x):
        x = x.reshape(-1, NV).copy()
        if LSET:
            x[:, NV - LSET:] *= c
        return x
    if any(M.REACTION > -1 for M in s.Ms):
        s.Ms = [mats.mat(x) for x in s.names]
    a = run(s, s.u)
    b = run(s, im2(s.u), tf=s.tf * c, dX=[h * c for h in s.dX], Ms=Ms)
    u0 = im2(s.u)
    compare(m, "rescaling", s, a, b, im2, u0)


def work_(m, n, part=0):
    fs = [f for f, w in W.items() for _ in range(w)]
    tot = [(fs[(k + 4 * part) % len(fs)], k) for k in range(n)]
    for (f, k), g in m.cases(f"sym{part}", tot):
        omp(int(g.integers(1, 4)))
        try:
            globals()[f](m, g, k)
        except sim.TooMany:
            m.count("runs of too many steps, not judged")
        omp(1)
