"""Equilibria: uniform states, resting states between walls and contacts of two
materials are simulated, and every state on the way is compared with the start."""
from env import *
if WORKER:
    import sim
    import work

RULE = ("simulations of 2-8 steps from equilibria: 18 materials, 1-D and 2-D, 3 "
        "fluxes, both schemes, every boundary type, with and without "
        "interfaces; non-trivial: distinct states")
ASSUME = ["the state does not relax: no heat flux, no strain in materials that "
          "relax it, no reaction"]


def jobs(tier):
    q = tier == "quick"
    n = 60 if q else 1500
    J = jobs_for(["default", "thermulti", "corners"] if q else
                 ["default", "thermulti", "corners", "n3", "n4", "n1", "prim",
                  "thermal", "multi", "bare", "primdef"],
                 "uniform", args=dict(n=n), parts=2)
    J += jobs_for(["default", "thermulti"] if q else
                  ["default", "thermulti", "multi3", "thermal1", "lset1", "n3d",
                   "prim"],
                  "levels", args=dict(n=n // 2), parts=2)
    J += jobs_for(["lset1"] if q else ["lset1", "default", "multi3", "n3d"],
                  "contact", args=dict(n=n), parts=2)
    return J


def options(g, M, q, dX):
    """The unsplit scheme amplifies rounding where relaxation is fast against
    the time step (or, for dilatant fluids, not Lipschitz)."""
    ndim = len(dX)
    split = bool(g.random() < .5)
    stiff = not split and ndim == 1 and g.random() < .4
    dq = q.copy()
    if relaxes(M):
        dq[6] += 1e-6 * np.abs(q[5:14]).max()
    if THERMAL:
        dq[14] += 1e-6 * qscale(q, M)[14]
    s = np.zeros(NV)
    S.source(s, dq, M)
    rate = max(abs(s[i] / (dq[i] - q[i])) if dq[i] != q[i] else 0.
               for i in (6, 14)[:1 + THERMAL])
    if not work.dt_est(q, dX, M, .8) * rate < .3:
        split, stiff = True, False
    return dict(split=split, half=bool(g.random() < .7), stiff=bool(stiff),
                flux=int(g.integers(3)))


def relaxes(M):
    return not M.SOLID or M.POWER_LAW


def unstrained(P, M, rot=True):
    c = np.cbrt(P.r / M.ρ0)
    if not rot:
        return c * np.eye(3)
    U, _, Vt = np.linalg.svd(P.A)
    return c * (U @ Vt)


def body(u):
    return sim.cells(u)[:, :NV - LSET]


def unchanged(m, tr, M, tol, ctx, oracle="uniform state unchanged"):
    if not m.ok("state observed", tr.same and len(tr.u) == len(tr.dt), ctx):
        return
    sc = work.scale(tr.u0, M)[:NV - LSET]
    a = body(tr.u0)
    for k, u in enumerate(tr.u):
        m.close(oracle, body(u), a, tol * (k + 1),
                np.broadcast_to(sc, a.shape), ctx=f"step {k} of {len(tr.u)} "
                + ctx)
        m.count("steps")


def uniform(m, n, part=0):
    names = work.ANY + ["bingham"]
    for k, g in m.cases(f"uniform{part}", n):
        nm = str(g.choice(names))
        M = mats.mat(nm)
        ndim = 1 if g.random() < .5 else 2
        lo = max(3, N)
        nX = [int(x) for x in g.integers(lo, 16 if ndim == 1 else 8, ndim)]
        dX = list(10 ** g.uniform(-2, 1, ndim))
        P = spec.rand_prim(g, nm, M, vel=1.)
        P.J[:] = 0
        if relaxes(M):
            P.A = unstrained(P, M)
        # sides: open, periodic, or walls that the flow does not cross
        bcs = []
        for d in range(ndim):
            kind = int(g.integers(4))
            if kind == 0:
                bcs += [0, 0]
            elif kind == 1:
                bcs += [1, 1]
            elif kind == 2:
                bcs += [int(g.choice([0, 2, 5])) for _ in range(2)]
            else:
                bcs += [int(g.choice([0, 2, 3, 4, 5])) for _ in range(2)]
        if 4 in bcs:
            bcs = [0 if b == 3 else b for b in bcs]
            P.v = np.array([1., 0, 0])
        elif 3 in bcs:
            P.v = np.zeros(3)
        for d in range(ndim):
            for s in range(2):
                if bcs[2 * d + s] in (2, 5) and P.v[d]:
                    if 4 in bcs:
                        bcs[2 * d + s] = 0
                    else:
                        P.v[d] = 0.
        if 5 in bcs:
            if relaxes(M):
                P.A = unstrained(P, M, False)
            else:
                P.A = np.diag(np.linalg.svd(P.A)[1])
        P.ls = -np.ones(LSET)
        q = spec.cons(P, M)
        o = options(g, M, q, dX)
        if not P.v[:ndim].all() and g.random() < .9:
            # Roe's and Osher's fluxes amplify rounding at rest
            o["flux"] = 0
        u = np.tile(q, int(np.prod(nX)))
        omp(int(g.integers(1, 4)))
        m.desc(q, material=nm, nX=nX, bcs=bcs, **o)
        tr = work.simple(g, u, nX, dX, M, bcs, steps=int(g.integers(2, 9)), **o)
        unchanged(m, tr, M, 1e-8 if THERMAL else 1e-11 if not o["flux"] or
                  P.v[:ndim].all() else 1e-6, f"{nm} {nX} {bcs} {o}")


def interface(g, nX, dX):
    """A level set: negative inside of a random plane, disc or band."""
    X = np.stack(np.meshgrid(*[(np.arange(n) + .5) * h for n, h in
                               zip(nX, dX)], indexing="ij"), -1)
    L = np.array(nX) * dX
    kind = int(g.integers(3))
    c = L * g.uniform(.1, .9, len(nX))
    if kind == 0 or len(nX) == 1 and kind == 1:
        n = g.normal(size=len(nX))
        if g.random() < .4:
            n = np.eye(len(nX))[g.integers(len(nX))] * (1 - 2 * (g.random() < .5))
        n /= np.linalg.norm(n)
        return (X - c) @ n
    if kind == 1:
        s = 1 - 2 * (g.random() < .5)
        return s * (np.linalg.norm(X - c, axis=-1) - min(L) * g.uniform(.1, .6))
    n = np.eye(len(nX))[g.integers(len(nX))]
    w = max(dX) * g.uniform(.6, 3)
    return np.abs((X - c) @ n) - w


def levels(m, n, part=0):
    """One material on both sides of interfaces: the interface is not felt."""
    names = [x for x in work.ANY if x not in ("dilatant",)]
    for k, g in m.cases(f"levels{part}", n):
        nm = str(g.choice(names))
        M = mats.mat(nm)
        ndim = 1 if g.random() < .5 else 2
        nX = [int(x) for x in g.integers(5, 16 if ndim == 1 else 9, ndim)]
        h = float(10 ** g.uniform(-2, 1))
        dX = [h] * ndim
        P = spec.rand_prim(g, nm, M, vel=1.)
        P.J[:] = 0
        P.A = unstrained(P, M)
        P.ls = np.zeros(LSET)
        o = options(g, M, spec.cons(P, M), dX)
        o["stiff"] = False
        u = np.zeros(tuple(nX) + (NV,))
        ls = np.stack([interface(g, nX, np.array(dX)) for _ in range(LSET)], -1)
        ls = -np.sort(-ls, axis=-1)         # nested, as the solver supposes
        for i in np.ndindex(*nX):
            P.ls = ls[i]
            u[i] = spec.cons(P, M)
        bcs = [int(g.choice([0, 1]))] * 2
        if ndim == 2:
            bcs += [int(g.choice([0, 1]))] * 2
        omp(int(g.integers(1, 4)))
        mi = [int(sum(x >= 0)) for x in ls.reshape(-1, LSET)]
        m.desc(u, material=nm, nX=nX, bcs=bcs, present=sorted(set(mi)), **o)
        if len(set(mi)) == 1:
            m.trivial()
        m.count("interface cells", sum(a != b for a, b in zip(mi, mi[1:])))
        tr = work.simple(g, u, nX, dX, M, bcs, steps=int(g.integers(2, 7)), **o)
        unchanged(m, tr, M, 1e-7, f"{nm} {nX} {bcs} {o}",
                  "interface in a uniform material not felt")


PAIRS = [("air", "helium"), ("air", "water"), ("water", "air"), ("jwl", "air"),
         ("cu_gr", "air"), ("water", "cu_gr"), ("steel_el", "water"),
         ("cu_gr", "steel_el"), ("nm_cc", "cu_gr"), ("airnd", "viscous"),
         ("cu_smg", "air"), ("al_grp", "cu_gr"), ("water", "vac"),
         ("cu_gr", "vac"), ("vac", "steel_el"), ("vac", "al_grp")]


def contact(m, n, part=0):
    for k, g in m.cases(f"contact{part}", n):
        a, b = PAIRS[(k + part * 7) % len(PAIRS)]
        Ms = [mats.mat(a), mats.mat(b)]
        ndim = 1 if g.random() < .6 else 2
        nX = [int(x) for x in g.integers(6, 24 if ndim == 1 else 9, ndim)]
        h = float(10 ** g.uniform(-2, 1))
        dX = [h] * ndim
        nms = [x for x in (a, b) if x != "vac"]
        p = 0. if "vac" in (a, b) else mats.ref(nms[0])[1] * \
            float(np.exp(g.uniform(-1, 1)))
        v = mats.ref(nms[-1])[2] * g.normal(size=3) * (g.random() < .7)
        ls = np.stack([interface(g, nX, np.array(dX)) for _ in range(LSET)], -1)
        ls[..., 1:] = -1.
        Ps = []
        for M, nm in zip(Ms, (a, b)):
            if nm == "vac":
                Ps.append(None)
                continue
            r = mats.ref(nm)[0] * float(np.exp(g.uniform(-.03, .03) * (
                10 if M.EOS == 0 else .1)))
            P = spec.Prim(r, p, v, np.eye(3), lam=.5 if MULTI else None)
            P.A = unstrained(P, M)
            Ps.append(P)
        u = np.zeros(tuple(nX) + (NV,))
        for i in np.ndindex(*nX):
            s = int(ls[i][0] >= 0)
            if Ps[s] is not None:
                Ps[s].ls = ls[i]
                u[i] = spec.cons(Ps[s], Ms[s])
            u[i][NV - LSET:] = ls[i]
        o = dict(split=True)
        for P, M in zip(Ps, Ms):
            if P is not None and o["split"]:
                o = options(g, M, spec.cons(P, M), dX)
        if any(P is not None and relaxes(M) for P, M in zip(Ps, Ms)):
            o["split"] = True
        o["stiff"] = False
        mi = (ls[..., 0] >= 0).ravel()
        cfl = .4
        M0 = [M for M, P in zip(Ms, Ps) if P is not None]
        here = [u.reshape(-1, NV)[mi == s] for s in range(2)]
        m.desc(u, pair=(a, b), nX=nX, **o)
        if min(map(len, here)) == 0:
            m.trivial()
        ts = [work.dt_est(x, dX, M, cfl) for x, M, P in zip(here, Ms, Ps)
              if len(x) and P is not None]
        if not ts:
            continue
        steps = int(g.integers(3, 12))
        omp(int(g.integers(1, 4)))
        MPs = Ms + [mats.mat("vac")] * (LSET - 1)
        tr = sim.run(u, min(ts) * .2 * steps, nX, dX, MPs, cfl=cfl, **o)
        ctx = f"{a}|{b} {nX} {o}"
        if not m.ok("state observed", tr.same and len(tr.u) == len(tr.dt), ctx):
            continue
        # pressure: within its own scale, and within what rounding of the
        # energy of the stiffest material means
        psc = max(abs(p), max(M.ρ0 * max(M.b02, M.c02 if M.EOS in (1, 4) else 0,
                                         M.pINF / M.ρ0 if M.EOS == 0 else 0)
                              for M in M0) * 1e-3)
        vsc = max(np.linalg.norm(v), 1e-3 * max(M.b02 ** .5 for M in M0),
                  1e-2 * mats.ref(nms[-1])[2])
        for t, x in enumerate(tr.u):
            for c in sim.cells(x):
                s = int(c[NV - LSET] >= 0)
                if Ps[s] is None:
                    m.ok("vacuum is empty", not c[:NV - LSET].any(), ctx)
                    continue
                P = spec.prim(c, Ms[s])
                m.close("pressure at a contact", P.p, p, 1e-6, psc,
                        ctx=f"step {t} {ctx}")
                m.close("velocity at a contact", P.v, v, 1e-6, vsc,
                        ctx=f"step {t} {ctx}")
            m.count("steps")
        m.count("cells that changed material", int(np.sum(
            (sim.cells(tr.u[-1])[:, NV - LSET] >= 0) != mi)))
