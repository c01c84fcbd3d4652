"""Wave speeds and time steps: the largest wave speed is compared with the
eigenvalues of the model's system matrix (lib/spec.py, complex steps, LAPACK);
the time step function and the steps of whole simulations are compared with the
Courant rule."""
from env import *

RULE = ("random states of 17 materials in 3 directions, random grids with masks "
        "and vacuum, simulations in 1D and 2D; non-trivial: strained, moving, "
        "distinct")
ASSUME = ["states whose system matrix has real eigenvalues",
          "in simulations of several materials the cells that the step ranges "
          "over are bracketed: at least those of each material, at most all "
          "its filled cells"]


def jobs(tier):
    q = tier == "quick"
    n = 15 if q else 500
    J = jobs_for(["default", "thermulti"] if q else
                 ["default", "bare", "thermal", "multi", "lset1", "thermulti"],
                 "speeds", parts=2, args=dict(n=n))
    J += jobs_for(["default", "thermulti"], "steps",
                  args=dict(n=120 if q else 3000))
    J += jobs_for(["bare", "thermulti"] if q else
                  ["bare", "lset1", "thermal", "multi", "thermulti"], "trace",
                  args=dict(n=30 if q else 500))
    J += jobs_for(["default"], "trace2", args=dict(n=12 if q else 200))
    return J


def spectral_radius(Q, d, M):
    w = np.linalg.eigvals(spec.system_matrix(Q, d, M))
    return np.abs(w).max(), np.abs(w.imag).max()


def speeds(m, n, part=0):
    names = materials()[part::2]
    for it, g in m.cases("state", [(nm, k) for nm in names for k in range(n)]):
        nm, k = it
        M = mats.some(g, nm)
        if MULTI and g.random() < .3:
            M.REACTION, M.Qc = 0, float(g.uniform(0, 1)) * M.cv
            M.Ti, M.Kc = 1e9, 1.
        P = spec.rand_prim(g, nm, M, vel=float(10 ** g.uniform(-2, 1)),
                           strain=float(10 ** g.uniform(-3, -1.3)),
                           comp=float(g.choice([.02, .08])))
        Q = spec.cons(P, M)
        m.desc(Q, material=nm)
        for d in range(3):
            r, im = spectral_radius(Q, d, M)
            if im > 1e-6 * r:
                m.count("not hyperbolic")
                continue
            m.count("hyperbolic")
            got = S.max_abs_eigs(Q, d, M)
            m.close("largest wave speed", got, r, 2e-7, ctx=f"{nm} d={d}")
            m.ok("speed is at least that of the flow",
                 got >= abs(P.v[d]), f"{nm} {got} {P.v}")


def steps(m, n):
    """The time step function, on arbitrary grids and masks."""
    for k, g in m.cases("steps", n):
        nmat = int(g.integers(1, 4))
        ncell = int(g.integers(1, 7))
        nd = int(g.integers(1, 3))
        dX = 10 ** g.uniform(-3, 0, nd)
        cfl = float(g.uniform(.1, 1))
        Ms, grids, masks, lam = [], VV(), VB(), []
        for j in range(nmat):
            nm = str(g.choice(["airnd", "viscous", "cu_nd", "helium", "vac"]
                              if j or nmat > 1 else ["airnd", "cu_nd"]))
            if j == nmat - 1 and not lam:
                nm = "airnd"
            M = mats.mat(nm)
            Ms.append(M)
            ms = "airnd" if nm == "vac" else nm
            MM = mats.mat(ms)
            mask = g.random(ncell) < .6
            mask[g.integers(ncell)] = True
            cells = [spec.cons(spec.rand_prim(
                g, ms, MM, vel=float(10 ** g.uniform(-1, 1))), MM)
                for _ in range(ncell)]
            # garbage in the cells that are not this material's
            for c in range(ncell):
                if not mask[c] or nm == "vac":
                    if g.random() < .5:
                        cells[c] = cells[c] * g.uniform(-10, 10, NV)
            grids.append(np.concatenate(cells))
            masks.append(mask)
            if nm == "vac":
                continue
            for c in range(ncell):
                if mask[c]:
                    lam.append(sum(spectral_radius(cells[c], d, M)[0] / dX[d]
                                   for d in range(nd)))
        full = cfl / max(lam)
        count = int(g.choice([0, 1, 5, 6, 7, 100]))
        t = float(g.uniform(0, 3))
        want = full * (.2 if count <= 5 else 1)
        tf = t + want * float(g.choice([.3, .999, 1.001, 5, 1e3]))
        got = SO.timestep(grids, masks, dX, cfl, t, tf, count, Ms, nmat)
        m.desc(np.array(lam), nmat=nmat, count=count, dims=nd, cfl=cfl)
        if t + want * (1 - 1e-6) > tf or t + want * (1 + 1e-6) < tf:
            if t + want > tf:
                m.ok("the last step ends at the final time", got == tf - t,
                     f"{got} instead of {tf - t}")
                m.count("cut at the end")
            else:
                m.close("Courant rule", got, want, 1e-6,
                        ctx=f"count={count} dims={nd} nmat={nmat}")
                m.count("first steps" if count <= 5 else "later steps")


def rule(m, tr, tf, dX, cfl, rates, ctx, lower=None):
    """rates[k]: the largest rate in the state before step k (and lower[k] if
    only bounds are known)."""
    t = 0.
    for k, dt in enumerate(tr.dt):
        f = .2 if k <= 5 else 1.
        lo = cfl / rates[k] * f
        hi = cfl / (lower[k] if lower else rates[k]) * f
        last = t + dt * (1 + 1e-5) >= tf
        if last:
            m.close("the final step ends at the final time", t + dt, tf, 1e-12,
                    tf, ctx=ctx)
            m.ok("the final step is not too long", dt <= hi * (1 + 1e-5),
                 f"{ctx} step {k}: {dt} > {hi}")
            m.ok("the run stops at the final time", k == len(tr.dt) - 1,
                 f"{ctx} {k} of {len(tr.dt)}")
        else:
            # the solver prints six digits
            m.ok("each step obeys the Courant rule",
                 lo * (1 - 1e-5) <= dt <= hi * (1 + 1e-5),
                 f"{ctx} step {k}: {dt}, rule {lo} to {hi}")
        t += dt
        m.count("steps checked")
    m.close("steps add up", tr.t[-1], tf, 1e-5, tf, ctx=ctx)


def trace(m, n):
    import sim
    import work
    for k, g in m.cases("trace", n):
        nm = str(g.choice(work.ANY if g.random() < .7 else work.MILD))
        M = mats.some(g, nm)
        split = bool(nm not in work.MILD or g.random() < .5)
        nX = [int(g.integers(4, 9))] if g.random() < .6 else \
            [int(g.integers(3, 6)), int(g.integers(3, 6))]
        dX = list(10 ** g.uniform(-1.5, -.5, len(nX)))
        u, _ = work.field(g, nX, nm, M, "rough" if g.random() < .5 else "blocks",
                          amp=.3)
        cfl = float(g.uniform(.2, .8))
        tf = work.dt_est(u, dX, M, cfl) * float(g.uniform(1.5, 6))
        tr = sim.run(u, tf, nX, dX, [M] * (LSET + 1),
                     bcs=[int(g.integers(0, 2))] * 2 * len(nX), cfl=cfl,
                     split=split, stiff=False, flux=0)
        m.desc(u, material=nm, nX=nX, split=split, steps=len(tr.dt))
        us = [tr.u0] + tr.u[:-1]
        if not all(np.isfinite(x).all() for x in tr.u):
            m.count("runs that failed")
            continue
        rates = []
        for x in us:
            c = sim.cells(x)
            rates.append(max(sum(spectral_radius(q, d, M)[0] / dX[d]
                                 for d in range(len(dX))) for q in c))
        rule(m, tr, tf, dX, cfl, rates, f"{nm} {nX} split={split}")


def trace2(m, n):
    """Two materials and vacuum."""
    import sim
    import work
    for k, g in m.cases("trace2", n):
        pair = [("airnd", "cu_nd", "vac"), ("cu_nd", "airnd", "vac"),
                ("airnd", "viscous", "vac"), ("airnd", "viscous", "cu_nd")][k % 4]
        Ms = [mats.mat(x) for x in pair]
        nx = int(g.integers(12, 20))
        dx = .1
        x = (np.arange(nx) + .5) * dx
        a = float(g.uniform(.3, .5)) * nx * dx
        b = float(g.uniform(.65, .85)) * nx * dx
        u = np.zeros((nx, NV))
        for i in range(nx):
            j = 0 if x[i] < a else (1 if x[i] < b else 2)
            ls = [x[i] - a, x[i] - b]
            if pair[j] == "vac":
                u[i, NV - LSET:] = ls
                continue
            r, p, v = mats.ref(pair[j])
            P = spec.Prim(r, 1. if pair[j] != "cu_nd" else .01,
                          [.01 * g.normal(), 0, 0],
                          np.eye(3) * np.cbrt(r / Ms[j].ρ0), ls=ls)
            u[i] = spec.cons(P, Ms[j])
        cfl = float(g.uniform(.2, .6))

        def rate(q, j):
            return spectral_radius(q, 0, Ms[j])[0] / dx
        r0 = max(rate(u[i], j) for i in range(nx) for j in [
            0 if x[i] < a else (1 if x[i] < b else 2)] if pair[j] != "vac")
        tf = cfl / r0 * float(g.uniform(2, 8))
        tr = sim.run(u, tf, [nx], [dx], Ms, bcs=[0, 0], cfl=cfl, split=True,
                     flux=0)
        m.desc(u, materials=str(pair), steps=len(tr.dt))
        if not all(np.isfinite(y).all() for y in tr.u):
            m.count("runs that failed")
            continue
        lower = []
        for y in [tr.u0] + tr.u[:-1]:
            c = sim.cells(y)
            rs = []
            for q in c:
                j = int((q[NV - LSET:] >= 0).sum())
                if pair[j] != "vac" and q[0] > 0:
                    rs.append(rate(q, j))
            lower.append(max(rs))
        # ghost cells may be faster than the cells of the material, never by
        # orders of magnitude at rest
        rule(m, tr, tf, [dx], cfl, [2 * z for z in lower], f"{pair} {nx}",
             lower)
