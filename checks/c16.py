"""Maintenance of the distortion between steps: rescaling, rotating, the test for
contortion and the reset.  The first three are called on fields of random
materials, vacuum among them; the reset is seen by running the same simulation
with and without it.  Energies and stresses before and after come from the
independent model in lib/spec.py and from the module's own functions."""
from env import *
if WORKER:
    import sim
    import work

RULE = ("fields of 1-12 cells of 18 materials and vacuum in random layouts, "
        "strains 1e-6 to 0.5, tolerances around the actual contortion; "
        "simulations of 1-12 steps; non-trivial: some cell is not vacuum")
ASSUME = ["determinant of the distortion positive, density positive"]


def jobs(tier):
    q = tier == "quick"
    n = 600 if q else 30000
    J = jobs_for(["default", "bare", "thermulti"] if q else
                 ["default", "bare", "thermulti", "multi3", "thermal"],
                 "functions", args=dict(n=n))
    J += jobs_for(["lset1", "bare", "thermulti"] if q else
                  ["default", "lset1", "bare", "thermulti", "multi3",
                   "thermal"], "reset", args=dict(n=40 if q else 1000))
    J += jobs_for(["rot", "rot_t"], "rotating", args=dict(n=20 if q else 500))
    return J


def field(g, nc):
    nmat = LSET + 1
    names = [str(g.choice(mats.ALL)) for _ in range(nmat)]
    if LSET and g.random() < .5:
        names[int(g.integers(nmat))] = "vac"
    Ms = [mats.mat(x) for x in names]
    u = np.zeros((nc, NV))
    mi = []
    for i in range(nc):
        k = int(g.integers(nmat))
        ls = np.where(np.arange(LSET) < k, 1., -1.) * g.uniform(.1, 3, LSET)
        ls = -np.sort(-ls)
        k = int((ls >= 0).sum())
        mi.append(k)
        M = Ms[k]
        if names[k] == "vac":
            # vacuum is empty in a simulation; anything must survive
            u[i] = g.normal(size=NV) * (g.random() < .5)
            u[i][NV - LSET:] = ls
            continue
        P = spec.rand_prim(g, names[k], M, strain=.02)
        P.A = spec.rand_A(g, P.r, M, float(10 ** g.uniform(-6, -.3)))
        P.ls = ls
        u[i] = spec.cons(P, M)
    return names, Ms, u, np.array(mi)


def contortion(q):
    G = q[5:14].reshape(3, 3)
    G = G.T @ G
    d = abs(np.linalg.det(G)) ** (1 / 3)
    return np.trace(G) / (3 * d) - 1 if d > 0 else -np.inf


def stress(q, M):
    s = np.zeros((3, 3))
    for d in range(3):
        f = np.zeros(NV)
        S.flux(f, np.ascontiguousarray(q), d, M)
        s[d] = f[2:5] - q[2 + d] * q[2:5] / q[0]
    return s


def functions(m, n):
    for k, g in m.cases("functions", n):
        nc = int(g.integers(1, 13))
        names, Ms, u, mi = field(g, nc)
        vac = np.array([names[j] == "vac" for j in mi])
        m.desc(u, materials=names, cells=nc)
        if vac.all():
            m.trivial()
        # rescaling
        v = u.copy()
        c = np.exp(g.normal(size=nc) * float(g.choice([1e-8, .1, 1])))
        v[:, 5:14] *= c[:, None]
        w = v.ravel().copy()
        SO.renorm_distortion(w, Ms)
        w = w.reshape(-1, NV)
        rest = np.ones(NV, bool)
        rest[5:14] = False
        m.ok("rescaling changes nothing else",
             np.array_equal(w[:, rest], v[:, rest]))
        m.ok("rescaling leaves vacuum alone",
             np.array_equal(w[vac], v[vac]), str(names))
        for i in np.flatnonzero(~vac):
            A = w[i, 5:14].reshape(3, 3)
            r0 = Ms[mi[i]].ρ0
            m.close("rescaled determinant", np.linalg.det(A) * r0, w[i, 0],
                    1e-12, ctx=names[mi[i]])
            m.close("rescaled only", w[i, 5:14] * np.abs(v[i, 5:14]).max(),
                    v[i, 5:14] * np.abs(w[i, 5:14]).max(), 1e-14,
                    np.abs(v[i, 5:14]).max() * np.abs(w[i, 5:14]).max())
            m.close("undoes the scale", w[i, 5:14], u[i, 5:14], 1e-9,
                    np.abs(u[i, 5:14]).max())
        # rotating
        w = u.ravel().copy()
        SO.rotate_distortion(w, Ms)
        w = w.reshape(-1, NV)
        m.ok("rotating changes nothing else",
             np.array_equal(w[:, rest], u[:, rest]))
        m.ok("rotating leaves vacuum alone", np.array_equal(w[vac], u[vac]))
        for i in np.flatnonzero(~vac):
            M = Ms[mi[i]]
            A, B = u[i, 5:14].reshape(3, 3), w[i, 5:14].reshape(3, 3)
            m.close("rotating keeps the strain", B.T @ B, A.T @ A, 1e-12,
                    np.abs(A.T @ A).max())
            m.ok("rotating keeps the orientation", np.linalg.det(B) > 0,
                 f"{np.linalg.det(A)} -> {np.linalg.det(B)}")
            # the rows of the result are orthogonal
            C = B @ B.T
            m.close("rotated to principal axes", C - np.diag(np.diag(C)),
                    np.zeros((3, 3)), 1e-12, np.abs(C).max())
            sc = qscale(u[i], M)[1]
            m.close("rotating keeps the stress", stress(w[i], M),
                    stress(u[i], M), 1e-9, sc, ctx=names[mi[i]])
            m.close("rotating keeps the pressure", SV.pressure(w[i], M),
                    SV.pressure(u[i], M), 1e-10, sc, ctx=names[mi[i]])
        # contortion
        cs = np.array([contortion(q) for q in u])
        worst = cs.max()
        for f in (.5, 1 - 1e-7, 1 + 1e-7, 2., 0., 1e9):
            t = abs(worst) * f if f else 0.
            if abs(t - worst) < 1e-13 * (1 + abs(worst)) or worst < 1e-11:
                continue
            if f in (1 - 1e-7, 1 + 1e-7) and worst < 1e-6:
                continue
            if vac.any() and not np.isfinite(u).all():
                continue
            m.ok("contortion is told", SO.contorted(u.ravel().copy(), t) ==
                 (worst > t), f"{worst} {t} {names}")
        # one cell decides, wherever it is
        j = int(g.integers(nc))
        x = u.copy()
        for i in range(nc):
            x[i, 5:14] = np.eye(3).ravel()
        x[j, 5:14] = np.diag([2., 1., .5]).ravel()
        m.ok("any cell may tell", SO.contorted(x.ravel().copy(), .2), f"{j}")
        x[j, 5:14] = np.eye(3).ravel()
        m.ok("none tells", not SO.contorted(x.ravel().copy(), 1e-9))


def reset(m, n):
    """The same run with and without reset."""
    names = ["cu_gr", "steel_el", "c4_el", "cu_nd", "al_grp", "airnd", "water"]
    for k, g in m.cases("reset", n):
        nm = names[k % len(names)]
        M = mats.mat(nm)
        nX = [int(x) for x in g.integers(max(N, 4), 12 if k % 2 else 6,
                                         1 + int(k % 4 == 0))]
        dX = [float(10 ** g.uniform(-2, 1))] * len(nX)
        u, _ = work.field(g, nX, nm, M, str(g.choice(["smooth", "rough"])), .2,
                          strain=float(10 ** g.uniform(-3, -1.3)))
        Ms = [M]
        if LSET:
            other = {} if M.EOS else dict(ρ0=float(M.ρ0 * g.uniform(.6, 1.6)))
            Ms += [mats.mat("vac") if g.random() < .5 else
                   mats.mat(nm, **other) for _ in range(LSET)]
            a = int(g.integers(1, nX[0]))
            for j in range(nX[0]):
                u[j, ..., NV - LSET] = (j + .5 - a) * dX[0]
                u[j, ..., NV - LSET + 1:] = -(nX[0] + 1) * dX[0]
                if j < a:
                    continue
                for q in u[j].reshape(-1, NV):
                    if Ms[1].EOS == -1:
                        q[:NV - LSET] = 0
                    elif other:
                        P = spec.prim(q, M)
                        P.A = P.A * np.cbrt(M.ρ0 / Ms[1].ρ0)
                        q[:] = spec.cons(P, Ms[1])
        cells = u.reshape(-1, NV)
        live = cells[:, 0] > 0
        dt = work.dt_est(cells[live], dX, M, .3)
        kw = dict(cfl=.3, split=True, half=True, flux=0, bcs=[0] * 2 * len(nX))
        steps = int(g.integers(1, 4))
        tf = .2 * dt * steps * .999
        omp(1)
        a = sim.run(u, tf, nX, dX, Ms, **kw)
        if not m.ok("state observed", a.same and len(a.u) == len(a.dt), nm):
            continue
        if not all(np.isfinite(x).all() for x in a.u):
            m.count("runs that failed")
            m.trivial()
            continue
        def worst_of(x):
            c = sim.cells(x)
            return max((contortion(q) for q in c[c[:, 0] > 0]),
                       default=-1.)
        ws = [worst_of(x) for x in a.u]
        # reset at the last step only, or nowhere
        top = max(ws)
        m.desc(u, material=nm, nX=nX, contortion=top)
        b = sim.run(u, tf, nX, dX, Ms, contorted_tol=top * 1.01 + 1e-14, **kw)
        m.ok("not reset below the tolerance", b.same and len(b.u) == len(a.u)
             and all(np.array_equal(x, y) for x, y in zip(a.u, b.u)), nm)
        first = ws[0]
        if first < 1e-9:
            m.count("not contorted")
            continue
        c = sim.run(u, tf, nX, dX, Ms, contorted_tol=first * .5, **kw)
        if not c.same or not c.u:
            m.violate("state observed", nm)
            continue
        x, y = sim.cells(a.u[0]), sim.cells(c.u[0])
        for p, q in zip(x, y):
            if p[0] == 0:
                m.ok("reset leaves vacuum alone", np.array_equal(p, q), nm)
                continue
            keep = np.ones(NV, bool)
            keep[1] = keep[5:14] = False
            m.ok("reset changes only distortion and energy",
                 np.array_equal(p[keep], q[keep]), nm)
            if LSET:
                M = Ms[int(np.sum(p[NV - LSET:] >= 0))]
            P, R = spec.prim(p, M), spec.prim(q, M)
            want = np.cbrt(p[0] / M.ρ0) * np.eye(3)
            m.close("reset to the shear-free distortion", R.A, want, 1e-13,
                    1., ctx=nm)
            sc = qscale(p, M)[1]
            m.close("reset keeps pressure", R.p, P.p, 1e-10, sc, ctx=nm)
            m.close("reset keeps pressure (module)", SV.pressure(q, M),
                    SV.pressure(p, M), 1e-10, sc, ctx=nm)
            z = P
            z.A = want
            m.close("reset removes the shear energy", q[1],
                    spec.cons(z, M)[1], 1e-10, sc, ctx=nm)
            # at constant pressure, shear energy counts negatively if the shear
            # modulus grows fast with the density
            m.ok("reset does not add energy", spec.C0(p[0], M) < 0 or
                 q[1] <= p[1] + 1e-12 * sc,
                 f"{nm} {p[1]} -> {q[1]}")
            m.count("cells reset")


def rotating(m, n):
    """Simulations that rotate the distortion at every tenth step."""
    names = ["cu_gr", "steel_el", "c4_el", "cu_nd", "al_grp", "viscous"]
    for k, g in m.cases("rotating", n):
        nm = names[k % len(names)]
        M = mats.mat(nm)
        nX = [int(g.integers(5, 12))]
        dX = [float(10 ** g.uniform(-2, 1))]
        u, _ = work.field(g, nX, nm, M, "smooth", .2, strain=.01)
        dt = work.dt_est(u, dX, M, .3)
        tf = .2 * dt * 6 + dt * 14
        m.desc(u, material=nm)
        omp(1)
        tr = sim.run(u, tf, nX, dX, [M] * (LSET + 1), cfl=.3, split=True,
                     half=True, flux=0, bcs=[1, 1])
        if not m.ok("state observed", tr.same and len(tr.u) == len(tr.dt), nm):
            continue
        if not all(np.isfinite(x).all() for x in tr.u[:9]):
            m.count("runs that failed")
            continue
        for s, x in enumerate(tr.u):
            if s + 1 > 10:
                # neighbours rotate independently of each other (signs of the
                # axes), which the scheme may not survive
                break
            for q in sim.cells(x):
                A = q[5:14].reshape(3, 3)
                m.ok("orientation kept", np.linalg.det(A) > 0,
                     f"{nm} step {s + 1}")
                C = A @ A.T
                off = np.abs(C - np.diag(np.diag(C))).max() / np.abs(C).max()
                if (s + 1) % 10 == 0:
                    m.close("rotated at every tenth step", off, 0., 1e-10, 1.,
                            ctx=f"{nm} step {s + 1}")
