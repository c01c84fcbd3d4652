"""Relaxation of the distortion: the split scheme's analytic step is compared
with a high-accuracy integration of the independent relaxation equation
(lib/spec.py), and its invariants are checked for steps from far below to far
above the relaxation time, for Newtonian, power-law (thinning and thickening),
Bingham, plastic and elastic materials."""
from env import *
if WORKER:
    from scipy.integrate import solve_ivp

RULE = ("random strained and rotated distortions, strains 1e-5 to 0.3, time "
        "steps 0 to 1e3 relaxation times, 9 rheologies; non-trivial: strained")
ASSUME = ["the analytic formula is accurate to the order of the strain: the "
          "tolerance is 1.5 strain + 1 %",
          "determinant consistent with the density"]

RHEO = [("viscous", {}), ("airnd", {}), ("dilatant", {}), ("shearthin", {}),
        ("dilatant", dict(n=1.)), ("dilatant", dict(n=1.2)),
        ("shearthin", dict(n=.5)), ("bingham", dict(σY=1e-3)),
        ("bingham", dict(σY=.03)), ("al_grp", {}), ("cu_smg", {}),
        ("w_smg", {}), ("cu_gr", {}), ("steel_el", {}), ("c4_el", {}),
        ("cu_smg", dict(n=1.)), ("cu_smg", dict(n=4.))]


def jobs(tier):
    q = tier == "quick"
    n = 680 if q else 12000
    J = jobs_for(["bare"], "relax", parts=4, args=dict(n=n))
    J += jobs_for(["bare"], "split", args=dict(n=n // 4))
    J += jobs_for(["thermulti"], "relax", parts=2, args=dict(n=n // 2))
    J += jobs_for(["bare"], "wholerun", args=dict(n=30 if q else 600))
    if not q:
        J += jobs_for(["default", "thermal1"], "relax", args=dict(n=n))
    return J


def gram(A):
    return A.T @ A


class TooLong(Exception):
    pass


def reference(m, Q, M, T, t0, atol):
    """The distortion after T, by an adaptive integration of the relaxation
    equation in units of its initial time scale; None if that takes too long."""
    calls = [0]

    def rhs(t, y):
        calls[0] += 1
        if calls[0] > 6000 or not np.isfinite(y).all():
            raise TooLong
        z = Q.copy()
        z[5:14] = y
        return t0 * spec.dAdt(z, M).ravel()
    try:
        with np.errstate(all="ignore"):
            s = solve_ivp(rhs, (0, T / t0), Q[5:14], method="LSODA", rtol=1e-8,
                          atol=atol)
    except (TooLong, np.linalg.LinAlgError):
        m.count("reference failed")
        return None
    if not s.success or not np.isfinite(s.y).all():
        m.count("reference failed")
        return None
    m.count("reference found")
    return s.y[:, -1].reshape(3, 3)


def relax(m, n, part=0):
    f = SO.split.analyticSolver_distortion
    for k, g in m.cases(f"relax{part}", n):
        nm, ov = RHEO[k % len(RHEO)]
        M = mats.mat(nm, **ov)
        strain = float(10 ** g.uniform(-5, -.6))
        r = M.ρ0 * float(np.exp((.1 if M.SOLID else .4) * g.normal()))
        if g.random() < .15:       # degenerate stretches
            s = np.exp(strain * np.array(
                [[1, 1, -2], [2, -1, -1], [1, 0, -1]][g.integers(3)]) / 2)
            s *= (r / M.ρ0) ** (1 / 3)
            A = spec.rand_rot(g) @ np.diag(s) @ spec.rand_rot(g)
            if g.random() < .3:
                A = np.diag(s)
        else:
            A = spec.rand_A(g, r, M, strain)
        r0, p0, v0 = mats.ref(nm)
        P = spec.Prim(r, p0, v0 * g.normal(size=3), A,
                      g.normal(size=3) if THERMAL else None,
                      .5 if MULTI else None)
        Q = spec.cons(P, M)
        e0 = np.sqrt(spec.devG2(A)) / np.cbrt(np.linalg.det(gram(A)))
        dA = spec.dAdt(Q, M)
        rate = np.abs(dA).max() / (e0 * np.abs(A).max())
        t0 = 1 / rate if rate > 1e-300 else 1.
        dt = 0. if g.random() < .05 else t0 * float(10 ** (
            g.uniform(-.7, .7) if g.random() < .5 else g.uniform(-4, 3)))
        q = Q.copy()
        f(q, dt, M)
        B = q[5:14].reshape(3, 3)
        m.desc(Q, material=nm, over=ov, strain=strain, steps=dt / t0)
        if not m.ok("finite", np.isfinite(q).all(), f"{nm} {ov} {strain} {dt}"):
            continue
        rest = np.ones(NV, bool)
        rest[5:14] = False
        m.ok("nothing else changes", np.array_equal(q[rest], Q[rest]), nm)
        # the closed form loses half of the digits at tiny strains
        noise = 5e-8 + 1e-11 / e0
        nn = np.abs(A).max()
        m.close("determinant", np.linalg.det(B), np.linalg.det(A), 1e-7,
                ctx=f"{nm} {ov} {strain}")
        # stretches relax along their axes: the left and right singular frames
        # stay, so that A Bᵀ and AᵀB remain symmetric
        m.close("frames stay (left)", (A @ B.T - B @ A.T) / nn ** 2,
                np.zeros((3, 3)), 1e-13 + e0 * noise, 1., ctx=f"{nm} {strain}")
        m.close("frames stay (right)", (A.T @ B - B.T @ A) / nn ** 2,
                np.zeros((3, 3)), 1e-13 + e0 * noise, 1., ctx=f"{nm} {strain}")
        e1 = np.sqrt(spec.devG2(B)) / np.cbrt(np.linalg.det(gram(B)))
        m.ok("shear energy does not grow", e1 <= e0 * (1 + 1e-6) + 3e-8,
             f"{nm} {ov} {e0} -> {e1} dt={dt / t0}")
        # the accurate solution
        if dt == 0 or rate < 1e-300:
            y = A
        else:
            y = reference(m, Q, M, dt, t0, 1e-11 * nn * max(e0, 1e-3))
            if y is None:
                continue
        d3 = np.cbrt(np.linalg.det(gram(A)))
        err = np.abs(gram(B) - gram(y)).max() / d3
        change = np.abs(gram(y) - gram(A)).max() / d3
        m.count("relaxed by more than a tenth", change > .1 * e0)
        # relative to the strain that there was
        small = 1e-5 / e0          # cancellation in the cubic
        m.close("relaxation equation", err / e0, 0.,
                .01 + 1.5 * e0 + small, 1.,
                ctx=f"{nm} {ov} strain {strain:.2g} steps {dt / t0:.2g} "
                f"change {change / e0:.2g}")
        if dt == 0 or rate < 1e-300:
            m.close("no time, no relaxation: nothing changes", B, A,
                    1e-12 + e0 * small * 3, nn,
                    ctx=f"{nm} {ov} {strain:.2g}")
        if M.SOLID and not M.POWER_LAW:
            m.ok("elastic solids do not relax", np.array_equal(q, Q),
                 f"{nm} {np.abs(q - Q).max()}")
        if not M.SOLID and not M.BINGHAM and dt > 100 * t0 \
                and not (M.POWER_LAW and M.n < 1):
            m.ok("fluids lose their shear", e1 <= 1e-3 * e0 + 3e-8,
                 f"{nm} {ov} {e0} -> {e1}")
        if M.BINGHAM:
            s0 = np.linalg.norm(spec.sigma(r, A, M)) / np.sqrt(2)
            s1 = np.linalg.norm(spec.sigma(r, B, M)) / np.sqrt(2)
            m.count("Bingham above yield", s0 > M.σY)
            lim = M.σY * (1 - 2 * e0 - .05)
            m.ok("a Bingham fluid keeps its yield stress",
                 s1 >= min(s0 * (1 - 1e-5), lim) - small * s0,
                 f"{s0} -> {s1} σY={M.σY}")
            if dt > 100 * t0 and s0 > M.σY:
                m.ok("a Bingham fluid yields down to its yield stress",
                     s1 <= M.σY * (1.05 + 2 * e0) + (.01 + small) * s0,
                     f"{s0} -> {s1} σY={M.σY}")


def split(m, n):
    """Twice half a step is nearly a step (the equation is autonomous)."""
    f = SO.split.analyticSolver_distortion
    for k, g in m.cases("split", n):
        nm, ov = RHEO[k % len(RHEO)]
        M = mats.mat(nm, **ov)
        strain = float(10 ** g.uniform(-3, -1))
        r = M.ρ0
        A = spec.rand_A(g, r, M, strain)
        Q = spec.cons(spec.Prim(r, mats.ref(nm)[1], np.zeros(3), A,
                                lam=.5 if MULTI else None), M)
        e0 = np.sqrt(spec.devG2(A))
        rate = np.abs(spec.dAdt(Q, M)).max() / e0
        dt = (1 / rate if rate > 1e-300 else 1.) * float(10 ** g.uniform(-2, 1))
        q = Q.copy()
        f(q, dt, M)
        q2 = Q.copy()
        f(q2, dt / 2, M)
        f(q2, dt / 2, M)
        m.desc(Q, material=nm, over=ov, strain=strain, steps=dt * rate)
        G1, G2 = (gram(x[5:14].reshape(3, 3)) for x in (q, q2))
        m.close("two halves are a whole", (G1 - G2) / e0, np.zeros((3, 3)),
                .01 + 3 * e0 + 1e-6 / e0 ** 2, 1., ctx=f"{nm} {ov} {strain:.2g}")


def wholerun(m, n):
    """A uniform strained state at rest in a simulation relaxes as the equation
    says, in both schemes, with everything else unchanged."""
    import sim
    import work
    for k, g in m.cases("wholerun", n):
        nm, ov = RHEO[k % len(RHEO)]
        M = mats.mat(nm, **ov)
        strain = float(10 ** g.uniform(-3, -1.5))
        r = M.ρ0
        A = spec.rand_A(g, r, M, strain)
        Q = spec.cons(spec.Prim(r, mats.ref(nm)[1], np.zeros(3), A), M)
        nX = [4] if g.random() < .7 else [3, 3]
        u = np.tile(Q, int(np.prod(nX)))
        e0 = np.sqrt(spec.devG2(A))
        rate = np.abs(spec.dAdt(Q, M)).max() / e0
        t0 = 1 / rate if rate > 1e-300 else 1.
        split = bool(g.random() < .7)
        tf = t0 * float(10 ** g.uniform(-1, .3))
        c = work.speed(Q, 0, M)
        dx = c * tf / 4
        if not split and M.SOLID and M.POWER_LAW:
            split = True
        if not split and M.BINGHAM:
            split = True
        tr = sim.run(u, tf, nX, [dx] * len(nX), [M], bcs=[0] * 2 * len(nX),
                     cfl=.8, split=split, stiff=not split, flux=0)
        m.desc(Q, material=nm, over=ov, strain=strain, split=split, nX=nX)
        if not m.ok("run is finite", np.isfinite(tr.final).all(),
                    f"{nm} {ov} {split}"):
            continue
        fin = sim.cells(tr.final)

        y = A
        if rate > 1e-300:
            y = reference(m, Q, M, tf, t0, 1e-12)
            if y is None:
                continue
        G = gram(y)
        for q in fin:
            B = gram(q[5:14].reshape(3, 3))
            m.close("relaxation in a run", np.abs(B - G).max() / e0, 0.,
                    .02 + 3 * e0 + 2e-6 / e0 if split else .05, 1.,
                    ctx=f"{nm} {ov} {strain:.2g} split={split} {nX}")
            sc = qscale(Q, M)
            # a uniform stress exerts no force
            m.close("a uniform stress exerts no force", (q - Q)[:5] / sc[:5],
                    np.zeros(5), 1e-5, 1.,
                    ctx=f"{nm} {split}")
