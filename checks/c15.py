"""Heat and reaction.  The thermal step is compared with a high-accuracy
integration of the independent heat relaxation law, the reaction step with one
of the independent rate laws; invariants are checked for steps from far below to
far above the time scales.  The scalar solvers offered to Python are compared
with their exact stability functions and their order."""
from env import *
if WORKER:
    from scipy.integrate import solve_ivp
    import sim
    import work

RULE = ("random states of 18 materials, steps of 1e-4 to 1e3 time scales, three "
        "rate laws, random linear and nonlinear scalar equations; non-trivial: "
        "something relaxes")
ASSUME = ["constant specific heat (as in every equation of state of the code)",
          "ignition needs compression beyond its threshold"]


def jobs(tier):
    q = tier == "quick"
    n = 1000 if q else 20000
    J = jobs_for(["thermal", "tm0"] if q else ["thermal", "tm0", "thermulti",
                                               "thermal1"],
                 "heat", parts=2, args=dict(n=n))
    J += jobs_for(["multi", "tm0"] if q else ["multi", "tm0", "thermulti",
                                              "multi3"],
                  "burn", parts=2, args=dict(n=n))
    J += jobs_for(["tm0", "bare"], "together", args=dict(n=n // 2))
    J += jobs_for(["multi"] if q else ["multi", "thermulti", "tm0", "multi3"],
                  "fractions", args=dict(n=60 if q else 600))
    J += jobs_for(["bare", "n3"] if q else ["bare", "n3", "n4", "thermal"],
                  "scalar", args=dict(n=n // 2))
    return J


def c06():
    from importlib import util
    sp = util.spec_from_file_location("c06", os.path.dirname(__file__)
                                      + "/c06.py")
    mod = util.module_from_spec(sp)
    sp.loader.exec_module(mod)
    return mod


def fractions(m, n):
    """In simulations the fraction of reactant stays between zero and one in
    every cell, also where it is nearly so to begin with."""
    for k, g in m.cases("fractions", n):
        nm = str(g.choice(["airnd", "air", "viscous", "jwl", "nm_cc", "cu_gr"]))
        M = mats.mat(nm)
        ndim = 1 + k % 2
        nX = [int(x) for x in g.integers(4, [24, 8][ndim - 1], ndim)]
        u, _ = work.field(g, nX, nm, M, str(g.choice(["smooth", "blocks"])), .2)
        u = np.ascontiguousarray(u)
        c = u.reshape(-1, NV)
        lam = g.choice([0., 1., 1e-9, 1 - 1e-9, .5], len(c))
        # the first and the last cells are at a bound
        lam[[0, -1]] = g.choice([0., 1.], 2)
        c[:, MVI] = lam * c[:, 0]
        dX = [1.] * ndim
        o = dict(split=bool(g.random() < .7), half=bool(g.random() < .7),
                 stiff=False, flux=0)
        bcs = [[0, 0], [1, 1], [0, 1]][int(g.integers(2))] * ndim
        m.desc(u.ravel()[:20], material=nm, nX=nX, bcs=bcs, **o)
        tr = work.simple(g, u, nX, dX, M, bcs, steps=4, cfl=.5, **o)
        for i, x in enumerate(tr.u):
            if not np.isfinite(x).all():
                m.count("runs that failed")
                break
            y = sim.cells(x)
            m.ok("fraction between zero and one",
                 ((y[:, MVI] >= 0) & (y[:, MVI] <= y[:, 0])).all(),
                 f"{nm} step {i} {o} {nX} {bcs} "
                 f"{(y[:, MVI] / y[:, 0]).min()} {(y[:, MVI] / y[:, 0]).max()}")
            m.count("cells at a bound", int(((y[:, MVI] == 0) |
                                             (y[:, MVI] == y[:, 0])).sum()))


def heat(m, n, part=0):
    f = SO.split.analyticSolver_thermal
    names = [x for x in mats.ALL + ["bingham"]]
    for k, g in m.cases(f"heat{part}", n):
        nm = names[k % len(names)]
        M = mats.mat(nm)
        if MULTI and g.random() < .5:
            M, _ = c06().reactive(M, nm, g)
        P = spec.rand_prim(g, nm, M, vel=float(10 ** g.uniform(-1, .5)))
        T = spec.T_of(P.r, P.p, M)
        if not T > 0:
            P.p = abs(P.p) + spec.pref(P.r, M) + 1e-3 * abs(P.p)
            T = spec.T_of(P.r, P.p, M)
        if not T > 0:
            m.trivial()
            m.desc(nm)
            continue
        # the heat flux may hold a fair part of the thermal energy
        share = float(10 ** g.uniform(-6, 0))
        J = g.normal(size=3)
        P.J = J / np.linalg.norm(J) * np.sqrt(2 * share * M.cv * T / M.cα2)
        Q = spec.cons(P, M)
        rate = M.cα2 * T / (M.κ * P.r)
        dt = 0. if k % 20 == 19 else float(10 ** g.uniform(-4, 1.7)) / rate
        m.desc(Q, material=nm, share=share, steps=dt * rate,
               reaction=M.REACTION)
        q = Q.copy()
        f(q, dt, M)
        rest = np.ones(NV, bool)
        rest[14:17] = False
        m.ok("nothing else changes", np.array_equal(q[rest], Q[rest]), nm)
        J0, J1 = Q[14:17], q[14:17]
        n0 = np.linalg.norm(J0)
        m.close("direction stays", np.cross(J0 / n0, J1 / n0), np.zeros(3),
                1e-13, 1., ctx=nm)
        m.ok("does not turn round", J0 @ J1 >= 0, nm)
        m.ok("does not grow", np.linalg.norm(J1) <= n0 * (1 + 1e-12), nm)
        # d|J|²/dt by the law; the temperature comes from the whole state
        e0 = M.cα2 / 2 * (n0 / P.r) ** 2 / M.cv     # what the flux holds

        def rhs(t, y):
            z2 = np.exp(y[0])
            return [-2 * (T + e0 * (1 - z2)) / T]
        s = solve_ivp(rhs, (0, dt * rate), [0.], rtol=1e-10, atol=1e-12,
                      method="LSODA")
        want = np.exp(s.y[0, -1] / 2)
        got = np.linalg.norm(J1) / n0
        # digits lost by the energies that do not heat
        E = abs(Q[1] / Q[0]) + abs(M.b02) * 1e-3 + \
            (M.c02 if M.EOS in (1, 4) else 0) * 1e-2
        noise = 1e-13 * max(1., E / (M.cv * T)) * (1 + dt * rate)
        m.close("heat flux decays by its law", got, want, 1e-7 + noise * 100,
                want, ctx=f"{nm} steps={dt * rate:.3g} share={share:.2g}")
        # two halves
        q2 = Q.copy()
        f(q2, dt / 2, M)
        f(q2, dt / 2, M)
        m.close("two halves make a whole", np.linalg.norm(q2[14:17]) / n0, got,
                1e-7 + noise * 100, got, ctx=f"{nm} steps={dt * rate:.3g}")


class TooLong(Exception):
    pass


def rate_of(lam, Q, M):
    z = Q.copy()
    z[MVI] = lam * z[0]
    return spec.reaction_rate(spec.prim(z, M), M)


def burn(m, n, part=0):
    f = S.ode_stepper_numerical
    r06 = c06().reactive
    names = ["airnd", "viscous", "air", "jwl", "nm_cc", "cu_gr", "c4_el"]
    for k, g in m.cases(f"burn{part}", n):
        nm = names[k % len(names)]
        M = mats.mat(nm)
        kind = "inert"
        while kind == "inert" and k % 10:
            M, kind = r06(mats.mat(nm), nm, g)
        P = spec.rand_prim(g, nm, M, vel=.5)
        if M.REACTION == 2:
            M.a = float(g.choice([0., .02, .0367]))
            M.x = float(g.choice([2., 4., 7., 2.5]))
        P.lam = float(g.choice([1., g.uniform(0, 1), g.uniform(0, 1), 1e-3,
                                0.]))
        if M.EOS == 2 and P.r < .3 * M.ρ0:
            P.r = M.ρ0
        Q = spec.cons(P, M)
        r0 = rate_of(P.lam, Q, M)
        # the time scale of the burn
        ls = np.linspace(0, 1, 9)[1:] * P.lam
        rs = [rate_of(x, Q, M) for x in ls]
        lip = max(max(rs) / max(P.lam, 1e-300), 1e-300)
        if M.REACTION == 1:
            M.Bc *= .1
        z = float(10 ** g.uniform(-3, 3))
        dt = z / lip if lip > 1e-200 else 1.
        q = Q.copy()
        f(q, dt, M)
        m.desc(Q, material=nm, kind=kind, steps=z, lam=P.lam)
        m.count(f"{kind}")
        rest = np.ones(NV, bool)
        rest[MVI] = False
        m.ok("nothing else changes", np.array_equal(q[rest], Q[rest]), nm)
        l0, l1 = Q[MVI] / Q[0], q[MVI] / Q[0]
        if M.REACTION == -1:
            m.ok("inert: nothing changes", np.array_equal(q, Q), nm)
            m.trivial()
            continue
        m.ok("reactant between zero and what there was",
             0 <= l1 <= l0 * (1 + 1e-12), f"{nm} {kind} {l0} -> {l1} steps={z}")
        if l0 == 0:
            m.ok("burnt: nothing changes", l1 == 0, nm)
            m.trivial()
            continue
        if max(rs) == 0:
            m.ok("below the threshold nothing burns", l1 == l0,
                 f"{nm} {kind} {l0} -> {l1}")
            m.count("no rate")
            continue
        zz = dt * max(rate_of(x, Q, M) for x in ls) / P.lam
        if zz > 8:
            continue
        # the exact solution; the law may be discontinuous in λ (thresholds)
        if M.REACTION == 0 and min(rs) == 0 or M.REACTION == 2:
            m.count("thresholds crossed")
            if M.REACTION == 0:
                continue
        calls = [0]

        def rhs(t, y):
            calls[0] += 1
            if calls[0] > 3000:
                raise TooLong
            return [-rate_of(max(y[0], 0), Q, M) * dt]
        try:
            s = solve_ivp(rhs, (0, 1), [l0], rtol=1e-8, atol=1e-10 * l0,
                          method="RK45")
        except TooLong:
            m.count("reference failed")
            continue
        if not s.success:
            continue
        want = max(s.y[0, -1], 0.)
        rr = [rate_of(x, Q, M) for x in np.linspace(0, 1, 17) * P.lam]
        w = max(zz, dt * np.abs(np.diff(rr)).max() / P.lam * 16) / 4
        tol = 1e-6 + .3 * w ** 5
        if M.REACTION == 2:         # thresholds are crossed between stages
            if zz > .5:
                continue
            tol = .02 + .5 * zz
        m.close(f"burns by its law ({kind})", l1 / l0, want / l0, tol, 1.,
                ctx=f"{nm} {kind} steps={zz:.3g} {l0}")


def together(m, n):
    """The source step of the split scheme is its parts."""
    names = mats.ALL + ["bingham"]
    for k, g in m.cases("together", n):
        nm = names[k % len(names)]
        M = mats.mat(nm)
        kind = "inert"
        if MULTI:
            M, kind = c06().reactive(M, nm, g)
        if g.random() < .5:
            M.δp = g.normal(size=3) * 10 ** g.uniform(-1, 2)
        nc = int(g.integers(1, 5))
        Q = []
        for _ in range(nc):
            P = spec.rand_prim(g, nm, M, vel=.5)
            if M.REACTION == 2:
                P.lam = min(P.lam, 1.) if P.lam is not None else None
            Q.append(spec.cons(P, M))
        Q = np.array(Q)
        dt = float(10 ** g.uniform(-9, -3))
        m.desc(Q, material=nm, kind=kind, dt=dt)
        u = Q.ravel().copy()
        SO.split.ode_launcher(u, dt, M)
        u = u.reshape(-1, NV)
        for a, b in zip(Q, u):
            w = a.copy()
            w[2:5] += np.asarray(M.δp) * dt
            x = w.copy()
            if GPRpy.options.VISCOUS():
                SO.split.analyticSolver_distortion(w, dt, M)
            if THERMAL:
                SO.split.analyticSolver_thermal(w, dt, M)
            if MULTI:
                S.ode_stepper_numerical(w, dt, M)
            if not np.isfinite(w).all():
                m.count("state left the model")
                continue
            m.close("source step", b, w, 1e-10, qscale(a, M) + np.abs(w) +
                    np.abs(x), ctx=f"{nm} {kind}")


def pade(z):
    """Stability functions of the scheme of order 2N-1."""
    if N == 2:
        return (1 + z / 3) / (1 - 2 * z / 3 + z ** 2 / 6)
    if N == 3:
        return (1 + 2 * z / 5 + z ** 2 / 20) / \
            (1 - 3 * z / 5 + 3 * z ** 2 / 20 - z ** 3 / 60)
    if N == 4:
        return (1 + 3 * z / 7 + z ** 2 / 14 + z ** 3 / 210) / \
            (1 - 4 * z / 7 + z ** 2 / 7 - 2 * z ** 3 / 105 + z ** 4 / 840)


def scalar(m, n):
    stiff = SO.split.stiff_ode_solve
    rk = SO.split.runge_kutta_launcher
    for k, g in m.cases("linear", n):
        x0 = float(g.normal() * 10 ** g.uniform(-1, 1))
        lam = float(10 ** g.uniform(-2, 3)) * (-1 if g.random() < .8 else 1e-3)
        dt = float(10 ** g.uniform(-2, 0))
        z = lam * dt
        c = float(g.normal())
        if abs(z) < 1e-3:
            c = 0.
        fp = -c / lam if c else 0.
        x = float(stiff(x0, dt, lambda y: lam * y + c))
        m.desc(np.array([x0, lam, dt, c]), z=z)
        want = fp + (x0 - fp) * pade(z)
        m.close("linear equation: the scheme's stability function", x, want,
                1e-4, abs(x0) + abs(fp) + 1., ctx=f"z={z}")
        if -3 < z < 1:
            err = {2: 1 / 72, 3: 1 / 7200, 4: 1 / 1.4e6}[N]
            ex = fp + (x0 - fp) * np.exp(z)
            m.close("linear equation: exact to the order", x, ex,
                    1e-4 + 3 * err * abs(z) ** (2 * N), abs(x0) + abs(fp) + 1.)
        # Runge-Kutta: its own recursion
        ns = int(g.integers(1, 9))
        h = z / ns
        if abs(h) < 3:
            y = float(rk(lambda y: lam * y + c, dt, x0, ns))
            R = 1 + h + h ** 2 / 2 + h ** 3 / 6 + h ** 4 / 24
            m.close("Runge-Kutta: its stability function", y,
                    fp + (x0 - fp) * R ** ns, 1e-10,
                    (abs(x0) + abs(fp)) * max(1, abs(R)) ** ns)
    fs = [("logistic", lambda y: y * (1 - y), lambda y, t: y * np.exp(t) / (
               1 - y + y * np.exp(t)), (.05, 1.5), 1.5, lambda y: 2.),
          ("square", lambda y: -y * y, lambda y, t: y / (1 + y * t), (.1, 2),
           1., lambda y: 2 * y),
          ("root", lambda y: -np.sqrt(abs(y)), lambda y, t:
           (np.sqrt(y) - t / 2) ** 2, (1., 3.), .8, lambda y: 1.),
          ("cube", lambda y: -y ** 3, lambda y, t: y / np.sqrt(
              1 + 2 * t * y * y), (.1, 1.5), 1., lambda y: 3 * y * y)]
    for k, g in m.cases("nonlinear", n):
        nm, f, ex, (lo, hi), tmax, L = fs[k % len(fs)]
        y0 = float(g.uniform(lo, hi))
        t = float(10 ** g.uniform(-2, 0)) * tmax
        m.desc(np.array([y0, t]), equation=nm)
        x = float(stiff(y0, t, f))
        m.close("nonlinear equation to the order", x, ex(y0, t),
                5e-5 + {2: .1, 3: .03, 4: .03}[N] * (L(y0) * t) ** (2 * N), 1.,
                ctx=f"{nm} {y0} {t}")
        e1 = abs(float(rk(f, t, y0, 4)) - ex(y0, t))
        e2 = abs(float(rk(f, t, y0, 8)) - ex(y0, t))
        m.ok("Runge-Kutta converges at fourth order",
             e2 <= e1 / 8 + 1e-12 + 1e-5 * (L(y0) * t) ** 5, f"{nm} {y0} {t}: {e1} {e2}")
        # too coarse steps that fail are refined
        bad = [0]

        def g_(y):
            bad[0] += 1
            return f(y) if bad[0] > 20 else float("nan")
        m.close("refined after a failure", float(rk(g_, t, y0, 4)),
                float(rk(f, t, y0, 8 if bad[0] <= 52 else 16)), 1e-4, 1.,
                ctx=f"{nm} {y0} {t} calls={bad[0]}")
