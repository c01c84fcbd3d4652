"""Mixtures of a reactant and a product with equations of state of their own: the
densities and the pressure found are put into the equations they should solve."""
from env import *
if WORKER:
    import spec
    from scipy.optimize import brentq

RULE = ("random mixtures put together from components in equilibrium, over pairs "
        "of stiffened gases, shock, Godunov-Romenski, JWL and Cochran-Chan "
        "materials; non-trivial: the components' densities differ")
ASSUME = ["units in which densities, pressures and temperatures are of order 1 "
          "(the iteration is not scaled)"]
NAMES = "EOS ρ0 Tref cv pINF Γ0 c02 s α β γ A B R1 R2 b02 μ τ0 σY n cα2 κ"


def jobs(tier):
    q = tier == "quick"
    n = 1500 if q else 30000
    return (jobs_for(["multi", "thermulti"], "mix", args=dict(n=n)) +
            jobs_for(["multi", "tm0"], "pure", args=dict(n=n // 2)) +
            jobs_for(["multi"], "si", args=dict(n=n // 5)))


def component(g, kind):
    r0 = g.uniform(.7, 1.5)
    k = dict(ρ0=r0, cv=g.uniform(.5, 3), Tref=float(g.choice([0, .3])),
             b02=g.uniform(.01, 1), μ=.01, cα2=g.uniform(.1, 2), κ=.1)
    if kind == "sg":
        k.update(γ=g.uniform(1.2, 3), pINF=float(g.choice([0, g.uniform(0, 1)])))
    elif kind == "smg":
        k.update(Γ0=g.uniform(.5, 2), c02=g.uniform(.5, 2), s=g.uniform(1, 1.6))
    elif kind == "gr":
        k.update(γ=g.uniform(.5, 2), c02=g.uniform(.5, 2), α=g.uniform(.5, 2))
    else:
        k.update(Γ0=g.uniform(.3, 1.5), A=g.uniform(1, 50), B=g.uniform(0, 2),
                 R1=g.uniform(3, 6), R2=g.uniform(.8, 1.6))
        if kind == "cc":
            k.update(A=g.uniform(0, 1), B=g.uniform(0, 1.5))
    return mats.par(kind, "fluid", **k)


def second(M):
    P = GPRpy.classes.Params()
    for k in NAMES.split():
        setattr(P, k, getattr(M, k))
    return P


def react(g, M):
    if g.random() < .5:
        M.REACTION = 0
        M.Kc = 1.
        M.Ti = 1e9
        M.Qc = g.uniform(0, 2)
    return M


def state(g, M, r, e, lam):
    """With the internal energy e."""
    Q = np.zeros(NV)
    Q[0] = r
    v = g.normal(size=3)
    A = spec.rand_A(g, r, M, strain=.05)
    E = e + v @ v / 2 + spec.C0(r, M) / 4 * spec.devG2(A)
    Q[5:14] = A.ravel()
    if THERMAL:
        J = .1 * g.normal(size=3)
        E += M.cα2 * (J @ J) / 2
        Q[14:17] = r * J
    if M.REACTION > -1:
        E += M.Qc * (lam - 1)
    Q[1] = r * E
    Q[2:5] = r * v
    Q[14 + 3 * THERMAL] = r * lam
    if LSET:
        Q[NV - LSET:] = -1.
    return Q


def equilibrium(g, M1, M2, p0, T0):
    """Component densities at a common pressure and temperature."""
    p = p0 * g.uniform(.5, 2)
    r1 = M1.ρ0 * g.uniform(.85, 1.15)
    T = spec.T_of(r1, p, M1)
    rr = M2.ρ0 * np.geomspace(.3, 3, 60)
    f = [float(spec.T_of(r, p, M2) - T) for r in rr]
    best = None
    for a, b, fa, fb in zip(rr, rr[1:], f, f[1:]):
        if fa * fb < 0:
            r2 = brentq(lambda r: float(spec.T_of(r, p, M2) - T), a, b,
                        xtol=1e-14)
            if best is None or abs(r2 / M2.ρ0 - 1) < abs(best / M2.ρ0 - 1):
                best = r2
    return p, T, r1, best


def one(m, g, kinds, p0):
    M = react(g, component(g, kinds[0]))
    M2 = component(g, kinds[1])
    if kinds[0] == kinds[1] and g.random() < .3:
        M2 = M                          # the same material twice
    M.MP2 = second(M2)
    M.MULTI = True
    p, T, r1, r2 = equilibrium(g, M, M2, p0, 1.)
    if r2 is None or T <= 0:
        return None
    lam = float(g.choice([g.uniform(.02, .98), g.uniform(.001, .999)]))
    r = 1 / (lam / r1 + (1 - lam) / r2)
    e = lam * spec.e1(r1, p, M) + (1 - lam) * spec.e1(r2, p, M2)
    return M, M2, p, T, r1, r2, lam, r, e


def judge(m, M, M2, Q, s, p, T, r1, r2, lam, r, e, tol=1e-5):
    """Whether a root was found; a triple that is not one is not judged."""
    ps, a, b = [float(x) for x in s]
    if not np.isfinite([ps, a, b]).all() or a <= 0 or b <= 0:
        return False
    es = max(abs(e), abs(p / r), M.cv * T)
    with np.errstate(all="ignore"):
        d = abs(lam * spec.e1(a, ps, M) + (1 - lam) * spec.e1(b, ps, M2) - e)
        t = abs(spec.T_of(a, ps, M) - spec.T_of(b, ps, M2))
    return d < tol * es and t < tol * max(T, 1e-300)


def mix(m, n):
    V = GPRpy.system.variables
    kinds = ["sg", "sg", "smg", "gr", "jwl", "cc"]
    found = tried = 0
    for k, g in m.cases("mix", n):
        kk = [str(x) for x in g.choice(kinds, 2)]
        c = one(m, g, kk, 1.)
        if c is None:
            m.trivial()
            continue
        M, M2, p, T, r1, r2, lam, r, e = c
        Q = state(g, M, r, e, lam)
        m.desc(Q, kinds=kk, lam=lam)
        s = np.array(V.solve_multi(Q, M), float)
        ctx = f"{kk} λ={lam} p={p} ρ=({r1},{r2}): {s}"
        tried += 1
        m.ok("pressure of the state is that of the mixture", np.array_equal(
            V.pressure(Q, M), s[0], equal_nan=True), ctx)
        if np.isfinite(s).all():
            with np.errstate(all="ignore"):
                m.close("components fill the volume",
                        r * (lam / s[1] + (1 - lam) / s[2]), 1., 1e-9,
                        1 + abs(r * lam / s[1]), ctx=ctx)
        if not judge(m, M, M2, Q, s, p, T, r1, r2, lam, r, e):
            m.count("roots not found")
            continue
        found += 1
        m.count("roots found, " + "/".join(sorted(kk)))
        _, e1 = condition(M, M2, lam, r, s[0], s[1], e, T)
        # energy changes along states of equilibrium at constant pressure
        h = 1e-6
        E, X = [], []
        for sg in (-1, 1):
            x = equil_at(M, M2, lam, r * (1 + sg * h), s)
            E.append(x and sum(x))
            X.append(x)
        if None not in E and e1 < 1e-4 * r1:
            A = Q[5:14].reshape(3, 3)
            dC = (spec.C0(r * (1 + h), M) - spec.C0(r * (1 - h), M)) / 4 * \
                spec.devG2(A)
            want = (E[1] - E[0] + dC) / (2 * h * r)
            # terms that cancel
            t = [(a - b) / (h * r) for a, b in zip(X[1], X[0])]
            m.close("energy's derivative by density", V.dEdρ(Q, M), want, 3e-3,
                    abs(want) + abs(e) + p / r ** 2 + abs(t[0]) + abs(t[1]),
                    ctx=ctx)
        # and the pressure's derivatives along states of equilibrium
        want = slopes(M, M2, lam, r, s)
        if want is not None and e1 < 1e-4 * r1 and M.β == 0.:
            J = S.dPdQ(Q, M)
            Ep, El = want
            if M.REACTION > -1:
                El += M.Qc
            m.close("pressure's derivative by energy", J[1, 1], 1 / (r * Ep),
                    3e-3, 1 / abs(r * Ep) + 1e-3, ctx=ctx)
            m.close("pressure's derivative by the reactant's mass",
                    J[1, 14 + 3 * THERMAL], -El / (r * Ep), 3e-3,
                    (abs(El) + abs(spec.e1(s[1], s[0], M)) +
                     abs(spec.e1(s[2], s[0], M2))) / abs(r * Ep), ctx=ctx)
    m.ok("most mixtures of ordinary units are solved", found > .74 * tried or
         tried < 200, f"{found} of {tried}")
    m.count("fraction solved, %", int(100 * found / max(tried, 1)))


def slopes(M, M2, lam, r, s, h=1e-5):
    """Derivatives of the energy by pressure and by fraction at constant
    density, along states of equilibrium."""
    out = []
    for k in range(2):
        E = []
        for sg in (-1, 1):
            p, l = s[0], lam
            if k == 0:
                p *= 1 + sg * h
            else:
                l += sg * h * min(lam, 1 - lam)
            x = equil_at(M, M2, l, r, np.array([p, s[1], s[2]]))
            if x is None:
                return None
            E.append(sum(x))
        d = s[0] if k == 0 else min(lam, 1 - lam)
        out.append((E[1] - E[0]) / (2 * h * d))
    return out


def equil_at(M, M2, lam, r, s):
    """Energy at density r, pressure s[0], temperatures equal."""
    p, a, b = s

    def f(a):
        b = (1 - lam) / (1 / r - lam / a)
        return float(spec.T_of(a, p, M) - spec.T_of(b, p, M2))
    lo, hi = a * .995, a * 1.005
    lo = max(lo, lam * r * 1.0001)
    try:
        if f(lo) * f(hi) > 0:
            return None
        a = brentq(f, lo, hi, xtol=1e-15 * a, rtol=1e-14)
    except (ValueError, ZeroDivisionError):
        return None
    b = (1 - lam) / (1 / r - lam / a)
    return (float(lam * spec.e1(a, p, M)),
            float((1 - lam) * spec.e1(b, p, M2)))


def condition(M, M2, lam, r, p, a, e, T):
    """Bounds on the errors of a solution accepted by judge."""
    def res(x):
        b = (1 - lam) / (1 / r - lam / x[1])
        return np.array([lam * spec.e1(x[1], x[0], M) + (1 - lam) *
                         spec.e1(b, x[0], M2),
                         spec.T_of(x[1], x[0], M) - spec.T_of(b, x[0], M2)],
                        float)
    x0 = np.array([p, a])
    d = 1e-6 * np.array([abs(p), a])
    J = np.array([(res(x0 + v) - res(x0 - v)) / (2 * v.sum())
                  for v in np.diag(d)]).T
    es = max(abs(e), abs(p / r), M.cv * T)
    try:
        return np.abs(np.linalg.inv(J)) @ np.array([1e-5 * es, 1e-5 * T]) * 3
    except np.linalg.LinAlgError:
        return np.array([np.inf, np.inf])


def pure(m, n):
    V = GPRpy.system.variables
    for k, g in m.cases("pure", n):
        kk = [str(x) for x in g.choice(["sg", "smg", "gr", "jwl", "cc"], 2)]
        M = react(g, component(g, kk[0]))
        M2 = component(g, kk[1])
        M.MP2 = second(M2)
        M.MULTI = True
        lam = float(g.choice([0., 1.]))
        X = M if lam else M2
        r = X.ρ0 * g.uniform(.8, 1.25)
        p = g.uniform(-.5, 2)
        e = float(spec.e1(r, p, X))
        Q = state(g, M, r, e, lam)
        # the fraction as the solver sees it
        if Q[14 + 3 * THERMAL] / Q[0] != lam:
            m.trivial()
            continue
        m.desc(Q, kinds=kk, lam=lam)
        s = np.array(V.solve_multi(Q, M), float)
        sc = abs(p) + r * abs(e) + abs(Q[1])
        m.close("pure component: pressure, not below zero", s[0], max(p, 0.),
                1e-9, sc, ctx=f"{kk} {lam} {p}")
        m.close("pure component: density", s[1:], np.full(2, r), 1e-14, r)
        # close to it
        if p > .3:
            for l2 in ([1 - 1e-6] if lam else [1e-6]):
                Q2 = Q.copy()
                Q2[14 + 3 * THERMAL] = r * l2
                if M.REACTION > -1:
                    Q2[1] += r * M.Qc * (l2 - lam)
                s2 = np.array(V.solve_multi(Q2, M), float)
                o = V.solve_multi
                own = s2[1] if lam else s2[2]
                if np.isfinite(s2).all() and (s2[1:] > 0).all() and (
                        np.abs(s2[1:] / r - 1) < .5).all():
                    m.close("nearly pure: pressure", s2[0], p, 1e-3, sc,
                            ctx=f"{kk} {l2} {s2}")
                    m.close("nearly pure: density", own, r, 1e-3, r)
                else:
                    m.count("nearly pure, roots not found")


SI = [("air", "helium"), ("water", "air"), ("nm_cc", "jwl"), ("c4_el", "jwl")]


def si(m, n):
    """Realistic materials in SI units."""
    V = GPRpy.system.variables
    bad = tried = 0
    for k, g in m.cases("si", n):
        a, b = SI[int(g.integers(len(SI)))]
        M = mats.mat(a)
        M2 = mats.mat(b)
        M.MP2 = second(M2)
        M.MULTI = True
        p, T, r1, r2 = equilibrium(g, M, M2, mats.ref(a)[1], 300.)
        if r2 is None or T <= 0:
            m.trivial()
            continue
        lam = g.uniform(.05, .95)
        r = 1 / (lam / r1 + (1 - lam) / r2)
        e = lam * spec.e1(r1, p, M) + (1 - lam) * spec.e1(r2, p, M2)
        Q = state(g, M, r, e, lam)
        m.desc(Q, pair=[a, b], lam=lam)
        s = np.array(V.solve_multi(Q, M), float)
        tried += 1
        bad += not judge(m, M, M2, Q, s, p, T, r1, r2, lam, r, e, 1e-3)
    m.count("mixtures in SI units not solved", bad)
    m.ok("mixtures in SI units are solved", bad <= .4 * tried or tried < 20,
         f"{bad} of {tried} not solved", key="mixtures in SI units")
