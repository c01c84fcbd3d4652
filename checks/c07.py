"""Equation of state and thermodynamics: pressure and temperature invert the
energy, satisfy the thermodynamic identities and the model's symmetries, for
every equation of state; changing to primitive variables and back is exact.

Oracles: an independent equation of state (lib/spec.py), and identities that
need no reference: T ds = de - p dρ/ρ², invariance under a change of frame and
under rotation of the body, smoothness across the reference density."""
from env import *

RULE = ("random states of 18 materials over a wide range of compression "
        "(0.5 to 1.6 for gases, 0.85 to 1.25 for condensed matter), "
        "temperature, velocity and strain; non-trivial: strained, moving, "
        "distinct")
ASSUME = ["states with positive density, pressure above the reference curve"]


def jobs(tier):
    q = tier == "quick"
    n = 60 if q else 2000
    out = jobs_for(["primdef", "prim"] if q else
                   ["default", "bare", "thermal", "multi", "thermulti"],
                   parts=2, args=dict(n=n, parts=2))
    out += jobs_for(["primdef", "prim"], "roundtrip",
                    args=dict(n=4 if q else 60))
    out += jobs_for(["primdef"], "smooth")
    return out


def component(M):
    """The same material as a component of a mixture."""
    C = GPRpy.classes.Params()
    for k in ("EOS", "ρ0", "Tref", "cv", "pINF", "Γ0", "c02", "s", "α", "β",
              "γ", "A", "B", "R1", "R2", "b02", "μ", "τ0", "σY", "n", "cα2",
              "κ"):
        setattr(C, k, getattr(M, k))
    return C


def state(g, nm, M):
    P = spec.rand_prim(g, nm, M, comp=0.2 if not M.SOLID else 0.12,
                       vel=float(10 ** g.uniform(-2, 0.7)),
                       strain=float(10 ** g.uniform(-3, -1)))
    return P


def work(m, n, part=0, parts=1):
    names = (materials() + ["ideal"])[part::parts]
    for it, g in m.cases("state", [(nm, k) for nm in names for k in range(n)]):
        nm, k = it
        M = mats.some(g, nm)
        if MULTI and k % 2:
            M.REACTION, M.Qc = 0, float(g.uniform(-1, 1)) * M.cv * 300
            M.Ti = 1e9
        P = state(g, nm, M)
        Q = spec.cons(P, M)
        m.desc(Q, material=nm)
        sc = qscale(Q, M)[1]
        Gm = abs(spec.Gam(P.r, M))
        tolp = 1e-11 * sc * max(Gm, 1)
        p = SV.pressure(Q.copy(), M)
        m.close("pressure inverts energy", p, P.p, 1., tolp, ctx=nm)
        T = SV.temperature(Q.copy(), M)
        T2 = spec.T_of(P.r, P.p, M)
        tolT = tolp / (P.r * Gm * M.cv) + 1e-12 * abs(T2)
        m.close("temperature", T, T2, 1., tolT, ctx=nm)
        m.close("temperature of density and pressure",
                SV.temperature_mg(P.r, P.p, component(M)), T2, 1., tolT,
                ctx=nm)

        # change of frame
        w = g.normal(size=3) * np.sqrt(sc / P.r) * .3
        Q2 = Q.copy()
        Q2[1] += Q[2:5] @ w + P.r * w @ w / 2
        Q2[2:5] += P.r * w
        m.close("frame invariance", SV.pressure(Q2, M), p, 1.,
                2 * tolp + 1e-11 * abs(Q2[1]) * max(Gm, 1), ctx=nm)
        # rotations of the reference and of the present configuration
        for which in range(2):
            R = spec.rand_rot(g)
            Q2 = Q.copy()
            A = P.A @ R.T if which else R @ P.A
            Q2[5:14] = A.ravel()
            if which:
                Q2[2:5] = R @ Q[2:5]
                if THERMAL:
                    Q2[14:17] = R @ Q[14:17]
            m.close("rotation invariance", SV.pressure(Q2, M), p, 1., 2 * tolp,
                    ctx=nm)
            m.close("rotation invariance", SV.temperature(Q2, M), T, 1.,
                    2 * tolT, ctx=nm)
        # derivatives of the energy
        E = spec.cderiv(lambda z: spec.E_total(z[0], P.p, P.A, P.v, M, P.J,
                                               P.lam), np.array([P.r]),
                        1e-30)[0]
        m.close("density derivative of the energy", SV.dEdρ(Q.copy(), M), E,
                1e-9, sc / P.r ** 2 * (1 + 1 / Gm), ctx=nm)

        # Gibbs: along an isentrope dT/dρ = TΓ/ρ and de = p dρ/ρ².  Central
        # differences of what the module itself reports.
        h = 1e-5
        if M.EOS == 1:
            # the reference curve of the shock Mie-Grüneisen equation is not
            # an isentrope, and its temperature only approximate by definition
            continue
        I = spec.I3 * (P.r / M.ρ0) ** (1 / 3)
        z3 = np.zeros(3)

        def pT(r, e):
            q = np.zeros(NV)
            q[0] = r
            q[5:14] = I.ravel()
            q[1] = r * e
            if MULTI:
                q[MVI] = r
            return SV.pressure(q.copy(), M), SV.temperature(q.copy(), M)
        e0 = float(spec.e1(P.r, P.p, M)) * 1.0
        p0, T0 = pT(P.r, e0)

        def isentrope(dr):
            # one RK4 step of de/dρ = p/ρ²
            f = lambda r, e: pT(r, e)[0] / r ** 2
            a = f(P.r, e0)
            b = f(P.r + dr / 2, e0 + dr / 2 * a)
            c = f(P.r + dr / 2, e0 + dr / 2 * b)
            d = f(P.r + dr, e0 + dr * c)
            return pT(P.r + dr, e0 + dr * (a + 2 * b + 2 * c + d) / 6)
        dr = h * P.r
        Ta, Tb = isentrope(dr)[1], isentrope(-dr)[1]
        lhs = (Ta - Tb) / (2 * dr)
        m.close("Gibbs relation", lhs, T0 * spec.Gam(P.r, M) / P.r, 1.,
                1e-6 * (abs(T0) * (1 + Gm) + tolT * 1e6) / P.r
                + 1e-15 * sc * (1 + Gm) / (P.r * Gm * M.cv) / dr * 30,
                ctx=nm)
        pa, pb = isentrope(dr)[0], isentrope(-dr)[0]
        m.ok("compression raises the pressure", (pa - pb) / dr > 0 or
             spec_c2(P, M) <= 0, f"{nm} {pa} {pb}")


def spec_c2(P, M):
    er = spec.cderiv(lambda z: spec.e1(z[0], P.p, M), np.array([P.r]))[0]
    return (P.p / P.r ** 2 - er) * P.r * spec.Gam(P.r, M)


def roundtrip(m, n):
    """With the reconstruction in primitive variables, the reconstruction of a
    uniform state is the state changed to primitive variables and back."""
    for it, g in m.cases("uniform", [(nm, k) for nm in materials()
                                     for k in range(n)]):
        nm, k = it
        M = mats.some(g, nm)
        if MULTI:
            M.REACTION, M.Qc, M.Ti = 0, 0.3 * M.cv * 300, 1e9
        P = state(g, nm, M)
        Q = spec.cons(P, M)
        m.desc(Q, material=nm)
        nd = 1 + k % 2
        nX = i32(*[3, 4][:nd])
        ub = np.tile(Q, int(np.prod(nX + 2 * N)))
        wh = np.full(int(np.prod(nX + 2)) * N ** nd * NV, np.nan)
        ub0 = ub.copy()
        GPRpy.solvers.weno.weno_launcher(wh, ub, nX, M)
        W = wh.reshape(-1, NV)
        sc = qscale(Q, M)
        m.close("primitive round trip", W, np.broadcast_to(Q, W.shape), 1e-10,
                np.broadcast_to(sc, W.shape), ctx=nm)
        m.ok("the cells are not modified", np.array_equal(ub, ub0), nm)


def smooth(m):
    """Pressure and its slope are continuous at the reference density: the
    jumps shrink with the distance, instead of staying."""
    for nm, g in m.cases("reference density", materials()):
        M = mats.some(g, nm)
        p0 = mats.ref(nm)[1]
        e = float(spec.e1(M.ρ0, p0, M))
        m.desc(np.array([M.ρ0, e]), material=nm)

        def p(r):
            q = np.zeros(NV)
            q[0] = r
            q[1] = r * e
            q[5:14] = spec.I3.ravel()
            return SV.pressure(q, M)
        # stiffness of the material, from the independent model
        x = np.linspace(0.98, 1.02, 9) * M.ρ0
        K = max(abs(spec.cderiv(lambda z: spec.p_of(z[0], e, M),
                                np.array([r]))[0]) for r in x) * M.ρ0
        K = max(K, abs(p0))
        h = 1e-4
        a = [p(M.ρ0 * (1 + k * h)) for k in (-3, -2, -1, 0, 1, 2, 3)]
        m.close("continuous", a[4], a[2], 4 * h, K, ctx=nm)
        m.close("continuous slope", (a[5] - a[4]) / h, (a[2] - a[1]) / h, 1.,
                200 * h * K, ctx=nm)
