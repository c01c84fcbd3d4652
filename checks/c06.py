"""Wave structure: flux, non-conservative product, source and system matrix are
those of the GPR model, on random states of every material.

The oracle is an independent transcription of the model (lib/spec.py): the
equation of state, E = e(ρ,p) + C0|devG|²/4 + cα²J²/2 + v²/2 + Qc(λ-1), fluxes
from the stress σ = -ρAᵀ∂E/∂A at constant entropy, Jacobians by complex step."""
from env import *

RULE = ("random states (density, pressure, velocity, rotated and strained "
        "distortion, heat, concentration, level sets) of 17 materials of every "
        "equation of state and rheology, in the 3 directions; non-trivial: "
        "moving, strained and distinct")
ASSUME = ["the module is compiled with gcc -O2, without fast-math",
          "states within 20 % of the reference compression (a factor 1.2 for "
          "gases) and within 10 % elastic strain"]


def jobs(tier):
    q = tier == "quick"
    n = 30 if q else 600
    cap = jobs_for(["default"], "capped")
    return cap + jobs_for(["default", "thermulti"] if q else
                    ["default", "bare", "thermal", "multi", "lset1",
                     "thermal1", "multi3", "thermulti"],
                    parts=2 if q else 1, args=dict(n=n, parts=2 if q else 1))


def reactive(M, name, g):
    k = g.integers(4)
    if not MULTI or k == 3:
        return M, "inert"
    M.Qc = float(10 ** g.uniform(-2, 0)) * abs(
        M.cv * (M.Tref or 300.) if name not in ("viscous", "airnd", "ideal",
                                                "dilatant", "shearthin",
                                                "bingham") else 1.)
    M.REACTION = int(k)
    if k == 0:
        M.Ti, M.Kc = float(g.uniform(0, 600)), 2.5e3
    elif k == 1:
        M.Bc, M.Ea, M.Rc = 1e3, float(g.uniform(0.1, 10)), 0.01
    else:
        M.I, M.G1, M.G2 = 4e6, 1e-4, 1e-6
        M.a, M.b, M.c, M.d, M.e, M.g = .01, .667, .667, .111, .333, 1.
        M.x, M.y, M.z = float(g.choice([2., 2.5, 3.])), 1., 1.5
        M.φI, M.φG1, M.φG2 = (float(x) for x in g.uniform(
            [.02, .3, .3], [.3, .9, .9]))
    return M, ["discrete", "arrhenius", "ignition growth"][k]


def source_spec(Q, M):
    P = spec.prim(Q, M)
    s = np.zeros(NV)
    s[2:5] = M.δp
    s[5:14] = spec.dAdt(Q, M).ravel()
    if THERMAL:
        T = spec.T_of(P.r, P.p, M)
        s[14:17] = -M.cα2 * Q[14:17] * T / (M.κ * P.r)
    if M.REACTION > -1:
        s[MVI] = -P.r * spec.reaction_rate(P, M)
    return s


def work(m, n, part=0, parts=1):
    names = materials()[part::parts]
    for it, g in m.cases("state", [(nm, k) for nm in names for k in range(n)]):
        nm, k = it
        M = mats.some(g, nm)
        M, kind = reactive(M, nm, g)
        if g.random() < 0.3:
            M.δp = g.normal(size=3)
        rot = g.random() < .8
        strain = 0.03
        if M.SOLID and M.POWER_LAW:
            strain = float(10 ** g.uniform(-4, -1.5))
        P = spec.rand_prim(g, nm, M, vel=float(10 ** g.uniform(-1, 0.5)),
                           strain=strain)
        if not rot:
            P.A = spec.rand_A(g, P.r, M, strain, rot=False)
        Q = spec.cons(P, M)
        m.desc(Q, material=nm, reaction=kind)
        m.count(f"reaction {kind}")
        sc = qscale(Q, M)
        Qc = Q.copy()
        # one wave speed turns the state's magnitudes into the flux's
        w = np.sqrt(sc[1] / Q[0]) + np.linalg.norm(P.v)
        p = SV.pressure(Qc, M)
        m.close("pressure", p, P.p, 1e-10, sc[1] * abs(spec.Gam(P.r, M)))
        for d in range(3):
            F = np.zeros(NV)
            S.flux(F, Qc, d, M)
            F2 = spec.flux(Q, d, M)
            fs = w * sc
            if THERMAL:
                T = abs(spec.T_of(P.r, P.p, M))
                fs[14:17] = abs(F2[14:17]) + T + w * abs(Q[14:17]).max()
                # T inherits the cancellation of the pressure
                fs[14:17] += sc[1] / (P.r * M.cv)
                fs[1] += M.cα2 * np.abs(P.J).max() * fs[14]
            m.close("flux", F, F2, 1e-10, fs, ctx=f"{nm} d={d}")
            # the flux is added to what is there
            F3 = np.arange(NV) * fs
            S.flux(F3, Qc, d, M)
            keep = np.ones(NV, bool)
            m.close("flux accumulates", F3[keep], (np.arange(NV) * fs + F)[keep],
                    1e-12, (1 + np.arange(NV)) * fs, ctx=f"{nm} d={d}")
            # the non-conservative product
            B = np.zeros((NV, NV))
            S.block(B, Qc, d)
            B2 = spec.Bmat(Q, d)
            vs = np.linalg.norm(P.v)
            m.close("non-conservative matrix", B, B2, 1e-13, vs,
                    ctx=f"{nm} d={d}")
            x = g.normal(size=NV) * sc
            y = np.full(NV, np.nan)
            S.Bdot(y, Qc, x, d, M)
            m.close("non-conservative product", y, B2 @ x, 1e-12,
                    4 * vs * np.array([1e-300] * 5 + [np.abs(x[5:14]).max()] * 9
                                      + [1e-300] * (NV - 14 - LSET)
                                      + list(np.abs(x[NV - LSET:])) * bool(LSET)),
                    ctx=f"{nm} d={d}")
            # the system matrix, nondimensionalised
            A1 = S.system_matrix(Qc, d, M)
            A2 = spec.system_matrix(Q, d, M)
            D = 1 / sc
            R1 = D[:, None] * A1 / D
            R2 = D[:, None] * A2 / D
            big = np.abs(R2).max()
            m.close("system matrix", R1, R2, 2e-9, big, ctx=f"{nm} d={d}")
            lam = np.linalg.eigvals(R2)
            # hyperbolic: real spectrum, up to defective multiple eigenvalues,
            # wherever the model itself is
            if M.EOS == 4 or not M.β:
                m.ok("real wave speeds",
                     np.abs(lam.imag).max() <= 2e-4 * np.abs(lam).max(),
                     f"{nm} d={d} {lam}")
        # primitive Jacobian times its inverse action
        J1 = S.dPdQ(Qc, M)
        J2 = np.zeros((NV, NV))
        for k2 in range(NV):
            z = Q.astype(complex)
            z[k2] += 1e-30j
            PP = spec.prim(z, M)
            row = np.concatenate([[PP.r, PP.p], PP.v, PP.A.ravel()]
                                 + ([PP.J] if THERMAL else [])
                                 + ([[PP.lam]] if MULTI else [])
                                 + [z[NV - LSET:] if LSET else []])
            J2[:, k2] = np.imag(row) / 1e-30
        ps = np.ones(NV)
        ps[0], ps[1] = Q[0], sc[1]
        ps[2:5] = sc[2] / Q[0]
        if THERMAL:
            ps[14:17] = sc[14] / Q[0]
        if LSET:
            ps[NV - LSET:] = sc[NV - LSET:]
        R1, R2 = J1 * sc / ps[:, None], J2 * sc / ps[:, None]
        m.close("primitive Jacobian", R1, R2, 2e-9, np.abs(R2).max(), ctx=nm)
        # source
        s1 = np.full(NV, np.nan)
        S.source(s1, Qc, M)
        s2 = source_spec(Q, M)
        ss = np.full(NV, 1e-300)
        ss[2:5] = np.abs(M.δp).max() + 1e-300
        ss[5:14] = np.abs(s2[5:14]).max() + 1e-300
        tolA = 1e-9 * (1 + abs(M.n if M.POWER_LAW and M.SOLID else 0))
        a2 = s2[5:14]
        if M.SOLID and M.POWER_LAW:
            sn = spec.sigma_norm(spec.sigma(P.r, P.A, M))
            m.count("plastic states below yield", sn < M.σY)
            m.count("plastic states above yield", sn >= M.σY)
            if sn > 0.999999e8:
                # see capped() below: accept the stress being capped here
                c = a2 * min(1., (1e8 / sn) ** M.n)
                if np.abs(s1[5:14] - c).max() < np.abs(s1[5:14] - a2).max():
                    a2 = c
                    ss[5:14] = np.abs(c).max() + 1e-300
        m.close("distortion source", s1[5:14], a2, tolA, ss[5:14], ctx=nm)
        m.close("body force", s1[2:5], s2[2:5], 1e-14, ss[2:5], ctx=nm)
        m.ok("no mass or energy source", s1[0] == 0 and s1[1] == 0,
             f"{nm} {s1[:2]}")
        if THERMAL:
            T = spec.T_of(P.r, P.p, M)
            f = 1 + sc[1] / (P.r * M.cv * abs(T))
            m.close("heat source", s1[14:17], s2[14:17], 1e-10 * f,
                    np.abs(s2[14:17]).max() + 1e-300, ctx=nm)
        if MULTI:
            T = spec.T_of(P.r, P.p, M)
            m.close("reaction source", s1[MVI], s2[MVI], 1e-8,
                    abs(s2[MVI]) * (1 + M.Ea / max(M.Rc * abs(T), 1e-9)
                                    if M.REACTION == 1 else 1) + 1e-300,
                    ctx=f"{nm} {kind}")
        if LSET:
            m.ok("no level-set source", not s1[NV - LSET:].any(), str(s1))
        m.ok("inputs untouched", np.array_equal(Qc, Q), nm)


def capped(m):
    """A metal whose yield stress is above 1e8 has to flow once its stress
    exceeds the yield stress, whatever the units."""
    for nm, g in m.cases("strong metal", ["al_grp"]):
        M = mats.some(g, nm)
        r = M.ρ0
        A = np.diag([1.02, 1., 1 / 1.02])
        P = spec.Prim(r, 1e5, np.zeros(3), A)
        sn = spec.sigma_norm(spec.sigma(r, A, M))
        Q = spec.cons(P, M)
        s1 = np.zeros(NV)
        S.source(s1, Q, M)
        m.desc(Q, material=nm, stress=float(sn), yield_stress=M.σY)
        want = spec.dAdt(Q, M).ravel()
        m.close("strong metals yield", s1[5:14], want, 1e-6,
                np.abs(want).max(), ctx=f"{nm} |σ|={sn:.3g} σY={M.σY:.3g}")
