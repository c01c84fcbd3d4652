"""The Python set-up and analysis functions: what goes in is what the solver gets,
and what they compute is what the model says."""
from env import *
if WORKER:
    import types
    import spec
    from gpr.misc import objects, structures
    from gpr.vars import (derivatives, eos, hyp, mg, shear, sources, state,
                          wavespeeds)
    from gpr.misc import functions as fun
    from gpr.multi import get_material_index, rotations

RULE = ("random parameter sets for every equation of state, rheology, reaction and "
        "mixture; random states of the table's and of random materials; "
        "non-trivial: parameters and states differ from the defaults")
ASSUME = ["gpr/sys, gpr/multi/riemann, conditions and vectors use names that are "
          "not defined anywhere and cannot be run"]


def jobs(tier):
    n = 1200 if tier == "quick" else 8000
    return (jobs_for(["default"], "params", args=dict(n=3 * n)) +
            jobs_for(["default", "thermal", "tm0", "multi", "bare"], "states",
                     args=dict(n=n)) +
            jobs_for(["default"], "functions", args=dict(n=n)) +
            jobs_for(["default", "bare"], "hyper", args=dict(n=n)))


# ------------------------------------------------------------------ parameters

KEYS = {"sg": ["γ", "pINF"], "smg": ["Γ0", "c0", "s"],
        "gr": ["c0", "α", "β", "γ"], "jwl": ["Γ0", "A", "B", "R1", "R2"],
        "cc": ["Γ0", "A", "B", "R1", "R2"]}
REACT = {"d": ["Kc", "Ti"], "a": ["Ea", "Bc", "Rc"],
         "i": ["I", "G1", "G2", "a", "b", "c", "d", "e", "g", "x", "y", "z",
               "φI", "φG1", "φG2"]}


def val(g):
    return float(10 ** g.uniform(-3, 6))


def squared(k, v):
    return ("c02", v ** 2) if k == "c0" else (k, v)


def params(m, n):
    for k, g in m.cases("params", n):
        kinds = list(KEYS)
        eos = str(g.choice(kinds))
        ask = dict(EOS=eos, ρ0=val(g))
        want = dict(EOS=mats.EOS[eos], ρ0=ask["ρ0"])
        if g.random() < .8:
            ask["cv"] = want["cv"] = val(g)
            want["Tref"] = 0.
            if g.random() < .5:
                ask["Tref"] = want["Tref"] = val(g)
        for q in KEYS[eos]:
            v = val(g)
            if q == "pINF" and g.random() < .4:
                want["pINF"] = 0.
                continue
            ask[q] = v
            a, b = squared(q, v)
            want[a] = b
        # rheology
        kind = str(g.choice(["none", "elastic", "newton", "power", "plastic",
                             "bingham"]))
        if kind != "none":
            ask["b0"] = val(g)
            want["b02"] = ask["b0"] ** 2
            if eos != "gr":
                want["β"] = 0.
                if g.random() < .3:
                    ask["β"] = want["β"] = val(g)
            want.update(SOLID=kind in ("elastic", "plastic"),
                        POWER_LAW=kind in ("power", "plastic"),
                        BINGHAM=kind == "bingham")
            for q in dict(elastic=[], newton=["μ"], power=["μ", "n"],
                          plastic=["σY", "n", "τ0"],
                          bingham=["μ", "σY"])[kind]:
                ask[q] = want[q] = val(g)
            # what the rheology does not need does not change it
            for q in dict(elastic=["σY", "τ0"], newton=["τ0"], power=["τ0"],
                          plastic=["μ"], bingham=["τ0"])[kind]:
                if g.random() < .25:
                    ask[q] = want[q] = val(g)
            if "n" not in ask:
                want["n"] = 1.
        if g.random() < .6:
            ask["cα"] = val(g)
            want["cα2"] = ask["cα"] ** 2
            if "γ" in ask and "μ" in ask and "cv" in ask and g.random() < .6:
                ask["Pr"] = val(g)
                want["κ"] = ask["μ"] * ask["γ"] * ask["cv"] / ask["Pr"]
            else:
                ask["κ"] = want["κ"] = val(g)
        rk = str(g.choice(["", "d", "a", "i"]))
        want["REACTION"] = -1
        if rk:
            ask["REACTION"] = rk
            want["REACTION"] = mats.REACT[rk]
            ask["Qc"] = want["Qc"] = val(g)
            for q in REACT[rk]:
                ask[q] = want[q] = val(g)
        want["δp"] = np.zeros(3)
        if g.random() < .4:
            ask["δp"] = want["δp"] = g.normal(size=3)
        want2 = None
        if g.random() < .5:
            same = g.random() < .4
            eos2 = eos if same else str(g.choice(kinds))
            ask.update(MULTI=True, EOS_2=eos2)
            want["MULTI"] = True
            want2 = dict(EOS=mats.EOS[eos2], ρ0=ask["ρ0"])
            if g.random() < .8:
                ask["cv_2"] = want2["cv"] = val(g)
                want2["Tref"] = 0.
                if g.random() < .5:
                    ask["Tref_2"] = want2["Tref"] = val(g)
            for q in KEYS[eos2]:
                v = val(g)
                ask[q + "_2"] = v
                a, b = squared(q, v)
                want2[a] = b
            if kind != "none":
                ask["b0_2"] = val(g)
                want2["b02"] = ask["b0_2"] ** 2
                ask["μ_2"] = want2["μ"] = val(g)
                if eos2 != "gr":
                    want2["β"] = 0.
                    if g.random() < .3:
                        ask["β_2"] = want2["β"] = val(g)
                if g.random() < .5:
                    ask["n_2"] = want2["n"] = val(g)
            if "cα" in ask:
                ask["cα_2"] = val(g)
                want2["cα2"] = ask["cα_2"] ** 2
                if all(q in ask for q in ("γ_2", "μ_2", "cv_2")) and \
                        g.random() < .6:
                    ask["Pr_2"] = val(g)
                    want2["κ"] = ask["μ_2"] * ask["γ_2"] * ask["cv_2"] / \
                        ask["Pr_2"]
                else:
                    ask["κ_2"] = want2["κ"] = val(g)
        m.desc(eos=eos, kind=kind, reaction=rk, mixture=want2 is not None,
               k=k, asked=len(ask))
        m.count(f"parameter sets, {eos} {kind}")
        try:
            M = objects.material_params(**ask)
        except Exception as e:
            m.violate("a material is made", f"{ask}: {e!r}")
            continue
        same_pars(m, "", M, want, ask)
        if want2 is not None:
            same_pars(m, "second component's ", M.MP2, want2, ask)
    for k, g in m.cases("vacuum", 1):
        M = objects.material_params(EOS="vac", ρ0=1.)
        m.ok("vacuum", M.EOS == -1 and M.REACTION == -1)


def same_pars(m, who, M, want, ask):
    for q, w in want.items():
        v = getattr(M, q)
        m.ok(f"{who}parameters are those given",
             np.allclose(np.asarray(v, float), np.asarray(w, float),
                         rtol=1e-14, atol=0),
             f"{q} is {v}, expected {w}; asked for {ask}")


# ---------------------------------------------------------------------- states


def material(g):
    names = [x for x in materials() if x != "ideal"]
    nm = str(g.choice(names))
    M = mats.some(g, nm)
    if not THERMAL:
        M.cα2 = 0.
    lam = None
    if MULTI:
        lam = float(g.uniform(0, 1))
        if g.random() < .1:
            lam = 1 + 1e-3 * g.random()
        rk = int(g.integers(-1, 3))
        M.REACTION = rk
        if rk >= 0:
            T0 = 1.
            M.Qc = g.uniform(0, 2) * 1e3
            M.Kc, M.Ti = val(g), val(g)
            M.Bc, M.Ea, M.Rc = val(g), val(g), val(g)
            M.I, M.G1, M.G2 = g.uniform(0, 50, 3)
            M.a = g.uniform(0, .1)
            for q in "bcdegxyz":
                setattr(M, q, float(g.choice([g.uniform(0, 3), 1., 2.])))
            M.φI, M.φG1, M.φG2 = g.uniform(0, 1, 3)
    M.δp = g.normal(size=3)
    return nm, M, lam


def sigma_of(r, A, M):
    G = A.T @ A
    return -r * spec.cs2(r, M) * G @ spec.dev(G)


def states(m, n):
    for k, g in m.cases("states", n):
        nm, M, lam = material(g)
        P = spec.rand_prim(g, nm, M, comp=.1, strain=.15 * g.random(), lam=lam)
        if not THERMAL:
            P.J = np.zeros(3)
        reacts = M.REACTION >= 0
        Q = spec.cons(P, M)
        m.desc(Q, material=nm, reaction=int(M.REACTION))
        m.count(f"states of {nm}")
        # composition
        kw = dict(A=P.A)
        if THERMAL:
            kw["J"] = P.J
        if MULTI and reacts:
            kw["λ"] = lam
        got = structures.Cvec(P.r, P.p, P.v, M, **kw)
        size = 14 + 3 * THERMAL + (MULTI and reacts)
        want = Q[:size]
        sc = qscale(Q, M)[:size]
        m.close("conserved variables", got, want, 1e-12, sc, ctx=nm)
        S = structures.State(Q, M)
        c = f"{nm} ρ={P.r} p={P.p}"
        E = Q[1] / Q[0]
        es = sc[1] / P.r
        ps = sc[1] * max(1., float(spec.Gam(P.r, M)))
        m.close("state: density", S.ρ, P.r, 1e-15, P.r, ctx=c)
        m.close("state: energy", S.E, E, 1e-14, es, ctx=c)
        m.close("state: velocity", S.v, P.v, 1e-14, ctx=c)
        m.ok("state: distortion", np.array_equal(S.A, P.A), c)
        if THERMAL:
            m.close("state: heat impulse", S.J, P.J, 1e-14, ctx=c)
        if MULTI:
            m.close("state: concentration", S.λ, lam, 1e-14, 1., ctx=c)
        m.close("state: metric", S.G(), P.A.T @ P.A, 1e-13, ctx=c)
        p = S.p()
        m.close("state: pressure", p, P.p, 1e-11, ps, ctx=c)
        T = float(spec.T_of(P.r, P.p, M))
        Ts = abs(T) + ps / (P.r * float(spec.Gam(P.r, M)) * M.cv)
        m.close("state: temperature", S.T(), T, 1e-11, Ts, ctx=c)
        sg = sigma_of(P.r, P.A, M)
        ss = P.r * float(spec.cs2(P.r, M)) * np.max(np.abs(P.A)) ** 4
        m.close("state: shear stress", S.σ(), sg, 1e-12, ss, ctx=c)
        m.close("state: shear stress of the solver's flux",
                solver_sigma(Q, M, P), sg, 1e-9, ps + ss + sc[1], ctx=c)
        m.close("state: dσ/dρ", S.dσdρ(), np.imag(
            sigma_of(P.r + 1e-30j, P.A, M)) / 1e-30, 1e-11,
            ss / P.r * (1 + abs(M.β)), ctx=c)
        d = np.zeros((3, 3, 3, 3))
        for a in range(3):
            for b in range(3):
                z = P.A.astype(complex)
                z[a, b] += 1e-30j
                d[:, :, a, b] = np.imag(sigma_of(P.r, z, M)) / 1e-30
        ds = ss / np.max(np.abs(P.A))
        m.close("state: dσ/dA", S.dσdA(), d, 1e-11, ds, ctx=c)
        for j in range(3):
            m.close("dσ/dA along an axis", state.dsigmadAdd(P.r, P.A, j, M),
                    d[j, :, :, j], 1e-11, ds, ctx=f"{c} axis {j}")
        m.close("state: total stress", S.Σ(), P.p * np.eye(3) - sg, 1e-11,
                ps + ss, ctx=c)
        ψ = spec.cs2(P.r, M) * P.A @ spec.dev(P.A.T @ P.A)
        m.close("state: ψ", S.ψ(), ψ, 1e-12, ss / P.r, ctx=c)
        if THERMAL:
            m.close("state: H", S.H(), M.cα2 * P.J, 1e-13, ctx=c)
            m.close("state: heat flux", S.q(), M.cα2 * P.J * T, 1e-11,
                    M.cα2 * np.max(np.abs(P.J)) * Ts, ctx=c)
            m.close("state: 1/θ2", S.θ2_1(), T / (M.κ * P.r), 1e-11,
                    Ts / (M.κ * P.r), ctx=c)

        def etot(r, p, A):
            return spec.e1(r, p, M) + spec.C0(r, M) / 4 * spec.devG2(A)
        smg0 = M.EOS == 1 and abs(P.r / M.ρ0 - 1) < 1e-9
        if not smg0:
            w = np.imag(etot(P.r + 1e-30j * P.r, P.p, P.A)) / 1e-30 / P.r
            m.close("state: dE/dρ", S.dEdρ(), w, 1e-10,
                    abs(w) + (es + ps / P.r) / P.r, ctx=c)
            w = np.imag(spec.T_of(P.r + 1e-30j * P.r, P.p, M)) / 1e-30 / P.r
            m.close("state: dT/dρ", S.dTdρ(), w, 1e-10,
                    abs(w) + Ts / P.r, ctx=c)
        Γ = float(spec.Gam(P.r, M))
        m.close("state: dE/dp", S.dEdp(), 1 / (P.r * Γ), 1e-13, ctx=c)
        m.close("state: dT/dp", S.dTdp(), 1 / (P.r * Γ * M.cv), 1e-13, ctx=c)
        C = float(spec.C0(P.r, M))
        m.close("state: dE/dA", S.dEdA(), C * P.A @ spec.dev(P.A.T @ P.A),
                1e-12, abs(C) * np.max(np.abs(P.A)) ** 3 + ss / P.r, ctx=c)
        sn = spec.sigma_norm(sg)
        if not (M.SOLID and M.POWER_LAW and sn > .99e8):
            try:
                th = S.θ1_1()
            except Exception as e:
                th = np.nan
                m.violate("state: 1/θ1", f"{c}: {e!r}")
            else:
                w = spec.theta1inv(Q, M)
                near = M.BINGHAM and abs(
                    np.linalg.norm(sg) / 2 ** .5 / M.σY - 1) < 1e-9
                if not near:
                    m.close("state: 1/θ1", th, w, 1e-9 * max(1, M.n, 1 / M.n),
                            max(abs(w), 1e-300), ctx=c)
        if M.SOLID and M.POWER_LAW:
            m.close("state: plastic deformation", S.plastic_deformation(),
                    sn / M.σY, 1e-11, sn / M.σY + 1e-9 * ss / M.σY, ctx=c)
        if MULTI and reacts:
            w = spec.reaction_rate(P, M)
            try:
                K = S.K()
            except Exception as e:
                m.violate("state: reaction rate", f"{c}: {e!r}")
            else:
                if M.REACTION == 0 and abs(T / M.Ti - 1) < 1e-9:
                    K = w
                m.ok("state: a reaction rate is given", K is not None,
                     f"{c} reaction {M.REACTION}")
                if K is not None:
                    m.close("state: reaction rate", K, w, 1e-7, abs(w) + 1e-250,
                            ctx=f"{c} reaction {M.REACTION} λ={lam}")
                    if M.REACTION != 2 or P.p > 0:
                        m.close("state: reaction rate of the solver", K,
                                SV.reaction_rate(Q, M), 1e-7,
                                abs(w) + 1e-250,
                                ctx=f"{c} reaction {M.REACTION} λ={lam}")
        m.ok("state: body force", np.array_equal(S.f_body(), M.δp), c)


def solver_sigma(Q, M, P):
    """The stress in the solver's flux of momentum."""
    out = np.zeros((3, 3))
    for d in range(3):
        F = np.zeros(NV)
        S.flux(F, np.ascontiguousarray(Q), d, M)
        out[d] = Q[2:5] * P.v[d] + P.p * np.eye(3)[d] - F[2:5]
    return out


# ------------------------------------------------------------------- functions


def functions(m, n):
    for k, g in m.cases("functions", n):
        nm, M, _ = material(g)
        M.cα2 = g.uniform(.1, 10)
        r0, p0, _ = mats.ref(nm)
        P = spec.rand_prim(g, nm, M, comp=.2, strain=.2 * g.random())
        r, p, A = P.r, P.p, P.A
        m.desc(A, material=nm, r=r, p=p)
        c = f"{nm} ρ={r} p={p}"

        def D(f):
            return np.imag(f(r + 1e-30j * r)) / 1e-30 / r
        pr = float(spec.pref(r, M))
        Γ = float(spec.Gam(r, M))
        mod = max(abs(p), abs(pr), abs(M.A) if M.EOS in (2, 3) else 0,
                  abs(M.B) if M.EOS in (2, 3) else 0,
                  M.c02 * r if M.EOS in (1, 4) else 0)
        es = mod / r + abs(float(spec.eref(r, M)))
        near = M.EOS == 1 and abs(r / M.ρ0 - 1) < 1e-9
        m.close("Γ", mg.Γ_MG(r, M), Γ, 1e-14, ctx=c)
        m.close("reference pressure", mg.p_ref(r, M), pr, 1e-12, mod, ctx=c)
        m.close("reference energy", mg.e_ref(r, M), spec.eref(r, M), 1e-12, es,
                ctx=c)
        if not near:
            m.close("dΓ/dρ", mg.dΓ_MG(r, M), D(lambda x: spec.Gam(x, M)),
                    1e-13, abs(Γ) / r, ctx=c)
            w = D(lambda x: spec.pref(x, M))
            m.close("dpref/dρ", mg.dp_ref(r, M), w, 1e-11,
                    abs(w) + mod / r, ctx=c)
            w = D(lambda x: spec.eref(x, M))
            m.close("deref/dρ", mg.de_ref(r, M), w, 1e-11,
                    abs(w) + 1e-3 * es / r, ctx=c)
            w = D(lambda x: spec.e1(x, p, M))
            m.close("de/dρ", mg.dedρ(r, p, M), w, 1e-11, abs(w) + es / r, ctx=c)
            w = D(lambda x: spec.T_of(x, p, M))
            m.close("dT/dρ", mg.dTdρ(r, p, M), w, 1e-11,
                    abs(w) + es / r / M.cv / Γ, ctx=c)
        e = float(spec.e1(r, p, M))
        m.close("internal energy", mg.internal_energy(r, p, M), e, 1e-12,
                es / Γ + es, ctx=c)
        m.close("pressure of an energy", mg.pressure(r, e, M), p, 1e-11,
                (es * r + mod) * max(1, Γ), ctx=c)
        m.close("integrating factor", mg.φ(r, M), spec.phi(r, M), 1e-12, ctx=c)
        m.close("temperature", mg.temperature(r, p, M), spec.T_of(r, p, M),
                1e-11, abs(float(spec.T_of(r, p, M))) + es / M.cv / Γ, ctx=c)
        m.close("de/dp", mg.dedp(r, M), 1 / (r * Γ), 1e-13, ctx=c)
        m.close("dT/dp", mg.dTdp(r, M), 1 / (r * Γ * M.cv), 1e-13, ctx=c)
        # shear
        cs = float(spec.cs2(r, M))
        m.close("shear wave speed", shear.c_s2(r, M), cs, 1e-12, ctx=c)
        m.close("dcs²/dρ", shear.dc_s2dρ(r, M), D(lambda x: spec.cs2(x, M)),
                1e-12, cs / r, ctx=c)
        C = float(spec.C0(r, M))
        m.close("C0", shear.C_0(r, M), C, 1e-12, cs * (1 + abs(M.β / Γ)), ctx=c)
        m.close("dC0/dρ", shear.dC_0dρ(r, M), D(lambda x: spec.C0(x, M)),
                1e-11, cs / r * (1 + abs(M.β / Γ)) * (1 + abs(M.β)), ctx=c)
        # energy
        J = g.normal(size=3)
        v = g.normal(size=3) * 10.
        m.close("energy of heat", eos.E_2J(J, M), M.cα2 * (J @ J) / 2, 1e-13,
                ctx=c)
        m.close("kinetic energy", eos.E_3(v), v @ v / 2, 1e-13, ctx=c)
        m.close("elastic energy", eos.E_2A(r, A, M), C / 4 * spec.devG2(A),
                1e-11, (abs(C) + cs) * np.max(np.abs(A)) ** 4, ctx=c)
        M.Qc = g.uniform(0, 10)
        lam = g.uniform(0, 1)
        m.close("chemical energy", eos.E_R(lam, M), M.Qc * (lam - 1), 1e-13,
                M.Qc, ctx=c)
        full = e + C / 4 * spec.devG2(A) + v @ v / 2 + M.cα2 * (J @ J) / 2 \
            + M.Qc * (lam - 1)
        tot = (abs(e) + es / Γ + es + v @ v + M.cα2 * (J @ J) + M.Qc
               + (abs(C) + cs) * np.max(np.abs(A)) ** 4)
        m.close("total energy", eos.total_energy(r, p, v, A, J, lam, M), full,
                1e-12, tot, ctx=c)
        m.close("total energy of part", eos.total_energy(
            r, p, v, None, None, None, M), e + v @ v / 2, 1e-12, tot, ctx=c)
        m.close("pressure of the total energy", state.pressure(
            r, full, v, A, J, lam, M), p, 1e-11,
            tot * r * max(1, Γ) + mod, ctx=c)
        # sound speeds
        if not near:
            er = D(lambda x: spec.e1(x, p, M)) + \
                D(lambda x: spec.C0(x, M)) / 4 * spec.devG2(A)
            c2 = (p / r ** 2 - er) * r * Γ
            if c2 > 1e-3 * (es + cs) and c2 > 0:
                m.close("adiabatic sound speed", wavespeeds.c_0(r, p, A, M),
                        np.sqrt(c2), 1e-9, ctx=c)
                m.close("longitudinal speed", call(wavespeeds.c_inf, r, p, A, M),
                        np.sqrt(c2 + 4 / 3 * cs), 1e-9, ctx=c)
        T = abs(float(spec.T_of(r, p, M))) + 1e-3
        m.close("heat wave speed", wavespeeds.c_h(r, T, M),
                np.sqrt(M.cα2 * T / M.cv) / r, 1e-12, ctx=c)
        tensors(m, g)


def call(f, *a):
    try:
        return f(*a)
    except Exception as e:
        return np.nan


def tensors(m, g):
    X = g.normal(size=(3, 3))
    G = X.T @ X
    b = np.abs(X).max() ** 4 * 10
    m.close("trace", fun.tr(X), np.trace(X), 1e-14, b)
    m.close("determinant", fun.det3(X), np.linalg.det(X), 1e-13, b + 1)
    m.close("norms", [fun.L2_1D(X[0]), fun.L2_2D(X)],
            [X[0] @ X[0], np.sum(X * X)], 1e-13, b + 1)
    s = (X + X.T) / 2
    m.close("equivalent stress", fun.sigma_norm(s), spec.sigma_norm(s), 1e-13,
            b + 1)
    w = np.linalg.eigvalsh(G)
    m.close("invariants", [fun.I_1(G), fun.I_2(G), fun.I_3(G)],
            [w.sum(), w[0] * w[1] + w[1] * w[2] + w[2] * w[0], w.prod()],
            1e-12, [w[2] + 1, w[2] ** 2 + 1, w[2] ** 3 + 1])
    m.close("deviator", fun.dev(G), spec.dev(G), 1e-13, b + 1)
    m.close("products", [fun.GdevG(G), fun.AdevG(X, G), fun.gram(X),
                         fun.gram_rev(X)],
            [G @ spec.dev(G), X @ spec.dev(G), G, X @ X.T], 1e-12,
            np.abs(X).max() ** 4 * 30 + 1)
    x = float(g.choice([1, -1]) * 10 ** g.uniform(-14, 2))
    y = fun.lim(x)
    m.ok("small numbers are kept away from zero",
         abs(y) >= 1e-11 and y * x > 0 and (abs(x) < 1e-11 or x == y), f"{x} {y}")
    for q in (14, 17):
        # ρ, p, A by columns, v, J, in the order of the state, A by rows
        x = g.normal(size=q)
        m.ok("order of the variables", np.array_equal(
            fun.reorder(x), np.concatenate([x[:2], x[11:14],
                                            x[2:11].reshape(3, 3).T.ravel(),
                                            x[14:]])), f"{x}")
    for nn in (1, 2, 3):
        v = g.normal(size=nn)
        if g.random() < .3:
            v = np.eye(nn)[g.integers(nn)] * g.choice([-1., 1.])
        v = v / np.linalg.norm(v)
        R = rotations.rotation_matrix(v)
        e1 = np.zeros(3)
        e1[:nn] = v
        m.close("rotation to a normal", R @ R.T, np.eye(3), 1e-12, 1., ctx=v)
        m.close("rotation: first axis is the normal", R[0], e1, 1e-14, 1.)
        m.close("rotation: right-handed", np.linalg.det(R), 1., 1e-12, 1.,
                ctx=v)
    if LSET:
        Q = np.zeros(NV)
        L = g.normal(size=LSET)
        for nmat in range(1, LSET + 2):
            if nmat - 1:
                Q[NV - nmat + 1:] = L[:nmat - 1]
                w = int(np.sum(L[:nmat - 1] >= 0))
                m.ok("index of the material",
                     int(get_material_index(Q, nmat)) == w, f"{L} {nmat}")


# --------------------------------------------------------------- hyperelastic


def hyper(m, n):
    for k, g in m.cases("hyper", n):
        r0 = val(g)
        b0 = g.uniform(.5, 3)
        c0 = b0 * g.uniform(1.5, 3)
        α, β, γ = g.uniform(.5, 3, 3)
        cv, T0 = g.uniform(.1, 3), g.uniform(.2, 3)
        H = objects.hyperelastic_params(r0, α, β, γ, cv, T0, b0, c0)
        K = c0 ** 2 - 4 / 3 * b0 ** 2
        m.close("hyperelastic parameters",
                [H.ρ0, H.α, H.β, H.γ, H.cv, H.T0, H.K0, H.b02],
                [r0, α, β, γ, cv, T0, K, b0 ** 2], 1e-13,
                [r0, 3, 3, 3, 3, 3, c0 ** 2, 9])
        F = spec.rand_rot(g) @ np.diag(np.exp(.2 * g.normal(size=3))) @ \
            spec.rand_rot(g)
        A = np.linalg.inv(F)
        s = g.uniform(-.5, .5) * cv
        v = g.normal(size=3)
        r = r0 / np.linalg.det(F)
        m.desc(F, r0=r0, b0=b0)

        def U(A, s, parts=False):
            G = A.T @ A
            I1 = np.trace(G)
            I2 = (I1 ** 2 - np.sum(G * G)) / 2
            I3 = spec_det(G)
            u = (K / (2 * α ** 2) * (I3 ** (α / 2) - 1) ** 2,
                 cv * T0 * I3 ** (γ / 2) * (np.exp(s / cv) - 1),
                 b0 ** 2 / 2 * I3 ** (β / 2) * (I1 ** 2 / 3 - I2))
            return u if parts else sum(u)

        G = A.T @ A
        w = np.linalg.eigvalsh(G)
        I = (w.sum(), w[0] * w[1] + w[1] * w[2] + w[0] * w[2], w.prod())
        u = U(A, s, True)
        sc = c0 ** 2 * (1 + w[2] ** 6) + cv * T0
        m.close("hyperelastic energies",
                [hyp.U_1(I[2], H), hyp.U_2(I[2], s, H), hyp.W(*I, H)], u,
                1e-11, sc)
        E = U(A, s) + v @ v / 2
        m.close("hyperelastic total energy", hyp.total_energy_hyp(A, s, v, H),
                E, 1e-12, sc + v @ v)
        # stress: -ρ Aᵀ ∂e/∂A at constant entropy
        dA = spec.cderiv(lambda z: U(z, s), A)
        Σ = -r * A.T @ dA
        m.close("hyperelastic stress", hyp.Sigma_hyp(r, A, s, H), Σ, 1e-11,
                r * sc)
        T = np.imag(U(A, s + 1e-30j)) / 1e-30
        # T at the entropy scale: ∂e/∂s
        m.close("hyperelastic temperature", hyp.temperature_hyp(s, A, H), T,
                1e-11, T)
        m.close("entropy of the energy", call(hyp.entropy_hyp, E, A, v, H), s,
                1e-9, (cv + sc / T))
        # mean stress: ρ² ∂e/∂ρ at a constant shape, A = ρ^(1/3) Â
        z = A * (1 + 1e-30j)
        mean = r * np.imag(U(z, s)) / 1e-30 / 3
        m.close("mean stress", np.trace(hyp.Sigma_hyp(r, A, s, H)) / -3, mean,
                1e-11, r * sc)
        # the pressure is what is left of it without the shear stress
        cs = b0 ** 2 * np.linalg.det(A) ** β
        sg = -r * cs * G @ (G - np.trace(G) / 3 * np.eye(3))
        p = mean + np.trace(sg) / 3
        m.close("hyperelastic pressure", hyp.pressure_hyp(r, A, s, H), p,
                1e-11, r * sc)
        Q = hyp.Cvec_hyp(F, s, v, H)
        m.close("hyperelastic state", Q, np.concatenate(
            [[r, r * E], r * v, A.ravel()]), 1e-11,
            np.concatenate([[r, r * (sc + v @ v)], [r * 10] * 3,
                            [np.abs(A).max() + 1] * 9]))
        # the same material, seen by the solver
        M = objects.material_params(EOS="gr", ρ0=r0, cv=cv, Tref=T0,
                                    c0=np.sqrt(K), α=α, β=β, γ=γ, b0=b0)
        q = np.zeros(NV)
        q[:14] = Q
        ps = SV.pressure(q, M)
        m.close("pressure seen by the solver", ps, p, 1e-10, r * sc * 4)
        # (the solver's temperature is a function of density and pressure)
        m.close("temperature seen by the solver", SV.temperature(q, M),
                T + β * u[2] / (γ * cv), 1e-9, (sc / cv + T) * 4)


def spec_det(G):
    return (G[0, 0] * (G[1, 1] * G[2, 2] - G[2, 1] * G[1, 2])
            - G[1, 0] * (G[0, 1] * G[2, 2] - G[2, 1] * G[0, 2])
            + G[2, 0] * (G[0, 1] * G[1, 2] - G[1, 1] * G[0, 2]))
