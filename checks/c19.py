"""Interface states: the wave relations are compared with the eigenvectors of
the full system, one iteration with its linear problem, and the converged star
state is observed for its jump conditions, frame and orientation."""
from env import *
if WORKER:
    import work

RULE = ("random pairs of states of 17 materials and vacuum x orientations "
        "(random and degenerate, as vectors of 1, 2 and 3 components) x jumps "
        "from 1e-4 to 0.3; non-trivial: distinct pairs")
ASSUME = ["between conductors of heat the temperature and the thermal impulse "
          "are matched, as the solver defines it",
          "jump conditions are demanded where the iteration converges: up to "
          "moderate jumps"]

def jobs(tier):
    q = tier == "quick"
    n = 600 if q else 3000
    J = jobs_for(["default", "thermal", "tm0"], "waves", args=dict(n=n))
    J += jobs_for(["default", "thermal", "stick", "stick_t"], "step",
                  args=dict(n=n))
    J += jobs_for(["default", "thermal1", "stick", "stick_t", "multi"], "star",
                  args=dict(n=n))
    return J


if WORKER:
    n1 = 4 if THERMAL else 3


def is_stick(m):
    return "stick" in m.job


def atyp(P):
    """Primitive variables in the order of the interface solver."""
    x = np.zeros(NV, dtype=np.result_type(P.r, P.p, P.v, P.A, P.J))
    x[0], x[1] = P.r, P.p
    x[2:11] = P.A.T.ravel()
    x[11:14] = P.v
    if THERMAL:
        x[14:17] = P.J
    if MULTI:
        x[MVI] = P.lam
    if LSET:
        x[NV - LSET:] = P.ls
    return x


def from_atyp(x):
    return spec.Prim(x[0], x[1], x[11:14], x[2:11].reshape(3, 3).T,
                     x[14:17] if THERMAL else None,
                     x[MVI] if MULTI else None, x[NV - LSET:])


def jac(f, x, h=1e-25):
    out = []
    for i in range(len(x)):
        z = np.array(x, complex)
        z[i] += 1j * h
        out.append(np.imag(f(z)) / h)
    return np.array(out).T


def state_funcs(M):
    def Sig(x):
        P = from_atyp(x)
        s = -spec.sigma(P.r, P.A, M)[0]
        s = s + np.array([P.p, 0, 0])
        if THERMAL:
            s = np.append(s, spec.T_of(P.r, P.p, M))
        return s
    return Sig


def scales(P, M):
    """Magnitudes of the primitive variables."""
    c = work.speed(np.ascontiguousarray(spec.cons(P, M)), 0, M) \
        - abs(P.v[0])
    s = np.ones(NV)
    s[0], s[1] = P.r, P.r * c * c
    s[2:11] = np.abs(P.A).max()
    s[11:14] = c
    if THERMAL:
        T = abs(spec.T_of(P.r, P.p, M)) or 1.
        s[14:17] = T * M.cv / c / T if not M.cα2 else \
            np.sqrt(M.cv * T / M.cα2)
    return s


def waves_of(Q, M, sgn):
    """Changes of the primitive state across the outgoing waves, by the traction
    (and temperature) that they carry: from the eigenvectors of the system."""
    P = spec.prim(Q, M)
    x = atyp(P)
    s = scales(P, M)
    dQdP = jac(lambda z: spec.cons(from_atyp(z), M), x)
    A = spec.system_matrix(Q, 0, M)
    Mp = np.linalg.solve(dQdP, A @ dQdP) - P.v[0] * np.eye(NV)
    Ms = Mp * s[None, :] / s[:, None]
    w, R = np.linalg.eig(Ms)
    k = np.argsort(w.real * sgn)[:n1]
    w, R = w[k], R[:, k]
    ref = np.abs(w).max()
    if np.abs(w.imag).max() > 1e-9 * ref or np.any(w.real * sgn > -1e-5 * ref):
        return None
    # a pair of equal real eigenvalues may come with complex vectors
    R = np.hstack([R.real, R.imag])
    U, sv, _ = np.linalg.svd(R, full_matrices=False)
    R = U[:, :n1] * s[:, None]
    D = jac(state_funcs(M), x)
    G = D @ R
    if np.linalg.cond(G / np.abs(G).max(1)[:, None]) > 1e9:
        return None
    C = R @ np.linalg.inv(G)
    C[np.abs(C) < 0] = 0
    return C, s, x, P


def pick(g, kind="any"):
    nm = str(g.choice(work.ANY))
    return nm, mats.mat(nm)


def rstate(g, nm, M, amp=1., near=None):
    th = g.uniform(-1, 1, work.NT) * amp
    P = work.prim_of(th, nm, M)
    if LSET:
        P.ls = np.full(LSET, -1.)
    return P


def waves(m, n):
    for k, g in m.cases("waves", n):
        nm, M = pick(g)
        P = rstate(g, nm, M)
        Q = spec.cons(P, M)
        sgn = 1 if k % 2 else -1
        m.desc(Q, material=nm, side=sgn)
        r = waves_of(Q, M, sgn)
        if r is None:
            m.trivial()
            m.count("states without distinct waves")
            continue
        C, s, x, P = r
        R = np.array(S.multi.riemann_constraints(Q.copy(), sgn, M))[:, :n1]
        rows = [0, 1, 2, 3, 4, 11, 12, 13] + ([14] if THERMAL else [])
        # a column is what a unit of traction (temperature) causes: measured
        # against what a traction of the size of the moduli causes
        for c in range(n1):
            size = np.abs(C[:, c] / s).max()
            m.close("wave relations are those of the system", R[rows, c] /
                    s[rows], C[rows, c] / s[rows], 1e-5 if THERMAL else 1e-6,
                    size + 0 * s[rows], ctx=f"{nm} column {c} side {sgn}")
        rest = [i for i in range(NV) if i not in rows]
        m.ok("waves leave the rest of the state alone",
             not np.any(R[rest]), f"{nm}")


def linear(QL, QR, ML, MR, stick):
    """One iteration of the interface problem, solved independently."""
    L = waves_of(QL, ML, 1)
    if L is None:
        return None
    CL, sL, xL, PL = L
    SL = state_funcs(ML)(xL)
    yrow = [11, 12, 13] + ([14] if THERMAL else [])
    YL = CL[yrow]
    yL = xL[yrow]
    if MR.EOS == -1:
        xs = np.zeros(n1)
        if THERMAL:
            # no traction and no heat flux: J vanishes
            xs[3] = SL[3] + (-yL[3] - YL[3, :3] @ (0 - SL[:3])) / YL[3, 3]
        return from_atyp(xL + CL @ (xs - SL)), None
    Rr = waves_of(QR, MR, -1)
    if Rr is None:
        return None
    CR, sR, xR, PR = Rr
    SR = state_funcs(MR)(xR)
    YR = CR[yrow]
    yR = xR[yrow]
    rhs = yR - yL + YL @ SL - YR @ SR
    if stick:
        xs = np.linalg.solve(YL - YR, rhs)
    else:
        q = [0] + ([3] if THERMAL else [])
        xs = np.zeros(n1)
        xs[q] = np.linalg.solve((YL - YR)[np.ix_(q, q)], rhs[q])
    return (from_atyp(xL + CL @ (xs - SL)), from_atyp(xR + CR @ (xs - SR)))


def pairs(g, amp):
    a, Ma = pick(g)
    while True:
        b, Mb = pick(g)
        # materials of the same system of units
        nd = lambda z: mats.ref(z)[0] < 10 and mats.ref(z)[1] < 10
        if nd(a) == nd(b):
            return a, Ma, b, Mb


def step(m, n):
    for k, g in m.cases("step", n):
        a, Ma, b, Mb = pairs(g, 1.)
        PL = rstate(g, a, Ma, .5)
        PR = rstate(g, b, Mb, .5)
        QL = spec.cons(PL, Ma)
        vac = k % 5 == 0
        if vac:
            Mb, b = mats.mat("vac"), "vac"
            QR = np.zeros(NV)
        else:
            QR = spec.cons(PR, Mb)
        m.desc(QL, QR, pair=(a, b))
        want = linear(QL, QR, Ma, Mb, is_stick(m))
        if want is None:
            m.trivial()
            continue
        gL, gR = QL.copy(), QR.copy()
        S.multi.star_stepper(gL, gR, Ma, Mb)
        for q, w, M, P, nm in ((gL, want[0], Ma, PL, a),
                               (gR, want[1], Mb, PR, b)):
            if w is None:
                m.ok("vacuum stays empty", not np.any(q[:NV - LSET]))
                continue
            if not w.r > 0:
                m.trivial()
                continue
            got = atyp(spec.prim(q, M))
            s = scales(P, M)
            if LSET:
                s[NV - LSET:] = 1.
            jump = np.abs((atyp(w) - atyp(P)) / s).max()
            m.close("an iteration solves its linear problem", got / s,
                    atyp(w) / s, 1e-5, jump + 1e-7 + 0 * s,
                    ctx=f"{a}|{b} {nm}")


def star(m, n):
    """The complete iteration."""
    stick = is_stick(m)
    for k, g in m.cases("star", n):
        a, Ma, b, Mb = pairs(g, 1.)
        same = k % 4 == 1
        if same:
            b, Mb = a, Ma
        if THERMAL and Mb.EOS > -1:
            # the thermal impulse and the heat flux can only match together
            # where both conduct alike
            Ma = mats.mat(a, cα2=Mb.cα2)
        amp = 10 ** g.uniform(-4, -.5)
        base = g.uniform(-1, 1, work.NT) * .3
        PL = work.prim_of(base + amp * g.uniform(-1, 1, work.NT), a, Ma)
        PR = work.prim_of(base + amp * g.uniform(-1, 1, work.NT), b, Mb)
        if not same:
            # contacts: near mechanical equilibrium, moving together
            PR.v = PL.v + (PR.v - PL.v) * min(amp, .1)
            PR.p = PL.p + (PR.p - PL.p) * min(amp, .1)
            if Mb.EOS != 0:
                PR.r = Mb.ρ0 * (1 + 1e-2 * amp * g.uniform(-1, 1))
                PR.A = PR.A * (PR.r / Mb.ρ0 / np.linalg.det(PR.A)) ** (1 / 3)
                PR.p = spec.pref(PR.r, Mb) + max(PL.p, 0)
        vac = k % 7 == 3
        QL = spec.cons(PL, Ma)
        if vac:
            Mb, b = mats.mat("vac"), "vac"
            QR = np.zeros(NV)
        else:
            QR = spec.cons(PR, Mb)
        nv = normals(g, k)
        dim = len(nv)
        n3 = np.zeros(3)
        n3[:dim] = nv
        m.desc(QL, QR, nv, pair=(a, b))
        ctx = f"{a}|{b} n={nv} amp={amp:.2g}"
        oL = S.multi.left_star_state(QL.copy(), QR.copy(), Ma, Mb, 0., nv)
        if not np.isfinite(oL).all():
            m.violate("finite", ctx)
            continue
        sL = scales(PL, Ma)
        sL[NV - LSET:] = 1.
        if not np.isfinite(sL).all():
            m.count("not hyperbolic")
            m.trivial()
            continue

        # an impossible problem (tension beyond what the state holds) is left
        # alone, and ones that are too violent need not converge
        def traction(Q, M):
            P = spec.prim(Q, M)
            return (P.p * np.eye(3) - spec.sigma(P.r, P.A, M)) @ n3, P
        t, P = traction(oL, Ma)
        tn = t @ n3
        K = PL.r * min(Ma.b02, work.speed(QL, 0, Ma) ** 2) + 0 * PL.p
        if vac:
            ref = max(np.abs(traction(QL, Ma)[0]).max(), 1e-300)
            strong = Ma.EOS == 0 or ref > .02 * PL.r * sL[11] ** 2
            if strong:
                m.count("violent expansions")
                m.trivial()
            else:
                m.close("no traction against vacuum", t, np.zeros(3), 1e-6,
                        np.full(3, Ma.ρ0 * sL[11] ** 2), ctx=ctx)
                if THERMAL:
                    m.close("no heat flux into vacuum", P.J @ n3, 0.,
                            1e-6, sL[14], ctx=ctx)
            check_rest(m, QL, oL, Ma, ctx)
        else:
            oR = S.multi.left_star_state(QR.copy(), QL.copy(), Mb, Ma, 0., -nv)
            if not np.isfinite(oR).all():
                m.violate("finite", ctx)
                continue
            u, PRs = traction(oR, Mb)
            sR = scales(PR, Mb)
            if not np.isfinite(sR).all():
                m.count("not hyperbolic")
                m.trivial()
                continue
            # how far the states had to move
            mv = max(np.abs((atyp(P) - atyp(PL)) / sL)[:14].max(),
                     np.abs((atyp(PRs) - atyp(PR)) / sR)[:14].max())
            # the iteration is local: sheared beyond the speed of shear waves
            # it may not converge
            if stick and np.abs(PL.v - PR.v).max() > .3 * np.sqrt(
                    min(Ma.b02, Mb.b02)):
                mv = 1.
            if not mv < .2 or np.array_equal(oL, QL) and not same:
                m.count("strong waves, not judged")
                m.trivial()
                continue
            zs = 1 / (1 / (PL.r * sL[11]) + 1 / (PR.r * sR[11]))
            cs = max(sL[11], sR[11])
            ts = zs * cs
            tol = 1e-6
            m.close("normal traction matches", tn, u @ n3, tol, ts, ctx=ctx)
            m.close("normal velocity matches", P.v @ n3, PRs.v @ n3, tol,
                    min(sL[11], sR[11]), ctx=ctx)
            tl, tr = t - tn * n3, u - (u @ n3) * n3
            if stick:
                m.close("traction matches (stick)", tl, tr, tol,
                        np.full(3, ts), ctx=ctx)
                m.close("velocity matches (stick)", P.v, PRs.v, tol,
                        np.full(3, min(sL[11], sR[11])), ctx=ctx)
            else:
                m.close("no tangential traction (slip)", tl, np.zeros(3), 1e-5,
                        np.full(3, PL.r * Ma.b02 + 1e-3 * ts), ctx=ctx)
                m.close("no tangential traction (slip)", tr, np.zeros(3), 1e-5,
                        np.full(3, PR.r * Mb.b02 + 1e-3 * ts), ctx=ctx)
            if THERMAL:
                TL, TR = (spec.T_of(q.r, q.p, M) for q, M in ((P, Ma),
                                                             (PRs, Mb)))
                T0 = spec.T_of(PL.r, PL.p, Ma)
                m.close("temperature matches", TL, TR, 1e-4, max(abs(TL), abs(
                    T0)) + 30 * abs(TL - T0), ctx=ctx)
                m.close("thermal impulse matches", P.J @ n3, PRs.J @ n3, 1e-3,
                        sL[14] + sR[14], ctx=ctx)
            check_rest(m, QL, oL, Ma, ctx)

        # frame and orientation
        w = g.uniform(-1, 1, 3) * sL[11]
        R = spec.rand_rot(g) if dim == 3 else np.eye(3)
        if dim == 2:
            c = g.uniform(0, 6.3)
            R[:2, :2] = [[np.cos(c), -np.sin(c)], [np.sin(c), np.cos(c)]]
        if dim == 1:
            R = np.diag([-1., -1., 1.])

        def moved(P, M):
            X = spec.Prim(P.r, P.p, R @ P.v + w, R @ P.A @ R.T, R @ P.J,
                          P.lam, P.ls)
            return spec.cons(X, M)
        q1 = S.multi.left_star_state(
            moved(spec.prim(QL, Ma), Ma),
            QR if vac else moved(spec.prim(QR, Mb), Mb), Ma, Mb, 0.,
            (R @ n3)[:dim])
        want = moved(P, Ma)
        gp, wp = atyp(spec.prim(q1, Ma)), atyp(spec.prim(want, Ma))
        jump = np.abs((atyp(P) - atyp(PL)) / sL).max()
        # the heat wave is resolved to the tolerance of the temperature (and
        # in SI units the eigensolver is inexact)
        hs = 1 + 0 * sL
        if THERMAL:
            hs += 1e4 * jump
            hs[14:17] += 1e3
        m.close("rotated and moving frames see the same interface", gp / sL,
                wp / sL, 1e-6, hs, ctx=ctx) \
            if jump < .2 else m.count("strong waves, not judged")

        # equal states
        X = spec.Prim(PL.r, PL.p, PL.v, PL.A, PL.J, PL.lam, PL.ls)
        if not stick:
            # without tangential traction: strained along the normal only
            B = basis(n3)
            s3 = np.exp(.01 * g.uniform(-1, 1, 3))
            X.A = spec.rand_rot(g) @ (B @ np.diag(s3) @ B.T)
            X.A = X.A * (PL.r / Ma.ρ0 / np.linalg.det(X.A)) ** (1 / 3)
        E = spec.cons(X, Ma)
        o = S.multi.left_star_state(E.copy(), E.copy(), Ma, Ma,
                                    0. if not relaxed(Ma, X) else
                                    float(10 ** g.uniform(-6, 0)), nv)
        # converged states are left as they are to the iteration's tolerance
        sE = scales(X, Ma)
        sE[NV - LSET:] = 1.
        m.close("equal states are left as they are",
                atyp(spec.prim(o, Ma)) / sE, atyp(X) / sE, 1e-7, 1 + 0 * sE,
                ctx=ctx + " equal")
        # even while there is something to relax
        o = S.multi.left_star_state(E.copy(), E.copy(), Ma, Ma, 1e3, nv)
        m.close("equal states are not relaxed",
                atyp(spec.prim(o, Ma)) / sE, atyp(X) / sE, 1e-7, 1 + 0 * sE,
                ctx=ctx + " equal")


def relaxed(M, P):
    return M.SOLID and not M.POWER_LAW


def check_rest(m, Q, o, M, ctx):
    if MULTI:
        m.close("concentration is kept", o[MVI] / o[0], Q[MVI] / Q[0], 1e-9,
                1., ctx=ctx)
    if LSET:
        m.ok("level sets are kept", np.array_equal(o[NV - LSET:],
                                                   Q[NV - LSET:]), ctx)


def basis(n3):
    a = np.linalg.svd(n3[None])[2]
    a[0] = n3
    return a.T


def normals(g, k):
    sp = [[1.], [-1.], [1., 0], [-1, 0], [0, 1.], [0, -1.], [.6, .8],
          [-.6, .8], [np.sqrt(.5)] * 2, [np.sqrt(.5), -np.sqrt(.5)],
          [1., 0, 0], [0, 1., 0], [0, 0, 1.], [0, 0, -1.],
          [np.sqrt(1 / 3)] * 3, [np.sqrt(1 / 3), -np.sqrt(1 / 3),
                                 np.sqrt(1 / 3)],
          [np.sqrt(1 / 3), -np.sqrt(1 / 3), -np.sqrt(1 / 3)],
          [0, np.sqrt(.5), np.sqrt(.5)], [0, np.sqrt(.5), -np.sqrt(.5)]]
    if k % 2 == 0:
        return np.array(sp[(k // 2) % len(sp)], float)
    d = int(g.integers(2, 4))
    v = g.normal(size=d)
    return v / np.linalg.norm(v)
