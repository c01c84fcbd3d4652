"""Numerical fluxes on random pairs of states, against matrix functions of the
model's system matrix (lib/spec.py) computed with LAPACK."""
from env import *

RULE = ("pairs of random states of a material (equal, close and far apart, "
        "sub- and supersonic) in 3 directions; non-trivial: different states")
ASSUME = ["normal velocities away from zero for Roe and Osher: at zero the "
          "system matrix has a defective eigenvalue and its absolute value "
          "depends on rounding",
          "matrices whose eigenvectors have a condition number below 1e9 after "
          "scaling"]
NAMES = ["airnd", "viscous", "dilatant", "cu_nd", "air", "helium", "water",
         "cu_gr", "steel_el", "al_grp", "cu_smg", "jwl", "nm_cc", "c4_el"]


def jobs(tier):
    q = tier == "quick"
    n = 30 if q else 400
    return jobs_for(["default", "thermulti", "n3"] if q else
                    ["default", "bare", "thermal", "multi", "thermulti", "n3",
                     "n4", "n1"], parts=2, args=dict(n=n))


def absmat(A, sc):
    """|A| of a diagonalisable matrix, with the variables scaled."""
    B = A * sc[None, :] / sc[:, None]
    w, R = np.linalg.eig(B)
    k = np.linalg.cond(R)
    X = (R * np.abs(w)) @ np.linalg.inv(R)
    return X.real * sc[:, None] / sc[None, :], k, np.abs(w.imag).max() / max(
        np.abs(w).max(), 1e-300)


def work(m, n, part=0):
    x, w = np.polynomial.legendre.leggauss(N)
    x, w = (x + 1) / 2, w / 2
    xx, ww = np.polynomial.legendre.leggauss(24)
    xx, ww = (xx + 1) / 2, ww / 2
    F = SO.fv
    for it, g in m.cases("pair", [(nm, k) for nm in NAMES[part::2]
                                  for k in range(n)]):
        nm, k = it
        M = mats.mat(nm)
        if MULTI and g.random() < .3:
            M.REACTION, M.Qc, M.Ti, M.Kc = 0, .1 * M.cv, 1e9, 1.
        jump = float(10 ** g.uniform(-3, 0))
        vel = float(10 ** g.uniform(-.5, 1.3))
        P = spec.rand_prim(g, nm, M, vel=vel)
        P2 = spec.rand_prim(g, nm, M, vel=vel)
        z = jump
        PR = spec.Prim(P.r + z * (P2.r - P.r), P.p + z * (P2.p - P.p),
                       P.v + z * (P2.v - P.v) * .5, P.A + z * (P2.A - P.A) * .1,
                       P.J + z * (P2.J - P.J),
                       P.lam + z * (P2.lam - P.lam) if MULTI else None,
                       P.ls + z * (P2.ls - P.ls))
        PR.A *= np.cbrt(PR.r / M.ρ0 / np.linalg.det(PR.A))
        qL, qR = spec.cons(P, M), spec.cons(PR, M)
        sc = np.maximum(qscale(qL, M), qscale(qR, M))
        m.desc(qL, qR, material=nm, jump=jump, velocity=vel)
        for d in range(3):
            ctx = f"{nm} d={d} jump={jump:.2g}"
            FL, FR = spec.flux(qL, d, M), spec.flux(qR, d, M)
            lam = max(S.max_abs_eigs(qL, d, M), S.max_abs_eigs(qR, d, M))
            tol = 1e-11 if not THERMAL else 1e-7
            fs = sc * lam
            if THERMAL:
                # the heat flux of SI materials is large against its impulse
                fs = np.maximum(fs, np.abs(FL) + np.abs(FR))
            a, b = qL.copy(), qR.copy()
            for nme, f in (("Rusanov", F.D_RUS), ("Roe", F.D_ROE),
                           ("Osher", F.D_OSH)):
                same = f(qL, qL, d, M)
                m.close(f"{nme}: consistent", same, 2 * FL, tol, fs, ctx=ctx)
            bz = F.Bint(qL, qL, d, M)
            m.close("no jump, no jump term", bz, np.zeros(NV), 0., fs, ctx=ctx)
            got = F.D_RUS(qL, qR, d, M)
            m.close("Rusanov", got, FL + FR + lam * (qL - qR), tol, fs, ctx=ctx)
            dq = qR - qL
            B = sum(wi * spec.Bmat(qL + xi * dq, d) for xi, wi in zip(x, w)) @ dq
            Bx = sum(wi * spec.Bmat(qL + xi * dq, d)
                     for xi, wi in zip(xx, ww)) @ dq
            gotB = F.Bint(qL, qR, d, M)
            m.close("jump term", gotB, B, 1e-12, fs, ctx=ctx)
            rj = np.abs(dq[0]) / min(qL[0], qR[0])
            dv = np.abs(PR.v - P.v).max()
            m.close("jump term is the path integral", gotB, Bx,
                    1., 1e-11 * fs + 4 * rj ** (2 * N) * np.abs([P.v, PR.v]).max()
                    * max(np.abs(dq[5:14]).max(),
                          np.abs(dq[NV - LSET:]).max(initial=0)), ctx=ctx)
            m.ok("inputs are not changed", np.array_equal(a, qL)
                 and np.array_equal(b, qR), ctx)
            if min(abs(P.v[d]), abs(PR.v[d])) < 1e-2 * lam \
                    or P.v[d] * PR.v[d] < 0:
                m.count("normal velocity too small for Roe and Osher")
                continue
            As = [spec.system_matrix(qL + xi * dq, d, M) for xi in x]
            X, c1, i1 = absmat(sum(wi * Ai for wi, Ai in zip(w, As)), sc)
            Y, c2, i2 = np.zeros((NV, NV)), 0., 0.
            for wi, Ai in zip(w, As):
                Z, c, i = absmat(Ai, sc)
                Y += wi * Z
                c2, i2 = max(c, c2), max(i2, i)
            for nme, f, Z, c, i in (("Roe", F.D_ROE, X, c1, i1),
                                    ("Osher", F.D_OSH, Y, c2, i2)):
                got = f(qL, qR, d, M)
                # LAPACK and Eigen agree up to the conditioning
                # Eigen's eigensolver does not balance: in SI units it
                # loses digits to the ranges of the entries
                t = 1e-13 * min(c, 1e9) * 30 + (
                    1e-8 if max(fs) < 1e6
                    else 3e-2)
                if c > (1e9 if max(fs) < 1e6 else 3e3) or i > 1e-6:
                    m.count(f"{nme}: not judged (conditioning)")
                    continue
                m.count(f"{nme}: judged")
                m.close(f"{nme}: absolute value of the matrix", got,
                        FL + FR + Z @ (qL - qR), t, fs, ctx=ctx + f" cond={c:.2g}")
                sup = min(abs(P.v[d]), abs(PR.v[d])) > .5 * lam \
                    and abs(P.v[d]) > 1.05 * (lam - abs(P.v[d])) \
                    and abs(PR.v[d]) > 1.05 * (lam - abs(PR.v[d]))
                if sup:
                    # everything is advected downstream; the path quadrature
                    # is exact up to O(jump^(2N+1))
                    qt = min(1., 2 * rj + dv / lam
                             + z) ** (2 * N) if N > 1 else 1.
                    if P.v[d] > 0:
                        m.close(f"{nme}: supersonic, takes the left flux",
                                got + gotB, 2 * FL, 1e-9 + t + 3 * qt, fs, ctx=ctx)
                    else:
                        m.close(f"{nme}: supersonic, takes the right flux",
                                got - gotB, 2 * FR, 1e-9 + t + 3 * qt, fs, ctx=ctx)
                    m.count(f"{nme}: supersonic")
