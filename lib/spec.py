"""The GPR model, written from its definition and independent of the project.

Everything follows from the total energy per unit mass
  E(ρ,p,A,J,v,λ) = e(ρ,p) + C0(ρ)/4 |dev(AᵀA)|² + cα²/2 |J|² + |v|²/2 + Qc(λ-1)
with a Mie-Grüneisen e(ρ,p) = e_ref(ρ) + (p - p_ref(ρ)) / (ρ Γ(ρ)).
The functions accept complex numbers, so that derivatives can be taken by
complex steps."""

import numpy as np
from gm import NV, VISCOUS, THERMAL, MULTI, LSET

MV = 5 + 9 * VISCOUS + 3 * THERMAL
I3 = np.eye(3)


def Gam(r, M):
    return {0: lambda: M.γ - 1 + 0 * r, 1: lambda: M.Γ0 * M.ρ0 / r,
            2: lambda: M.Γ0 + 0 * r, 3: lambda: M.Γ0 + 0 * r,
            4: lambda: M.γ + 0 * r}[M.EOS]()


def pref(r, M):
    k = M.EOS
    if k == 0:
        return -M.pINF + 0 * r
    if k == 1:
        if np.real(r) > M.ρ0:
            eta = 1 - M.ρ0 / r
            return M.ρ0 * M.c02 * eta / (1 - M.s * eta) ** 2
        return M.c02 * (r - M.ρ0)
    v = M.ρ0 / r
    if k == 2:
        return M.A * np.exp(-M.R1 * v) + M.B * np.exp(-M.R2 * v)
    if k == 3:
        return M.A * v ** (-M.R1) - M.B * v ** (-M.R2)
    x = (r / M.ρ0) ** M.α
    return M.c02 * r / M.α * (x - 1) * x


def eref(r, M):
    k = M.EOS
    if k == 0:
        return M.pINF / r
    if k == 1:
        if np.real(r) > M.ρ0:
            return pref(r, M) / 2 * (1 / M.ρ0 - 1 / r)
        return 0 * r
    v = M.ρ0 / r
    if k == 2:
        return (M.A / M.R1 * np.exp(-M.R1 * v)
                + M.B / M.R2 * np.exp(-M.R2 * v)) / M.ρ0
    if k == 3:
        return (M.A / (M.R1 - 1) * (v ** (1 - M.R1) - 1)
                - M.B / (M.R2 - 1) * (v ** (1 - M.R2) - 1)) / M.ρ0
    x = (r / M.ρ0) ** M.α
    return M.c02 / (2 * M.α ** 2) * (x - 1) ** 2


def e1(r, p, M):
    return eref(r, M) + (p - pref(r, M)) / (r * Gam(r, M))


def p_of(r, e, M):
    return (e - eref(r, M)) * r * Gam(r, M) + pref(r, M)


def phi(r, M):
    if M.EOS == 1:
        return np.exp(M.Γ0 * (1 - M.ρ0 / r))
    return (r / M.ρ0) ** Gam(r, M)


def T_of(r, p, M):
    return phi(r, M) * M.Tref + (p - pref(r, M)) / (r * Gam(r, M) * M.cv)


def cs2(r, M):
    return M.b02 * (r / M.ρ0) ** M.β


def C0(r, M):
    return (1 - M.β / Gam(r, M)) * cs2(r, M)


def dev(G):
    return G - np.trace(G) / 3 * I3


def devG2(A):
    D = dev(A.T @ A)
    return np.sum(D * D)


def E_total(r, p, A, v, M, J=None, lam=None):
    E = e1(r, p, M) + np.sum(v * v) / 2
    if VISCOUS:
        E = E + C0(r, M) / 4 * devG2(A)
    if THERMAL:
        E = E + M.cα2 / 2 * np.sum(J * J)
    if M.REACTION > -1:
        E = E + M.Qc * (lam - 1)
    return E


class Prim:
    """Primitive state: r, p, v, A, J, lam, ls"""

    def __init__(s, r, p, v, A, J=None, lam=None, ls=None):
        s.r, s.p, s.v, s.A = r, p, np.array(v), np.array(A)
        s.J = np.zeros(3) if J is None else np.array(J)
        s.lam = lam
        s.ls = -np.ones(LSET) if ls is None else np.array(ls)


def cons(P, M):
    Q = np.zeros(NV, dtype=np.result_type(P.r, P.p, P.v, P.A, P.J))
    Q[0] = P.r
    Q[1] = P.r * E_total(P.r, P.p, P.A, P.v, M, P.J, P.lam)
    Q[2:5] = P.r * P.v
    Q[5:14] = P.A.ravel()
    if THERMAL:
        Q[14:17] = P.r * P.J
    if MULTI:
        Q[MV] = P.r * (P.lam if P.lam is not None else 1.)
    if LSET:
        Q[NV - LSET:] = P.ls
    return Q


def prim(Q, M):
    r = Q[0]
    v = Q[2:5] / r
    A = Q[5:14].reshape(3, 3)
    J = Q[14:17] / r if THERMAL else np.zeros(3)
    lam = Q[MV] / r if MULTI else None
    e = Q[1] / r - np.sum(v * v) / 2 - C0(r, M) / 4 * devG2(A)
    if THERMAL:
        e = e - M.cα2 / 2 * np.sum(J * J)
    if M.REACTION > -1:
        e = e - M.Qc * (lam - 1)
    return Prim(r, p_of(r, e, M), v, A, J, lam, Q[NV - LSET:])


def cderiv(f, x, h=1e-30):
    """Gradient of a scalar analytic function by complex steps."""
    x = np.asarray(x, float)
    g = np.zeros(x.shape)
    for i in np.ndindex(*x.shape):
        z = x.astype(complex)
        z[i] += 1j * h
        g[i] = np.imag(f(z)) / h
    return g


def sigma(r, A, M):
    """σ = -ρ Aᵀ ∂E/∂A at constant entropy; the elastic energy at constant
    entropy is cs²/4 |dev G|²."""
    if np.iscomplexobj(r) or np.iscomplexobj(A):
        G = A.T @ A
        return -r * cs2(r, M) * G @ dev(G)
    EA = cderiv(lambda X: cs2(r, M) / 4 * devG2(X), A)
    return -r * A.T @ EA


def flux(Q, d, M):
    P = prim(Q, M)
    s = sigma(P.r, P.A, M)
    S = P.p * I3 - s
    F = np.zeros(NV, dtype=Q.dtype)
    F[0] = P.r * P.v[d]
    F[1] = Q[1] * P.v[d] + S[d] @ P.v
    F[2:5] = Q[2:5] * P.v[d] + S[d]
    Av = P.A @ P.v
    for i in range(3):
        F[5 + 3 * i + d] = Av[i]
    if THERMAL:
        T = T_of(P.r, P.p, M)
        F[1] += M.cα2 * T * P.J[d]
        F[14:17] = P.r * P.J * P.v[d]
        F[14 + d] += T
    if MULTI:
        F[MV] = Q[MV] * P.v[d]
    return F


def Bmat(Q, d):
    """Non-conservative matrix: v_k (∂_k A_ij - ∂_j A_ik) and v·∇φ."""
    v = Q[2:5] / Q[0]
    B = np.zeros((NV, NV))
    for i in range(3):
        for j in range(3):
            # equation for A_ij has  + v_k ∂_k A_ij - v_k ∂_j A_ik
            B[5 + 3 * i + j, 5 + 3 * i + j] += v[d]
            if j == d:
                for k in range(3):
                    B[5 + 3 * i + j, 5 + 3 * i + k] -= v[k]
    for k in range(NV - LSET, NV):
        B[k, k] = v[d]
    return B


def system_matrix(Q, d, M):
    J = np.zeros((NV, NV))
    for k in range(NV):
        z = Q.astype(complex)
        z[k] += 1e-30j * max(1., 1.)
        J[:, k] = np.imag(flux(z, d, M)) / 1e-30
    return J + Bmat(Q, d)


def sigma_norm(s):
    """von Mises equivalent stress"""
    return np.sqrt(((s[0, 0] - s[1, 1]) ** 2 + (s[1, 1] - s[2, 2]) ** 2
                    + (s[2, 2] - s[0, 0]) ** 2
                    + 6 * (s[0, 1] ** 2 + s[1, 2] ** 2 + s[2, 0] ** 2)) / 2)


def theta1inv(Q, M):
    r = Q[0]
    A = Q[5:14].reshape(3, 3)
    A53 = np.linalg.det(A) ** (5 / 3)
    if M.SOLID and not M.POWER_LAW:
        return 0.
    if M.SOLID:
        sn = sigma_norm(sigma(r, A, M))
        return 3 * A53 / (cs2(r, M) * M.τ0) * (sn / M.σY) ** M.n
    sn = np.linalg.norm(sigma(r, A, M)) / np.sqrt(2)
    if M.BINGHAM:
        if sn <= M.σY:
            return 0.
        return A53 * M.ρ0 / (2 * M.μ) * (1 - M.σY / sn)
    if M.POWER_LAW:
        return A53 * M.ρ0 / 2 * M.μ ** (-1 / M.n) * sn ** ((1 - M.n) / M.n)
    return A53 * M.ρ0 / (2 * M.μ)


def dAdt(Q, M):
    r = Q[0]
    A = Q[5:14].reshape(3, 3)
    G = A.T @ A
    return -cs2(r, M) * A @ dev(G) * theta1inv(Q, M)


# ---------------------------------------------------------------- workloads


def rand_rot(g):
    q, r = np.linalg.qr(g.normal(size=(3, 3)))
    q = q * np.sign(np.diag(r))
    if np.linalg.det(q) < 0:
        q[:, 0] *= -1
    return q


def rand_A(g, r, M, strain=0.05, rot=True):
    """A distortion with det A = ρ/ρ0 and stretches within exp(±strain)."""
    s = np.exp(strain * g.uniform(-1, 1, 3))
    s *= (r / M.ρ0 / np.prod(s)) ** (1 / 3)
    U = rand_rot(g)
    V = rand_rot(g) if rot else U.T
    return U @ np.diag(s) @ V


def rand_prim(g, name, M, comp=0.05, strain=None, pvar=1., vel=1., lam=None):
    import mats
    r0, p0, v0 = mats.ref(name)
    fluid = M.EOS in (0, 2, 3) and not M.SOLID
    if strain is None:
        strain = 0.02 if fluid else 0.03
    dr = comp * (4 if M.EOS == 0 and not M.pINF else 1)
    r = r0 * np.exp(g.uniform(-dr, dr))
    if M.EOS == 0 and not M.pINF:
        p = p0 * np.exp(g.uniform(-pvar, pvar))
    else:
        p = pref(r, M) + M.ρ0 * M.cv * (M.Tref or 300.) * Gam(r, M) \
            * g.uniform(0.3, 1.5)
        if M.EOS == 0:
            p = p0 * np.exp(g.uniform(-pvar, pvar))
    v = v0 * vel * g.normal(size=3)
    A = rand_A(g, r, M, strain)
    J = g.normal(size=3) * 0.1 * np.sqrt(max(p, M.ρ0 * 1e-12) / r / M.cα2) \
        if THERMAL and M.cα2 else None
    ls = g.normal(size=LSET)
    if MULTI and lam is None:
        lam = g.uniform(0.05, 0.95)
    return Prim(r, p, v, A, J, lam, ls)


def reaction_rate(P, M):
    """Rate of consumption of the reactant mass fraction λ."""
    lam = max(0., float(P.lam))
    if M.REACTION == 0:
        return M.Kc * lam if T_of(P.r, P.p, M) > M.Ti else 0.
    if M.REACTION == 1:
        return M.Bc * np.exp(-M.Ea / (M.Rc * T_of(P.r, P.p, M))) * lam
    p = max(P.p, 0.)
    lam = min(lam, 1.)
    f = 1 - lam
    s = 0.
    if f < M.φI:
        s += M.I * lam ** M.b * max(P.r / M.ρ0 - 1 - M.a, 0.) ** M.x
    if f < M.φG1:
        s += M.G1 * lam ** M.c * f ** M.d * p ** M.y
    if f > M.φG2:
        s += M.G2 * lam ** M.e * f ** M.g * p ** M.z
    return max(s, 0.)
