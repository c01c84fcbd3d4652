"""Workloads for whole simulations: fields of states on grids."""
from env import *
import sim

# materials whose relaxation is slow against a time step of the unsplit scheme
MILD = ["airnd", "cu_gr", "steel_el", "cu_nd", "c4_el"]
# the rest need the split scheme (or the implicit predictor)
ANY = ["airnd", "air", "viscous", "helium", "water", "jwl", "nm_cc",
       "dilatant", "shearthin", "cu_gr", "steel_el", "cu_nd", "c4_el",
       "al_grp", "cu_smg", "w_smg"]
NT = 18


def rotv(w):
    t = np.linalg.norm(w)
    if t < 1e-12:
        return np.eye(3)
    k = w / t
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + np.sin(t) * K + (1 - np.cos(t)) * K @ K


def prim_of(th, name, M, comp=.05, strain=None, vel=1., rot=1.):
    """A state from 18 numbers of order one."""
    r0, p0, v0 = mats.ref(name)
    if strain is None:
        strain = .02 if M.EOS in (0, 2, 3) and not M.SOLID else .005
    gas = M.EOS == 0 and not M.pINF
    r = r0 * np.exp((3 if gas else .3) * comp * th[0])
    if M.EOS == 0:
        p = p0 * np.exp(6 * comp * th[1])
    else:
        p = spec.pref(r, M) + M.ρ0 * M.cv * (M.Tref or 300.) \
            * spec.Gam(r, M) * np.exp(4 * comp * th[1])
    v = v0 * vel * th[2:5]
    s = np.exp(strain * th[5:8])
    s *= (r / M.ρ0 / np.prod(s)) ** (1 / 3)
    A = rotv(rot * th[8:11]) @ np.diag(s) @ rotv(rot * th[11:14])
    J = None
    if THERMAL:
        J = th[14:17] * .05 * np.sqrt(max(abs(p), M.ρ0 * 1e-12) / r
                                      / M.cα2) if M.cα2 else np.zeros(3)
    lam = .5 + .3 * np.tanh(th[17]) if MULTI else None
    return spec.Prim(r, p, v, A, J, lam)


def thetas(g, nX, kind, amp=.5):
    """Fields of parameters; compact ones are constant near the corners."""
    nX = list(nX)
    base = g.uniform(-1, 1, NT)
    X = np.stack(np.meshgrid(*[(np.arange(n) + .5) / n for n in nX],
                             indexing="ij"), -1)
    sh = X.shape[:-1]
    if kind == "uniform":
        return np.broadcast_to(base, sh + (NT,)).copy()
    if kind == "rough":
        return base + amp * g.uniform(-1, 1, sh + (NT,))
    if kind == "blocks":
        o = base + amp * g.uniform(-1, 1, (2,) * len(nX) + (NT,))
        idx = tuple((X[..., d] > g.uniform(.3, .7)).astype(int)
                    for d in range(len(nX)))
        return o[idx]
    f = np.zeros(sh + (NT,))
    for _ in range(3):
        k = g.integers(-2, 3, len(nX))
        if not k.any():
            k[0] = 1
        ph = 2 * np.pi * (X @ k)
        f += np.sin(ph[..., None] + g.uniform(0, 6.3, NT)) \
            * g.uniform(-.5, .5, NT)
    if kind == "smooth":
        return base + amp * f
    if kind == "compact":
        w = np.ones(sh)
        r = np.zeros(sh)
        for d in range(len(nX)):
            r = np.maximum(r, 0) + ((X[..., d] - .5) / .25) ** 2
        w = np.where(r < 1, np.exp(1 - 1 / np.maximum(1 - r, 1e-9)), 0.)
        f = np.where(w[..., None] > 0, g.uniform(-1, 1, sh + (NT,)) * .5 + f,
                     0) * w[..., None]
        return base + amp * f
    if kind == "edge":
        # disturbed at the middle of every edge, uniform at the corners
        w = np.ones(sh)
        for d in range(len(nX)):
            w = w * 1.
        near = np.zeros(sh)
        for d in range(len(nX)):
            near = np.maximum(near, np.clip(1 - (np.abs(X[..., d] - .5) / .2)
                                            ** 2, 0, 1))
        return base + amp * near[..., None] * (
            f + .4 * g.uniform(-1, 1, sh + (NT,)))
    raise ValueError(kind)


def field(g, nX, name, M, kind, amp=.5, ls=-1., **kw):
    th = thetas(g, nX, kind, amp)
    return assemble(th, name, M, ls, **kw), th


def assemble(th, name, M, ls=-1., **kw):
    sh = th.shape[:-1]
    u = np.zeros(sh + (NV,))
    for i in np.ndindex(*sh):
        P = prim_of(th[i], name, M, **kw)
        if LSET:
            P.ls = np.full(LSET, ls)
        u[i] = spec.cons(P, M)
    return u


def speed(q, d, M):
    return S.max_abs_eigs(np.ascontiguousarray(q), d, M)


def dt_est(u, dX, M, cfl):
    u = u.reshape(-1, NV)
    return cfl / max(sum(speed(q, d, M) / dX[d] for d in range(len(dX)))
                     for q in u)


def scale(u, M):
    """Magnitudes of the conserved variables over a field."""
    u = u.reshape(-1, NV)
    s = np.max([qscale(q, M) for q in u], axis=0)
    return s


def simple(g, u, nX, dX, M, bcs, steps=4, cfl=None, nmat=1, **kw):
    """A short run: a whole number of the (short) first steps and some."""
    cfl = cfl or float(g.uniform(.2, .8))
    tf = dt_est(u, dX, M, cfl) * .2 * steps
    MPs = [M] * (LSET + 1)
    return sim.run(u, tf, nX, dX, MPs, bcs=bcs, cfl=cfl, **kw)
