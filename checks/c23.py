"""Simulations against exact solutions at two resolutions: waves of small
amplitude of every kind, which the linearised model (lib/spec.py, matrix
exponentials) knows exactly; entropy waves of any amplitude, which are carried
along unchanged; Riemann problems of every equation of state, also with two
materials, from an exact solver written here; channel flows."""
from env import *
if WORKER:
    import spec
    import work
    import sim
    from scipy.linalg import expm
    from scipy.optimize import brentq
    from scipy.integrate import quad

RULE = ("random plane waves in 1D and 2D of 12 materials (sound, shear, entropy, "
        "heat, viscous decay) from all initial perturbations, entropy waves of "
        "finite amplitude, Riemann problems of one and two materials over six "
        "equations of state, channel flows of three rheologies, each at two "
        "resolutions, three fluxes, both schemes; non-trivial: the solution "
        "changes")
ASSUME = ["linear waves have amplitudes of 1e-5, and 1e-3 for split fluids, as "
          "the analytic relaxation cannot see the smallest strains",
          "relaxation times above the time step of the coarse grid by a factor "
          "of 2 (split) and 15 (unsplit): neither scheme is accurate, nor the "
          "unsplit one stable, for stiffer waves",
          "Riemann problems: CFL 0.5 at most for the split scheme, and only "
          "second order: its explicit half step is unstable beyond; at third "
          "order smooth waves at CFL 0.4 at most (split) and pressure ratios "
          "below two (unsplit)"]


def jobs(tier):
    q = tier == "quick"
    f = 1 if q else 8
    J = jobs_for(["bare", "thermal", "thermulti", "prim"] if q else
                 ["bare", "thermal", "thermulti", "prim", "primdef", "lset1",
                  "multi", "rot_t", "tm0", "default"],
                 "linear", args=dict(n=40 * f))
    J += jobs_for(["n3"] if q else ["n3", "n4"], "linear", args=dict(n=40 * f))
    J += jobs_for(["corners"] if q else ["corners", "corners_t"], "linear",
                  name="linear2", args=dict(n=12 * f, nd=2, ns=[10, 20]), parts=3)
    J += jobs_for(["bare", "n3"] if q else ["bare", "n3", "multi", "primdef"],
                  "advect", args=dict(n=50 * f))
    J += jobs_for(["corners"] if q else ["corners", "corners_n3"], "advect",
                  name="advect2", args=dict(n=12 * f, nd=2, ns=[10, 20]), parts=2)
    J += jobs_for(["bare", "n3"] if q else ["bare", "n3", "multi", "primdef"],
                  "riemann", args=dict(n=30 * f))
    J += jobs_for(["lset1"], "riemann", name="riemann-two",
                  args=dict(n=25 * f, two=True), parts=2)
    J += jobs_for(["bare"] if q else ["bare", "primdef"], "channel",
                  args=dict(n=20 * f))
    return J


def courant(g, split):
    # the half step of the split scheme is explicit: at third order it is
    # unstable at the larger step
    return float(g.choice([.2, .4] if split and N > 2 else [.4, .8]))


# absolute error on the finer grid; ratio of the errors; rounding and nonlinearity
LIMIT = {"linear1": ((.2, .8, .006), (.015, .8, .005)),
         "linear2": ((.4, .92, .015), (.04, .8, .006)),
         "advect1": ((.1, .7, .002), (.02, .6, .001)),
         "advect2": ((.15, .8, .004), (.03, .7, .002))}


def converged(m, what, em, worst=0.):
    top, ratio, floor = LIMIT[what][N > 2]
    m.most(f"error of {what}, finer grid", max(em[1], worst))
    m.ok(f"{what} accurate", max(em[1], worst) <= top, f"{what}: errors {em} {worst}")
    m.ok(f"{what} converges", em[1] <= ratio * em[0] + floor,
         f"{what}: errors {em}")
    m.most(f"ratio of errors of {what}", (em[1] - floor) / em[0])


# ------------------------------------------------------------------ plane waves

def source_jacobian(Q, M):
    """Derivative of the relaxation sources at an equilibrium, by differences."""
    J = np.zeros((NV, NV))
    if not (M.SOLID or M.BINGHAM or M.POWER_LAW):
        for k in range(5, 14):
            h = 1e-5 * np.max(np.abs(Q[5:14]))
            a, b = Q.copy(), Q.copy()
            a[k] += h
            b[k] -= h
            J[5:14, k] = ((spec.dAdt(a, M) - spec.dAdt(b, M)) / (2 * h)).ravel()
    if THERMAL:
        P = spec.prim(Q, M)
        T = spec.T_of(P.r, P.p, M)
        for k in range(14, 17):
            J[k, k] = -M.cα2 * T / (M.κ * P.r)
    return J


def base(g, name, M):
    r0, p0, v0 = mats.ref(name)
    gas = M.EOS == 0 and not M.pINF
    r = r0 * float(np.exp(g.uniform(-.3, .3) if gas else g.uniform(-.02, .02)))
    P = spec.rand_prim(g, name, M, comp=.05 if gas else .01)
    A = np.eye(3) * np.cbrt(P.r / M.ρ0)
    if M.SOLID and not M.POWER_LAW:
        A = spec.rand_A(g, P.r, M, .03)
    P.A = A
    P.J = np.zeros(3)
    P.ls = -np.ones(LSET)
    c = work.speed(spec.cons(P, M), 0, M) - abs(P.v[0])
    P.v = c * g.uniform(-.6, .6, 3)
    return P


def wave(g, nd, name, M):
    """Base state, amplitude (complex vector), wave numbers, operator."""
    P = base(g, name, M)
    Q = spec.cons(P, M)
    k = np.array([1.] + [float(g.choice([0., 1., -1.]))] * (nd - 1))
    sc = qscale(Q, M)
    # a perturbation which keeps det A = ρ/ρ0
    a = (g.normal(size=NV) + 1j * g.normal(size=NV)) * sc
    if LSET:
        a[NV - LSET:] = 0.
    Ai = np.linalg.inv(P.A)
    B = a[5:14].reshape(3, 3) * .3
    B -= np.trace(Ai @ B) / 3 * P.A
    B += a[0] / Q[0] / 3 * P.A
    a[5:14] = B.ravel()
    L = source_jacobian(Q, M)
    for d in range(nd):
        L = L - 2j * np.pi * k[d] * spec.system_matrix(Q, d, M)
    return P, Q, a, k, L, sc


def averages(Q, a, k, n, nd, eps):
    """Cell averages of Q + eps Re(a exp(2πi k·x)) on the unit square."""
    x = (np.arange(n) + .5) / n
    X = np.meshgrid(*[x] * nd, indexing="ij")
    ph = np.exp(2j * np.pi * sum(k[d] * X[d] for d in range(nd)))
    f = np.prod([np.sinc(k[d] / n) for d in range(nd)])
    return Q + eps * f * np.real(ph[..., None] * a)


def linear(m, n, part=0, nd=1, ns=(24, 48)):
    names = ["airnd", "viscous", "cu_nd", "steel_el", "cu_gr", "c4_el", "water",
             "air", "helium", "jwl", "nm_cc", "cu_smg"]
    for _, g in m.cases(f'linear{nd}{part}', n):
        name = names[g.integers(len(names))]
        M = mats.mat(name)
        P, Q, a, k, L, sc = wave(g, nd, name, M)
        lam = sum(work.speed(Q, d, M) for d in range(nd))
        tf = float(g.uniform(.2, .5)) / lam
        split = bool(g.integers(2))
        cfl = courant(g, split)
        dt = cfl / lam / ns[0]
        # relaxation slow enough for the scheme
        low = 2. if split else 15.
        if not M.SOLID:
            fac = float(np.exp(g.uniform(np.log(low), np.log(200.))))
            M.μ = float(fac * dt * M.ρ0 * M.b02 / 6)
        if THERMAL:
            T = spec.T_of(P.r, P.p, M)
            M.κ = float(np.exp(g.uniform(np.log(low), np.log(200.)))
                        * dt * M.cα2 * T / P.r)
        L = L - source_jacobian(Q, mats.mat(name)) + source_jacobian(Q, M)
        flux = int(g.integers(3))
        # the analytic relaxation does not see the smallest strains
        eps = 1e-3 if split and not M.SOLID else 1e-5
        m.desc(**dict(name=name, split=split, cfl=cfl, flux=flux, k=str(list(k)), nd=nd))
        ex = expm(L * tf) @ a
        mid = expm(L * tf / 2) @ a
        e = []
        mag = np.maximum(np.maximum(np.abs(a), np.abs(ex)), np.abs(mid))
        # perturbations of any kind stay small
        grow = float(np.max(mag / sc))
        eps /= max(1., grow / 3)
        # one magnitude per kind of variable
        for s_ in (slice(2, 5), slice(5, 14), slice(14, 17) if THERMAL else
                   slice(0, 1)):
            mag[s_] = np.max(mag[s_])
        mag = np.maximum(mag, 1e-3 * sc)
        for nn in ns:
            u = averages(Q, a, k, nn, nd, eps)
            w = averages(Q, ex, k, nn, nd, eps)
            tr = sim.run(u, tf, [nn] * nd, [1. / nn] * nd, [M] * (LSET + 1),
                         bcs=[1] * 2 * nd, cfl=cfl, split=split, flux=flux,
                         keep=False)
            d = np.abs(tr.final.reshape(w.shape) - w) / eps / mag
            e.append(np.mean(d.reshape(-1, NV), axis=0))
        # of all variables: small ones follow the others on coarse grids
        em = [float(np.sqrt(np.mean(x ** 2))) for x in e] if nd == 2 else \
            [float(np.max(x)) for x in e]
        converged(m, f"linear{nd}", em, float(np.max(e[-1])))
        if not np.max(np.abs(ex - a) / mag) > .1:
            m.trivial()
        m.count("waves")


def advect(m, n, part=0, nd=1, ns=(24, 48)):
    names = mats.ALL + ["bingham"]
    for _, g in m.cases(f'advect{nd}{part}', n):
        name = names[g.integers(len(names))]
        M = mats.mat(name)
        P = base(g, name, M)
        if M.SOLID and not M.POWER_LAW:
            P.A = spec.rand_rot(g) * np.cbrt(P.r / M.ρ0)
        R = P.A / np.cbrt(np.linalg.det(P.A))
        amp = float(g.uniform(.05, .3)) * (1. if M.EOS == 0 else .1)
        k = np.array([1.] + [float(g.choice([0., 1., -1.]))] * (nd - 1))
        r0, p = P.r, P.p
        def state(r):
            return spec.cons(spec.Prim(r, p, P.v, R * np.cbrt(r / M.ρ0),
                                       ls=-np.ones(LSET), lam=.7 if MULTI else None), M)
        gx, gw = np.polynomial.legendre.leggauss(6)
        gx, gw = gx / 2, gw / 2
        def avg(nn, t):
            sh = sum(k * P.v[:nd]) * t
            out = np.zeros((nn,) * nd + (NV,))
            if nd == 1 or k[1] == 0:
                for i in range(nn):
                    q = sum(w * state(r0 * (1 + amp * np.sin(2 * np.pi * ((i + .5 + x) / nn - sh))))
                            for x, w in zip(gx, gw))
                    if nd == 1:
                        out[i] = q
                    else:
                        out[i, :] = q
            else:
                c = {}
                for i in range(nn):
                    for j in range(nn):
                        h = int(i + k[1] * j) % nn
                        if h not in c:
                            c[h] = sum(w1 * w2 * state(r0 * (1 + amp * np.sin(2 * np.pi * ((i + .5 + x) / nn + k[1] * (j + .5 + y) / nn - sh))))
                                for x, w1 in zip(gx, gw) for y, w2 in zip(gx, gw))
                        out[i, j] = c[h]
            return out
        lam = sum(work.speed(state(r0), d, M) for d in range(nd))
        tf = float(g.uniform(.3, .6)) / lam
        split = bool(g.integers(2))
        cfl = courant(g, split)
        flux = int(g.integers(3))
        if not split and not M.SOLID:
            # relaxation within reach of an explicit predictor
            if M.POWER_LAW or M.BINGHAM:
                split = True
            else:
                M.μ = float(30 * cfl / lam / ns[0] * M.ρ0 * M.b02 / 6)
        m.desc(**dict(name=name, split=split, cfl=cfl, flux=flux, k=str(list(k)), nd=nd, amp=amp))
        e = []
        for nn in ns:
            u = avg(nn, 0.)
            w = avg(nn, tf)
            sc = np.ptp(u.reshape(-1, NV), axis=0)
            for s_ in (slice(2, 5), slice(5, 14)):
                sc[s_] = np.max(sc[s_])
            sc = np.maximum(sc, 1e-2 * amp * qscale(state(r0), M))
            tr = sim.run(u, tf, [nn] * nd, [1. / nn] * nd, [M] * (LSET + 1),
                         bcs=[1] * 2 * nd, cfl=cfl, split=split, flux=flux,
                         keep=False)
            d = np.abs(tr.final.reshape(w.shape) - w) / sc
            e.append(np.mean(d.reshape(-1, NV), axis=0))
        em = [float(np.max(x)) for x in e]
        converged(m, f"advect{nd}", em)
        m.count("entropy waves")


# ------------------------------------------------------------- Riemann problems

def sound(r, p, M):
    return np.sqrt(sound2(r, p, M))


def sound2(r, p, M):
    """Of a Mie-Gruneisen fluid, by a complex step of p(ρ, e)."""
    e = spec.e1(r, p, M)
    pr = spec.cderiv(lambda x: spec.p_of(x, e, M), r)
    return pr + p / r * spec.Gam(r, M)


class Side:
    """The states which a wave can connect to (r, p, u); s = -1 on the left."""

    def __init__(self, r, p, u, M, s):
        self.r, self.p, self.u, self.M, self.s = r, p, u, M, s
        self.e = spec.e1(r, p, M)
        self.fan = None

    def hugoniot(self, r):
        M = self.M
        d = (1 / self.r - 1 / r) / 2
        G = r * spec.Gam(r, M)
        # p = pref + G (e - eref), e = e0 + (p + p0) d
        return ((spec.pref(r, M) + G * (self.e + self.p * d - spec.eref(r, M)))
                / (1 - G * d))

    def expand(self):
        """The isentrope below the initial density, as a table."""
        M = self.M
        if self.fan is None:
            lo = self.r * (.05 if M.EOS == 0 and not M.pINF else .7)

            def f(r, y):
                p = spec.p_of(r, y[0], M)
                c2 = sound2(r, p, M)
                return np.array([p / r ** 2, np.sqrt(c2) / r if c2 > 0 else np.nan])
            r = np.linspace(self.r, lo, 301)
            h = r[1] - r[0]
            y = [np.array([self.e, 0.])]
            for x in r[:-1]:
                z = y[-1]
                a = f(x, z)
                b = f(x + h / 2, z + h / 2 * a)
                c = f(x + h / 2, z + h / 2 * b)
                d = f(x + h, z + h * c)
                y.append(z + h / 6 * (a + 2 * b + 2 * c + d))
            e, w = np.transpose(y)
            p = np.array([spec.p_of(a, b, M) for a, b in zip(r, e)])
            ok = np.isfinite(w) & np.isfinite(p)
            self.fan = r[ok], p[ok], w[ok]
        return self.fan

    def at(self, p):
        """Density and velocity behind the wave when the pressure there is p."""
        if p > self.p:
            hi = self.r
            while self.hugoniot(hi) < p:
                hi *= 1.01
                if hi > 6 * self.r:
                    return None
            r = brentq(lambda x: self.hugoniot(x) - p, self.r, hi, rtol=1e-13)
            du = np.sqrt(max((p - self.p) * (1 / self.r - 1 / r), 0.))
        else:
            R, P, W = self.expand()
            if p < P[-1]:
                return None
            r = float(np.interp(-p, -P, R))
            du = float(np.interp(-p, -P, W))   # negative
        return r, self.u + self.s * du

    def profile(self, xi, ps):
        """(ρ, u, p) at the speeds xi on this side of the contact."""
        rs, us = self.at(ps)
        s = self.s
        out = np.tile([rs, us, ps], (len(xi), 1))
        if ps > self.p:
            # the shock: mass flux
            S = ((rs * us - self.r * self.u) / (rs - self.r))
            out[s * xi > s * S] = self.r, self.u, self.p
            return out
        R, P, W = self.expand()
        k = P >= ps
        R, P, W = R[k], P[k], W[k]
        U = self.u + s * W
        c = np.array([sound(a, b, self.M) for a, b in zip(R, P)])
        lam = s * (U + s * c)      # decreasing along the table
        x = s * xi
        for j, q in enumerate((R, U, P)):
            v = np.interp(-x, -lam, q)
            out[:, j] = np.where(x < lam[-1], out[:, j], v)
        out[x > lam[0]] = self.r, self.u, self.p
        return out


def star(L, R):
    def f(p):
        a, b = L.at(p), R.at(p)
        if a is None or b is None:
            return None
        return b[1] - a[1]
    ps = sorted([L.p, R.p])
    K = min(L.r * sound(L.r, L.p, L.M) ** 2, R.r * sound(R.r, R.p, R.M) ** 2)
    lo, hi = ps
    for _ in range(80):
        v = f(lo)
        if v is None:
            return None
        if v < 0:
            break
        lo -= .02 * K
        if L.M.EOS == 0 and not L.M.pINF and R.M.EOS == 0 and not R.M.pINF:
            lo = max(lo, .02 * ps[0])
    else:
        return None
    for _ in range(200):
        v = f(hi)
        if v is None:
            return None
        if v > 0:
            break
        hi += .05 * K
    else:
        return None
    p = brentq(f, lo, hi, rtol=1e-12)
    return p, L.at(p)[1]


def inviscid(name, c2, g):
    a, k, *_ = mats.TABLE[name]
    k = {x: y for x, y in k.items() if x not in ("σY", "τ0", "n")}
    k["b02"] = 1e-5 * c2
    return mats.par(a[0], "fluid", **k)


def riemann(m, n, part=0, ns=(50, 100), two=False):
    si = ["air", "helium", "water", "cu_gr", "cu_smg", "steel_el", "jwl",
          "nm_cc", "w_smg", "al_grp"]
    nd = ["airnd", "viscous", "cu_nd"]
    # strong ones break the third order
    weak = .4 if N > 2 else 1.
    for _, g in m.cases(f'riemann{part}', n):
        fam = nd if g.random() < .25 else si
        pair = [fam[g.integers(len(fam))] for _ in range(1 + two)] * (2 - two)
        S = []
        for i, name in enumerate(pair):
            r0, p0, _v = mats.ref(name)
            M0 = mats.mat(name)
            c = sound(r0, p0, M0)
            M = inviscid(name, c * c, g)
            gas = M.EOS == 0 and not M.pINF
            r = r0 * float(np.exp(g.uniform(-.7, .7) * weak if gas else g.uniform(-.01, .05)))
            p = p0 * float(np.exp(g.uniform(-1, 1) * weak)) if gas else \
                max(p0, spec.p_of(r, spec.e1(r0, p0, M), M)) + r0 * c * c * g.uniform(0, .15)
            S.append([r, p, c, M])
        if not two:
            S[1][3] = S[0][3]
        else:
            # comparable pressures
            k = int(np.argmax([x[0] * x[2] ** 2 for x in S]))
            if S[k][0] * S[k][2] ** 2 > 5 * S[1 - k][0] * S[1 - k][2] ** 2:
                S[k][1] = S[1 - k][1] * float(np.exp(g.uniform(-.5, .5)))
                S[k][0] = mats.ref(pair[k])[0]
        cm = min(x[2] for x in S)
        u0 = cm * g.uniform(-.2, .2)
        du = cm * g.uniform(-.25, .4) * g.integers(2)
        L = Side(S[0][0], S[0][1], u0 + du / 2, S[0][3], -1)
        R = Side(S[1][0], S[1][1], u0 - du / 2, S[1][3], 1)
        st = star(L, R)
        split = bool(g.integers(3)) and N == 2
        flux = int(g.integers(3))
        # the half step of the split scheme is explicit
        cfl = float(g.choice([.3, .5])) if split else float(g.choice([.4, .8]))
        half = bool(g.integers(2))
        vt = g.uniform(-.3, .3, 2) * cm
        m.desc(pair=pair, split=split, flux=flux, cfl=cfl, half=half,
               left=[L.r, L.p, L.u], right=[R.r, R.p, R.u], star=st)
        if st is None:
            m.trivial()
            continue
        ps, us = st
        # fastest signal
        sp = 0.
        for s in (L, R):
            rs = s.at(ps)[0]
            sp = max(sp, abs(s.u) + sound(s.r, s.p, s.M),
                     abs(us) + sound(rs, ps, s.M))
            if ps > s.p:
                sp = max(sp, abs((rs * us - s.r * s.u) / (rs - s.r)))
        tf = float(g.uniform(.25, .42)) / sp
        for s in (L, R):
            s.M.μ = float((1e-3 if split else 30 * cfl / ns[0]) / sp
                          * s.M.ρ0 * s.M.b02 / 6)
        e = []
        for nn in ns:
            x = (np.arange(nn) + .5) / nn
            u = np.zeros((nn, NV))
            for i in range(nn):
                k = int(x[i] > .5)
                s = (L, R)[k]
                ls = -np.ones(LSET)
                if two:
                    ls[0] = x[i] - .5
                u[i] = spec.cons(spec.Prim(s.r, s.p, np.array([s.u, *vt]),
                                           np.eye(3) * np.cbrt(s.r / s.M.ρ0),
                                           ls=ls), s.M)
            MPs = [L.M, R.M] + [L.M] * (LSET - 1) if LSET else [L.M]
            tr = sim.run(u, tf, [nn], [1. / nn], MPs, cfl=cfl, split=split,
                         flux=flux, half=half, keep=False)
            f = tr.final.reshape(-1, NV)
            # exact averages
            h = (np.arange(8) + .5) / 8 - .5
            X = (x[:, None] + h / nn).ravel()
            xi = (X - .5) / tf
            w = np.where((xi < us)[:, None], L.profile(xi, ps), R.profile(xi, ps))
            w = w.reshape(nn, 8, 3).mean(axis=1)
            got = np.zeros((nn, 3))
            mine = np.ones(nn, bool)
            for i in range(nn):
                k = int(f[i, NV - LSET] >= 0) if two else 0
                P = spec.prim(f[i], MPs[k])
                got[i] = P.r, P.v[0], P.p
                if two and abs(x[i] - .5 - us * tf) < 2.5 / nn:
                    mine[i] = False
            rng = np.array([max(abs(L.r - R.r), abs(L.at(ps)[0] - L.r), abs(R.at(ps)[0] - R.r)),
                            max(abs(L.u - us), abs(R.u - us), abs(L.u - R.u)),
                            max(abs(L.p - ps), abs(R.p - ps), abs(L.p - R.p))])
            d = np.mean(np.abs(got - w) / rng * mine[:, None], axis=0)
            e.append(d)
            if two:
                z = f[:, NV - LSET]
                j = np.nonzero((z[:-1] < 0) & (z[1:] >= 0))[0]
                ok = len(j) == 1
                if ok:
                    j = j[0]
                    xs = x[j] - z[j] * (x[j + 1] - x[j]) / (z[j + 1] - z[j])
                    e[-1] = np.append(d, abs(xs - .5 - us * tf) * nn)
                else:
                    e[-1] = np.append(d, np.inf)
        m.count("Riemann problems")
        for j, what in enumerate(("density", "velocity", "pressure")):
            top = .14 if j == 0 else .08
            c, f = e[0][j], e[1][j]
            m.most(f"L1 error of {what}, finer grid", f)
            m.ok(f"{what} accurate", f <= top, f"{what}: {c} -> {f}")
            m.ok(f"{what} converges", f <= .9 * c + .012, f"{what}: {c} -> {f}")
        if two:
            m.most("error of the interface's position, in cells", e[1][3])
            m.ok("interface moves with the contact", max(e[0][3], e[1][3]) <= .6,
                 f"off by {e[0][3]} and {e[1][3]} cells")


# ---------------------------------------------------------------- channel flows

def channel(m, n, part=0, ns=(12, 24)):
    """Steady flow between walls at rest, driven by a body force; and between
    a wall and its mirror image."""
    for _, g in m.cases(f'channel{part}', n):
        kind = ["newton", "thin", "bingham"][g.integers(3)]
        split = bool(g.integers(3))
        if kind != "newton":
            split = True
        flux = int(g.integers(3))
        Re = float(g.uniform(4, 8))       # of the sound speed and the width
        c = np.sqrt(1.4)
        mach = float(g.uniform(.02, .1))
        b02 = c * c
        mu = c / Re
        V = mach * c
        base_ = dict(ρ0=1., cv=2.5, γ=1.4, b02=b02, cα2=1., κ=1e-2)
        cfl = float(g.choice([.4, .6]))
        if kind == "newton":
            M = mats.par("sg", "fluid", μ=mu, **base_)
            dp = 8 * mu * V
            prof = lambda x: dp / (2 * mu) * x * (1 - x)
        elif kind == "thin":
            nn_ = float(g.choice([.6, .8, 1.4]))
            # the same apparent viscosity at the rate V
            K = mu * V ** (1 - nn_)
            dp = 8 * mu * V
            M = mats.par("sg", "powerfluid", μ=K, n=nn_, **base_)
            q = 1 / nn_ + 1
            prof = lambda x: ((dp / K) ** (1 / nn_) / q *
                              (.5 ** q - np.abs(x - .5) ** q))
        else:
            dp = 8 * mu * V
            sY = float(g.uniform(.1, .35)) * dp
            M = mats.par("sg", "bingham", μ=mu, σY=sY, **base_)

            def prof(x):
                y = np.maximum(np.abs(x - .5), sY / dp)
                return (dp / 2 * (.25 - y ** 2) - sY * (.5 - y)) / mu
        dr = int(g.integers(1, 3))
        M.δp = dp * np.eye(3)[dr]
        m.desc(kind=kind, split=split, flux=flux, Re=Re, mach=mach, cfl=cfl, dp=dp,
               n=M.n, dir=dr)
        e = []
        for nn in ns:
            x = (np.arange(nn) + .5) / nn
            h = (np.arange(8) + .5) / 8 - .5
            w = np.mean(prof(x[:, None] + h / nn), axis=1)
            u = np.zeros((nn, NV))
            for i in range(nn):
                v = np.zeros(3)
                v[dr] = w[i] * .5
                u[i] = spec.cons(spec.Prim(1., 1., v, np.eye(3), J=np.zeros(3),
                                           ls=-np.ones(LSET)), M)
            # several viscous times
            tf = 9 / (np.pi ** 2 * mu)
            tr = sim.run(u, tf, [nn], [1. / nn], [M] * (LSET + 1), bcs=[3, 3],
                         cfl=cfl, split=split, flux=flux, keep=False)
            f = tr.final.reshape(-1, NV)
            got = f[:, 2 + dr] / f[:, 0]
            e.append(float(np.mean(np.abs(got - w)) / np.max(w)))
        m.count("channel flows of kind " + kind)
        top = dict(newton=.05, thin=.12, bingham=.17)[kind]
        m.most(f"error of {kind} profile, finer grid", e[1])
        m.ok("profile accurate", e[1] <= top, f"{kind}: {e}")
        m.ok("profile converges", e[1] <= .85 * e[0] + .006, f"{kind}: {e}")
