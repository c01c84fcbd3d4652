"""The finite-volume update: fv_launcher, midstepper and split_stepper against
an independent balance of face fluxes, jump terms, interior terms and sources,
with fluxes and sources from lib/spec.py."""
from env import *

RULE = ("random reconstructions around random states, random masks, 1D and 2D "
        "grids of all shapes, with and without sources and time levels, 3 "
        "fluxes; non-trivial: distinct data")
ASSUME = ["for Roe and Osher the face flux itself is taken from the code (it is "
          "decided by C09)"]
NAMES = ["airnd", "viscous", "cu_nd", "dilatant", "bingham", "air", "cu_smg",
         "water"]


def jobs(tier):
    q = tier == "quick"
    n = 90 if q else 1200
    c = ["default", "thermulti", "n3", "bare"] if q else [
        "default", "thermulti", "n3", "n4", "n1", "bare", "thermal", "multi3"]
    J = jobs_for(c, "fv", args=dict(n=n), parts=2)
    J += jobs_for(c, "mid", args=dict(n=n))
    J += jobs_for(["default", "thermulti"], "split", args=dict(n=n))
    return J


def nodes():
    x, w = np.polynomial.legendre.leggauss(N)
    x, w = (x + 1) / 2, w / 2
    Vm = np.vander(x, N, increasing=True)
    I = np.linalg.inv(Vm)               # monomial coefficients of the basis
    ev = np.stack([np.vander([s], N, increasing=True)[0] @ I for s in (0., 1.)])
    D = np.stack([np.array([k * xi ** (k - 1) if k else 0. for k in range(N)])
                  for xi in x]) @ I
    return x, w, ev, D


def source(Q, M):
    s = np.zeros(NV)            # the code's own: it is decided by C06
    S.source(s, np.ascontiguousarray(Q), M)
    return s


def face(ql, qr, d, M, fl):
    if fl == 0:
        lam = max(S.max_abs_eigs(ql, d, M), S.max_abs_eigs(qr, d, M))
        f = spec.flux(ql, d, M) + spec.flux(qr, d, M) + lam * (ql - qr)
    else:
        f = (SO.fv.D_ROE if fl == 1 else SO.fv.D_OSH)(ql, qr, d, M)
    x, w = np.polynomial.legendre.leggauss(N)
    x, w = (x + 1) / 2, w / 2
    b = sum(wi * spec.Bmat(ql + xi * (qr - ql), d) for xi, wi in zip(x, w)) \
        @ (qr - ql)
    return f, b


def rand_rec(g, nm, M, shape, amp):
    base = spec.cons(spec.rand_prim(g, nm, M), M)
    out = np.zeros(shape + (NV,))
    for i in np.ndindex(*shape):
        # stay on physical states: perturb primitives
        P = spec.prim(base, M)
        P.r *= np.exp(amp * g.normal())
        P.p = P.p * np.exp(amp * g.normal()) if M.EOS == 0 else \
            P.p + amp * abs(P.p) * g.normal()
        P.v = P.v + amp * mats.ref(nm)[2] * g.normal(size=3)
        P.A = P.A + amp * .3 * g.normal(size=(3, 3)) * np.abs(P.A).max()
        if THERMAL:
            P.J = P.J * (1 + amp * g.normal(size=3))
        if LSET:
            P.ls = P.ls + amp * g.normal(size=LSET)
        if MULTI:
            P.lam = min(.95, max(.05, P.lam + amp * g.normal()))
        out[i] = spec.cons(P, M)
    return out


def setup(g, k):
    nm = NAMES[k % len(NAMES)]
    M = mats.some(g, nm)
    if g.random() < .3:
        M.δp = g.normal(size=3)
    if MULTI and g.random() < .4:
        M.REACTION, M.Qc, M.Bc, M.Ea, M.Rc = 1, .1 * M.cv, 3., .1, .01
    return nm, M


def fv(m, n, part=0):
    xn, w, ev, D = nodes()
    for k, g in m.cases(f"fv{part}", n):
        nm, M = setup(g, k)
        fl = int(g.integers(3)) if g.random() < .5 else 0
        SRC, TIME = bool(g.random() < .5), bool(g.random() < .5)
        nt = N if TIME else 1
        nd = 1 if g.random() < .5 else 2
        nX = list(map(int, g.integers(1, 7 if nd == 1 else 4, nd)))
        dX = 10 ** g.uniform(-2, 1, nd)
        amp = float(10 ** g.uniform(-3, -1.5))
        eX = [a + 2 for a in nX]
        q = rand_rec(g, nm, M, tuple(eX) + (nt,) + (N,) * nd, amp)
        if M.EOS:
            # edge values lie outside of the range of the nodes: keep these
            # within the states whose waves are real
            q0 = q.reshape(-1, NV)[0]
            q = q0 + (q - q0) * (.3 if mats.ref(nm)[1] > 100 else .1)
        mask = np.ones(eX, bool) if g.random() < .3 else g.random(eX) < .7
        u0 = g.normal(size=tuple(nX) + (NV,))
        lam = max(S.max_abs_eigs(q.reshape(-1, NV)[0], d, M) for d in range(3))
        dt = float(g.uniform(.1, 1)) * min(dX) / lam
        u = u0.ravel().copy()
        SO.fv.fv_launcher(u, q.ravel().copy(), i32(*nX), dt, dX.astype(float),
                          SRC, TIME, fl, M, mask.ravel())
        got = u.reshape(u0.shape) - u0
        m.desc(q, material=nm, flux=fl, sources=SRC, times=nt, nX=nX)
        want = np.zeros_like(u0)
        big = np.zeros(NV)
        for i in np.ndindex(*nX):
            c = tuple(a + 1 for a in i)
            if not mask[c]:
                continue
            for t in range(nt):
                wt = dt * (w[t] if TIME else 1.)
                Qc = q[c][t]              # nodes
                for s in np.ndindex(*(N,) * nd):
                    ws = wt * np.prod([w[a] for a in s])
                    r = source(Qc[s], M) if SRC else np.zeros(NV)
                    for d in range(nd):
                        der = np.tensordot(D[s[d]], np.moveaxis(Qc, d, 0)[
                            (slice(None),) + tuple(s[e] for e in range(nd)
                                                   if e != d)], 1)
                        r = r - spec.Bmat(Qc[s], d) @ der / dX[d]
                    want[i] += ws * r
                for d in range(nd):
                    for side in (0, 1):
                        o = list(c)
                        o[d] += 2 * side - 1
                        o = tuple(o)
                        if not mask[o]:
                            continue
                        mine = np.tensordot(ev[side], Qc, (0, d))
                        his = np.tensordot(ev[1 - side], q[o][t], (0, d))
                        for s in np.ndindex(*(N,) * (nd - 1)):
                            ws = wt * np.prod([w[a] for a in s]) / (2 * dX[d])
                            a, b = mine[s], his[s]
                            if side:
                                f, j = face(a, b, d, M, fl)
                                want[i] -= ws * (j + f)
                            else:
                                f, j = face(b, a, d, M, fl)
                                want[i] -= ws * (j - f)
                            big = np.maximum(big, np.abs(ws * f))
        if not np.isfinite(big).all():
            m.trivial()
            m.count("beyond the states with real waves")
            continue
        sc = np.maximum(big, qscale(q.reshape(-1, NV)[0], M)
                        * dt * lam / max(dX)) + 1e-300
        t = (1e-10 if not THERMAL else 1e-7) if fl == 0 \
            else 1e-8 if mats.ref(nm)[1] < 100 else 1e-2
        m.close("balance of fluxes and sources", got, want, t, np.broadcast_to(
            sc + np.abs(want).max((0, 1)[:nd]) + 1e-13 / t, got.shape),
            ctx=f"{nm} nd={nd} nX={nX} flux={fl} src={SRC} time={TIME}")
        out = ~mask[tuple(slice(1, -1) for _ in nX)]
        m.ok("cells that are not asked for stay",
             np.array_equal(u.reshape(u0.shape)[out], u0[out]), f"{nm} {nX}")
        m.count("cells updated", int((~out).sum()))


def mid(m, n):
    xn, w, ev, D = nodes()
    for k, g in m.cases("mid", n):
        nm, M = setup(g, k)
        nd = 1 if g.random() < .5 else 2
        ncell = int(g.integers(1, 6))
        q = rand_rec(g, nm, M, (ncell,) + (N,) * nd, float(10 ** g.uniform(-3, -1)))
        mask = g.random(ncell) < .7
        dX = 10 ** g.uniform(-2, 1, nd)
        lam = max(S.max_abs_eigs(q.reshape(-1, NV)[0], d, M) for d in range(3))
        dt = float(g.uniform(.1, 1)) * min(dX) / lam
        wh = q.ravel().copy()
        SO.split.midstepper(wh, dt, dX.astype(float), M, mask)
        got = wh.reshape(q.shape)
        m.desc(q, material=nm, dims=nd)
        want = q.copy()
        for c in range(ncell):
            if not mask[c]:
                continue
            for d in range(nd):
                F = np.zeros_like(q[c])
                for s in np.ndindex(*(N,) * nd):
                    F[s] = spec.flux(q[c][s], d, M)
                dF = np.moveaxis(np.tensordot(D, F, (1, d)), 0, d)
                dq = np.moveaxis(np.tensordot(D, q[c], (1, d)), 0, d)
                for s in np.ndindex(*(N,) * nd):
                    want[c][s] -= dt / 2 / dX[d] * (
                        dF[s] + spec.Bmat(q[c][s], d) @ dq[s])
        sc = np.maximum(np.abs(q).reshape(-1, NV).max(0), qscale(
            q.reshape(-1, NV)[0], M) * .1)
        if N == 1:
            sc = sc + 1
        m.close("half a step of the homogeneous system", got, want,
                1e-12 if not THERMAL else 1e-8, np.broadcast_to(sc, q.shape),
                ctx=f"{nm} nd={nd}")
        m.ok("cells that are not asked for stay (half step)",
             np.array_equal(got[~mask], q[~mask]), nm)


def split(m, n):
    """A split step is its parts in a row."""
    import work
    for k, g in m.cases("split", n):
        nm = NAMES[k % len(NAMES)]
        M = mats.some(g, nm)
        nd = 1 if g.random() < .5 else 2
        nX = list(map(int, g.integers(2, 6, nd)))
        eX = [a + 2 * N for a in nX]
        dX = 10 ** g.uniform(-2, 0, nd)
        ub0, _ = work.field(g, eX, nm, M, "rough", amp=.3)
        u0 = ub0[tuple(slice(N, -N) for _ in nX)].copy()
        dt = .5 * work.dt_est(u0, dX, M, .5)
        half, fl = bool(g.random() < .5), int(g.integers(3))
        mX = [a + 2 for a in nX]
        mask = np.ones(mX, bool) if g.random() < .5 else g.random(mX) < .7
        a, b = u0.ravel().copy(), ub0.ravel().copy()
        SO.split_stepper(a, b, i32(*nX), dt, dX.astype(float), half, fl, M,
                         mask.ravel())
        u, ub = u0.ravel().copy(), ub0.ravel().copy()
        SO.split.ode_launcher(u, dt / 2, M)
        SO.split.ode_launcher(ub, dt / 2, M)
        wh = np.zeros(int(np.prod(mX)) * N ** nd * NV)
        SO.weno.weno_launcher(wh, ub, i32(*nX), M)
        if half:
            SO.split.midstepper(wh, dt, dX.astype(float), M, mask.ravel())
        SO.fv.fv_launcher(u, wh, i32(*nX), dt, dX.astype(float), False, False,
                          fl, M, mask.ravel())
        SO.split.ode_launcher(u, dt / 2, M)
        m.desc(u0, material=nm, nX=nX, half=half, flux=fl)
        sc = work.scale(u0, M)
        m.close("Strang split step", a.reshape(-1, NV), u.reshape(-1, NV), 1e-12,
                np.broadcast_to(sc, (len(u) // NV, NV)),
                ctx=f"{nm} {nX} half={half} flux={fl}")
        if not half and fl == 0 and mask.all():
            m.count("without half step")
