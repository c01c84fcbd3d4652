"""Reconstruction: the output of the WENO step is compared with a reconstruction
written from its definition (polynomials with the cell averages of each
stencil, weighted by their smoothness), and observed for averages, exactness,
mirror symmetry, locality and overshoot."""
from env import *
if WORKER:
    from fractions import Fraction
    import work

RULE = ("random data of seven kinds (noise, polynomials, steps, kinks, constants, "
        "physical fields, uneven magnitudes) x grid sizes x orders 2 to 4, one "
        "and two dimensions; non-trivial: distinct data arrays")
ASSUME = ["the weights are those of the scheme as published (powers of the "
          "oscillation indicator), which the code follows",
          "with NO_CORNERS, cells whose stencils meet a corner are only "
          "observed for averages and symmetry"]


def jobs(tier):
    q = tier == "quick"
    n = 400 if q else 3000
    J = jobs_for(["bare", "n3", "n4", "default"], "one", args=dict(n=n))
    J += jobs_for(["corners", "corners_n3"], "two", args=dict(n=n // 3))
    J += jobs_for(["default", "n3"] + ([] if q else ["n4", "thermulti"]),
                  "edges", args=dict(n=n // 4))
    J += jobs_for(["primdef", "prim"], "physical", args=dict(n=n // 2))
    J += jobs_for(["bare", "n3", "n4"], "matrices", args=dict(n=n // 2))
    return J


if WORKER:
    X, W = np.polynomial.legendre.leggauss(N)
    X, W = (X + 1) / 2, W / 2

    def stencils():
        """(first cell relative to the middle one, weight)"""
        out = [(-(N - 1), 1.), (0, 1.)]
        if N > 2:
            c = (N - 1) / 2
            out.append((-int(np.ceil(c)), 1e5))
            if N % 2 == 0:
                out.append((-int(np.floor(c)), 1e5))
        return out

    def averages_of_monomials(k):
        """M[i, j]: average of x^j over the cell [k+i, k+i+1]"""
        M = np.zeros((N, N))
        for i in range(N):
            for j in range(N):
                a, b = k + i, k + i + 1
                M[i, j] = float(Fraction(b ** (j + 1) - a ** (j + 1), j + 1))
        return M

    STEN = [(k, lam, np.linalg.inv(averages_of_monomials(k)))
            for k, lam in stencils()]

    def oi_matrix():
        S_ = np.zeros((N, N))
        for a in range(1, N):
            for i in range(a, N):
                for j in range(a, N):
                    f = np.prod(range(i - a + 1, i + 1)) \
                        * np.prod(range(j - a + 1, j + 1))
                    S_[i, j] += f / (i + j - 2 * a + 1)
        return S_

    OI = oi_matrix()
    POW = X[:, None] ** np.arange(N)

    LAG = np.linalg.inv(POW)        # nodal values -> coefficients
    SIGN = float(np.abs(LAG.T @ OI @ LAG).sum())

    def weno_cell(data):
        """data: (2N-1, V) averages -> values at the N nodes, error scale"""
        num, den, alt = 0., 0., []
        for k, lam, inv in STEN:
            c = inv @ data[N - 1 + k:2 * N - 1 + k]
            oi = np.einsum("iv,ij,jv->v", c, OI, c)
            w = lam / (oi + 1e-14) ** 8
            v = POW @ c
            num = num + w * v
            den = den + w
            alt.append((oi, v))
        val = num / den
        # how far rounding in the indicators can move the weights
        size = np.abs(data).max(0)
        err = size * 1e-12
        for oi, v in alt:
            # the indicator is a quadratic form of the nodal values
            e = 2e-16 * SIGN * size * size / (oi + 1e-14)
            # a weight that is off by a factor moves the result by no more
            # than the difference between the stencils
            err = err + np.minimum(1., 16 * e) * max_dist(alt)
        return val, err

    def max_dist(alt):
        vs = np.array([v for _, v in alt])
        return np.ptp(vs, axis=0).max(0)

    def weno_row(ub):
        n = len(ub) - 2 * (N - 1)
        val = np.zeros((n, N) + ub.shape[1:])
        err = np.zeros((n,) + ub.shape[1:])
        for i in range(n):
            val[i], err[i] = weno_cell(ub[i:i + 2 * N - 1])
        return val, err


def launch(ub, nX, M):
    nd = len(nX)
    wh = np.full(int(np.prod([n + 2 for n in nX])) * N ** nd * NV, 7.7)
    u = np.ascontiguousarray(ub.ravel())
    keep = u.copy()
    SO.weno.weno_launcher(wh, u, i32(*nX), M)
    assert np.array_equal(u, keep, equal_nan=True)
    return wh.reshape(tuple(n + 2 for n in nX) + (N,) * nd + (NV,))


def polyavg(g, cells, deg):
    """Cell averages of a random polynomial per variable, and a function."""
    c = g.uniform(-1, 1, (deg + 1, NV)) / 3. ** np.arange(deg + 1)[:, None]
    P = np.array([[((k + 1) ** (j + 1) - k ** (j + 1)) / (j + 1)
                   for j in range(deg + 1)] for k in cells])
    return P @ c, lambda x: np.array(
        [x ** j for j in range(deg + 1)]).T @ c


def data(g, L, kind):
    s = np.ones(NV)
    if kind == "noise":
        u = g.uniform(-1, 1, (L, NV))
    elif kind == "constant":
        u = np.broadcast_to(g.uniform(-1, 1, NV), (L, NV)).copy()
    elif kind == "step":
        u = np.where((np.arange(L) < g.integers(1, L))[:, None],
                     g.uniform(-1, 1, NV), g.uniform(-1, 1, NV))
    elif kind == "kink":
        x = np.arange(L)[:, None] - g.uniform(1, L - 1, NV)
        u = np.abs(x) * g.uniform(-1, 1, NV) + .1 * x
    elif kind == "smooth":
        x = np.arange(L)[:, None] * g.uniform(.05, .5, NV)
        u = np.sin(x + g.uniform(0, 6, NV))
    else:
        u = g.uniform(-1, 1, (L, NV))
    s = 10. ** g.uniform(-3, 3, NV) if kind != "constant" else \
        10. ** g.uniform(-3, 8, NV)
    if kind == "magnitudes":
        u = 1 + u * 10. ** g.uniform(-3, 0, NV)
    return u * s


KINDS = ["noise", "constant", "step", "kink", "smooth", "magnitudes"]


def one(m, n):
    M = mats.mat("airnd")
    for k, g in m.cases("one", n):
        nX = int(g.integers(1, 14))
        L = nX + 2 * N
        kind = KINDS[k % len(KINDS)]
        ub = data(g, L, kind)
        m.desc(ub, kind=kind, nX=nX)
        wh = launch(ub, [nX], M)
        val, err = weno_row(ub)
        sz = np.abs(ub).max(0)
        m.close("reconstruction follows its definition", wh, val, 1.,
                (err[:, None] + 1e-13 * sz) * np.ones_like(wh), ctx=kind)
        mid = ub[N - 1:N + 1 + nX]
        m.close("averages are kept", np.einsum("n,inv->iv", W, wh), mid,
                1e-11, np.broadcast_to(np.maximum(
                    sz, np.abs(wh).max((0, 1))), mid.shape), ctx=kind)
        if kind == "constant":
            m.close("constants are exact", wh,
                    np.broadcast_to(ub[0], wh.shape), 1e-13,
                    np.abs(ub[0]) + 0 * wh)
        # mirrored data give the mirrored result
        wm = launch(ub[::-1].copy(), [nX], M)[::-1, ::-1]
        m.close("mirrored data give the mirrored result", wm, wh, 1.,
                2 * (err[:, None] + 1e-13 * sz) * np.ones_like(wh), ctx=kind)
        # a cell does not depend on what is outside of its stencil
        j = int(g.integers(0, L))
        u2 = ub.copy()
        u2[j] = g.uniform(-1e3, 1e3, NV)
        w2 = launch(u2, [nX], M)
        far = np.abs(np.arange(nX + 2) + N - 1 - j) > N - 1
        m.ok("nothing outside of the stencil matters",
             np.array_equal(w2[far], wh[far]), f"{kind} cell {j}")
        # each variable on its own
        v = int(g.integers(NV))
        u3 = ub.copy()
        u3[:, [x for x in range(NV) if x != v]] = 3.
        m.close("variables are reconstructed one by one",
                launch(u3, [nX], M)[..., v], wh[..., v], 1.,
                err[:, None, v] + 1e-13 * sz[v] + 0 * wh[..., v])
        # exactness
        p, f = polyavg(g, np.arange(L) - N + 1, N - 1)
        wp = launch(p, [nX], M)
        x = (np.arange(nX + 2)[:, None] + X).ravel()
        want = f(x).reshape(wp.shape)
        m.close("polynomials of the design degree are exact", wp, want, 1e-9,
                np.abs(p).max() + 0 * want)
        # no overshoot at a single jump, however large or small, with a little
        # noise beside it
        if N > 1:
            a, b = g.uniform(-1, 1, NV), g.uniform(-1, 1, NV)
            jump = np.abs(b - a)
            u4 = np.where((np.arange(L) < g.integers(1, L))[:, None], a, b)
            noise = 10. ** g.uniform(-4, -2)
            u4 = u4 + noise * jump * g.uniform(-1, 1, u4.shape)
            w4 = launch(u4, [nX], M)
            lo, hi = np.minimum(a, b), np.maximum(a, b)
            # ends of a cell are reached by extrapolation from the nodes
            worst = np.maximum(lo - w4, w4 - hi)
            m.close("no overshoot at a jump", np.maximum(worst, 0), 0., 1.,
                    10 * noise * jump + 1e-3 * jump + 1e-6 + 0 * w4,
                    ctx=f"noise {noise}")


def two(m, n):
    M = mats.mat("airnd")
    for k, g in m.cases("two", n):
        nX = [int(g.integers(1, 6)) for _ in range(2)]
        L = [x + 2 * N for x in nX]
        kind = KINDS[k % len(KINDS)]
        if kind == "noise":
            ub = g.uniform(-1, 1, L + [NV])
        else:
            ub = np.array([data(g, L[1], kind) for _ in range(L[0])])
            if kind in ("constant", "smooth", "kink"):
                ub = ub[:1] + data(g, L[0], kind)[:, None]
            if g.random() < .5:
                ub = np.ascontiguousarray(np.swapaxes(np.array(
                    [data(g, L[0], kind) for _ in range(L[1])]), 0, 1))
        m.desc(ub, kind=kind, nX=nX)
        wh = launch(ub, nX, M)
        ref, err = two_ref(ub, nX)
        sz = np.abs(ub).max((0, 1))
        m.close("reconstruction in two dimensions follows its definition", wh,
                ref, 1., err[:, :, None, None] + 1e-12 * sz + 0 * wh, ctx=kind)
        mid = ub[N - 1:N + 1 + nX[0], N - 1:N + 1 + nX[1]]
        m.close("averages are kept in two dimensions",
                np.einsum("a,b,ijabv->ijv", W, W, wh), mid, 1e-10,
                np.abs(wh).max((0, 1, 2, 3)) + sz + 0 * mid, ctx=kind)
        # tensor-product polynomials
        p, f = polyavg(g, np.arange(L[0]) - N + 1, N - 1)
        p2, f2 = polyavg(g, np.arange(L[1]) - N + 1, N - 1)
        wp = launch(p[:, None] * p2[None], nX, M)
        x = (np.arange(nX[0] + 2)[:, None] + X).ravel()
        y = (np.arange(nX[1] + 2)[:, None] + X).ravel()
        want = np.einsum("iav,jbv->ijabv", f(x).reshape(-1, N, NV),
                         f2(y).reshape(-1, N, NV))
        m.close("polynomials in two dimensions are exact", wp, want, 1e-8,
                np.abs(want).max() + np.abs(p).max() * np.abs(p2).max()
                + 0 * want)
        # the same rule in both directions: fields of one variable only
        L2 = max(L)
        line = data(g, L2, kind)
        a = launch(np.repeat(line[:L[0], None], L[1], 1), nX, M)
        b = launch(np.repeat(line[None, :L[0]], L[1], 0), nX[::-1], M)
        _, e1 = weno_row(line[:L[0]])
        sc = e1[:, None, None, None] + 1e-12 * sz + 1e-12 * np.abs(line).max(0)
        m.close("both directions are treated alike", a,
                np.einsum("jibav->ijabv", b), 1., sc + 0 * a, ctx=kind)


def two_ref(ub, nX):
    nx, ny = nX[0] + 2, nX[1] + 2
    mid = np.zeros((nx, N) + ub.shape[1:])
    e1 = np.zeros((nx,) + ub.shape[1:])
    for j in range(ub.shape[1]):
        v, e = weno_row(ub[:, j])
        mid[:, :, j], e1[:, j] = v, e
    out = np.zeros((nx, ny, N, N, NV))
    err = np.zeros((nx, ny, NV))
    amp = 4. ** (N - 1)
    for i in range(nx):
        for a in range(N):
            v, e = weno_row(mid[i, a])
            out[i, :, a] = v
            near = np.array([e1[i, j:j + 2 * N - 1].max(0)
                             for j in range(ny)])
            # errors of the first pass may also move the second one's weights
            err[i] = np.maximum(err[i], e * (1 + 0 * near) + amp * near + sens(
                mid[i, a], near))
    return out, err


def sens(row, near):
    """How far an error of the data moves the result through the weights."""
    out = np.zeros_like(near)
    for i in range(len(near)):
        d = row[i:i + 2 * N - 1]
        alt = []
        for k, lam, inv in STEN:
            c = inv @ d[N - 1 + k:2 * N - 1 + k]
            alt.append((np.einsum("iv,ij,jv->v", c, OI, c), POW @ c))
        D = max_dist(alt)
        s = sum(np.minimum(1., 200 * near[i] * (np.sqrt(SIGN * o) + SIGN * near[i])
                           / (o + 1e-14)) for o, _ in alt)
        out[i] = np.minimum(s, 2.) * D
    return out


def edges(m, n):
    """With one-sided reconstruction near the corners."""
    M = mats.mat("airnd")
    for k, g in m.cases("edges", n):
        nX = [int(g.integers(N, N + 6)) for _ in range(2)]
        L = [x + 2 * N for x in nX]
        ub = g.uniform(-1, 1, L + [NV]) * 10. ** g.uniform(-2, 2)
        omp(1)
        m.desc(ub, nX=nX)
        wh = launch(ub, nX, M)
        sz = np.abs(ub).max()
        mid = ub[N - 1:N + 1 + nX[0], N - 1:N + 1 + nX[1]]
        m.close("averages are kept next to corners",
                np.einsum("a,b,ijabv->ijv", W, W, wh), mid, 1e-9,
                np.abs(wh).max() + 0 * mid)
        # cells whose stencils meet no corner
        ref, err = two_ref(ub, nX)
        lo = 2 * N
        far = np.zeros(wh.shape[:2], bool)
        far[lo:-lo, lo:-lo] = True
        if far.any():
            m.close("reconstruction away from the corners", wh[far], ref[far],
                    1., (err[:, :, None, None] + 1e-12 * sz + 0 * wh)[far])
        for d in range(2):
            wm = launch(np.flip(ub, d).copy(), nX, M)
            wm = np.flip(np.flip(wm, d), 2 + d)
            m.close("mirrored data next to corners", wm, wh, 1.,
                    2 * err[:, :, None, None] + 1e-9 * sz + 0 * wh,
                    ctx=f"axis {d} {nX}")
        # the corners themselves are not used for the cells of the domain
        u2 = ub.copy()
        for i in (slice(0, N), slice(-N, None)):
            for j in (slice(0, N), slice(-N, None)):
                u2[i, j] = g.uniform(-1, 1, u2[i, j].shape) * 1e3 * sz
        w2 = launch(u2, nX, M)
        a = slice(N, -N)
        if nX[0] + 2 > 2 * N and nX[1] + 2 > 2 * N:
            m.ok("corners are not used well inside", np.array_equal(
                w2[a, a], wh[a, a]))


def physical(m, n):
    """Reconstruction in primitive variables."""
    for k, g in m.cases("physical", n):
        nm = str(g.choice(work.ANY))
        M = mats.mat(nm)
        nX = [int(g.integers(1, 9))] if k % 3 else \
            [int(g.integers(N, 5)), int(g.integers(N, 5))]
        L = [x + 2 * N for x in nX]
        kind = str(g.choice(["rough", "smooth", "uniform", "blocks"]))
        u, _ = work.field(g, L, nm, M, kind, .3)
        m.desc(u, material=nm, nX=nX, kind=kind)
        wh = launch(u, nX, M)
        P = np.zeros_like(u)
        for i in np.ndindex(*L):
            P[i] = flat(spec.prim(u[i], M))
        if len(nX) == 1:
            ref, err = weno_row(P)
            sel = np.ones(wh.shape[:1], bool)
        else:
            ref, err = two_ref(P, nX)
            err = err[:, :, None]
            sel = np.zeros(wh.shape[:2], bool)
            sel[2 * N:-2 * N, 2 * N:-2 * N] = True
        if not sel.any():
            sel[:] = False
        s = work.scale(u, M)
        ps = np.abs(P).reshape(-1, NV).max(0)
        for i in zip(*np.nonzero(sel)):
            for a in np.ndindex(*(N,) * len(nX)):
                want = ref[i][a]
                ok = want[0] > 0
                if not ok:
                    continue
                got = flat(spec.prim(wh[i][a], M))
                c = s.copy()
                c[1] = s[1] * 3 * M.ρ0 ** 0
                tol = 1e-8 * ps
                tol[1] += 1e-9 * s[1]
                m.close("primitive variables are reconstructed", got, want,
                        1., tol + 2 * np.ravel(err[i])[:NV],
                        ctx=f"{nm} {i} {a}")


def flat(P):
    x = np.zeros(NV)
    x[0], x[1], x[2:5], x[5:14] = P.r, P.p, P.v, P.A.ravel()
    if THERMAL:
        x[14:17] = P.J
    if MULTI:
        x[MVI] = P.lam
    if LSET:
        x[NV - LSET:] = P.ls
    return x


def matrices(m, n):
    """The linear systems behind the reconstruction, for any basis."""
    com = SO.common
    for k, g in m.cases("matrices", n):
        if k == 0:
            B = com.basis_polys()
            c = np.array([b.coef for b in B])
        else:
            c = g.uniform(-1, 1, (N, N))
            B = [GPRpy.classes.poly(x) for x in c]
        m.desc(c)
        mats_ = SO.weno.coefficient_matrices(B)
        st = stencils()
        if N == 1:
            order = [0, 0, 0, 0]
        elif N == 2:
            order = [-1, 0, -1, 0]
        else:
            order = [st[0][0], st[1][0], st[2][0], st[-1][0]
                     if N % 2 == 0 else st[2][0]]
        for q, first in zip(mats_, order):
            want = averages_of_monomials(first) @ c.T
            m.close("stencil matrices hold cell averages", np.reshape(
                q, (N, N)), want, 1e-10, np.abs(want).max() + 1
                + np.zeros((N, N)))
        want = c @ OI @ c.T
        m.close("oscillation indicator is the integral of squared derivatives",
                np.reshape(SO.weno.oscillation_indicator(B), (N, N)), want,
                1e-10, np.abs(want).max() + 1 + np.zeros((N, N)))
