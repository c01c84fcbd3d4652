"""Polynomials and quadrature: everything offered is compared with numpy's
Gauss-Legendre rule, with exact integration and with differentiation."""
from env import *
if WORKER:
    from numpy.polynomial import polynomial as NP

RULE = ("random polynomials, bases and evaluation points x orders 2 to 4; "
        "non-trivial: distinct polynomials")


def jobs(tier):
    q = tier == "quick"
    return jobs_for(["bare", "n3", "n4"], "work",
                    args=dict(n=400 if q else 6000))


def work(m, n):
    C = SO.common
    P = GPRpy.classes.poly
    xr, wr = np.polynomial.legendre.leggauss(N)
    xr, wr = (xr + 1) / 2, wr / 2
    one_ = np.ones(N)
    for k, g in m.cases("poly", n):
        x, w = np.array(C.scaled_nodes()).ravel(), \
            np.array(C.scaled_weights()).ravel()
        m.close("nodes", x, xr, 1e-14, one_)
        m.close("weights", w, wr, 1e-14, one_)
        # exact to degree 2N - 1
        p = g.uniform(-1, 1, 2 * N)
        m.desc(p)
        m.close("quadrature is exact to degree 2N-1", w @ NP.polyval(x, p),
                np.sum(p / (1 + np.arange(2 * N))), 1e-13, 2.)
        B = C.basis_polys()
        m.ok("as many basis functions as nodes", len(B) == N)
        c = np.array([np.ravel(b.coef) for b in B])
        V = NP.polyval(x, c.T)      # [basis, node]
        m.close("basis functions interpolate at the nodes", V, np.eye(N),
                1e-12, np.ones((N, N)))
        y = float(g.uniform(-2, 3))
        vals = g.uniform(-1, 1, N)
        q = NP.polyfromroots(g.uniform(-1, 2, N - 1)) if N > 1 else \
            np.array([1.])
        q = q * g.uniform(-2, 2)
        got = sum(NP.polyval(x, q)[i] * B[i].eval(y) for i in range(N))
        m.close("interpolation reproduces polynomials of degree N-1", got,
                NP.polyval(y, q), 1e-10, np.abs(q) @ np.abs(y) ** np.arange(
                    len(q)) + 1)
        E = np.reshape(C.end_values(B), (2, N))
        for e in range(2):
            m.close("end values", E[e], NP.polyval(float(e), c.T), 1e-13,
                    np.abs(c).sum(1) + 1)
        D = np.reshape(C.derivative_values(B, x), (N, N))
        want = np.array([NP.polyval(x, NP.polyder(cc)) for cc in c]).T \
            if N > 1 else np.zeros((1, 1))
        m.close("derivatives at the nodes", D, want.reshape(N, N), 1e-12,
                np.abs(c).sum() * N + 1 + np.zeros((N, N)))
        # derivative of an interpolated polynomial
        m.close("the derivative matrix differentiates", D @ NP.polyval(x, q),
                NP.polyval(x, NP.polyder(q)) if N > 1 else np.zeros(1), 1e-11,
                (np.abs(q).sum() + 1) * 30 * one_)
        # any basis, any nodes
        rb = g.uniform(-1, 1, (N, N))
        rn = g.uniform(-1, 2, N)
        Bs = [P(r) for r in rb]
        want = np.array([NP.polyval(rn, NP.polyder(r)) for r in rb]).T \
            if N > 1 else np.zeros((1, 1))
        m.close("derivatives of any basis at any nodes", np.reshape(
            C.derivative_values(Bs, rn), (N, N)), want.reshape(N, N), 1e-12,
            30 * np.ones((N, N)))
        want = np.array([NP.polyval(float(e), rb.T) for e in range(2)])
        m.close("end values of any basis", np.reshape(
            C.end_values(Bs), (2, N)), want, 1e-13, N + np.zeros((2, N)))
        # polynomial objects
        d = int(g.integers(1, 9))
        pc = g.uniform(-1, 1, d)
        pp = P(pc)
        s = np.abs(pc) @ max(1., abs(y)) ** np.arange(d)
        m.close("evaluation", pp.eval(y), NP.polyval(y, pc), 1e-13, s + 1)
        m.close("integration", np.ravel(pp.intt().coef), NP.polyint(pc),
                1e-14, np.ones(d + 1))
        r = int(g.integers(0, d))
        want = NP.polyder(pc, r)
        m.close("differentiation", np.ravel(pp.diff(r).coef), want,
                1e-12, np.abs(want) + 1e-300)
        m.ok("a polynomial is left alone", np.array_equal(np.ravel(pp.coef),
                                                          pc))
