"""The Krylov solvers solve: residual monitors on the linear and the nonlinear
solver, whatever was solved before, and the results of scipy's solvers as a
cross-check of what is solvable.

Linear systems: dense, symmetric, rotations and cyclic shifts (where GMRES makes
no progress until the last step), clustered spectra, low-rank perturbations,
badly scaled right-hand sides, with and without preconditioner, starting vector
and recycled vectors.  Nonlinear systems: perturbed linear, polynomial,
reaction-diffusion, stiff relaxation."""
from env import *

RULE = ("random regular systems of 1 to 80 unknowns of nine families; "
        "non-trivial: the starting residual is above the tolerance")
ASSUME = ["condition numbers up to 1e6 for linear systems",
          "nonlinear systems whose Newton iteration from the given start "
          "converges"]


def jobs(tier):
    n = 40 if tier == "quick" else 1500
    return (jobs_for(["bare"], "linear", parts=4, args=dict(n=n))
            + jobs_for(["bare"], "nonlinear", parts=2,
                       args=dict(n=3 * n))
            + jobs_for(["bare"], "history", args=dict(n=max(6, n // 8)))
            + jobs_for(["bare"], "scalar", args=dict(n=n)))


FAM = ["dense", "spd", "orthogonal", "shift", "clustered", "identity", "scaled",
       "triangular", "defective"]


def system(fam, g, n):
    if fam == "dense":
        A = g.normal(size=(n, n)) + 2 * np.sqrt(n) * np.eye(n)
    elif fam == "spd":
        q = np.linalg.qr(g.normal(size=(n, n)))[0]
        A = q @ np.diag(10 ** g.uniform(-2, 1, n)) @ q.T
    elif fam == "orthogonal":
        A = np.linalg.qr(g.normal(size=(n, n)))[0]
    elif fam == "shift":
        A = np.roll(np.eye(n), 1, axis=0)
    elif fam == "clustered":
        q = g.normal(size=(n, n)) / np.sqrt(n) + 2 * np.eye(n)
        A = q @ np.diag(g.choice([1., 1.001, 7.], n)) @ np.linalg.inv(q)
    elif fam == "identity":
        A = np.eye(n) * g.uniform(.5, 2)
        if g.random() < .5:
            u = g.normal(size=n)
            A = A + np.outer(u, u) / n
    elif fam == "scaled":
        A = (g.normal(size=(n, n)) + 2 * np.sqrt(n) * np.eye(n)) * \
            10 ** g.uniform(-8, 8)
    elif fam == "triangular":
        A = np.triu(g.normal(size=(n, n))) / np.sqrt(n) + \
            np.diag(1 + g.random(n))
    else:
        A = np.eye(n) * 1.5 + np.diag(np.ones(n - 1), 1)
    return A


def linear(m, n, part):
    L = GPRpy.scipy.lgmres_wrapper
    for it, g in m.cases(f"linear{part}", [(FAM[k % len(FAM)], k)
                                           for k in range(n)]):
        fam = it[0]
        sz = int(g.choice([1, 2, 3, 5, 8, 13, 20, 30, 31, 40, 64, 80]))
        if fam in ("orthogonal", "shift"):
            sz = min(sz, 30)    # needs a full basis
        A = system(fam, g, sz)
        sc = 10 ** g.uniform(-3, 3)
        b = g.normal(size=sz) * sc
        if g.random() < .15:
            b = np.zeros(sz)
        if g.random() < .15 and sz > 1:     # an eigenvector: a one-step solve
            b = np.zeros(sz)
            b[0] = sc
        tol = float(10 ** g.uniform(-12, -3))
        if fam == "scaled":
            b = A @ (g.normal(size=sz) * sc)
        kw = dict(tol=tol)
        x0 = None
        if g.random() < .4:
            x0 = g.normal(size=sz) * sc
            kw["x0"] = x0
        if g.random() < .3:
            P = np.linalg.inv(A) @ (np.eye(sz) + .1 * g.normal(size=(sz, sz))
                                    / np.sqrt(sz))
            kw["M"] = np.ascontiguousarray(P)
        if g.random() < .2:
            kw["outer_v"] = VV()
        kw0 = {k: (v.copy() if isinstance(v, np.ndarray) else v)
               for k, v in kw.items()}
        A0, b0 = A.copy(), b.copy()
        x = L(A, b, **kw)
        m.desc(A, b, family=fam, n=sz, tol=tol, options=sorted(kw))
        start = np.linalg.norm(b - (A @ x0 if x0 is not None else 0))
        if start <= tol:
            m.trivial()
        nb = np.linalg.norm(b) or 1.
        r = np.linalg.norm(A @ x - b)
        # the tolerance is relative to the right-hand side, or absolute
        eps = 1e-13 * (np.linalg.norm(A, 2) * np.linalg.norm(x) + nb)
        m.close("linear residual", r, 0., max(tol * nb, tol) + eps, 1.,
                ctx=f"{fam} n={sz} {sorted(kw)}")
        m.ok("inputs untouched", np.array_equal(A, A0)
             and np.array_equal(b, b0)
             and all(np.array_equal(kw[k], kw0[k]) for k in kw
                     if isinstance(kw[k], np.ndarray)), fam)
        if not b.any() and x0 is None:
            m.ok("zero for zero", not x.any(), str(x[:5]))
        # recycling must not spoil the next solve, of another right-hand side
        if "outer_v" in kw:
            b2 = A @ (g.normal(size=sz) * sc)
            x2 = L(A, b2, tol=tol, outer_v=kw["outer_v"])
            nb2 = np.linalg.norm(b2) or 1.
            m.count("recycled vectors", len(kw["outer_v"]))
            m.close("residual with recycling", np.linalg.norm(A @ x2 - b2), 0.,
                    max(tol * nb2, tol) + 1e-13
                    * (np.linalg.norm(A, 2) * np.linalg.norm(x2) + nb2), 1.,
                    ctx=f"{fam} n={sz}")


def problem(kind, g, n):
    if kind == "linear":
        A = g.normal(size=(n, n)) / np.sqrt(n) + 3 * np.eye(n)
        b = g.normal(size=n)
        return lambda x: A @ x - b
    if kind == "cubic":
        A = g.normal(size=(n, n)) / np.sqrt(n) * .5 + 4 * np.eye(n)
        z = g.uniform(-1, 1, n)
        return lambda x: A @ (x - z) + .3 * (x ** 3 - z ** 3)
    if kind == "diffusion":
        h = 1 / (n + 1)
        c = g.uniform(0, 1)

        def f(x):
            e = np.concatenate([[0], x, [0]])
            return (2 * x - e[:-2] - e[2:]) / h ** 2 * .05 + \
                np.exp(np.clip(c * x, -50, 5)) - 1.5
        return f
    if kind == "stiff":
        k = 10 ** g.uniform(0, 4, n)
        t = g.normal(size=n)
        return lambda x: x - .5 + .01 * k * (x - t) / 10
    z = g.normal(size=n) * 10 ** g.uniform(-2, 3)
    return lambda x: np.tanh(x - z) + 2 * (x - z)


def nonlinear(m, n, part):
    NK = GPRpy.scipy.newton_krylov
    kinds = ["linear", "cubic", "diffusion", "stiff", "tanh"]
    asked, lost = 0, []
    for it, g in m.cases(f"nonlinear{part}", [(kinds[k % 5], k)
                                              for k in range(n)]):
        kind = it[0]
        sz = int(g.choice([1, 2, 4, 8, 16, 30, 64]))
        f = problem(kind, g, sz)
        x0 = g.normal(size=sz) * (10 ** g.uniform(-2, .5))
        calls = [0]

        def F(x):
            calls[0] += 1
            return f(np.array(x))
        tol = float(10 ** g.uniform(-9, -3))
        a = x0.copy()
        x = NK(F, a, f_tol=tol)
        m.desc(x0, kind=kind, n=sz, tol=tol)
        m.count("function evaluations", calls[0])
        if np.abs(f(x0)).max() <= tol:
            m.trivial()
        r = float(np.abs(f(x)).max())
        m.count("nonlinear systems")
        asked += 1
        # a line search may stall; it must be the exception (about one in 500)
        if r <= tol:
            m.ok("nonlinear residual", True)
        else:
            m.count("stalled")
            lost.append(f"{kind} n={sz} residual {r:.3g} tolerance {tol:.3g}")
    if asked >= 20:
        for _, g in m.cases(f"all{part}", 1):
            m.ok("nonlinear solver converges", len(lost) <= .04 * asked,
                 f"{len(lost)} of {asked}: {lost[:5]}")


def history(m, n):
    """The same answer, bit for bit, whatever was solved before."""
    L, NK = GPRpy.scipy.lgmres_wrapper, GPRpy.scipy.newton_krylov
    for k, g in m.cases("history", n):
        sz = int(g.choice([4, 12, 30, 50]))
        A = system(FAM[k % len(FAM)], g, min(sz, 30))
        sz = A.shape[0]
        b = g.normal(size=sz)
        f = problem("cubic", g, sz)
        x0 = g.normal(size=sz)
        ref = L(A, b), NK(f, x0.copy())
        m.desc(A, b, n=sz)
        for _ in range(4):
            o = int(g.integers(1, 60))
            if g.random() < .5:
                C = system("dense", g, o)
                L(C, g.normal(size=o))
            else:
                L(A, g.normal(size=sz))
            if g.random() < .3:
                NK(problem("linear", g, o), g.normal(size=o))
        m.ok("linear solve is repeatable", np.array_equal(L(A, b), ref[0]),
             f"n={sz}")
        m.ok("nonlinear solve is repeatable",
             np.array_equal(NK(f, x0.copy()), ref[1]), f"n={sz}")


def scalar(m, n):
    """stiff_ode_solve: the implicit scheme of the solver, for a scalar."""
    f = GPRpy.solvers.split.stiff_ode_solve
    for k, g in m.cases("scalar", n):
        lam = -float(10 ** g.uniform(-2, 3))
        c = float(g.normal())
        x0 = float(g.normal() * 10 ** g.uniform(-1, 1))
        dt = float(10 ** g.uniform(-3, 0))
        m.desc(np.array([lam, c, x0, dt]), kind="x'=λ(x-c)")
        x = f(x0, dt, lambda y: lam * (y - c))
        # DG in time with N nodes is the Radau scheme of order 2N-1
        z = lam * dt
        R = (1 + z / 3) / (1 - 2 * z / 3 + z * z / 6) if N == 2 else None
        want = c + (x0 - c) * R
        m.close("scalar stiff solve", x, want, 1e-4,
                max(abs(x0 - c), abs(c), abs(x0), 1e-2))
