"""Conservation: the totals of mass, momentum, energy and reactant over the
grid are summed after every step of simulations and compared with what the
boundaries let through.  Closed domains are periodic or between symmetry planes
(where only the even components are closed); open domains have uniform ends, so
that the boundary fluxes are known exactly.

The default configuration (NO_CORNERS) treats the corners of two-dimensional
grids one-sidedly; there, data are uniform at the corners, and arbitrary data
run in a configuration without that option."""
from env import *
if WORKER:
    import sim
    import work

RULE = ("simulations of 2-8 steps of random smooth, rough, blocky and compact "
        "fields, 1-D and 2-D, 3 fluxes, both schemes, 16 materials, 1-3 threads;"
        " non-trivial: the fields are not uniform")
ASSUME = ["no body force; distortion resets are off (they remove energy)",
          "a single material fills the domain"]


def jobs(tier):
    q = tier == "quick"
    n = 40 if q else 1000
    J = jobs_for(["default"], "periodic", parts=2, args=dict(n=n))
    J += jobs_for(["corners"], "periodic2", parts=2 if q else 4,
                  args=dict(n=n // 2))
    J += jobs_for(["default", "corners"] if q else
                  ["default", "corners", "thermal", "multi", "prim", "n3"],
                  "walls", args=dict(n=n))
    J += jobs_for(["thermulti"] if q else ["thermulti", "thermal1", "multi3",
                                           "bare"],
                  "periodic", parts=2, args=dict(n=n))
    J += jobs_for(["default", "thermulti"], "open_ends", args=dict(n=n))
    J += jobs_for(["default", "thermulti"], "compact2", args=dict(n=n // 2))
    J += jobs_for(["thermulti"], "reacting", args=dict(n=n))
    J += jobs_for(["default"], "corner_gap")
    if not q:
        J += jobs_for(["n3", "n4", "n1", "prim"], "periodic", args=dict(n=n // 3))
    return J


def scheme(g, name, ndim=1):
    """Options of a run."""
    mild = name in work.MILD
    p = (.5 if mild else .9) if ndim == 1 else (.5 if mild else 1.)
    split = bool(g.random() < p)
    stiff = not split and ndim == 1 and (not mild or g.random() < .15)
    return dict(split=split, half=bool(g.random() < .7), stiff=bool(stiff),
                flux=int(g.integers(3)))


def names(g, heavy=False):
    return str(g.choice(work.ANY))


CONS = [0, 1, 2, 3, 4]


def totals(u):
    c = sim.cells(u)
    k = CONS + ([MVI] if MULTI else [])
    return np.array([np.sum(c[:, j].astype(np.longdouble)) for j in k])


def limited(u):
    c = sim.cells(u)
    return bool(((c[:, MVI] == 0.) | (c[:, MVI] == c[:, 0])).any())


def watch(m, tr, M, nm, want=None, keep=None, oracle="conserved", ctx="",
          tol=2e-13):
    """want(t): expected change of the totals at time t."""
    if not m.ok("state observed", tr.same and len(tr.u) == len(tr.dt),
                f"{nm} {ctx}"):
        return
    sc = work.scale(tr.u0, M)[CONS + ([MVI] if MULTI else [])]
    n = len(tr.u0) // NV
    keep = np.ones(len(sc), bool) if keep is None else keep
    t0 = totals(tr.u0)
    for k, u in enumerate(tr.u):
        if not np.isfinite(u).all():
            m.count("runs that failed")
            return
        if MULTI and limited(u) and not limited(tr.u0):
            # the fraction is cut off at zero and one, so that it is not
            # conserved when a run overshoots them
            m.count("runs with fractions cut off")
            return
        w = 0 if want is None else want(tr.t[k])
        err = np.asarray(totals(u) - t0 - w, float)
        m.close(oracle, (err / (sc * n))[keep], np.zeros(keep.sum()),
                tol * (k + 2), 1., ctx=f"{nm} step {k} {ctx}")
        m.count("steps")


def pick(m, g, ndim):
    nm = names(g)
    M = mats.mat(nm)
    kind = str(g.choice(["smooth", "rough", "blocks"]))
    amp = float(g.choice([.02, .1, .3]))
    return nm, M, kind, amp


def shape(g, ndim):
    lo = max(3, N)
    if ndim == 1:
        return [int(g.integers(lo, 24))]
    return [int(g.integers(lo, 10)), int(g.integers(lo, 10))]


def periodic(m, n, part=0):
    for k, g in m.cases(f"periodic{part}", n):
        nm, M, kind, amp = pick(m, g, 1)
        nX = shape(g, 1)
        dX = [float(10 ** g.uniform(-3, 1))]
        u, _ = work.field(g, nX, nm, M, kind, amp)
        o = scheme(g, nm)
        omp(int(g.integers(1, 4)))
        m.desc(u.ravel()[:20], material=nm, field=kind, amp=amp, nX=nX, **o)
        tr = work.simple(g, u, nX, dX, M, [1, 1], steps=int(g.integers(2, 9)),
                         **o)
        watch(m, tr, M, nm, ctx=f"{o} {kind} {nX}")


def periodic2(m, n, part=0):
    for k, g in m.cases(f"periodic2d{part}", n):
        nm, M, kind, amp = pick(m, g, 2)
        nX = shape(g, 2)
        dX = list(10 ** g.uniform(-1, 1, 2))
        u, _ = work.field(g, nX, nm, M, kind, amp)
        o = scheme(g, nm, 2)
        omp(int(g.integers(1, 4)))
        m.desc(u.ravel()[:20], material=nm, field=kind, amp=amp, nX=nX, **o)
        tr = work.simple(g, u, nX, dX, M, [1] * 4, steps=int(g.integers(2, 5)),
                         **o)
        watch(m, tr, M, nm, ctx=f"{o} {kind} {nX}")


def compact2(m, n):
    """Disturbances away from the corners, across the edges of the domain."""
    for k, g in m.cases("compact2d", n):
        nm = names(g)
        M = mats.mat(nm)
        nX = [int(g.integers(14, 18)), int(g.integers(14, 18))]
        dX = list(10 ** g.uniform(-1, 1, 2))
        u, _ = work.field(g, nX, nm, M, "edge", float(g.choice([.05, .4])))
        o = scheme(g, nm, 2)
        omp(int(g.integers(1, 4)))
        m.desc(u.ravel()[-20:], material=nm, nX=nX, **o)
        tr = work.simple(g, u, nX, dX, M, [1] * 4, steps=2, **o)
        # the reconstructions on both sides of the edge agree to rounding only,
        # which the eigenvalues and vectors amplify
        watch(m, tr, M, nm, ctx=f"{o} {nX}", tol=1e-12
              if not (THERMAL or o["flux"]) else 3e-7)


def walls(m, n):
    two = not GPRpy_corners()
    for k, g in m.cases("walls", n):
        ndim = 2 if two and k % 2 else 1
        nm, M, kind, amp = pick(m, g, ndim)
        nX = shape(g, ndim)
        dX = list(10 ** g.uniform(-1, 1, ndim))
        u, _ = work.field(g, nX, nm, M, kind, amp)
        o = scheme(g, nm, ndim)
        # at a mirror the system has a defective eigenvalue zero, where Roe's
        # and Osher's fluxes depend on rounding
        o["flux"] = 0
        # the implicit predictor of power laws is not always solved, and what is
        # left differs between a cell and its mirror image
        if o["stiff"] and nm in mats.POWERFLUIDS + ["bingham"]:
            o.update(split=True, stiff=False)
        sym = ndim == 1 or g.random() < .5
        bcs = [5] * (2 * ndim) if sym else [5, 5, 1, 1]
        omp(int(g.integers(1, 3)))
        m.desc(u.ravel()[:20], material=nm, field=kind, nX=nX, bcs=bcs, **o)
        tr = work.simple(g, u, nX, dX, M, bcs, steps=int(g.integers(2, 6)), **o)
        keep = np.ones(5 + MULTI, bool)
        keep[2] = False
        if ndim == 2 and sym:
            keep[3] = False
        watch(m, tr, M, nm, keep=keep, oracle="conserved between mirrors",
              tol=1e-5 if o["stiff"] else 1e-7 if THERMAL else 1e-9,
              ctx=f"{o} {kind} {nX} {bcs}")


def GPRpy_corners():
    """Whether this build treats corners specially (options are not exported:
    seen from the results)."""
    import json
    d = os.path.basename(os.environ["GPRMON_SO"])
    return "NO_CORNERSfalse" not in d


def open_ends(m, n):
    """A Riemann problem: the ends stay uniform, so that what passes through
    them is the physical flux of the end states."""
    for k, g in m.cases("open", n):
        nm = names(g)
        M = mats.mat(nm)
        if THERMAL:
            M.κ = 1e30       # no relaxation of the heat at the ends
        if not M.SOLID:
            M.μ = 1e30 if not M.POWER_LAW else M.μ
        nx = int(g.integers(16, 30))
        th = work.thetas(g, [nx], "uniform")
        th2 = work.thetas(g, [nx], "uniform")
        a = int(g.integers(10, nx - 9)) if nx > 20 else nx // 2
        th[a:] += .4 * (th2[a:] - th[a:])
        # relaxation would change the ends: unstrained and without heat there
        th[:, 5:8] = 0
        th[:, 14:17] = 0
        u = work.assemble(th, nm, M)
        o = scheme(g, nm)
        dX = [float(10 ** g.uniform(-1, 1))]
        bc = [[0, 0], [0, 5]][0]
        m.desc(u[0], u[-1], material=nm, nX=nx, cut=a, **o)
        F = []
        for e in (0, -1):
            f = np.zeros(NV)
            S.flux(f, np.ascontiguousarray(u[e]), 0, M)
            F.append(f[CONS + ([MVI] if MULTI else [])])
        tr = work.simple(g, u, [nx], dX, M, bc, steps=3, **o)
        # what reaches the ends within 3 short steps is nothing
        watch(m, tr, M, nm, want=lambda t: t / dX[0] * (F[0] - F[1]),
              oracle="changed by the boundary flux",
              tol=1e-5 if o["stiff"] else 2e-13, ctx=f"{o} {nx} {a}")


def reacting(m, n):
    from importlib import util
    sp = util.spec_from_file_location("c06", os.path.dirname(__file__)
                                      + "/c06.py")
    c06 = util.module_from_spec(sp)
    sp.loader.exec_module(c06)
    for k, g in m.cases("reacting", n):
        nm = str(g.choice(["airnd", "viscous", "jwl", "nm_cc"]))
        M, kind = c06.reactive(mats.mat(nm), nm, g)
        if M.REACTION == -1:
            M.REACTION, M.Ti, M.Kc, M.Qc = 0, 0., 1., .1
        if M.REACTION == 2:
            continue            # its rates need compression: see C15
        # a rate that consumes a part within the run
        nX = [int(g.integers(4, 20))]
        u0, th = work.field(g, nX, nm, M, "smooth", .2)
        dX = [1.]
        dt = work.dt_est(u0, dX, M, .5)
        kk = float(10 ** g.uniform(-1, .5)) / dt
        if M.REACTION == 0:
            M.Kc, M.Ti = kk, 0.
        else:
            P = spec.prim(u0[0], M)
            T = abs(spec.T_of(P.r, P.p, M)) or 1.
            M.Rc, M.Ea, M.Bc = 1., T, kk * np.e
        u = work.assemble(th, nm, M)
        o = scheme(g, nm)
        o["split"] = True
        m.desc(u.ravel()[:20], material=nm, kind=kind, **o)
        tr = work.simple(g, u, nX, dX, M, [1, 1], steps=6, **o)
        keep = np.ones(6, bool)
        keep[5] = False
        watch(m, tr, M, nm, keep=keep, oracle="conserved while reacting",
              ctx=f"{kind} {o}")
        last = np.sum(sim.cells(tr.u0)[:, MVI])
        first = last
        if not all(np.isfinite(x).all() for x in tr.u):
            continue
        for x in tr.u:
            now = np.sum(sim.cells(x)[:, MVI])
            m.ok("reactant is only consumed", now <= last * (1 + 1e-12),
                 f"{nm} {kind} {last} -> {now}")
            last = now
        m.ok("reactant is consumed", last < first * (1 - 1e-4),
             f"{nm} {kind} {first} -> {last}")


def corner_gap(m):
    """Arbitrary periodic data in the default configuration."""
    for k, g in m.cases("corner gap", 1):
        nm = "airnd"
        M = mats.mat(nm)
        g = np.random.default_rng(5)
        u, _ = work.field(g, [6, 6], nm, M, "rough", .5)
        o = dict(split=True, half=True, stiff=False, flux=0)
        tr = work.simple(g, u, [6, 6], [1., 1.], M, [1] * 4, steps=4, cfl=.5,
                         **o)
        m.desc(u.ravel()[:10])
        watch(m, tr, M, nm, oracle="conserved across corners")
