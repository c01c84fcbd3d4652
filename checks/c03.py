"""Threads neither race nor change the answer.  The monitor runs the teams of the
parallel regions itself (lib/ompshim.cpp): any number of threads, one at a time
in a chosen order or truly at once with random delays.  Whole simulations, the
parallel steppers and the filling of ghost cells are compared with one thread;
builds with ThreadSanitizer watch every access of the teams."""
from env import *
if WORKER:
    import sim
    import scen
    import work

RULE = ("random simulations (1-D/2-D, every boundary, flux, scheme, 1-4 "
        "materials), steppers and ghost fillings on teams of up to more threads "
        "than rows, in random orders; non-trivial: a team of several threads ran")
ASSUME = ["GCC's OpenMP lowering; the team is run by the monitor's own runtime, "
          "which implements the constructs the OpenMP standard describes"]


def jobs(tier):
    q = tier == "quick"
    J = []
    for c in ["default", "thermulti"] if q else [
            "default", "thermulti", "bare", "multi3", "corners", "n3d", "prim",
            "thermal1", "corners_t"]:
        J += jobs_for([c], "sims", parts=2, args=dict(n=25 if q else 300),
                      budget=60 if q else 1500)
    for c in ["bare", "corners"] if q else [
            "bare", "corners", "thermulti", "n3", "n4", "prim"]:
        J += jobs_for([c], "steppers", args=dict(n=60 if q else 900),
                      budget=60 if q else 1500)
    J += jobs_for(["default"] if q else ["default", "multi3", "thermal1"],
                  "ghosts", args=dict(n=60 if q else 900), budget=60 if q else
                  1500)
    e = {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:"
         "ignore_noninstrumented_modules=1:report_signal_unsafe=0"}
    for c in ["default"] if q else ["default", "thermulti", "corners", "n3d"]:
        for f, n in (("sims", 25), ("steppers", 40), ("ghosts", 40)):
            J += jobs_for([c], f, "tsan", args=dict(n=n if q else 30 * n,
                                                    tsan=True),
                          env=e, budget=60 if q else 1500)
    return J


def teams(g, rows, tsan, n):
    """Settings of the team."""
    out = []
    for _ in range(n):
        # often single rows
        t = int(g.choice([2, 3, 4, int(g.integers(2, rows + 3)),
                          max(2, rows - int(g.integers(2)))]))
        if tsan or g.random() < .35:
            out.append((t, dict(mode=0, jitter=int(g.choice([0, 300, 2000])),
                                seed=int(g.integers(1 << 30)))))
        else:
            out.append((t, dict(mode=1, order=[int(x) for x in
                                               g.permutation(t)])))
    return out


def alone():
    omp(1, mode=0, jitter=0)


def same(m, what, a, b, sc, ctx):
    """The same result: the slabs do the same operations on the same numbers,
    only the vectorisation of sums may round differently."""
    m.ok(what + ", shape", a.shape == b.shape, ctx)
    eq = np.array_equal(a, b, equal_nan=True)
    m.count("identical results" if eq else "results equal to rounding")
    if eq:
        m.ok(what, True)
        return True
    na, nb = np.isnan(a), np.isnan(b)
    if (na != nb).any():
        return m.ok(what, False, f"{ctx}: one result is NaN, {na.sum()} and "
                    f"{nb.sum()} values")
    return m.close(what, np.nan_to_num(b), np.nan_to_num(a), 1e-6, sc, ctx=ctx)


def colscale(u):
    u = np.abs(np.nan_to_num(u.reshape(-1, NV)))
    return np.maximum(u.max(0), 1e-300)


def sims(m, n, part=0, tsan=False):
    for k, g in m.cases(f"sim{part}", n):
        s = scen.scenario(g, steps=int(g.integers(1, 4)))
        m.desc(s.u, scenario=str(s))
        if s.trivial:
            m.trivial()
            continue
        ref = None
        if not tsan:
            alone()
            ref = s.run()
        for t, kw in teams(g, s.nX[0], tsan, 1 if tsan else 2):
            SHIM.gprmon_set_jitter(0)
            omp(t, **kw)
            b0 = SHIM.gprmon_bodies()
            tr = s.run()
            m.count("thread bodies", SHIM.gprmon_bodies() - b0)
            m.count("teams in sequence" if kw["mode"] else "teams at once")
            alone()
            if ref is None:
                m.ok("no data race", True)
                continue
            ctx = f"{t} threads, {kw}"
            m.ok("number of steps", len(tr.dt) == len(ref.dt), ctx)
            if len(tr.dt) == len(ref.dt):
                sc = colscale(ref.u0)
                sc[2:5] = max(sc[2:5].max(), 1e-300)
                sc[5:14] = max(1., sc[5:14].max())
                same(m, "simulation", ref.final.reshape(-1, NV),
                     tr.final.reshape(-1, NV), np.maximum(sc, colscale(
                         ref.final)), ctx)
            m.ok("number of snapshots", len(tr.snaps) == len(ref.snaps), ctx)


def steppers(m, n, tsan=False):
    for k, g in m.cases("step", n):
        s = scen.scenario(g, single=True)
        ndim = len(s.nX)
        M = s.Ms[0]
        m.desc(s.u, scenario=str(s))
        nX, dX = i32(*s.nX), np.array(s.dX, float)
        pad = [(N, N)] * ndim + [(0, 0)]
        u = s.u.reshape(s.nX + [NV])
        ub = np.pad(u, pad, mode=str(g.choice(["edge", "wrap"]))
                    if min(s.nX) >= N else "edge")
        mask = np.ones([a + 2 for a in s.nX], bool)
        if g.random() < .5:
            mask &= g.random(mask.shape) < .9
        dt = s.tf / s.steps * float(g.uniform(.2, 1.5))
        split = s.opt["split"]
        fl = s.opt["flux"]
        flag = s.opt["half"] if split else s.opt["stiff"]

        def go(name):
            a, b = u.ravel().copy(), ub.ravel().copy()
            f = getattr(SO, name)
            f(a, b, nX, dt, dX, flag, fl, M, mask.ravel())
            return a
        nm = "split_stepper" if split else "ader_stepper"
        alone()
        ref = None if tsan else go(nm)
        for t, kw in teams(g, s.nX[0], tsan, 1 if tsan else 3):
            omp(t, **kw)
            b0 = SHIM.gprmon_bodies()
            got = go(nm + "_para")
            d = SHIM.gprmon_bodies() - b0
            m.count("thread bodies", d)
            alone()
            if ref is None:
                m.ok("no data race", True)
            else:
                same(m, nm, ref.reshape(-1, NV), got.reshape(-1, NV),
                     colscale(u), f"{t} threads, {kw}")


def ghosts(m, n, tsan=False):
    c18 = scen.load("c18")
    for k, g in m.cases("ghosts", n):
        s = scen.scenario(g, ndim=2, single=False)
        if s.trivial:
            m.trivial()
            continue
        m.desc(s.u, scenario=str(s))
        nX, dX = i32(*s.nX), np.array(s.dX, float)
        dt = s.tf / s.steps

        def go():
            return c18.fill(s.u.copy(), nX, dX, dt, s.Ms)
        alone()
        ref = None if tsan else go()
        for t, kw in teams(g, s.nX[0], tsan, 1 if tsan else 3):
            omp(t, **kw)
            got = go()
            alone()
            if ref is None:
                m.ok("no data race", True)
                continue
            ctx = f"{t} threads, {kw}"
            for a, ma, b, mb in zip(ref[1], ref[2], got[1], got[2]):
                m.ok("masks", np.array_equal(ma, mb), ctx)
                same(m, "ghost cells", a, b,
                     np.maximum(colscale(s.u), colscale(a)), ctx)
