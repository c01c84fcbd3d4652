"""Runs and their snapshots: an offline checker over the trace of a run (the steps
it prints, the state after each of them, what it returns)."""
from env import *
if WORKER:
    import sim
    import scen
    import work

RULE = ("runs of 0 to several hundred steps over random scenarios, also failing "
        "ones; non-trivial: at least one step")
ASSUME = ["the steps are printed with six digits"]
EPS = 2e-5


def jobs(tier):
    q = tier == "quick"
    J = []
    for c in ["default", "thermulti", "bare"] if q else [
            "default", "thermulti", "bare", "multi3", "corners", "n3", "thermal1"]:
        J += jobs_for([c], "runs", parts=2, args=dict(n=20 if q else 300),
                      budget=60 if q else 1500)
        J += jobs_for([c], "failing", args=dict(n=25 if q else 300),
                      budget=60 if q else 1500)
    return J


def same(a, b):
    return np.array_equal(np.ravel(a), np.ravel(b), equal_nan=True)


def check(m, s, tr, tf, start):
    n = len(tr.dt)
    S_ = [start] + list(tr.u)
    t = np.concatenate([[0.], np.cumsum(tr.dt)])
    ctx = f"{n} steps"
    m.ok("a hundred snapshots", len(tr.snaps) == 100, len(tr.snaps))
    m.ok("every step was seen", len(tr.u) == n, ctx)
    if len(tr.snaps) != 100 or len(tr.u) != n:
        return
    bad = [k for k in range(n) if np.isnan(tr.u[k]).any()]
    m.ok("steps are positive", (tr.dt > 0).all() if not bad else
         (tr.dt[:-1] > 0).all(), ctx)
    for k in range(n):
        want = 100 * t[k + 1] / tf
        if np.isfinite(want):
            m.ok("progress", -1 - EPS * 100 <= tr.pct[k] - want <= EPS * 100,
                 f"step {k}: printed {tr.pct[k]}, time {want}% {ctx}")
    full = [k for k in range(100) if np.size(tr.snaps[k])]
    m.count("steps", n)
    m.count("snapshots", len(full))
    if bad:
        m.count("runs that failed")
        m.ok("ends when a value is not a number", bad == [n - 1],
             f"{bad[:3]} of {n}")
        m.ok("returns the good and the bad state", len(full) >= 2
             and same(tr.snaps[full[-1]], S_[-1])
             and same(tr.snaps[full[-2]], S_[-2]) and full[-1] == full[-2] + 1,
             f"{full} {ctx}")
        snaps = full[:-2]
        m.ok("in order", full == list(range(len(full))), str(full))
    else:
        if n:
            m.close("ends at the final time", t[-1], tf, 1.2e-6, tf, ctx=ctx)
        m.ok("the last is the final state", 99 in full and
             same(tr.snaps[99], S_[-1]), ctx)
        snaps = [k for k in full if k < 99]
        m.ok("in order", snaps == list(range(len(snaps))), str(full))
    # each is the first new state at or past its hundredth
    j = 0
    for k in snaps:
        due = (k + 1) / 100 * tf
        c = [i for i in range(j + 1, n + 1) if t[i] >= due * (1 - EPS)]
        hit = None
        for i in c:
            if same(tr.snaps[k], S_[i]):
                hit = i
                break
            if t[i] >= due * (1 + EPS):
                break
        if not m.ok("the first new state at or past its hundredth",
                    hit is not None, f"snapshot {k} {ctx}"):
            return
        j = hit
    # none is missing
    left = (len(snaps) + 1) / 100 * tf
    over = bad and len(full) == 100
    m.ok("none is missing", over or len(snaps) == 99 or not any(
        t[i] > left * (1 + EPS) for i in range(j + 1, n + 1)),
        f"{len(snaps)} snapshots, {ctx}")


def runs(m, n, part=0):
    for k, g in m.cases(f"run{part}", n):
        s = scen.scenario(g, ndim=1 if g.random() < .7 else 2, mn=3)
        if s.trivial:
            m.trivial()
            continue
        omp(s.threads)
        base = s.tf / s.steps
        st = int(g.choice([0, 1, 2, 5, 7, 30, 99, 100, 101, 250]))
        if len(s.u) > 12:
            st = min(st, 30)
        # the first six steps are a fifth of the others
        tf = base * (st if st < 6 else 6 + 5 * (st - 6)) \
            * float(g.choice([1., 1., g.uniform(.7, 1.)]))
        m.desc(s.u, scenario=str(s), steps=st)
        start = s.u.ravel().copy()
        s.tf = tf
        if not st:
            m.trivial()
            s.tf = tf = float(g.choice([0., -1.]))
        tr = s.run()
        if not st:
            m.ok("no time, no step", len(tr.dt) == 0 and same(
                tr.snaps[99], start))
            continue
        check(m, s, tr, tf, start)


def failing(m, n):
    """States that cannot be continued."""
    for k, g in m.cases("fail", n):
        s = scen.scenario(g, ndim=1, single=True)
        if s.trivial:
            m.trivial()
            continue
        omp(s.threads)
        M = s.Ms[0]
        u = s.u
        how = int(g.integers(3))
        c = int(g.integers(len(u)))
        if how == 0:        # a negative pressure far beyond the material's
            u[c, 1] = -abs(u[c, 1]) * 10 ** g.uniform(0, 6)
        elif how == 1:      # torn apart
            v = 10 ** g.uniform(0, 2) * work.speed(s.u[c], 0, M)
            sg = np.where(np.arange(len(u)) < len(u) // 2, -1, 1)
            dv = v * sg * u[:, 0]
            u[:, 1] += (dv * u[:, 2] / u[:, 0] + .5 * dv ** 2 / u[:, 0])
            u[:, 2] += dv
        else:
            u[c, int(g.integers(NV - LSET))] = np.nan
        st = int(g.choice([3, 20, 120]))
        s.tf *= st / s.steps
        m.desc(u, scenario=str(s), how=how)
        start = u.ravel().copy()
        tr = s.run()
        if np.isfinite(tr.dt).all():
            check(m, s, tr, s.tf, start)
        else:
            # no step can be told: it ends at once
            full = [i for i in range(100) if np.size(tr.snaps[i])]
            m.ok("ends when a value is not a number",
                 np.isfinite(tr.dt[:-1]).all(), str(tr.dt))
            m.ok("returns the good and the bad state", len(full) >= 2 and same(
                tr.snaps[full[-1]], tr.u[-1]), str(full))
