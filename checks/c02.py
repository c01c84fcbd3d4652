"""Results are functions of the arguments.  The same workload runs in builds whose
automatic variables start as zeros and as a pattern, with fresh heap memory full
of a pattern, in another order and again in one process, and the results are
compared.  Under Valgrind's Memcheck every value of every result must be defined,
that is, not derived from memory that nobody wrote.  Arguments that are not
results must be as they were."""
import subprocess
import sys
import tempfile
from env import *
if WORKER:
    import sim
    import scen
    import work

RULE = ("random simulations (1-D/2-D, every boundary, flux, scheme, 1-4 "
        "materials, vacuum), and every function offered to Python on random "
        "states, in several builds and orders; non-trivial: has a material")
ASSUME = ["NaN compares equal to NaN; diverged inner iterations may look at "
          "unwritten memory as long as their outcome is discarded"]

def jobs(tier):
    q = tier == "quick"
    J = []
    for c in ["default", "thermulti"] if q else [
            "default", "thermulti", "bare", "multi3", "corners", "n3d", "prim"]:
        for k in range(3 if q else 6):
            J += [dict(name=f"compare/{c}@{k}", func="compare", over=CONF[c],
                       args=dict(n=12 if q else 150, part=k),
                       also=["autozero", "autopat"], budget=80 if q else 2000)]
    for c in ["default", "thermulti", "bare"] if q else [
            "default", "thermulti", "bare", "corners", "n3d"]:
        J += jobs_for([c], "functions", args=dict(n=30 if q else 600),
                      also=["autozero", "autopat"])
        for f in ("memcheck", "memfun"):
            J += jobs_for([c], f, args=dict(n=10 if q else 200),
                          wrap=["sh", f"{os.path.dirname(__file__)}/../lib/"
                                "memcheck.sh"],
                          env=dict(PYTHONMALLOC="malloc"),
                          budget=60 if q else 2000)
    return J


def elsewhere(m, so, func, args, env=None):
    """The same workload in another build; returns what it saved."""
    d = tempfile.mkdtemp()
    out = f"{d}/r.npz"
    job = dict(prop=m.prop, name=m.job, seed=m.seed, tier=m.tier, func=func,
               args=dict(args, save=out), only=m.only)
    import json
    json.dump(job, open(f"{d}/j", "w"))
    e = dict(os.environ, GPRMON_SO=so, **(env or {}))
    here = os.path.dirname(os.path.abspath(__file__))
    p = subprocess.run([sys.executable, f"{here}/../lib/worker.py",
                        os.path.abspath(__file__), f"{d}/j", f"{d}/r"], env=e,
                       stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                       text=True)
    r = None
    if p.returncode == 0 and os.path.exists(out):
        r = dict(np.load(out))
    err = p.stderr[-1500:]
    try:
        err += json.load(open(f"{d}/r"))["error"]
    except (OSError, ValueError):
        pass
    import shutil
    shutil.rmtree(d)
    return r, p.returncode, err


def others(m):
    z, p = os.environ["GPRMON_ALSO"].split(":")[:2]
    me = os.environ["GPRMON_SO"]
    return [("zeros on the stack", z, dict(MALLOC_PERTURB_="255")),
            ("a pattern on the stack", p, dict(MALLOC_PERTURB_="90")),
            ("another order", me, dict(MALLOC_PERTURB_="1"))]


def arguments(M):
    return {k: np.array(getattr(M, k), float) for k in dir(M)
            if isinstance(getattr(M, k), (bool, int, float, np.ndarray))}


def unchanged(m, what, Ms, before, *pairs):
    for M, b in zip(Ms, before):
        a = arguments(M)
        m.ok("material unchanged", a.keys() == b.keys() and all(
            np.array_equal(a[k], b[k], equal_nan=True) for k in a), what)
    for a, b in pairs:
        m.ok("arguments unchanged", np.array_equal(a, b, equal_nan=True), what)


def simulate(m, s, tol):
    """One call of the solver, with its arguments watched."""
    import contextlib
    import io
    u = np.ascontiguousarray(s.u.ravel()).copy()
    nX, dX = i32(*s.nX), np.array(s.dX, float)
    bcs = i32(*s.bcs)
    keep = nX.copy(), dX.copy(), bcs.copy()
    before = [arguments(M) for M in s.Ms]
    o = s.opt
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        ret = SO.iterator(u, s.tf, nX, dX, s.cfl, bcs, o["split"], o["half"],
                          o["stiff"], o["flux"], s.Ms, tol)
    unchanged(m, "iterator", s.Ms, before, (nX, keep[0]), (dX, keep[1]),
              (bcs, keep[2]))
    full = [np.array(r) for r in ret if np.size(r)]
    return full, buf.getvalue()


def draw(m, tag, n, **kw):
    for k, g in m.cases(tag, n):
        s = scen.scenario(g, **kw)
        tol = float(g.choice([1e300, 1e-3]))
        if s.trivial:
            m.trivial()
            continue
        m.desc(s.u, scenario=str(s))
        omp(s.threads)
        yield k, s, tol, g


def scale_of(u):
    u = np.abs(np.nan_to_num(np.reshape(u, (-1, NV))))
    c = np.maximum(u.max(0), 1e-300)
    c[2:5] = max(c[2:5])
    c[5:14] = max(1., max(c[5:14]))
    return c


def equal(m, what, a, b, sc, ctx):
    if np.array_equal(a, b, equal_nan=True):
        m.count("identical")
        return m.ok(what, True)
    if a.shape != b.shape or (np.isnan(a) != np.isnan(b)).any():
        return m.ok(what, False, f"{ctx}: {a.shape} {b.shape}, NaN: "
                    f"{np.isnan(a).sum()} and {np.isnan(b).sum()}")
    m.count("equal to rounding")
    return m.close(what, np.nan_to_num(b).reshape(-1, len(sc)),
                   np.nan_to_num(a).reshape(-1, len(sc)), 1e-9, sc, ctx=ctx)


def produce(m, n, part, save):
    """In another build or order: everything in reverse."""
    out = {}
    # the cases have to be seeded alike, so they are drawn first
    for k, s, tol, g in reversed(list(draw(m, f"sim{part}", n))):
        full, txt = simulate(m, s, tol)
        out[str(k)] = full[-1]
        out[f"t{k}"] = len(txt.split())
    np.savez(save, **out)


def compare(m, n, part=0):
    ref = {}
    for k, s, tol, g in draw(m, f"sim{part}", n):
        full, txt = simulate(m, s, tol)
        ref[k] = s, full[-1], txt, tol
    # again, after all the others
    for k in list(ref)[::3]:
        s, f, txt, tol = ref[k]
        full, t2 = simulate(m, s, tol)
        m.cur = (f"sim{part}", k)
        m.ok("again: the same steps", txt == t2)
        equal(m, "again: the same result", f, full[-1], scale_of(s.u), str(s))
    for what, so, env in others(m):
        r, rc, err = elsewhere(m, so, "produce", dict(n=n, part=part), env)
        if r is None:
            m.ok("the other build answers", False, f"{what}: {rc} {err}")
            continue
        m.count("builds and orders")
        for k, (s, f, txt, tol) in ref.items():
            m.cur = (f"sim{part}", k)
            if str(k) not in r:
                m.ok("the other build answers", False, what)
                continue
            m.ok("the same number of steps", len(txt.split()) == r[f"t{k}"],
                 what)
            equal(m, "the same result", f, r[str(k)],
                  np.maximum(scale_of(s.u), scale_of(f)), f"{what}: {s}")


def calls(m, g, k):
    """(name, result, scale) of function calls on random states."""
    name = str(g.choice([x for x in work.ANY]))
    M = mats.mat(name)
    c06 = scen.load("c06")
    if MULTI and g.random() < .6:
        M, _ = c06.reactive(M, name, g)
    before = [arguments(M)]
    m.desc(np.array([k]), material=name)
    Q = []
    for _ in range(3):
        P = work.prim_of(g.uniform(-1, 1, work.NT), name, M, vel=.3)
        if LSET:
            P.ls = g.uniform(-1, 1, LSET)
        Q.append(spec.cons(P, M))
    keep = [q.copy() for q in Q]
    d = int(g.integers(2))
    out = []

    def add(nm, x):
        out.append((nm, np.array(x, float).ravel().copy()))
    for nm in ("flux", "Bdot", "source"):
        # these add to what the result holds
        f = getattr(S, nm)
        r = np.zeros(NV)
        if nm == "flux":
            f(r, Q[0], d, M)
        elif nm == "source":
            f(r, Q[0], M)
        else:
            f(r, Q[0], Q[1] - Q[0], d, M)
        add(nm, r)
    B = np.zeros((NV, NV))
    S.block(B, Q[0], d)
    add("block", B)
    add("system_matrix", S.system_matrix(Q[0], d, M))
    add("max_abs_eigs", S.max_abs_eigs(Q[0], d, M))
    add("thermo_acoustic_tensor", S.thermo_acoustic_tensor(Q[0], d, M))
    for nm in ("dFdP", "dPdQ"):
        if hasattr(S, nm):
            f = getattr(S, nm)
            add(nm, f(Q[0], d, M) if nm == "dFdP" else f(Q[0], M))
    add("pressure", SV.pressure(Q[0], M))
    add("temperature", SV.temperature(Q[0], M))
    for f in ("RUS", "ROE", "OSH"):
        for mod in (SO.fv, SO):
            if hasattr(mod, "D_" + f):
                x = getattr(mod, "D_" + f)(Q[0], Q[1], d, M)
                if np.isfinite(np.asarray(x)).all():
                    add("D_" + f, x)
                break
    # star states of two like materials, slightly different
    R = Q[0].copy()
    R2 = spec.cons(work.prim_of(g.uniform(-.02, .02, work.NT), name, M, vel=.02)
                   if not LSET else _ls(work.prim_of(
                       g.uniform(-.02, .02, work.NT), name, M, vel=.02)), M)
    R1 = spec.cons(_ls(work.prim_of(g.uniform(-.02, .02, work.NT), name, M,
                                    vel=.02)), M)
    x = S.multi.left_star_state(R1, R2, M, M, 1e-9, np.array([1., 0.]))
    add("left_star_state", x)
    # solvers
    nX = [int(a) for a in g.integers(N, 7, int(g.integers(1, 3)))]
    s = scen.scenario(g, ndim=len(nX), single=True)
    bs = [arguments(s.Ms[0])]
    n_, dX = i32(*s.nX), np.array(s.dX, float)
    u = s.u.ravel().copy()
    ub = np.pad(s.u.reshape(s.nX + [NV]), [(N, N)] * len(s.nX) + [(0, 0)],
                mode="edge").ravel()
    mask = np.ones([a + 2 for a in s.nX], bool).ravel()
    nm = "split_stepper" if s.opt["split"] else "ader_stepper"
    getattr(SO, nm)(u, ub, n_, s.tf / s.steps, dX, s.opt["half"]
                    if s.opt["split"] else s.opt["stiff"], s.opt["flux"],
                    s.Ms[0], mask)
    add(nm, u)
    v = s.u.ravel().copy()
    SO.split.ode_launcher(v, s.tf / s.steps, s.Ms[0])
    add("ode_launcher", v)
    unchanged(m, "functions", [s.Ms[0]], bs, (n_, i32(*s.nX)),
              (dX, np.array(s.dX, float)), (mask, np.ones_like(mask)))
    if LSET:
        v = np.ascontiguousarray(s.u.reshape(-1, NV)).copy()
        GPRpy.multi.renormalize_levelsets(v, dX, n_)
        add("renormalize_levelsets", v)
    # the linear solver
    k = int(g.integers(3, 30))
    A = np.eye(k) * 3 + g.uniform(-1, 1, (k, k)) / np.sqrt(k)
    b = g.uniform(-1, 1, k)
    A0, b0 = A.copy(), b.copy()
    add("lgmres", GPRpy.scipy.lgmres_wrapper(A, b))
    unchanged(m, "functions", [M], before, (A, A0), (b, b0),
              *zip(Q, keep))
    return out


def _ls(P):
    if LSET:
        P.ls = np.full(LSET, -1.)
    return P


def fun_produce(m, n, save):
    out = {}
    for k, g in reversed(list(m.cases("fun", n))):
        m.cur = ("fun", k)
        for i, (nm, x) in enumerate(calls(m, g, k)):
            out[f"{k}/{i}"] = x
    np.savez(save, **out)


def functions(m, n):
    ref = {}
    for k, g in m.cases("fun", n):
        omp(1 + k % 3)
        ref[k] = calls(m, g, k)
    for what, so, env in others(m):
        r, rc, err = elsewhere(m, so, "fun_produce", dict(n=n), env)
        if r is None:
            m.ok("the other build answers", False, f"{what}: {rc} {err}")
            continue
        m.count("builds and orders")
        for k, L in ref.items():
            m.cur = ("fun", k)
            for i, (nm, x) in enumerate(L):
                y = r.get(f"{k}/{i}", np.zeros(0))
                equal(m, "the same value", x, y,
                      np.array([max(np.abs(np.nan_to_num(x)).max(initial=0),
                                    1e-300)]), f"{what}: {nm}")


def defined(m, fd, x):
    """Writes the values: Memcheck reports those that are not defined."""
    import struct
    y = [v for v in np.asarray(x, float).ravel().tolist() if v - v == 0]
    os.write(fd, struct.pack(f"{len(y)}d", *y))
    m.count("values found defined", len(y))
    m.ok("values are defined", True)


def memcheck(m, n):
    fd = os.open("/dev/null", os.O_WRONLY)
    for k, s, tol, g in draw(m, "sim", n, mn=3 if LSET else N, steps=1):
        omp(1 + k % 2)
        full, txt = simulate(m, s, tol)
        for f in full[-1:]:
            defined(m, fd, f)


def memfun(m, n):
    fd = os.open("/dev/null", os.O_WRONLY)
    for k, g in m.cases("fun", n):
        omp(1)
        for nm, x in calls(m, g, k):
            defined(m, fd, x)
