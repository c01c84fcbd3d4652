"""Memory safety and defined behaviour.  Builds with AddressSanitizer and
UndefinedBehaviorSanitizer, the standard library's and Eigen's assertions run
random whole simulations over everything the solver offers (hostile data and
grids down to the smallest), and the function-level workloads of the other
checks, whose oracles are not asked here.  Any report, failed assertion, crash or
C++ exception is a violation."""
from env import *
if WORKER:
    import sim
    import scen

RULE = ("random simulations (1-D/2-D, every boundary, flux, scheme, 1-4 "
        "materials, vacuum, layouts through noise) and function calls under "
        "ASan/UBSan; non-trivial: the simulation has a material")
ASSUME = ["states are physical (positive density)", "alignment and vptr checks "
          "are off (the vendored libraries' business)"]


def jobs(tier):
    q = tier == "quick"
    J = []
    cs = ["default", "thermulti", "bare"] if q else [
        "default", "thermulti", "bare", "multi3", "lset1", "corners", "n3",
        "n3d", "thermal1", "prim", "n4"]
    for c in cs:
        J += jobs_for([c], "sims", "asan", parts=3 if q else 4,
                      args=dict(n=16 if q else 700),
                      budget=90 if q else 2000)
    lent = [("default", "c18", "fill2", dict(n=40)),
            ("default", "c18", "fill1", dict(n=60)),
            ("default", "c18", "reassemble", dict(n=60)),
            ("default", "c17", "general", dict(n=60)),
            ("default", "c17", "helpers", dict(n=60)),
            ("default", "c16", "functions", dict(n=30)),
            ("bare", "c14", "relax", dict(n=60)),
            ("thermulti", "c15", "burn", dict(n=60)),
            ("thermulti", "c15", "heat", dict(n=60)),
            ("bare", "c15", "scalar", dict(n=40)),
            ("thermulti", "c06", "work", dict(n=3)),
            ("thermulti", "c07", "work", dict(n=4))]
    for c, chk, f, a in lent:
        if not q:
            a = {k: 20 * v for k, v in a.items()}
        J.append(dict(name=f"asan:{chk}.{f}/{c}", func="lent", variant="asan",
                      over=CONF[c], args=dict(check=chk, fn=f, a=a)))
    for chk in ("c08", "c09", "c10", "c11", "c13", "c19", "c21", "c25"):
        J.append(dict(name=f"asan:{chk}", func="whole", variant="asan",
                      over=CONF["default" if chk in ("c08", "c09", "c13", "c19")
                                else "bare"],
                      args=dict(check=chk, tier=tier),
                      timeout=500 if q else 3000))
    return J


class Deaf:
    """Passes cases on, keeps no oracle."""

    def __init__(self, m, limit=None, tag=""):
        self.m, self.limit, self.tag = m, limit, tag
        self.left = limit

    def cases(self, tag, n):
        it = range(n) if isinstance(n, int) else list(n)
        if self.limit:
            it = list(it)[:self.limit]
        return self.m.cases(self.tag + tag, it)

    def ok(self, oracle, cond, detail="", key=None):
        return bool(cond)

    def close(self, oracle, got, want, tol, scale=None, key=None, ctx=""):
        return True

    def violate(self, key, detail=""):
        pass

    def __getattr__(self, k):
        return getattr(self.m, k)


def lent(m, check, fn, a):
    mod = scen.load(check)
    getattr(mod, fn)(Deaf(m), **a)
    m.ok("ended without a report", True)


def whole(m, check, tier):
    """Every job of a check that runs in this configuration."""
    mod = scen.load(check)
    me = json_over()
    for j in mod.jobs(tier):
        if j.get("over", {}) != me or j.get("variant", "plain") != "plain":
            continue
        getattr(mod, j["func"])(Deaf(m, 25 if tier == "quick" else 400,
                                     j["name"] + ":"), **j["args"])
        m.count("workloads of other checks")
    m.ok("ended without a report", True)


def json_over():
    d = os.path.basename(os.environ["GPRMON_SO"])
    for c, o in CONF.items():
        k = "asan" + "".join(f"-{a}{b}" for a, b in sorted(o.items()))
        if k == d:
            return o
    raise RuntimeError(d)


def sims(m, n, part=0):
    for k, g in m.cases(f"sim{part}", n):
        s = scen.scenario(g, hostile=k % 2 == 0, mn=3 if N < 4 else N)
        m.desc(s.u, scenario=str(s))
        if s.trivial:
            m.trivial()
            continue
        omp(s.threads)
        tr = s.run(contorted_tol=float(g.choice([1e300, 1e-3])))
        m.ok("ended without a report", True)
        m.count("steps", len(tr.dt))
        m.count("runs that became NaN", tr.final is not None and
                not np.isfinite(tr.final).all())
