"""Random whole simulations over everything the solver offers."""
import importlib.util
from env import *
import sim
import work

ELASTIC = ["cu_gr", "steel_el", "c4_el", "cu_nd"]


def load(name):
    from importlib import util
    sp = util.spec_from_file_location(
        name, os.path.dirname(os.path.abspath(__file__))
        + f"/../checks/{name}.py")
    mod = util.module_from_spec(sp)
    sp.loader.exec_module(mod)
    return mod


_c18 = None
_c06 = None


class Scen:
    def run(self, **kw):
        a = dict(cfl=self.cfl, bcs=self.bcs, **self.opt)
        a.update(kw)
        return sim.run(self.u, self.tf, self.nX, self.dX, self.Ms, **a)

    def __str__(self):
        return (f"{self.names} {self.nX} {self.kind} bcs={self.bcs} "
                f"{self.opt} cfl={self.cfl:.3g}")


def scenario(g, ndim=None, steps=None, mild=False, hostile=False, mn=None,
             single=None):
    """mild: data for which the scheme is well behaved (comparisons);
    hostile: anything that is a state."""
    global _c18, _c06
    _c18 = _c18 or load("c18")
    _c06 = _c06 or load("c06")
    s = Scen()
    ndim = ndim or 1 + int(g.random() < .5)
    s.steps = steps or int(g.integers(1, 6))
    lo = mn or max(3, N)
    s.nX = [int(x) for x in g.integers(lo, 16 if ndim == 1 else 8, ndim)]
    h = float(10 ** g.uniform(-2, 1))
    s.dX = [h] * ndim
    multi = LSET > 0 and (g.random() < .6 if single is None else not single)
    elastic = g.random() < .3
    pool = ELASTIC if elastic else work.ANY
    nmat = LSET + 1
    s.names = [str(g.choice(pool)) for _ in range(nmat)]
    if multi and g.random() < .3:
        s.names[int(g.integers(nmat))] = "vac"
        if all(x == "vac" for x in s.names):
            s.names[0] = pool[0]
    if not multi:
        s.names = s.names[:1] * nmat
        s.dX = list(h * 10 ** g.uniform(-.3, .3, ndim)) if not LSET else s.dX
    s.Ms = [mats.mat(x) for x in s.names]
    if not multi:
        s.Ms = [s.Ms[0]] * nmat
    if MULTI and not multi and g.random() < .6:
        M, _ = _c06.reactive(s.Ms[0], s.names[0], g)
        s.Ms = [M] * nmat
    s.kind = str(g.choice(["smooth", "rough", "blocks", "uniform"]))
    amp = float(g.choice([.02, .1, .3])) if not hostile else \
        float(g.choice([.1, .5, 1.5]))
    ls = _c18.layout(g, s.nX, np.array(s.dX), LSET) if LSET else None
    if LSET and not multi and g.random() < .5:
        ls = -np.ones_like(ls) * h * 50
    ths = [work.thetas(g, s.nX, s.kind, amp) for _ in range(nmat)]
    u = np.zeros(tuple(s.nX) + (NV,))
    for i in np.ndindex(*s.nX):
        k = int((ls[i] >= 0).sum()) if LSET else 0
        if s.names[k] != "vac":
            P = work.prim_of(np.clip(ths[k if multi else 0][i], -2, 2),
                             s.names[k], s.Ms[k], vel=.3)
            if LSET:
                P.ls = ls[i]
            u[i] = spec.cons(P, s.Ms[k])
        if LSET:
            u[i][NV - LSET:] = ls[i]
    s.u = u.reshape(-1, NV)
    k = (s.u[:, NV - LSET:] >= 0).sum(1) if LSET else np.zeros(len(s.u), int)
    s.mi = k
    s.present = sorted(set(int(x) for x in k))
    s.cfl = float(g.uniform(.1, .6))
    dts = [work.dt_est(s.u[k == j], s.dX, s.Ms[j], s.cfl) for j in s.present
           if s.Ms[j].EOS > -1]
    s.trivial = not dts
    s.tf = min(dts, default=1.) * .2 * s.steps
    solid = all(M.EOS == -1 or M.SOLID and not M.POWER_LAW for M in s.Ms)
    slow = solid and not THERMAL
    o = dict(split=True if not slow else bool(g.random() < .4),
             half=bool(g.random() < .7), stiff=False,
             flux=int(g.choice([0, 0, 1, 2])))
    if not o["split"] and not multi and g.random() < .3:
        o["stiff"] = True
    if hostile and not multi and g.random() < .1 and len(s.u) < 9:
        # does not converge, and takes minutes for fast relaxation
        o.update(split=False, stiff=True)
        s.tf *= 1 / s.steps
    s.opt = o
    s.bcs = []
    for d in range(ndim):
        if g.random() < .35:
            s.bcs += [1, 1]
        else:
            s.bcs += [int(g.choice([0, 2, 3, 4, 5])) for _ in range(2)]
    if mild:
        s.bcs = [b if b < 2 else 0 for b in s.bcs]
    s.threads = int(g.integers(1, 5))
    return s
