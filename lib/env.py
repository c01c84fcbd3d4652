"""What every check module imports.  Inside a worker it also offers the module
under test; in the runner only the configurations."""
import os

# the project's own option sets, as used by its test problems
CONF = {
    "default": {},                                   # 2 level sets, V=16
    "bare": dict(LSET=0),                            # V=14
    "thermal": dict(THERMAL="true", LSET=0),         # V=17
    "multi": dict(MULTI="true", LSET=0),             # V=15
    "lset1": dict(LSET=1),                           # V=15
    "thermal1": dict(THERMAL="true", LSET=1),        # V=18
    "multi3": dict(MULTI="true", LSET=3),            # V=18
    "thermulti": dict(THERMAL="true", MULTI="true", LSET=1),
    "prim": dict(THERMAL="true", MULTI="true", LSET=1,
                 PRIM_RECONSTRUCT="true"),
    "primdef": dict(PRIM_RECONSTRUCT="true"),
    "n3": dict(LSET=0, N=3),
    "n4": dict(LSET=0, N=4),
    "n1": dict(LSET=0, N=1),
    "n3d": dict(N=3),
    "corners": dict(LSET=0, NO_CORNERS="false"),
    "corners_t": dict(LSET=0, NO_CORNERS="false", THERMAL="true"),
    "corners_n3": dict(LSET=0, NO_CORNERS="false", N=3),
    "stick": dict(RIEMANN_STICK="true"),
    "stick_t": dict(RIEMANN_STICK="true", THERMAL="true", LSET=1),
    "rot": dict(LSET=0, ROTATE_DISTORTION="true"),
    "rot_t": dict(LSET=0, ROTATE_DISTORTION="true", THERMAL="true"),
    "destress": dict(LSET=0, DESTRESS="true"),
    "tm0": dict(THERMAL="true", MULTI="true", LSET=0),
}

WORKER = bool(os.environ.get("GPRMON_SO"))
if WORKER:
    from gm import *          # noqa: F401,F403
    from gm import GPRpy, np, NV, N, THERMAL, MULTI, LSET, omp  # noqa: F401
    import mats               # noqa: F401
    import spec               # noqa: F401
    from spec import MV       # noqa: F401
    MVI = MV

    S = GPRpy.system
    SV = GPRpy.system.variables
    SO = GPRpy.solvers
    VV = GPRpy.VectorVec
    VB = GPRpy.VectorbVec

    def i32(*a):
        return np.array(a, dtype=np.int32)

    def materials():
        """The materials that make sense in this configuration."""
        return mats.ALL + ["bingham"]

    def qscale(Q, M):
        """A magnitude for every conserved variable of a state."""
        r, rE = Q[0], abs(Q[1])
        s = np.ones(NV)
        s[0] = r
        # the energy scale includes the compressive and elastic moduli
        en = max(rE, r * M.b02, r * M.c02 if M.EOS in (1, 4) else 0.,
                 abs(M.pINF) if M.EOS == 0 else 0.)
        s[1] = en
        s[2:5] = np.sqrt(en * r)
        if THERMAL:
            s[14:17] = np.sqrt(en * r / max(M.cα2, 1e-300)) \
                if M.cα2 else 1.
        if MULTI:
            s[MVI] = r
        if LSET:
            s[NV - LSET:] = max(1e-3, float(np.max(np.abs(Q[NV - LSET:]),
                                                   initial=0)))
        return s


def jobs_for(confs, func="work", variant="plain", parts=1, name=None, **kw):
    out = []
    for c in confs:
        for k in range(parts):
            n = f"{name or func}/{c}" + (f"@{k}" if parts > 1 else "")
            if variant != "plain":
                n = f"{variant}:" + n
            a = dict(kw.get("args", {}))
            if parts > 1:
                a["part"] = k
            out.append(dict(name=n, func=func, variant=variant, over=CONF[c],
                            args=a, **{x: y for x, y in kw.items()
                                       if x != "args"}))
    return out
