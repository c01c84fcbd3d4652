"""States and short runs for the demonstration."""
import contextlib
import io
import os
import sys
R = os.getcwd()
if not os.path.exists(R + "/_build/GPRpy.so"):
    R = "/repo"
sys.path.insert(0, R + "/_build")
import numpy as np
import GPRpy
S = GPRpy.system
V = S.variables
SO = GPRpy.solvers
NV = GPRpy.options.NV()
LSET = GPRpy.options.LSET()
OK = []


def mat(eos="sg", **k):
    M = GPRpy.classes.Par()
    M.EOS = dict(vac=-1, sg=0, smg=1, jwl=2, cc=3, gr=4)[eos]
    M.REACTION = -1
    M.δp = np.zeros(3)
    M.SOLID = M.POWER_LAW = M.BINGHAM = M.MULTI = False
    M.n = 1.
    for a, b in dict(dict(ρ0=1., cv=2.5, γ=1.4, pINF=0., b02=1., μ=1e-2,
                          cα2=4., κ=.05), **k).items():
        setattr(M, a, b)
    return M


def gas(**k):
    return mat("sg", **k)


def copper(**k):
    return mat("smg", **dict(dict(
        ρ0=8.93, cv=4e-4, Γ0=2., c02=15., s=1.48, b02=4.6, σY=.009, τ0=1.,
        n=10., SOLID=True, POWER_LAW=True), **k))


def steel(**k):
    return mat("smg", **dict(dict(ρ0=7.86, cv=4.8e-4, Γ0=1.7, c02=21., s=1.275,
                                  b02=10., SOLID=True), **k))


def eint_of(M, r, p):
    """By inverting the code's own pressure, which is linear in the energy."""
    P = M
    q = np.zeros(NV)
    q[0] = r
    q[5:14] = (np.eye(3) * np.cbrt(r / M.ρ0)).ravel()
    q[1] = 0.
    a = V.pressure(q, M)
    q[1] = r
    b = V.pressure(q, M)
    return (p - a) / (b - a)


def dev(G):
    return G - np.trace(G) / 3 * np.eye(3)


def state(M, r, p, v=(0, 0, 0), A=None, ls=-1.):
    c = np.cbrt(r / M.ρ0)
    q = np.zeros(NV)
    if A is None:
        A = np.eye(3)
    A = A / np.cbrt(np.linalg.det(A)) * c
    q[0] = r
    q[5:14] = A.ravel()
    q[2:5] = r * np.array(v)
    q[1] = 0.
    p0 = V.pressure(q, M)
    q[1] = r
    p1 = V.pressure(q, M)
    q[1] = r * (p - p0) / (p1 - p0)
    if LSET:
        q[NV - LSET:] = ls
    return q


def run(u, tf, nX, dX, M, bcs=None, cfl=.5, split=True, half=True, stiff=False,
        flux=0, tol=1e300):
    Ms = M if isinstance(M, list) else [M] * (LSET + 1)
    u = np.ascontiguousarray(np.ravel(u), float).copy()
    if bcs is None:
        bcs = [0] * 2 * len(nX)
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        r = SO.iterator(u, tf, np.array(nX, np.int32), np.array(dX, float), cfl,
                        np.array(bcs, np.int32), split, half, stiff, flux, Ms,
                        tol)
    full = [x for x in r if np.size(x)]
    run.out = [float(x) for x in o.getvalue().split()]
    return full[-1].reshape(-1, NV)


def check(ok, what):
    OK.append(bool(ok))
    print("ok " if ok else "BAD", what)


def done():
    sys.exit(0 if all(OK) and OK else 1)
