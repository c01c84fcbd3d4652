"""Whole simulations, observed at every step.

The solver prints each time step from inside its loop, and the solution array
lives in the caller's memory: the monitor is therefore called after every step,
with the step and the state, without any change to the solver."""
import contextlib
import sys

from gm import GPRpy, np, NV


class Trace:
    """t[k], dt[k]: time and length of step k; u[k]: the state after it, with
    u[-1] of the start kept as u0; snaps: what the solver returned."""


class TooMany(Exception):
    """The run takes more steps than it was allowed."""


class _Tap:
    def __init__(self, u, keep, cb, most):
        self.u, self.keep, self.cb, self.most = u, keep, cb, most
        self.nums = []
        self.states = []
        self.buf = ""

    def write(self, s):
        self.buf += s
        while "\n" in self.buf:
            line, self.buf = self.buf.split("\n", 1)
            if line.strip():
                try:
                    self.nums.append(float(line))
                except ValueError:
                    continue
                if len(self.nums) % 2 == 0:
                    if self.keep:
                        self.states.append(self.u.copy())
                    if self.most and len(self.nums) > 2 * self.most:
                        raise TooMany(str(self.nums[-1]))
                    if self.cb:
                        self.cb(self.nums[-1], self.u)
        return len(s)

    def flush(self):
        pass


def run(u, tf, nX, dX, MPs, bcs=None, cfl=0.8, split=True, half=True,
        stiff=False, flux=1, contorted_tol=1e300, keep=True, cb=None,
        most=0):
    u = np.ascontiguousarray(np.ravel(u), dtype=float).copy()
    nX = np.array(nX, dtype=np.int32)
    dX = np.array(dX, dtype=float)
    if bcs is None:
        bcs = [0] * (2 * len(nX))
    bcs = np.array(bcs, dtype=np.int32)
    tr = Trace()
    tr.u0 = u.copy()
    tap = _Tap(u, keep, cb, most)
    with contextlib.redirect_stdout(tap):
        ret = GPRpy.solvers.iterator(u, tf, nX, dX, cfl, bcs, split, half,
                                     stiff, flux, MPs, contorted_tol)
    tr.snaps = ret
    tr.dt = np.array(tap.nums[1::2])
    tr.pct = np.array(tap.nums[0::2])
    tr.t = np.cumsum(tr.dt)
    tr.u = tap.states
    tr.nX = nX
    full = [r for r in ret if np.size(r)]
    tr.final = full[-1] if full else None
    tr.same = bool(keep and tr.u and tr.final is not None and np.array_equal(
        tr.u[-1], tr.final, equal_nan=True))
    if keep and not tr.same:
        tr.u = full     # the array is not shared: fall back to the snapshots
    return tr


def grid(f, nX):
    """An array from a function of the cell indices."""
    return np.concatenate([f(*i) for i in np.ndindex(*nX)])


def cells(u):
    return np.reshape(u, (-1, NV))
