"""What a workload reports to: cases tried, oracles asked, violations seen.

A worker process runs one job (one build of the module, one workload).  Every
case is journalled before it starts, so that a crash, an abort or a hang is
attributed to the case that caused it and can be replayed."""
import hashlib
import json
import math
import os
import time
import traceback

import numpy as np


class Stop(Exception):
    pass


class Mon:
    def __init__(self, prop, job, seed, tier, journal, only=None, max_key=3):
        self.prop, self.job, self.seed, self.tier = prop, job, seed, tier
        self.journal_path = journal
        self.only = only
        self.max_key = max_key
        self.evals = 0
        self.nontrivial = set()
        self.oracles = {}      # name -> times asked
        self.margins = {}      # name -> worst error / tolerance
        self.counts = {}
        self.violations = []
        self.nviol = {}
        self.samples = []
        self.cur = None
        self._sample = None
        self.notes = []
        self.t0 = time.time()
        self.budget = math.inf      # seconds

    # ---- cases
    def cases(self, tag, n):
        """Yields (index, generator); n may be a number or a list of items."""
        items = range(n) if isinstance(n, int) else n
        for i, it in enumerate(items):
            if self.only and (tag, i) != tuple(self.only):
                continue
            if not self.only and time.time() - self.t0 > self.budget:
                self.count("cases left out, time was up")
                continue
            self.cur = (tag, i)
            self._sample = None
            self._digest = None
            self._trivial = False
            self._journal()
            s = hashlib.sha256(
                f"{self.prop}/{self.job}/{tag}/{i}/{self.seed}".encode())
            g = np.random.default_rng(int.from_bytes(s.digest()[:8], "big"))
            self.evals += 1
            nv = len(self.violations)
            try:
                yield (it, g)
            finally:
                self._close()
        self.cur = None

    def _close(self):
        if self._trivial:
            return
        dig = self._digest if self._digest is not None else \
            f"{self.job}/{self.cur}"
        self.nontrivial.add(dig)
        if self._sample is not None and (
                len(self.samples) < 3 or (len(self.samples) < 8
                                          and self.evals % 37 == 0)):
            self.samples.append(self._sample)

    def _journal(self):
        with open(self.journal_path, "w") as f:
            json.dump({"tag": self.cur[0], "index": self.cur[1],
                       "t": time.time()}, f)

    def desc(self, *arrays, **info):
        """Describes the current case (for evidence and for deduplication)."""
        h = hashlib.sha256(repr(sorted(info.items(), key=str)).encode())
        for a in arrays:
            h.update(np.ascontiguousarray(a).tobytes())
        self._digest = h.hexdigest()[:16]
        s = {"case": f"{self.cur[0]}#{self.cur[1]}"}
        for k, v in info.items():
            s[k] = v if isinstance(v, (int, float, str, bool)) else str(v)
        if arrays:
            a = np.ravel(arrays[0])[:8]
            s["first_values"] = [float(x) for x in a.astype(float)]
        self._sample = s

    def trivial(self):
        self._trivial = True

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def most(self, name, x):
        self.counts[name] = max(self.counts.get(name, -math.inf), float(x))

    # ---- oracles
    def ok(self, oracle, cond, detail="", key=None):
        self.oracles[oracle] = self.oracles.get(oracle, 0) + 1
        if bool(cond):
            return True
        self.violate(key or oracle, detail)
        return False

    def close(self, oracle, got, want, tol, scale=None, key=None, ctx=""):
        """|got - want| <= tol * scale, elementwise scale allowed."""
        got = np.asarray(got)
        want = np.asarray(want)
        self.oracles[oracle] = self.oracles.get(oracle, 0) + 1
        if got.shape != want.shape and want.shape != ():
            self.violate(key or oracle, f"{ctx} shape {got.shape} instead of "
                         f"{want.shape}")
            return False
        if scale is None:
            scale = max(float(np.max(np.abs(want), initial=0.)), 1e-300)
        lim = np.broadcast_to(tol * np.asarray(scale, float), got.shape)
        bad = ~np.isfinite(got) if not np.iscomplexobj(got) else \
            ~np.isfinite(np.abs(got))
        both = np.isnan(got) & np.isnan(want) if want.shape else bad & False
        with np.errstate(all="ignore"):
            err = np.abs(got - want)
            rat = np.where(lim > 0, err / np.where(lim > 0, lim, 1),
                           np.where(err > 0, np.inf, 0.))
        rat = np.where(both, 0., np.where(bad, np.inf, rat))
        r = float(np.max(rat, initial=0.))
        if r > self.margins.get(oracle, -1):
            self.margins[oracle] = r
        if not r <= 1:
            k = np.unravel_index(np.argmax(np.nan_to_num(rat, nan=np.inf,
                                                         posinf=1e300)),
                                 rat.shape) if rat.shape else ()
            self.violate(key or oracle,
                         f"{ctx} at {tuple(int(a) for a in k)}: got "
                         f"{got[k]!r}, expected "
                         f"{(want[k] if want.shape else want)!r}, "
                         f"allowed {float(lim[k]) if lim.shape else float(lim):.3g}")
            return False
        return True

    def violate(self, key, detail=""):
        n = self.nviol.get(key, 0) + 1
        self.nviol[key] = n
        if n <= self.max_key:
            self.violations.append(dict(
                key=key, detail=str(detail)[:1500],
                case=list(self.cur) if self.cur else None))

    def result(self):
        return dict(job=self.job, evals=self.evals,
                    nontrivial=sorted(self.nontrivial),
                    oracles=self.oracles, margins=self.margins,
                    counts=self.counts, violations=self.violations,
                    nviol=self.nviol, samples=self.samples,
                    notes=self.notes, wall=time.time() - self.t0)
