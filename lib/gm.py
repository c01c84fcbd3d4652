"""Loads the monitored module and offers materials and states to the workloads.

GPR_VARIANT names the build directory that holds GPRpy.so."""
import ctypes
import os
import sys

DIR = os.environ["GPRMON_SO"]
sys.path.insert(0, DIR)
sys.path.insert(1, os.environ.get("GPR_REPO", "/repo") + "/code/python")
sys.dont_write_bytecode = True

import matplotlib  # noqa: E402
matplotlib.use("Agg")
matplotlib.use = lambda *a, **k: None

import numpy as np  # noqa: E402
import GPRpy  # noqa: E402

assert os.path.dirname(GPRpy.__file__) == DIR, GPRpy.__file__
SHIM = ctypes.CDLL(GPRpy.__file__)

NV = GPRpy.options.NV()
N = GPRpy.options.N()
VISCOUS = GPRpy.options.VISCOUS()
THERMAL = GPRpy.options.THERMAL()
MULTI = GPRpy.options.MULTI()
LSET = GPRpy.options.LSET()


def omp(threads=1, mode=0, order=None, jitter=0, seed=1):
    SHIM.gprmon_set_threads(threads)
    SHIM.gprmon_set_mode(mode)
    SHIM.gprmon_set_jitter(jitter)
    SHIM.gprmon_set_seed(seed)
    if order is not None:
        a = (ctypes.c_int * len(order))(*order)
        SHIM.gprmon_set_order(a, len(order))
