"""Seams for the nondeterminism the engine owns: wall clock, monotonic clocks, pseudo-random numbers.

Must be imported before any aiok8s module, so that `from time import time` style imports see the seam as well.
"""
import logging
import os
import random
import sys
import time

EPOCH = 1_000_000.0
real_time = time.time
real_monotonic = time.monotonic
real_perf_counter = time.perf_counter

_env = None
REPO = os.environ.get("VERIF_REPO", "/repo")


def install(env):
    global _env
    _env = env


def uninstall():
    global _env
    _env = None


def _t():
    e = _env
    return real_time() if e is None else e.now


def _m():
    e = _env
    return real_monotonic() if e is None else e.now


def _tns():
    return int(_t() * 1e9)


def _mns():
    return int(_m() * 1e9)


class _Random(random.Random):
    def random(self):
        e = _env
        return 0.5 if e is None else e.random()

    def getrandbits(self, k):
        return int(self.random() * (1 << k))


def patch():
    if getattr(time, "_mc_patched", False):
        return
    time._mc_patched = True
    time.time = _t
    time.monotonic = _m
    time.perf_counter = _m
    time.time_ns = _tns
    time.monotonic_ns = _mns
    r = _Random()
    for name in (
        "random uniform triangular randint choice randrange sample shuffle choices normalvariate lognormvariate "
        "expovariate vonmisesvariate gammavariate gauss betavariate paretovariate weibullvariate getrandbits randbytes"
    ).split():
        setattr(random, name, getattr(r, name))
    logging.disable(logging.CRITICAL)
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent/mc-pycache"
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
