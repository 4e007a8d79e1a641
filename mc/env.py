"""Closes the environment of pySC.  Import this before anything from pySC.

Every source of nondeterminism that pySC has is reached through the three external seams below, and each is replaced
by a dispatcher BEFORE pySC is imported, so that it does not matter how pySC imports or calls it:

* the random generators of ``numpy.random``               -> ``rng`` (a stream of standard-normal numbers)
* ``at.lattice_track`` / ``at.lattice_pass`` (tracking)    -> ``tracker``
* ``at.find_orbit6`` (closed orbit)                        -> ``orbiter``

With no handler installed the dispatchers call the originals.
"""
import atexit
import os
import shutil
import sys
import tempfile

REPO = os.environ.get("MC_REPO", "/repo")
for _k, _v in dict(PYTHONHASHSEED="0", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
                   MKL_NUM_THREADS="1").items():
    os.environ[_k] = _v
_mpl = tempfile.mkdtemp(prefix="mcmpl")
_main_pid = os.getpid()
os.environ["MPLCONFIGDIR"] = _mpl
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)


@atexit.register
def _clean():
    if os.getpid() == _main_pid:
        shutil.rmtree(_mpl, ignore_errors=True)


import logging
import warnings

import numpy as np
import at
import at.tracking

warnings.filterwarnings("ignore")


class NotModelled(Exception):
    """The code under test asked the environment something the current driver does not define."""


class Rng:
    """Dispatcher for random numbers. ``source(n)`` must return n standard-normal numbers; None -> real generator."""

    def __init__(self):
        self.source = None
        self.log = []
        self._real = {k: getattr(np.random, k) for k in
                      ("randn", "standard_normal", "normal", "rand", "random", "uniform", "default_rng", "seed",
                       "random_sample", "randint", "choice", "permutation", "shuffle")}
        self._gen = None

    def draw(self, size):
        shape = () if size is None else ((int(size),) if np.ndim(size) == 0 else tuple(int(i) for i in size))
        n = int(np.prod(shape)) if shape else 1
        vals = np.array(self.source(n), dtype=float)
        if vals.shape != (n,):
            raise NotModelled("random source returned a wrong number of values")
        self.log.extend(vals.tolist())
        return float(vals[0]) if shape == () else vals.reshape(shape)

    # --- replacements
    def randn(self, *shape):
        if self.source is None:
            return self._real["randn"](*shape)
        return self.draw(shape if shape else None)

    def standard_normal(self, size=None, *a, **k):
        if self.source is None:
            return self._real["standard_normal"](size, *a, **k)
        return self.draw(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if self.source is None:
            return self._real["normal"](loc, scale, size)
        if size is None:
            size = np.broadcast(np.asarray(loc), np.asarray(scale)).shape or None
        return np.asarray(loc) + np.asarray(scale) * self.draw(size)

    def other(self, name):
        def call(*a, **k):
            if self.source is None:
                return self._real[name](*a, **k)
            raise NotModelled(f"np.random.{name}")
        return call

    def default_rng(self, *a, **k):
        if self.source is None:
            return self._real["default_rng"](*a, **k)
        return self


class Seam:
    def __init__(self, real):
        self.real = real
        self.handler = None
        self.calls = 0


rng = Rng()
np.random.randn = rng.randn
np.random.standard_normal = rng.standard_normal
np.random.normal = rng.normal
np.random.default_rng = rng.default_rng
for _n in ("rand", "random", "uniform", "random_sample", "randint", "choice", "permutation", "shuffle"):
    setattr(np.random, _n, rng.other(_n))

tracker = Seam(at.lattice_track)
orbiter = Seam(at.find_orbit6)


def _refs(lattice, refpts):
    n = len(lattice)
    if refpts is None:
        return np.array([], dtype=int)
    r = np.asarray(refpts)
    if r.dtype == bool:
        return np.nonzero(r)[0]
    return np.array([i if i >= 0 else i + n for i in np.ravel(r)], dtype=int)


def _lattice_track(lattice, r_in, nturns=1, refpts=None, in_place=False, **kw):
    tracker.calls += 1
    kw.pop("use_mp", None)
    if tracker.handler is None:
        if refpts is not None:
            kw["refpts"] = refpts
        return tracker.real(lattice=lattice, r_in=r_in, nturns=nturns, in_place=in_place, **kw)
    if refpts is None:
        refpts = [len(lattice)]
    out = tracker.handler(lattice, np.array(r_in, copy=True), int(nturns), _refs(lattice, refpts))
    return out, {}, {}


def _lattice_pass(lattice, r_in, nturns=1, refpts=None, **kw):
    return _lattice_track(lattice, r_in, nturns, refpts, **kw)[0]


def _find_orbit6(ring, refpts=None, *a, **kw):
    orbiter.calls += 1
    if orbiter.handler is None:
        return orbiter.real(ring, refpts, *a, **kw)
    return orbiter.handler(ring, _refs(ring, refpts))


at.lattice_track = _lattice_track
at.lattice_pass = _lattice_pass
at.find_orbit6 = _find_orbit6


class seams:
    """Context manager installing handlers for one execution."""

    def __init__(self, rng_source=None, track=None, orbit=None):
        self.new = (rng_source, track, orbit)

    def __enter__(self):
        self.old = (rng.source, tracker.handler, orbiter.handler)
        if self.new[0] is not None:
            rng.source = self.new[0]
        if self.new[1] is not None:
            tracker.handler = self.new[1]
        if self.new[2] is not None:
            orbiter.handler = self.new[2]
        rng.log = []
        return self

    def __exit__(self, *exc):
        rng.source, tracker.handler, orbiter.handler = self.old
        return False


def zeros_source(n):
    return np.zeros(n)


def load_pysc():
    """Import pySC with logging silenced (log records are still created and formatted, so that formatting errors
    in the code under test are not hidden)."""
    import pySC  # noqa: F401
    assert os.path.realpath(pySC.__file__).startswith(os.path.realpath(REPO) + os.sep), pySC.__file__

    class Sink(logging.Handler):
        def emit(self, record):
            pass
    lg = logging.getLogger("pySC")
    for h in list(lg.handlers):
        lg.removeHandler(h)
    lg.addHandler(Sink())
    lg.propagate = False
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    root.addHandler(Sink())
    return pySC
