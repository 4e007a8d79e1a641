"""Shared pieces of the drivers: small lattices, machine snapshots, comparison, caller-argument guards."""
import copy

import numpy as np
from mc import env  # noqa: F401  (closes the environment first)
import at
from mc.core import Violation

E0 = 2.5e9
NAN = float("nan")


# ------------------------------------------------------------------ values
def frozen(v):
    """Independent copy of an attribute value."""
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, dict):
        return {k: frozen(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [frozen(x) for x in v]
    return v


def is_num(v):
    return isinstance(v, (int, float, np.ndarray, np.integer, np.floating, bool, np.bool_)) or (
        isinstance(v, (list, tuple)) and all(is_num(x) for x in v))


def same(a, b, rtol=1e-11, atol=1e-15):
    """Equality of attribute values up to floating-point rounding (shape-exact, NaN equals NaN)."""
    if a is b:
        return True
    if isinstance(a, dict) or isinstance(b, dict):
        return (isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b)
                and all(same(a[k], b[k], rtol, atol) for k in a))
    if is_num(a) and is_num(b):
        try:
            x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        except (ValueError, TypeError):
            return (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b)
                    and all(same(p, q, rtol, atol) for p, q in zip(a, b)))
        if x.shape != y.shape:
            return x.size == 1 and y.size == 1 and x.ndim <= 1 and y.ndim <= 1 and same(x.ravel()[0], y.ravel()[0], rtol, atol)
        if x.ndim == 0:
            x, y = float(x), float(y)
            return x == y or (x != x and y != y) or abs(x - y) <= atol + rtol * max(abs(x), abs(y))
        if np.array_equal(x, y):
            return True
        with np.errstate(invalid="ignore"):
            return bool(np.allclose(x, y, rtol=rtol, atol=atol, equal_nan=True))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(p, q, rtol, atol) for p, q in zip(a, b))
    try:
        return bool(a == b)
    except Exception:  # noqa
        return False


def close(a, b, rtol=1e-9, atol=1e-13):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def need(cond, msg, key=None):
    if not cond:
        raise Violation(msg, key)


def need_close(got, want, what, rtol=1e-9, atol=1e-13, key=None):
    g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if g.shape != w.shape:
        raise Violation(f"{what}: shape {g.shape}, expected {w.shape}", key)
    if not np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True):
        raise Violation(f"{what}: got {g.tolist()}, expected {w.tolist()}", key)


def show(v):
    return repr(v.tolist() if isinstance(v, np.ndarray) else v)[:300]


# ------------------------------------------------------------------ snapshots
def lattice_items(prefix, lat, out, only=None):
    for i in (range(len(lat)) if only is None else only):
        e = lat[i]
        out[(prefix, i, "class")] = type(e).__name__
        for k, v in vars(e).items():
            if not k.startswith("_"):
                out[(prefix, i, k)] = v


INJ_FIELDS = ("beamLostAt", "Z0ideal", "Z0", "beamSize", "randomInjectionZ", "staticInjectionZ", "nParticles", "nTurns",
              "nShots", "trackMode", "postFun")


def live(SC, ideal=True):
    """Flat live view (no copies) of everything a user can see in the machine."""
    out = {}
    lattice_items("RING", SC.RING, out)
    out[("RING", "len")] = len(SC.RING)
    if ideal:
        lattice_items("IDEALRING", SC.IDEALRING, out)
        out[("IDEALRING", "len")] = len(SC.IDEALRING)
    for k in INJ_FIELDS:
        out[("INJ", k)] = getattr(SC.INJ, k)
    for k in SC.SIG:
        out[("SIG", k)] = SC.SIG[k]
    for k in SC.ORD:
        out[("ORD", k)] = SC.ORD[k]
    out[("plot",)] = SC.plot
    return out


def snap(SC, ideal=True):
    out = live(SC, ideal)
    return {k: frozen(v) if not callable(v) else v for k, v in out.items()}


def snap_lattice(lat):
    out = {}
    lattice_items("LATTICE", lat, out)
    out["len"] = len(lat)
    return {k: frozen(v) for k, v in out.items()}


def differences(got, want, ignore=(), rtol=1e-11, atol=1e-15, limit=6):
    """got: live or frozen snapshot; want: expected snapshot; ignore: set of keys or predicate."""
    ign = ignore if callable(ignore) else (lambda k: k in ignore)
    bad = []
    for k, w in want.items():
        if k in got:
            if not same(got[k], w, rtol, atol) and not ign(k):
                bad.append(f"{k}: is {show(got[k])}, expected {show(w)}")
        elif not ign(k):
            bad.append(f"{k}: missing, expected {show(w)}")
        if len(bad) >= limit:
            return bad
    if len(got) != len(want) or any(k not in want for k in got):
        for k in got:
            if k not in want and not ign(k):
                bad.append(f"{k}: unexpected value {show(got[k])}")
    return bad[:limit]


def need_state(SC, want, what, ignore=(), **kw):
    bad = differences(live(SC), want, ignore, **kw)
    if bad:
        raise Violation(f"{what}: " + " | ".join(bad))


def need_lattice(lat, want, what, **kw):
    out = {}
    lattice_items("LATTICE", lat, out)
    out["len"] = len(lat)
    bad = differences(out, want, **kw)
    if bad:
        raise Violation(f"{what}: " + " | ".join(bad))


def rounded(v):
    if isinstance(v, dict):
        return tuple(sorted((str(k), rounded(x)) for k, x in v.items()))
    if is_num(v):
        try:
            a = np.asarray(v, dtype=float)
        except (ValueError, TypeError):
            return tuple(rounded(x) for x in v)
        return (a.shape,) + tuple(float("%.9g" % x) + 0.0 for x in a.ravel())
    if isinstance(v, (list, tuple)):
        return tuple(rounded(x) for x in v)
    return str(v) if not callable(v) else "fun"


def canon(flat, keys=None):
    from mc.core import digest
    return digest(tuple((k, rounded(v)) for k, v in sorted(flat.items(), key=lambda kv: str(kv[0]))
                        if keys is None or keys(k)))


# ------------------------------------------------------------------ calls
def _copy_arg(a):
    if isinstance(a, (at.Lattice,)):
        return snap_lattice(a)
    if isinstance(a, (np.ndarray, list, tuple, dict)):
        return copy.deepcopy(a)
    return None


def _check_arg(a, c, what):
    if c is None:
        return
    if isinstance(a, at.Lattice):
        need_lattice(a, c, what + ": lattice given by the caller was modified", rtol=0, atol=0)
        return
    ok = True
    if isinstance(a, np.ndarray):
        ok = a.shape == c.shape and a.dtype == c.dtype and (np.array_equal(a, c, equal_nan=a.dtype.kind == "f"))
    else:
        ok = same(a, c, 0, 0) if not isinstance(a, dict) else repr(a) == repr(c)
    if not ok:
        raise Violation(f"{what}: argument of the caller was modified: is {show(a)}, was {show(c)}")


def call(fn, *args, **kw):
    """Calls fn and verifies that arrays/lattices handed in by the caller come back as they were."""
    ca = [_copy_arg(a) for a in args]
    ck = {k: _copy_arg(v) for k, v in kw.items()}
    name = getattr(fn, "__name__", "call")
    try:
        return fn(*args, **kw)
    finally:
        for a, c in zip(args, ca):
            _check_arg(a, c, name)
        for k in kw:
            _check_arg(kw[k], ck[k], f"{name}({k})")


def rejects(fn, *args, what="", exc=Exception, **kw):
    """The call must raise; returns the exception."""
    try:
        call(fn, *args, **kw)
    except Violation:
        raise
    except exc as e:
        return e
    except Exception as e:  # noqa
        raise Violation(f"{what}: expected {exc}, got {type(e).__name__}: {e}")
    raise Violation(f"{what}: invalid request was accepted by {getattr(fn, '__name__', 'call')}")


# ------------------------------------------------------------------ lattices
def corrector(name, kick=(0.0, 0.0), length=0.0):
    return at.Corrector(name, length, np.array(kick, dtype=float), PassMethod="CorrectorPass",
                        PolynomA=[float(kick[1])], PolynomB=[float(kick[0])])


def ring_of(elements, name="r"):
    """Lattice without at's own reordering/copying surprises."""
    return at.Lattice(elements, name=name, energy=E0, periodicity=1)


_cache = {}


def cached(fn):
    def get(*a):
        k = (fn.__name__,) + a
        if k not in _cache:
            _cache[k] = fn(*a)
        lat = _cache[k]
        new = lat.deepcopy()
        for i, e in enumerate(lat):
            new[i] = e.deepcopy()
        return new
    get.__name__ = fn.__name__
    return get


@cached
def small_ring():
    """One magnet of every kind, two BPMs, two cavities; 18 elements."""
    return ring_of([
        at.RFCavity("CAVA", 0.0, 1.0e6, 5.0e8, 31, E0, PassMethod="RFCavityPass", TimeLag=0.1),        # 0
        at.Drift("D0", 0.4),                                                                           # 1
        at.Quadrupole("QF", 0.5, 1.2),                                                                 # 2
        at.Monitor("BPM"),                                                                             # 3
        at.Drift("D1", 0.3),                                                                           # 4
        at.Bend("BCF", 1.0, 0.2, k=-0.6, PassMethod="BndMPoleSymplectic4Pass"),                        # 5
        at.Drift("D2", 0.2),                                                                           # 6
        at.Sextupole("SF", 0.25, 6.0, PassMethod="StrMPoleSymplectic4Pass"),                           # 7
        corrector("CM"),                                                                               # 8
        at.Drift("D3", 0.35),                                                                          # 9
        at.Bend("BM", 0.6, 0.15, PassMethod="BndMPoleSymplectic4Pass"),                                # 10 master
        at.Bend("BC", 0.3, 0.05, PassMethod="BndMPoleSymplectic4Pass"),                                # 11 child
        at.Monitor("BPM"),                                                                             # 12
        at.RFCavity("CAVB", 0.0, 5.0e5, 5.0e8, 31, E0, PassMethod="RFCavityPass", TimeLag=-0.2),        # 13
        at.Drift("D4", 0.45),                                                                          # 14
        at.Quadrupole("QD", 0.4, -1.1),                                                                # 15
        at.Monitor("BPM"),                                                                             # 16
        at.Drift("D5", 0.15),                                                                          # 17
    ])


class Machine:
    """Real machine + expected flat state, advanced together."""

    def __init__(self, ring=None):
        from pySC.core.simulated_commissioning import SimulatedCommissioning
        if ring is None:    # one shared design lattice; every machine copies it (C12 decides that it really does)
            small_ring()
            ring = _cache[("small_ring",)]
        self.sc = SimulatedCommissioning(ring)
        self.m = snap(self.sc)
        self.check = True

    def verify(self, what, ignore=(), **kw):
        if self.check:
            need_state(self.sc, self.m, what, ignore, **kw)

    def sync(self):
        """Take the real state as expected state (after it has been verified by other means)."""
        self.m = snap(self.sc)

    # model helpers
    def get(self, i, k, default=None):
        return self.m.get(("RING", i, k), default)

    def put(self, i, k, v):
        self.m[("RING", i, k)] = v

    def canon(self):
        return canon(self.m)


@cached
def fodo(cells=4, thick_bpm=False):
    """Stable ring: per cell QF BPM CM D SF B QD BPM CM D SD B; one cavity at the end (switched off)."""
    els = []
    for c in range(cells):
        els += [at.Quadrupole("QF", 0.4, 1.15), at.Monitor("BPM"), corrector("CM"), at.Drift("D", 0.5), at.Sextupole("SF", 0.2, 4.0), at.Drift("D", 0.3),
                at.Bend("B", 1.0, 0.2, PassMethod="BndMPoleSymplectic4Pass"), at.Drift("D", 0.3),
                at.Quadrupole("QD", 0.4, -1.15), at.Monitor("BPM"), corrector("CM"), at.Drift("D", 0.5), at.Sextupole("SD", 0.2, -6.0), at.Drift("D", 0.3),
                at.Bend("B", 1.0, 0.2, PassMethod="BndMPoleSymplectic4Pass"), at.Drift("D", 0.3)]
    els += [at.RFCavity("CAV", 0.0, 1.0e6, 5.0e8, 31, E0, PassMethod="IdentityPass", TimeLag=0.1), at.Marker("END", PassMethod="IdentityPass")]
    r = ring_of(els, "fodo")
    circ = float(np.sum([getattr(e, "Length", 0.0) for e in els]))
    h = 5
    els[-2].HarmNumber, els[-2].Frequency = h, h * 299792458.0 / circ
    return r
