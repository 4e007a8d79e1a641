"""All sequences of registrations (in every order, so that every partially registered machine occurs) followed by verification, and all single and
paired corruptions (field x registered element) and fishy circumstances of registered machines: which are rejected, which only warned about,
which accepted silently; the full machine is compared before and after every verification."""
import itertools
import logging

import numpy as np
from mc import lib
from mc.core import HistJob, TapeJob, Skip

A = np.array


class Warnings(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.got = []

    def emit(self, record):
        self.got.append(record.getMessage())


def verify(sc, reject, what, warn=None):
    """reject: verification must raise ValueError (True), must pass (False); warn: None, True, False"""
    before = lib.snap(sc)
    h = Warnings()
    lg = logging.getLogger()
    lg.addHandler(h)
    try:
        if reject:
            lib.rejects(sc.verify_structure, what=what, exc=ValueError)
        else:
            try:
                lib.need(sc.verify_structure() is None, f"{what}: verification returned something")
            except ValueError as e:
                raise lib.Violation(f"{what}: valid machine rejected: {e}")
    finally:
        lg.removeHandler(h)
    lib.need_state(sc, before, f"{what}: verification changed the machine", rtol=0, atol=0)
    if warn is not None and not reject:
        lib.need(bool(h.got) == warn, f"{what}: " + (f"unexpected warnings {h.got}" if h.got else "no warning"))


# ------------------------------------------------------------------ registrations in every order
def reg(fn):
    def op(s):
        fn(s.sc)
        verify(s.sc, s.bad(), f"machine registered so far {s.done}")
    return op


class Sys:
    def __init__(self):
        self.m = lib.Machine()
        self.sc = self.m.sc
        self.done = ""

    def bad(self):
        o = self.sc.ORD
        return len(o.Girder[0]) == 0 and (len(o.Plinth[0]) > 0 or len(o.Section[0]) > 0)


OPS = [
    ("bpms", lambda sc: sc.register_bpms(A([3, 12, 16]), Offset=A([1e-4, 1e-4]), Noise=A([1e-6, 1e-6]))),
    ("one bpm", lambda sc: sc.register_bpms(A([12]), Roll=1e-3)),
    ("quads", lambda sc: sc.register_magnets(A([2, 15]), HCM=1e-3, CalErrorB=A([0, 1e-3]), MagnetOffset=A([1e-4, 1e-4, 0]))),
    ("cms", lambda sc: sc.register_magnets(A([8]), HCM=1e-3, VCM=0.0, CalErrorB=1e-3)),
    ("sext", lambda sc: sc.register_magnets(A([7]), SkewQuad=0.1, MagnetRoll=A([1e-3, 0, 0]))),
    ("cf", lambda sc: sc.register_magnets(A([5]), CF=True, BendingAngle=1e-3)),
    ("split", lambda sc: sc.register_magnets(A([10]), MasterOf=A([[11]]), MagnetOffset=A([1e-4, 0, 0]))),
    ("cavities", lambda sc: sc.register_cavities(A([0, 13]), TimeLagOffset=1e-3, FrequencyOffset=1e2)),
    ("one cavity", lambda sc: sc.register_cavities(A([13]))),
    ("girders", lambda sc: sc.register_supports(A([[1, 9], [8, 16]]), "Girder", Offset=A([1e-4, 1e-4, 0]))),
    ("section", lambda sc: sc.register_supports(A([[1], [16]]), "Section", Offset=A([1e-4, 1e-4, 0]))),
    ("plinth", lambda sc: sc.register_supports(A([[1], [8]]), "Plinth", Roll=A([1e-4, 0, 0]))),
    ("update", lambda sc: (sc.update_magnets(), sc.update_cavities(), sc.update_supports())),
    ("set", lambda sc: sc.set_magnet_setpoints(sc.ORD.Magnet[:1], 0.9, False, 1 if len(sc.RING[sc.ORD.Magnet[0]].PolynomB) > 1 else 0, "rel") if len(sc.ORD.Magnet) else None),
    ("multipoles", lambda sc: sc.set_random_multipole_errors(A([2, 15]), A([[0, 0], [1e-4, 0], [0, 1e-3], [1e-2, 1e-2]]))
     if {2, 15} <= set(sc.ORD.Magnet.tolist()) else None),
    ("systematic", lambda sc: sc.set_systematic_multipole_errors(A([5]), A([[0, 0], [1, 0], [1e-3, 0]]), 1, False) if 5 in sc.ORD.Magnet else None),
]


def key(s):
    return lib.canon(lib.live(s.sc), keys=lambda k: k[0] != "IDEALRING")


# ------------------------------------------------------------------ corruptions
def machine(t_support=True):
    from pySC.core.simulated_commissioning import SimulatedCommissioning
    lib.small_ring()
    sc = SimulatedCommissioning(lib._cache[("small_ring",)])
    for name, fn in OPS[:12]:
        if name in ("one bpm", "one cavity", "section", "plinth", "girders"):
            continue
        if name == "cms":
            sc.register_magnets(A([8]), HCM=1e-3, VCM=1e-3, CalErrorB=1e-3)
            continue
        fn(sc)
    sc.register_magnets(A([2, 7]), VCM=1e-4)
    if t_support:
        for name in ("girders", "section", "plinth"):
            dict(OPS)[name](sc)
    sc.RING[4].EApertures = A([0.01, 0.01])
    # split magnet: the child's fields are a subset of the master's
    return sc


MAGS = (2, 5, 7, 8, 10, 15)


def resize(name, d):
    def fn(sc, i):
        v = np.asarray(getattr(sc.RING[i], name), dtype=float)
        if d < 0 and len(v) <= -d:
            raise Skip()
        try:
            setattr(sc.RING[i], name, np.concatenate((v, np.zeros(d))) if d > 0 else v[:d])
        except ValueError:      # AT itself refuses
            raise Skip()
    return fn


def offsets(na, nb):
    def fn(sc, i):
        sc.RING[i].PolynomAOffset, sc.RING[i].PolynomBOffset = np.zeros(na), np.zeros(nb)
    return fn


def both(*f):
    def fn(sc, i):
        for g in f:
            g(sc, i)
    return fn


# name -> (function, rejected)
CORRUPT = {"none": (lambda sc, i: None, False)}
for _n in ("PolynomA", "PolynomB", "SetPointA", "SetPointB", "CalErrorA", "CalErrorB"):
    for _d in (1, -1, 2):
        CORRUPT[f"{_n} {_d:+d}"] = (resize(_n, _d), True)
for _a, _b in (("PolynomA", "PolynomB"), ("SetPointA", "CalErrorA"), ("SetPointB", "CalErrorB")):
    for _d in (1, 2):
        CORRUPT[f"{_a} and {_b} {_d:+d}"] = (both(resize(_a, _d), resize(_b, _d)), False)
for _na, _nb in ((2, 3), (3, 2), (1, 4), (3, 3), (1, 1)):
    CORRUPT[f"offsets {_na} {_nb}"] = (offsets(_na, _nb), _na != _nb)


def unbend(sc, i):
    if not getattr(sc.RING[i], "CombinedFunction", False):
        raise Skip()
    if hasattr(sc.RING[i], "BendingAngle"):
        delattr(sc.RING[i], "BendingAngle")


CORRUPT["no bending angle"] = (unbend, True)


def inj(kind, shape):
    def fn(sc, i):
        if i != MAGS[0]:
            raise Skip()
        setattr(sc.INJ if kind == "beamSize" else sc.SIG, kind, np.zeros(shape))
    return fn


for _s, _bad in (((5, 6), True), ((6,), True), ((6, 6), False), ((1, 36), True)):
    CORRUPT[f"beamSize {_s}"] = (inj("beamSize", _s), _bad)
for _k in ("randomInjectionZ", "staticInjectionZ"):
    for _s, _bad in (((5,), True), ((7,), True), ((6, 1), True), ((6,), False)):
        CORRUPT[f"{_k} {_s}"] = (inj(_k, _s), _bad)


def field_of(name):
    return name.split(" ")[0]


def corrupt(pairs):
    names = list(CORRUPT)

    def run(t):
        n1 = t.choose(names, "first corruption")
        i1 = t.choose(MAGS, "on element")
        sc = machine(t.choose((True, False), "with supports"))
        fn, bad = CORRUPT[n1]
        fn(sc, i1)
        done = f"{n1} of {i1}"
        if pairs:
            n2 = t.choose([n for n in names if n > n1], "second corruption") if any(n > n1 for n in names) else "none"
            i2 = t.choose(MAGS, "on element")
            if i1 == i2 or n1 == "none" or n2 == "none":
                raise Skip()
            fn2, bad2 = CORRUPT[n2]
            fn2(sc, i2)
            bad, done = bad or bad2, done + f", {n2} of {i2}"
        verify(sc, bad, done)
        return (done, bad)
    return run


def foreign(t):
    """corruptions of elements that are not registered do not matter"""
    i = t.choose((2, 5, 7, 8, 15), "element left out")
    name = t.choose([n for n in CORRUPT if n.startswith("Polynom") or n.startswith("offsets")], "corruption")
    from pySC.core.simulated_commissioning import SimulatedCommissioning
    lib.small_ring()
    sc = SimulatedCommissioning(lib._cache[("small_ring",)])
    sc.register_bpms(A([3, 12, 16]))
    sc.register_magnets(A([j for j in MAGS if j != i]), HCM=1.0, VCM=1.0)
    CORRUPT[name][0](sc, i)
    verify(sc, False, f"{name} of unregistered element {i}")
    return (i, name)


# ------------------------------------------------------------------ warnings
def mk(skip=(), **extra):
    from pySC.core.simulated_commissioning import SimulatedCommissioning
    lib.small_ring()
    sc = SimulatedCommissioning(lib._cache[("small_ring",)])
    o = dict(bpm=lambda: sc.register_bpms(A([3, 12, 16]), Noise=A([1e-6, 1e-6]), CalError=A([0.1, 0.1]), Roll=1e-3),
             h=lambda: sc.register_magnets(A([2, 8, 15]), HCM=extra.get("hlim", 1e-3), CalErrorB=A([0, 1e-3]), MagnetOffset=A([1e-4, 0, 0])),
             v=lambda: sc.register_magnets(A([7, 8]), VCM=extra.get("vlim", 1e-3), MagnetRoll=A([1e-4, 0, 0])),
             cf=lambda: sc.register_magnets(A([5]), CF=True, BendingAngle=1e-3),
             rf=lambda: sc.register_cavities(A([0, 13]), TimeLagOffset=1e-3, VoltageCalError=1e-3),
             gir=lambda: sc.register_supports(A([[1], [9]]), "Girder", Offset=A([1e-4, 1e-4, 0])),
             ap=lambda: setattr(sc.RING[4], extra.get("aperture", "EApertures"), A([0.01] * (4 if "aperture" in extra else 2))))
    for k, f in o.items():
        if k not in skip:
            f()
    return sc


def attr(i, k, v):
    def fn(sc):
        setattr(sc.RING[i], k, v)
    return fn


def sig(kind, i, k):
    def fn(sc):
        sc.SIG[kind][i][k] = 1.0
    return fn


def child(extra):
    def fn(sc):
        sc.register_magnets(A([10]), MasterOf=A([[11]]))
        for k in list(vars(sc.RING[11])):
            if not k.startswith("_") and not hasattr(sc.RING[10], k):
                setattr(sc.RING[10], k, 0)
        if extra:
            sc.RING[11].Unusual = 1
    return fn


# (name, omitted, options, change, warned)
FISHY = [
    ("clean", (), {}, None, False),
    ("no uncertainty problem without cavities' uncertainties", (), {}, lambda sc: sc.register_cavities(A([0])), False),
    ("rectangular aperture", (), dict(aperture="RApertures"), None, False),
    ("no bpms", ("bpm",), {}, None, True), ("no hcm", ("h",), {}, None, True), ("no vcm", ("v",), {}, None, True), ("no cavity", ("rf",), {}, None, True),
    ("no girder", ("gir",), {}, None, False), ("no cf", ("cf",), {}, None, False),
    ("hcm limit zero", (), dict(hlim=0.0), None, True), ("vcm limit zero", (), dict(vlim=0.0), None, True),
    ("no aperture", ("ap",), {}, None, True),
    ("two apertures", (), {}, attr(4, "RApertures", A([-0.01, 0.01, -0.01, 0.01])), True),
    ("second aperture elsewhere", (), {}, attr(9, "RApertures", A([-0.01, 0.01, -0.01, 0.01])), False),
    ("no design gradient", (), {}, lambda sc: setattr(sc.RING[5], "NomPolynomB", A([0.0, 0.0])), True),
    ("no bend", (), {}, attr(5, "BendingAngle", 0.0), True),
    ("zero bend of other magnet", (), {}, attr(10, "BendingAngle", 0.0), False),
    ("unknown magnet uncertainty", (), {}, sig("Magnet", 15, "NoSuchField"), True),
    ("unknown cavity uncertainty", (), {}, sig("RF", 13, "NoSuchField"), True),
    ("equal child", (), {}, child(False), False), ("unequal child", (), {}, child(True), True),
]


def fishy(t):
    name, skip, extra, change, warned = t.choose(FISHY, "circumstance")
    sc = mk(skip, **extra)
    if change:
        change(sc)
    verify(sc, False, name, warn=warned)
    return name


def fishy_each(t):
    """zero limits anywhere in the list of correctors, apertures anywhere, are noticed"""
    kind = t.choose(("hcm", "vcm", "both apertures", "one aperture"), "circumstance")
    i = t.choose((2, 8, 15) if kind == "hcm" else (7, 8) if kind == "vcm" else tuple(range(18)), "element")
    sc = mk()
    if kind == "hcm":
        sc.RING[i].CMlimit[0] = 0
    elif kind == "vcm":
        sc.RING[i].CMlimit[1] = 0
    else:
        if kind == "both apertures":
            sc.RING[i].EApertures = A([0.01, 0.01])
        sc.RING[i].RApertures = A([-0.01, 0.01, -0.01, 0.01])
    verify(sc, False, f"{kind} {i}", warn=kind != "one aperture" or i == 4)
    return (kind, i)


def jobs(tier):
    th = tier == "thorough"
    return [HistJob("registrations", Sys, [(n, reg(f)) for n, f in OPS], key, 4 if th else 3, shards=8),
            TapeJob("corruptions", corrupt(False), shards=4, depth=1), TapeJob("unregistered", foreign, shards=2, depth=1),
            TapeJob("fishy", fishy), TapeJob("fishy elements", fishy_each)] + \
           [TapeJob("pairs of corruptions", corrupt(True), shards=16, depth=1)] * (1 if th else 0)
