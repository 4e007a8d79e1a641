"""Histories of registrations (overlapping, unsorted, repeated, extended, re-registered after errors, invalid) of BPMs, cavities, magnets and
supports; the complete state (element fields, ordinate lists, declared uncertainties) is compared with a reference model after each step."""
import numpy as np
from mc import lib, world as w
from mc.core import HistJob, TapeJob, Skip

A = np.array
QF, BCF, SF, CM, BM, BC, QD = 2, 5, 7, 8, 10, 11, 15
STALE = ("R1", "R2")


class Sys(lib.Machine):
    pass


def reg(kind, name, ords, form=np.array, **kw):
    def fn(s):
        lib.call(getattr(s.sc, f"register_{kind}"), form(ords), **kw)
        getattr(w, f"register_{kind}")(s.m, ords, **kw)
        s.verify(name)
    return name, fn


def sup(name, kind, pairs, **kw):
    def fn(s):
        lib.call(s.sc.register_supports, A(pairs), kind, **kw)
        w.register_supports(s.m, A(pairs), kind, **kw)
        s.verify(name)
    return name, fn


def bad(name, meth, *a, **kw):
    def fn(s):
        lib.rejects(getattr(s.sc, meth), *a, what=name, **kw)
        s.verify(f"after rejected {name}")
    return name, fn


def dirty(name, i, **kw):
    def fn(s):
        for k in kw:
            if not w.has(s.m, i, k):
                raise Skip()
        for k, v in kw.items():
            setattr(s.sc.RING[i], k, lib.frozen(v))
            w.P(s.m, i, k, lib.frozen(v))
        s.verify(name)
    return name, fn


def all_ops():
    i3 = A([3])
    return [
        reg("bpms", "bpm 3", [3]), reg("bpms", "bpm 16,3 offset", [16, 3], Offset=A([1e-4, 2e-4]), Roll=1e-3),
        reg("bpms", "bpm 12 noise list", [12], form=list, Noise=A([1e-5, 1e-5]), Offset=[A([3e-4, 3e-4]), 1.5]),
        reg("bpms", "bpm dup", [12, 3, 12], SumError=0.1), reg("bpms", "bpm none", [], form=lambda x: np.array(x, dtype=int), Offset=A([1.0, 1.0])),
        reg("bpms", "bpm 3 other offset", [3], Offset=A([5e-4, 0.0]), CalError=A([0.1, 0.2]), NoiseCO=A([1e-6, 1e-6])),
        reg("cavities", "cav 0", [0], VoltageOffset=1e3), reg("cavities", "cav both", [13, 0], FrequencyCalError=1e-5, TimeLagOffset=[0.1, 3]),
        reg("cavities", "cav 13 list", [13], form=list), reg("cavities", "cav 0 other", [0], VoltageOffset=2e3, VoltageCalError=0.1),
        reg("magnets", "mag QD,QF", [QD, QF], CalErrorB=A([0.0, 1e-3]), MagnetOffset=A([1e-4, 1e-4, 0.0])),
        reg("magnets", "mag QF hcm", [QF], HCM=1e-3), reg("magnets", "mag QF vcm roll", [QF], VCM=2e-3, MagnetRoll=A([1e-4, 0, 0])),
        reg("magnets", "mag SF,CM correctors", [SF, CM], HCM=5e-4, VCM=np.inf, CalErrorA=A([0.01])),
        reg("magnets", "mag CM dup list", [CM, SF, CM], form=list, SkewQuad=0.1),
        reg("magnets", "mag BCF cf", [BCF], CF=True, BendingAngle=1e-3, HCM=1e-3),
        reg("magnets", "mag masters", [BM, QF], MasterOf=A([[BC, QD]])), reg("magnets", "mag masters 2", [QF, BM], MasterOf=A([[QD, BC], [SF, BCF]]), BendingAngle=[1e-3, 2]),
        reg("magnets", "mag QD again", [QD], CalErrorB=A([0.1, 0.2])),
        reg("bpms", "bpm 16,3 plain", [16, 3]), reg("cavities", "cav 0 plain", [0]), reg("magnets", "mag QF,QD plain", [QF, QD], form=list),
        sup("girder ends alike", "Girder", [[1, 14], [4, 1]], Offset=[A([[1e-4, 2e-4, 0], [1e-4, 2e-4, 0]]), 3]),
        sup("plinth ends alike", "Plinth", [[1, 9], [6, 14]], Offset=A([[1e-4, 2e-4, 0], [1e-4, 2e-4, 0]])),
        sup("girder plain", "Girder", [[1, 9], [4, 14]]),
        sup("girders", "Girder", [[1, 6], [4, 9]], Offset=A([1e-4, 1e-4, 0.0])), sup("girder ends", "Girder", [[1, 14], [4, 1]], Offset=A([[1e-4, 0, 0], [2e-4, 0, 1e-3]])),
        sup("girder roll", "Girder", [[6], [9]], Roll=A([1e-3, 0, 0])), sup("girder first", "Girder", [[0], [4]]), sup("girder cut", "Girder", [[6, 1], [9, 4]], Offset=[A([[1e-4, 0, 0], [3e-4, 0, 0]]), 2], Roll=[A([1e-3, 0, 0]), 1.5]),
        sup("section", "Section", [[1], [14]], Offset=A([1e-3, 0.0, 0.0])), sup("plinth", "Plinth", [[1, 9], [6, 14]], Roll=A([1e-3, 2e-3, 0.0])),
        dirty("bpm errors", 3, Offset=A([1.0, 2.0]), Roll=0.3, Noise=A([1.0, 1.0]), NoiseCO=A([2.0, 1.0]), CalError=A([0.1, 0.1]), SumError=0.2, SupportOffset=A([0.5, 0.5]), SupportRoll=0.1),
        dirty("cavity errors", 0, VoltageSetPoint=7.0, VoltageOffset=1.0, FrequencyCalError=0.1, Voltage=8.0, TimeLagOffset=0.4),
        dirty("magnet errors", QF, SetPointB=A([0.1, 1.3]), PolynomB=A([0.2, 1.5]), PolynomA=A([0.3, 0.4]), CalErrorA=A([0.1]), CalErrorB=A([0.2, 0.2]), MagnetOffset=A([1.0, 0, 0]),
              SupportOffset=A([1.0, 1, 0]), MagnetRoll=A([0.1, 0, 0]), SupportRoll=A([0.1, 0, 0.2]), T1=np.ones(6), T2=np.ones(6)),
        dirty("girder errors", 1, GirderOffset=A([1.0, 2, 3]), GirderRoll=A([0.1, 0.2, 0.3])),
        bad("bpm option", "register_bpms", A([16]), MagnetOffset=A([1.0, 1, 1])), bad("bpm options mixed", "register_bpms", i3, Offset=A([1.0, 1]), Foo=3),
        bad("cavity option", "register_cavities", A([13]), Offset=1.0), bad("magnet option", "register_magnets", A([QD]), Roll=A([1.0, 0, 0])),
        bad("magnet options mixed", "register_magnets", A([BC]), HCM=1e-3, VCM=1.0, Setpoint=2), bad("support type", "register_supports", A([[2], [5]]), "Foo"),
        bad("support type case", "register_supports", A([[2], [5]]), "girder", Offset=A([1.0, 0, 0])), bad("support option", "register_supports", A([[2], [5]]), "Girder", Noise=A([1.0, 0, 0])),
        bad("support shape", "register_supports", A([2, 5, 7]), "Girder"), bad("support shape 3", "register_supports", A([[2], [5], [7]]), "Plinth", Offset=A([1.0, 0, 0])),
    ]


DEEP = ("bpm 16,3 offset", "bpm 3 other offset", "cav both", "cav 0 other", "mag QD,QF", "mag QF vcm roll", "mag CM dup list", "mag masters 2", "girders", "girder ends", "girder cut", "section",
        "bpm errors", "magnet errors", "cavity errors", "support shape", "mag BCF cf", "cav 0 plain", "girder ends alike")


POINTS = (1, 4, 5, 9)
PAIRS = [(a, b) for a in POINTS for b in POINTS if a != b]


def pair_sets(t):
    """every sequence of up to four support pairs over four points (overlapping, nested, reversed, repeated), in every split into two registrations"""
    kind = t.choose(("Girder", "Plinth", "Section"), "support type")
    n = t.choose(range(1, 4 if kind != "Girder" or QUICK[0] else 5), "pairs")
    pairs = [t.choose(PAIRS, f"pair {k}") for k in range(n)]
    cut = t.choose(range(n), "first registration holds")
    s = Sys()
    for k, part in enumerate((pairs[:cut], pairs[cut:])):
        if part:
            ords = A(part).T
            kw = dict(Offset=A([1e-4 * (k + 1), 0.0, 0.0])) if k == 0 else dict(Roll=A([1e-3, 0.0, 0.0]))
            lib.call(s.sc.register_supports, ords, kind, **kw)
            w.register_supports(s.m, ords, kind, **kw)
    s.verify(f"{kind} pairs {pairs[:cut]} then {pairs[cut:]}")
    return (kind, tuple(pairs), cut)


QUICK = [True]


def jobs(tier):
    from mc.checks.c01 import ops_named
    q = tier == "quick"
    QUICK[0] = q
    ops = all_ops()
    return [TapeJob("support pairs", pair_sets, shards=8, depth=3), HistJob("registrations", Sys, ops, lambda s: s.canon(), 3 if q else 4, shards=len(ops), deep_ops=ops_named(ops, DEEP))]
