"""Histories of multipole setpoint changes (absolute, relative to design, additive; normal and skew; all orders; with and without dipole
compensation; limits) against a reference model with the complete machine state compared after every step; argument forms; limits."""
import numpy as np
from mc import lib, world as w
from mc.core import HistJob, TapeJob, Skip

QF, BCF, SF, CM, BM, BC, QD = 2, 5, 7, 8, 10, 11, 15
A = np.array
INF = float("inf")


class Sys(lib.Machine):
    def both(self, what, args, kw):
        lib.call(self.sc.set_magnet_setpoints, *args, **kw)
        w.set_magnet(self.m, *args, **kw)
        self.verify(what)


REG = (([QF], dict(HCM=1e-3)), ([SF], dict(SkewQuad=0.05, VCM=1e-3)), ([CM], dict(HCM=3e-4)), ([BCF], dict(HCM=5e-3, CF=True)),
       ([QD], dict(SkewQuad=0.2, HCM=1e-3)), ([BM], dict(MasterOf=A([[BC]]))))


def make():
    s = Sys()
    for ords, kw in REG:
        s.sc.register_magnets(A(ords), **kw)
        w.register_magnets(s.m, ords, **kw)
    for i, f, v in ((QF, "CalErrorB", A([0.1, 0.02])), (BCF, "CalErrorB", A([0.0, 0.03])), (SF, "CalErrorA", A([0.0, 0.2]))):
        setattr(s.sc.RING[i], f, v.copy())
        w.P(s.m, i, f, v.copy())
    s.sc.update_magnets()
    w.update_magnets(s.m)
    s.verify("start")
    return s


def o(name, *args, **kw):
    return name, lambda s: s.both(name, args, kw)


def bad(name, *args, **kw):
    def fn(s):
        lib.rejects(s.sc.set_magnet_setpoints, *args, what=name, **kw)
        s.verify(f"after rejected {name}")
    return name, fn


def kick(name, i, v):
    def fn(s):
        s.sc.set_cm_setpoints(i, v, False, "add")
        w.set_kick(s.m, i, v, False, "add")
        s.verify(name)
    return name, fn


def all_ops():
    return [
        o("QF abs", A([QF]), 1.3, False, 1), o("QF rel", A([QF]), 0.98, False, 1, "rel"), o("QF add", A([QF]), -0.05, False, 1, "add"),
        o("quads rel", A([QF, QD]), A([1.02, 0.97]), False, 1, method="rel"), o("quads add", [QD, QF], A([0.01, 0.02]), False, 1, "add"),
        o("quads abs one", (QF, QD), 0.7, False, 1, "abs"),
        o("SF sext rel", A([SF]), 1.1, False, 2, "rel"), o("SF sext add int", A([SF]), 1, False, 2, "add"),
        o("SF skew abs", A([SF]), 0.04, True, 1), o("SF skew add", A([SF]), 0.03, True, 1, "add"), o("SF skew add neg", SF, -0.09, True, 1, "add"),
        o("SF skew sext", SF, 0.5, True, 2), o("SF normal quad beyond skew limit", SF, 0.4, False, 1),
        o("SF skew dipole", SF, 1e-3, True, 0, "add"),
        o("skew mixed", A([QD, SF, QF]), A([-0.3, 0.06, 0.5]), True, 1),
        o("skew mixed add", A([SF, QD]), A([0.02, 0.15]), True, 1, "add"),
        o("skew rel (design zero)", A([SF, QD]), 2.0, True, 1, "rel"),
        o("BCF rel", A([BCF]), 1.01, False, 1, "rel"), o("BCF rel comp", A([BCF]), 0.99, False, 1, "rel", True),
        o("BCF add comp", A([BCF]), 0.012, False, 1, "add", dipole_compensation=True), o("BCF abs comp far", BCF, -0.9, False, 1, "abs", True),
        o("BCF skew comp", BCF, 0.02, True, 1, "abs", True), o("mixed comp", A([QF, BCF, QD]), A([1.01, 1.005, 0.99]), False, 1, "rel", True),
        o("QF comp", A([QF]), 1.05, False, 1, "rel", True), o("BM comp (no corrector)", A([BM]), 0.1, False, 1, "add", True),
        o("SF sext comp", SF, 5.0, False, 2, "abs", True),
        o("BM quad", BM, 0.2, False, 1, "add"), o("CM dipole", CM, 1e-4, False, 0, "add"), o("BM dipole", A([BM]), 2e-3, False, 0, "add"),
        kick("BCF kick", BCF, 1e-3), kick("QF kick", QF, -4e-4),
        bad("unknown method", A([QF]), 1.0, False, 1, "foo"), bad("lengths differ", A([QF, QD, SF]), A([1.0, 2.0]), False, 1),
    ]


DEEP = ("QF add", "quads rel", "SF skew add", "skew mixed add", "BCF rel comp", "BCF add comp", "mixed comp", "BCF kick", "BM quad", "skew rel (design zero)", "BCF rel")


def forms(t):
    s = make()
    order, skew, n = t.choose([(1, False, 3), (2, False, 1), (1, True, 3), (0, True, 3)], "component")
    base = (QF, QD, BCF)[:n] if order != 2 else (SF,)
    n = t.choose(range(1, n + 1), "number")
    ords = list(base[:n])
    form = t.choose(("array", "list", "tuple", "int32", "column", "int"), "ordinates as")
    if form == "int" and n > 1:
        raise Skip()
    oarg = {"array": A(ords), "list": ords, "tuple": tuple(ords), "int32": A(ords, dtype=np.int32), "column": A(ords).reshape(-1, 1), "int": ords[0]}[form]
    method = t.choose(("abs", "rel", "add"), "method")
    vform = t.choose(("float", "npfloat", "int", "one-list", "array", "list", "int array", "row"), "setpoints as")
    vals = [1.5, 0.25, -0.75][:n]
    v = {"float": 1.5, "npfloat": np.float64(0.5), "int": 2, "one-list": [0.5], "array": A(vals), "list": vals, "int array": A([2, -1, 3][:n]), "row": A(vals).reshape(1, -1)}[vform]
    comp = t.choose((False, True), "compensation")
    kw = t.choose((0, 1), "keywords")
    if kw:
        lib.call(s.sc.set_magnet_setpoints, ords=oarg, setpoints=v, skewness=skew, order=order, method=method, dipole_compensation=comp)
    else:
        lib.call(s.sc.set_magnet_setpoints, oarg, v, skew, order, method, comp)
    w.set_magnet(s.m, ords, v, skew, order, method, comp)
    s.verify(f"{form} {ords} {vform} {v} {method} order {order} skew {skew} compensation {comp}")
    if isinstance(v, np.ndarray):
        v += 7
        s.verify("caller changed its array afterwards")
    return (order, skew, tuple(ords), form, method, vform, comp)


def limits(t):
    i = t.choose((SF, QD, BCF), "magnet")
    lim = t.choose((0.1, 0.0, INF), "limit")
    s = Sys()
    kw = dict(SkewQuad=lim)
    if t.choose((0, 1), "also corrector"):
        kw["VCM"] = 1e-3
    s.sc.register_magnets(A([i]), **kw)
    w.register_magnets(s.m, [i], **kw)
    for k in range(2):
        f = t.choose((0.5, 1.0, 1.0000001, -0.99, -1.5, 20.0, 0.0), f"request {k}")
        method = t.choose(("abs", "add"), f"method {k}")
        base = lim if 0 < lim < INF else 0.1
        s.both(f"limit {lim}, request {f * base} {method}", (A([i]), f * base, True, 1, method), {})
        s.both("other orders are not limited", (A([i]), 50 * f * base, True, 0, method), {})
        s.both("normal component is not limited", (A([i]), 50 * f * base, False, 1, method), {})
    return (i, lim)


def compensation(t):
    """all gradients x corrector limits x previous kicks"""
    lim = t.choose((INF, 1e-3, 0.0), "corrector limit")
    cf = t.choose((False, True), "combined function")
    hcm = t.choose((True, False), "is horizontal corrector")
    s = Sys()
    if t.choose((False, True), "bends the other way"):
        for ring in ("RING", "IDEALRING"):
            getattr(s.sc, ring)[BCF].BendingAngle = -0.15
        s.sync()
    kw = dict(VCM=1e-3)
    if cf:
        kw["CF"] = True
    if hcm:
        kw["HCM"] = lim
    s.sc.register_magnets(A([BCF]), **kw)
    w.register_magnets(s.m, [BCF], **kw)
    k0 = t.choose((0.0, 5e-4, -9e-4), "previous kick")
    s.sc.set_cm_setpoints(BCF, k0, False)
    w.set_kick(s.m, BCF, k0, False)
    for k in range(2):
        method, v = t.choose([("rel", 1.001), ("rel", 0.9), ("add", 1e-3), ("abs", -0.6), ("abs", 0.0), ("add", -0.05)], f"change {k}")
        comp = t.choose((True, False), f"compensate {k}")
        s.both(f"{method} {v} compensation {comp}, limit {lim}, combined {cf}, corrector {hcm}", (BCF, v, False, 1, method, comp), {})
    return (lim, cf, hcm, k0)


def jobs(tier):
    from mc.checks.c01 import ops_named
    q = tier == "quick"
    ops = all_ops()
    return [HistJob("histories", make, ops, lambda s: s.canon(), 3 if q else 4, shards=len(ops), deep_ops=ops_named(ops, DEEP)),
            TapeJob("argument forms", forms, shards=8, depth=3), TapeJob("skew limits", limits, shards=8, depth=3),
            TapeJob("dipole compensation", compensation, shards=8, depth=4)]
