"""Histories of corrector changes (absolute, relative, additive; within, at and beyond the limits; thick, thin, combined-function and
limit-free correctors; single, many, mixed) against a reference model with the complete machine state and the read-back of every corrector
compared after each step; all ways of passing arguments; tracked deflection of every corrector type."""
import itertools

import numpy as np
import at
from mc import lib, env, world as w
from mc.core import HistJob, TapeJob, Skip

QF, BCF, SF, CM, BM, BC, QD = 2, 5, 7, 8, 10, 11, 15
A = np.array
INF = float("inf")
CORR = (QF, BCF, SF, CM, QD)


class Sys(lib.Machine):
    corr = CORR

    def both(self, what, args, kwargs=None):
        kwargs = kwargs or {}
        lib.call(self.sc.set_cm_setpoints, *args, **kwargs)
        a = list(args) + [kwargs.get("skewness")] * (len(args) == 2)
        w.set_kick(self.m, *a[:3], kwargs.get("method", args[3] if len(args) > 3 else "abs"))
        self.verify(what)
        if self.check:
            self.readback(what)

    def readback(self, what):
        for sk in (False, True):
            got = lib.call(self.sc.get_cm_setpoints, A(self.corr), sk)
            lib.need_close(got, [w.get_kick(self.m, i, sk) for i in self.corr], f"{what}: read-back {'vertical' if sk else 'horizontal'}", rtol=1e-10, atol=1e-18)
            one = self.corr[-1]
            lib.need_close(np.ravel(lib.call(self.sc.get_cm_setpoints, one, sk)), [w.get_kick(self.m, one, sk)], f"{what}: read-back of one corrector", rtol=1e-10, atol=1e-18)


def make():
    s = Sys()
    for ords, kw in (([QF], dict(HCM=1e-3, VCM=5e-4)), ([SF], dict(HCM=INF, VCM=2e-3, SkewQuad=0.1)), ([CM], dict(HCM=3e-4, VCM=4e-4)),
                     ([BCF], dict(HCM=2e-3, CF=True)), ([QD], dict(VCM=6e-4)), ([BM], dict(MasterOf=A([[BC]])))):
        s.sc.register_magnets(A(ords), **kw)
        w.register_magnets(s.m, ords, **kw)
    # errors that must not leak into setpoints
    for i, ce in ((QF, A([0.1, 0.02])), (CM, A([-0.3])), (BCF, A([0.05, 0.01]))):
        s.sc.RING[i].CalErrorB = ce.copy()
        w.P(s.m, i, "CalErrorB", ce.copy())
    s.sc.update_magnets()
    w.update_magnets(s.m)
    s.verify("start")
    return s


def o(name, *args, **kw):
    return name, lambda s: s.both(name, args, kw)


def bad(name, *args, **kw):
    def fn(s):
        lib.rejects(s.sc.set_cm_setpoints, *args, what=name, **kw)
        s.verify(f"after rejected {name}")
    return name, fn


def all_ops():
    ops = []
    for i, (h, v) in {QF: (4e-4, 2e-4), CM: (1e-4, -1.5e-4), SF: (-5e-3, 7e-4)}.items():
        ops.append(o(f"h {i} abs", A([i]), h, False))
        ops.append(o(f"v {i} abs", A([i]), v, True))
        ops.append(o(f"h {i} add", A([i]), h * 0.8, False, "add"))
        ops.append(o(f"v {i} add", A([i]), v * -1.6, True, "add"))
    ops += [o("h QF abs beyond", [QF], -3e-3, False), o("v QF abs beyond", QF, 6e-4, True), o("v CM add beyond", CM, -5e-4, True, "add"),
            o("h all rel", A(CORR), 1.5, False, "rel"), o("v all rel", A(CORR), -2.0, True, "rel"),
            o("h mixed abs", A([CM, QF, BCF]), A([2e-4, -2e-4, 1.9e-3]), False, "abs"),
            o("h mixed add", A([BCF, SF, CM]), [3e-4, 1e-3, -2e-4], skewness=False, method="add"),
            o("v mixed add", (QD, QF, SF), A([-3e-4, 1e-4, 5e-4]), True, method="add"),
            o("v mixed abs", [SF, CM, QD], A([2.5e-3, -1e-4, 1e-4]), True),
            o("h QD (no horizontal limit given)", A([QD]), 1e-4, False),
            o("h BM (no corrector)", A([BM]), 1e-4, False, "add"),
            o("h rel each", A([QF, CM]), A([0.5, -1.0]), False, "rel"),
            o("h zero", A(CORR), 0, False), o("v zero", list(CORR), 0.0, True),
            bad("unknown method", A([QF]), 1e-4, False, "foo"), bad("lengths differ", A([QF, CM, SF]), A([1e-4, 2e-4]), False),
            bad("lengths differ add", A([QF]), A([1e-4, 2e-4]), True, "add")]
    return ops


DEEP = ("h 2 add", "v 8 add", "h QF abs beyond", "v all rel", "h mixed add", "v mixed add", "h rel each", "h 8 add", "h mixed abs", "h zero")


def forms(t):
    """the same request in every argument form"""
    s = make()
    sk = t.choose((False, True), "plane")
    sk_arg = t.choose((sk, int(sk), np.bool_(sk)), "plane given as")
    first = t.choose((0.0, 1.3e-4), "previous kick")
    s.both("previous", (A(CORR), first, sk))
    n = t.choose((1, 2, 3), "number")
    ords = list((CM, QF, SF)[:n])
    form = t.choose(("array", "list", "tuple", "int32", "column", "int"), "ordinates as")
    if form == "int" and n > 1:
        raise Skip()
    oarg = {"array": A(ords), "list": ords, "tuple": tuple(ords), "int32": A(ords, dtype=np.int32), "column": A(ords).reshape(-1, 1), "int": ords[0]}[form]
    method = t.choose(("abs", "rel", "add"), "method")
    vals = [2, 3, -1][:n] if method == "rel" else [1e-4, -2e-4, 3e-3][:n]
    vform = t.choose(("float", "npfloat", "int", "one-list", "array", "list", "int array", "column", "negative zero"), "setpoints as")
    if vform in ("float", "npfloat", "int", "one-list", "negative zero"):
        v = {"float": float(vals[0]), "npfloat": np.float64(vals[0]), "int": 1 if method == "rel" else 0, "one-list": [vals[0]], "negative zero": -0.0}[vform]
        expect = v
    else:
        v = {"array": A(vals, dtype=float), "list": list(vals), "int array": A([2, 1, 0][:n] if method == "rel" else [0, 1, 0][:n]), "column": A(vals, dtype=float).reshape(1, -1)}[vform]
        expect = v
    lib.call(s.sc.set_cm_setpoints, oarg, v, sk_arg, method=method)
    w.set_kick(s.m, ords, expect, sk, method)
    s.verify(f"{form} {ords}, {vform} {v}, {method}")
    s.readback("forms")
    # later changes of the caller's arrays do not reach the machine
    if isinstance(v, np.ndarray):
        v += 7
        s.verify("caller changed its array afterwards")
    got = lib.call(s.sc.get_cm_setpoints, oarg, sk_arg)
    lib.need_close(np.ravel(got), [w.get_kick(s.m, i, sk) for i in ords], "read-back in the same form", rtol=1e-10, atol=1e-18)
    return (sk, first, tuple(ords), form, method, vform)


def limits(t):
    """every limit value x every request around it"""
    i = t.choose((QF, CM, SF, BCF, QD), "corrector")
    sk = t.choose((False, True), "plane")
    lim = t.choose((1e-3, 0.0, INF, 5e-5), "limit")
    other = t.choose((2e-4, INF), "other plane limit")
    s = Sys()
    s.corr = (i,)
    kw = {("VCM" if sk else "HCM"): lim, ("HCM" if sk else "VCM"): other}
    s.sc.register_magnets(A([i]), **kw)
    w.register_magnets(s.m, [i], **kw)
    for k in range(2):
        f = t.choose((0.5, 1.0, 1.0000001, -0.99, -1.5, 20.0, 0.0), f"request {k}")
        method = t.choose(("abs", "add"), f"method {k}")
        base = lim if 0 < lim < INF else 1e-3
        s.both(f"limit {lim}, request {f * base} {method}", (A([i]), f * base, sk, method))
    return (i, sk, lim, other)


def own_kick(t):
    """correctors whose design already deflects: every pair of requests"""
    kind = t.choose(("thick", "thin"), "kind")
    h, v = t.choose((0.0, 2e-4, -3e-4), "design horizontal"), t.choose((0.0, 1.5e-4), "design vertical")
    if kind == "thin":
        el = lib.corrector("C", (h, v))
    else:
        el = at.Multipole("C", 0.4, [v, 0.0], [-h, 0.3])
    s = Sys(lib.ring_of([at.Drift("D", 0.5), el, at.Drift("E", 0.5), at.Monitor("M")]))
    s.corr = (1,)
    s.sc.register_magnets(A([1]), HCM=1e-3, VCM=1e-3)
    w.register_magnets(s.m, [1], HCM=1e-3, VCM=1e-3)
    s.verify("registration")
    s.readback("registration")
    for k in range(2):
        sk = t.choose((False, True), f"plane {k}")
        method = t.choose(("abs", "add", "rel"), f"method {k}")
        x = t.choose((0.0, 1.0) if method == "rel" else (0.0, 1e-4, -2e-3), f"request {k}")
        s.both(f"{x} {method} after own kick {h, v}", ([1], x, sk, method))
    return (kind, h, v, sk, method, x, lib.canon(s.m))


def deflection(t):
    """positive kicks deflect towards positive positions, by the requested angle"""
    i = t.choose(CORR + (BM,), "corrector")
    sk = t.choose((False, True), "plane")
    kick = t.choose((1e-5, -2e-5, 7e-6), "kick")
    method = t.choose(("abs", "add"), "method")
    s = lib.Machine()
    s.sc.register_magnets(A([i]), HCM=1e-2, VCM=1e-2)
    s.sc.update_magnets()
    el = lambda: lib.ring_of([s.sc.RING[i], at.Monitor("M")])  # noqa
    def out():
        return np.squeeze(at.lattice_track(el(), np.zeros((6, 1)), nturns=1, refpts=[2])[0])
    z0 = out()
    s.sc.set_cm_setpoints(i, kick, sk, method)
    d = out() - z0
    j = 3 if sk else 1
    lib.need(abs(d[j] - kick) < 0.25 * abs(kick), f"corrector {i}: kick {kick} requested, particle deflected by {d[j]} in the {'vertical' if sk else 'horizontal'} plane")
    lib.need(abs(d[4 - j]) < 0.02 * abs(kick), f"corrector {i}: deflection {d[4 - j]} in the other plane")
    return (i, sk, kick, method)


def jobs(tier):
    from mc.checks.c01 import ops_named
    q = tier == "quick"
    ops = all_ops()
    return [HistJob("histories", make, ops, lambda s: s.canon(), 3 if q else 4, shards=len(ops), deep_ops=ops_named(ops, DEEP) if q else ops_named(ops, DEEP + ("h all rel", "v mixed abs", "h 7 add"))),
            TapeJob("argument forms", forms, shards=8, depth=4), TapeJob("limits", limits, shards=8, depth=4), TapeJob("deflection", deflection), TapeJob("own kick", own_kick, shards=8, depth=3)]
