"""Histories of cavity registrations, error assignments, error application and setpoint changes against a reference model with the
complete machine state compared after every step; all argument forms; rejected requests."""
import numpy as np
from mc import lib, env, world as w
from mc.core import HistJob, TapeJob, Skip

A = np.array
C1, C2 = 0, 13


class Sys(lib.Machine):
    pass


def make():
    s = Sys()
    s.sc.register_bpms(A([3]))
    w.register_bpms(s.m, [3])
    return s


def needs(s, ords):
    reg = set(int(i) for i in s.m[("ORD", "RF")])
    if not set(ords) <= reg:
        raise Skip()


def reg(name, ords, **kw):
    def fn(s):
        lib.call(s.sc.register_cavities, A(ords), **kw)
        w.register_cavities(s.m, ords, **kw)
        s.verify(name)
    return name, fn


def assign(name, i, **kw):
    def fn(s):
        needs(s, [i])
        for k, v in kw.items():
            setattr(s.sc.RING[i], k, v)
            w.P(s.m, i, k, v)
        s.verify(name)
    return name, fn


def update(name, ords=None):
    def fn(s):
        needs(s, ords or [])
        if ords is None:
            s.sc.update_cavities()
        else:
            lib.call(s.sc.update_cavities, A(ords))
        w.update_cavities(s.m, ords)
        s.verify(name)
    return name, fn


def st(name, ords, v, param, method="abs", form=None):
    def fn(s):
        needs(s, w.as_list(ords))
        lib.call(s.sc.set_cavity_setpoints, form(ords) if form else ords, v, param, method)
        w.set_cavity(s.m, ords, v, param, method)
        s.verify(name)
    return name, fn


def bad(name, *args):
    def fn(s):
        needs(s, [C1, C2])
        lib.rejects(s.sc.set_cavity_setpoints, *args, what=name)
        s.verify(f"after rejected {name}")
    return name, fn


def badreg(name, ords, **kw):
    def fn(s):
        lib.rejects(s.sc.register_cavities, A(ords), what=name, **kw)
        s.verify(f"after rejected {name}")
    return name, fn


def apply_all(s):
    """all draws equal: every declared component becomes sigma x draw"""
    d = 0.7
    with env.seams(rng_source=lambda n: np.full(n, d)):
        s.sc.apply_errors()
    for i in s.m[("ORD", "RF")]:
        for k, v in s.m[("SIG", "RF")].get(int(i), {}).items():
            w.P(s.m, int(i), k, (v[0] if isinstance(v, list) else v) * d)
    if len(s.m[("ORD", "RF")]):
        w.update_cavities(s.m)
    s.verify("apply errors", ignore=lambda k: k[0] == "INJ")


def all_ops():
    both = A([C1, C2])
    return [
        reg("register 1", [C1], FrequencyOffset=5e3, VoltageCalError=0.01), reg("register 2", [C2], TimeLagOffset=0.3),
        reg("register both", [C1, C2], VoltageOffset=2e3, FrequencyCalError=1e-5, TimeLagCalError=[0.1, 1.5]),
        ("apply errors", apply_all),
        assign("assign 1", C1, VoltageOffset=1e4, VoltageCalError=-0.02, FrequencyOffset=-3e3, TimeLagCalError=0.1),
        assign("assign 2", C2, FrequencyCalError=1e-4, TimeLagOffset=-0.15, VoltageCalError=0.5),
        update("update all"), update("update 2", [C2]), update("update 2,1", [C2, C1]),
        st("V abs 1", C1, 1.2e6, "Voltage"), st("V rel both", both, 0.9, "Voltage", "rel"), st("V add int", both, 1000, "Voltage", "add"),
        st("F add 2", A([C2]), 1e3, "Frequency", "add"), st("F abs int both", [C1, C2], 500001000, "Frequency", "abs"),
        st("F rel each", both, A([1.0001, 0.9999]), "Frequency", "rel"), st("F add each reversed", A([C2, C1]), A([10.0, -20.0]), "Frequency", "add"),
        st("T add each", both, [0.1, -0.05], "TimeLag", "add"), st("T abs int", C2, 1, "TimeLag"), st("T rel", both, 2, "TimeLag", "rel"),
        st("T abs each", (C1, C2), A([0.2, 0.3]), "TimeLag"),
        bad("unknown method", both, 1.0, "Voltage", "foo"), bad("lengths differ", both, A([1.0, 2.0, 3.0]), "Voltage"),
        bad("unknown property", both, 1.0, "Phase"), bad("unknown property add", both, 1.0, "Phase", "add"), bad("unknown property rel", both, 1.0, "voltage", "rel"),
        badreg("unknown option", [C2], Foo=1.0), badreg("unknown option beside known", [C1], VoltageOffset=1.0, Noise=2.0),
    ]


DEEP = ("register both", "register 1", "apply errors", "assign 1", "assign 2", "V rel both", "F add 2", "T add each", "F rel each", "update 2", "T abs int", "V add int", "F add each reversed")


def forms(t):
    s = make()
    s.sc.register_cavities(A([C1, C2]))
    w.register_cavities(s.m, [C1, C2])
    for i, (a, b) in ((C1, (0.1, 5.0)), (C2, (-0.2, 7.0))):
        for p in w.RFP:
            for f, v in (("CalError", a), ("Offset", b)):
                setattr(s.sc.RING[i], p + f, v)
                w.P(s.m, i, p + f, v)
    ords = t.choose([[C1], [C2], [C1, C2], [C2, C1]], "cavities")
    n = len(ords)
    form = t.choose(("array", "list", "tuple", "int32", "column", "int", "npint"), "ordinates as")
    if form in ("int", "npint") and n > 1:
        raise Skip()
    oarg = {"array": A(ords), "list": ords, "tuple": tuple(ords), "int32": A(ords, dtype=np.int32), "column": A(ords).reshape(-1, 1), "int": ords[0], "npint": np.int64(ords[0])}[form]
    param = t.choose(w.RFP, "property")
    for k in range(2):
        method = t.choose(("abs", "rel", "add"), f"method {k}")
        v = t.choose((3.5, 2, [0.5], A([1.5, 0.25][:n]), [2.5, -1.0][:n], A([2, 3][:n]), np.float64(0.125), A([[1.5, 0.75][:n]])), f"setpoints {k}")
        v = v.copy() if isinstance(v, np.ndarray) else v
        lib.call(s.sc.set_cavity_setpoints, oarg, v, param, method=method)
        w.set_cavity(s.m, ords, v, param, method)
        s.verify(f"{param} of {ords} ({form}) {method} {v}")
        if isinstance(v, np.ndarray):
            v += 7
            s.verify("caller changed its array afterwards")
    return (tuple(ords), form, param, method, repr(v))


def several(t):
    """four cavities of different settings: every selection x property x two requests"""
    s = Sys(lib.ring_of([e for k in range(4) for e in (
        lib.at.RFCavity(f"C{k}", 0.0, (2e5, 0.0, 7e5, 3e5)[k], 5e8 + 1e5 * k, 100 + k, lib.E0, TimeLag=(0.0, 0.2, -0.1, 0.4)[k]), lib.at.Drift(f"D{k}", 0.5))]))
    all4 = [0, 2, 4, 6]
    s.sc.register_cavities(A(all4))
    w.register_cavities(s.m, all4)
    for i in t.choose(((), (2,), (0, 4)), "cavities with errors"):
        for p in w.RFP:
            for f, v in (("CalError", 0.1), ("Offset", 5.0)):
                setattr(s.sc.RING[i], p + f, v)
                w.P(s.m, i, p + f, v)
    ords = t.choose((all4, [0, 2, 4], [6, 0, 2], [4, 6], [2]), "cavities")
    param = t.choose(w.RFP, "property")
    for k in range(2):
        method = t.choose(("abs", "rel", "add"), f"method {k}")
        v = t.choose((0.0, 1.5, A([1.5, -0.25, 0.0, 3.0][:len(ords)])), f"setpoints {k}")
        v = v.copy() if isinstance(v, np.ndarray) else v
        lib.call(s.sc.set_cavity_setpoints, A(ords), v, param, method=method)
        w.set_cavity(s.m, ords, v, param, method)
        s.verify(f"{param} of {ords} {method} {v}")
    sub = t.choose((None, all4[1:], all4[2:]), "update")
    s.sc.update_cavities(*([] if sub is None else [A(sub)]))
    w.update_cavities(s.m, sub)
    s.verify("update")
    return (tuple(ords), param, method, repr(v), sub and tuple(sub))


def jobs(tier):
    from mc.checks.c01 import ops_named
    q = tier == "quick"
    ops = all_ops()
    return ([] if q else [HistJob("histories", make, ops, lambda s: lib.canon(s.m, lambda k: k[0] != "INJ"), 5, shards=len(ops), deep_ops=ops_named(ops, DEEP))]) + [
            HistJob("all operations", make, ops, lambda s: lib.canon(s.m, lambda k: k[0] != "INJ"), 3, shards=len(ops)),
            TapeJob("argument forms", forms, shards=8, depth=3), TapeJob("several cavities", several, shards=8, depth=3)]
