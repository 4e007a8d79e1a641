"""All sequences of switching requests (every combination of requested modes, valid and invalid, and single-cavity switching) up to
a depth on a lattice with every kind of pass method, starting from every initial on/off mix, against a two-flag reference
model with the full element state compared after every step; all circumference requests over several lattices."""
import itertools

import numpy as np
import at
from mc import lib
from mc.core import HistJob, TapeJob, Skip

MODES = ("radiationoff", "radiationon", "cavityoff", "cavityon")
NONRAD = ("BndMPoleSymplectic4Pass", "BndMPoleSymplectic4E2Pass", "StrMPoleSymplectic4Pass")
RAD = {n: n.replace("Pass", "RadPass") for n in NONRAD}
UNRAD = {v: k for k, v in RAD.items()}


def ring(init):
    cavm = {"cav": "RFCavityPass", "nocav": "IdentityPass", "other": "DriftPass"}
    c, r = init
    e = [at.RFCavity("C1", 0.0, 1e6, 5e8, 31, lib.E0, PassMethod=cavm[c[0]]),
         at.Drift("D", 0.5),
         at.Quadrupole("Q", 0.5, 1.2, PassMethod=RAD[NONRAD[2]] if r[0] else NONRAD[2]),
         at.Bend("B", 1.0, 0.1, PassMethod=RAD[NONRAD[0]] if r[1] else NONRAD[0]),
         at.Bend("B2", 1.0, 0.1, PassMethod=RAD[NONRAD[1]] if r[0] else NONRAD[1]),
         at.Bend("BL", 1.0, 0.1, PassMethod="BendLinearPass"),
         lib.corrector("CM", (1e-4, 0)),
         at.Monitor("BPM"),
         at.Multipole("T", 0.0, [0, 0, 0], [0, 0, 1.0], PassMethod="ThinMPolePass"),
         at.RFCavity("C2", 0.0, 1e6, 5e8, 31, lib.E0, PassMethod=cavm[c[1]]),
         at.Drift("D", 0.7)]
    return lib.ring_of(e)


class Sys:
    def __init__(self, init):
        self.lat = ring(init)
        self.m = lib.snap_lattice(self.lat)
        self.check = True

    def verify(self, got, what):
        lib.need(got is self.lat or all(a is b for a, b in zip(got, self.lat)), f"{what}: result is not the given lattice") if got is not None else None
        if self.check:
            lib.need_lattice(self.lat, self.m, what)


def cav(m, ords, on):
    for i in ords:
        if ("LATTICE", i, "Frequency") in m:
            m[("LATTICE", i, "PassMethod")] = "RFCavityPass" if on else "IdentityPass"


def rad(m, on):
    tr = RAD if on else UNRAD
    for k in list(m):
        if k[-1] == "PassMethod" and m[k] in tr:
            m[k] = tr[m[k]]


def op_modes(args):
    def fn(s):
        from pySC.core.lattice_setting import switch_cavity_and_radiation
        if any(a not in MODES for a in args):
            lib_rejects(switch_cavity_and_radiation, s.lat, *args)
            s.verify(None, f"rejected request {args}")
            return
        if "radiationoff" in args:
            rad(s.m, False)
        elif "radiationon" in args:
            rad(s.m, True)
        if "cavityoff" in args:
            cav(s.m, range(len(s.lat)), False)
        elif "cavityon" in args:
            cav(s.m, range(len(s.lat)), True)
        s.verify(switch_cavity_and_radiation(s.lat, *args), f"switching {args}")
    return fn


def lib_rejects(fn, *a):
    try:
        fn(*a)
    except Exception:  # noqa
        return
    raise lib.Violation(f"unknown request {a[1:]} accepted")


def op_rf(ords, on):
    def fn(s):
        from pySC.core.lattice_setting import switch_rf
        cav(s.m, np.ravel(np.array([ords])).tolist(), on)
        before = np.array(ords, copy=True)
        got = switch_rf(s.lat, ords, on)
        lib.need(np.array_equal(before, ords), "list of ordinates was modified")
        s.verify(got, f"switching rf of {ords} to {on}")
    return fn


def hist(tier):
    ops = []
    for n in (0, 1, 2, 3, 4):
        for c in itertools.permutations(MODES, n) if n <= 2 else itertools.combinations(MODES, n):
            ops.append((f"{'+'.join(c) or 'nothing'}", op_modes(c)))
    for c in (("foo",), ("cavityon", "foo"), ("RadiationOn", "cavityoff"), ("radiationon", "")):
        ops.append((f"bad {c}", op_modes(c)))
    for o in ((0,), 9, [9], np.array([0, 9]), np.array([2, 3, 9]), np.arange(11), 3):
        for on in (True, False):
            ops.append((f"rf {str(o)} {on}", op_rf(o, on)))
    out = []
    inits = [(("other", "cav"), (0, 0)), (("nocav", "cav"), (1, 0)), (("nocav", "nocav"), (1, 1)), (("cav", "nocav"), (0, 1))]
    for k, init in enumerate(inits):
        out.append(HistJob(f"switching {k}", lambda init=init: Sys(init), ops, lambda s: lib.canon(s.m), 3 if tier == "quick" else 6, shards=2))
    return out


def scaling(t):
    from pySC.utils.sc_tools import scale_circumference
    lens = t.choose([(0.4, 0.3, 0.2), (1.0, 1.0, 1.0), (0.1, 2.0, 0.0), (0.7, 0.0, 0.0)], "drift lengths")
    withcav = t.choose((0, 1), "long cavity")
    kind = t.choose((0, 1), "elements between")
    els = [at.Drift("D", lens[0]), at.Quadrupole("Q", 0.5, 1.2), at.Drift("D", lens[1]),
           at.Bend("B", 1.0, 0.2) if kind else at.Multipole("M", 0.6, [0, 0], [0, 0]), at.Drift("E", lens[2]), lib.corrector("CM")]
    if withcav:
        els.append(at.RFCavity("C1", 0.35, 1e6, 5e8, 31, lib.E0, PassMethod="RFCavityPass"))
        els.append(at.Quadrupole("Q0", 0.2, 0.0, PassMethod="IdentityPass"))
    lat = lib.ring_of(els)
    before = lib.snap_lattice(lat)
    c0 = sum(e.Length for e in lat)
    drift = [i for i, e in enumerate(lat) if e.PassMethod == "DriftPass"]
    d0 = sum(lat[i].Length for i in drift)
    mode = t.choose(("abs", "rel", None, "foo", "ABS"), "mode")
    rel = t.choose((1.0, 1.001, 0.95, 1.2, 1 + 1e-7), "factor")
    if mode in ("foo", "ABS"):
        lib_rejects(scale_circumference, lat, rel, mode)
        lib.need_lattice(lat, before, "rejected scaling", rtol=0, atol=0)
        return "rejected"
    target = c0 * rel
    got = scale_circumference(lat, target) if mode is None else scale_circumference(lat, target if mode == "abs" else rel, mode)
    c1 = sum(e.Length for e in got)
    lib.need_close(c1, target, f"circumference after scaling {c0} by {rel} ({mode})", rtol=1e-12)
    f = (d0 + target - c0) / d0
    want = dict(before)
    for i in drift:
        want[("LATTICE", i, "Length")] = before[("LATTICE", i, "Length")] * f
    lib.need_lattice(got, want, f"scaling {c0} by {rel} ({mode}): drifts by a common factor only", rtol=1e-12)
    back = scale_circumference(got, c0, "abs")
    lib.need_lattice(back, before, "scaling back", rtol=1e-10)
    return (lens, withcav, kind, mode, rel)


def jobs(tier):
    return hist(tier) + [TapeJob("circumference", scaling)]
