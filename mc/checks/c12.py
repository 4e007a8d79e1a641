"""All short histories of operations before and after a deep copy, on the original or the copy: the user's input lattice, both design lattices and
the other machine must keep every value, and writing in place into every mutable value of one object must not show up in any other.  All wrappers
and model functions are run on all lattice states of the alphabet with their arguments compared before and after."""
import copy

import numpy as np
import at
from mc import lib, env, world as w
from mc.core import TapeJob, Skip, Violation

A = np.array
QF, BCF, SF, CM, BM, BC, QD = 2, 5, 7, 8, 10, 11, 15


def have(kind, n=1):
    return lambda sc: len(np.ravel(sc.ORD[kind])) >= n


def reg_mag(sc):
    sc.register_magnets(A([QF, QD]), HCM=1e-3, VCM=1e-3, CalErrorB=A([0.1, 0.1]), MagnetOffset=A([1e-4, 1e-4, 0]), MagnetRoll=[A([1e-3, 0, 0]), 2])


def reg_cf(sc):
    sc.register_magnets(A([BCF]), CF=True, HCM=1e-2, BendingAngle=1e-3)
    sc.register_magnets(A([BM]), MasterOf=A([[BC]]), CalErrorB=A([0.0, 0.2]))
    sc.register_magnets(A([SF]), SkewQuad=0.1)


def reg_bpm(sc):
    sc.register_bpms(A([3, 12, 16]), Offset=A([1e-4, 1e-4]), Noise=A([1e-5, 1e-5]), NoiseCO=A([1e-5, 1e-5]), Roll=1e-3)


def reg_rf(sc):
    sc.register_cavities(A([0, 13]), VoltageOffset=1e3, TimeLagCalError=1e-3)


def reg_sup(sc):
    sc.register_supports(A([[1, 9], [4, 14]]), "Girder", Offset=A([1e-4, 1e-4, 1e-5]), Roll=A([1e-3, 0, 0]))
    sc.register_supports(A([[14], [1]]), "Section", Offset=[A([[1e-4, 1e-4, 1e-5], [2e-4, 2e-4, 1e-5]]), 3])


def sig(sc):
    sc.SIG.Circumference = 1e-4
    sc.SIG.staticInjectionZ = 1e-4 * np.ones(6)
    sc.SIG.randomInjectionZ = 1e-5 * np.ones(6)


def inj(sc):
    sc.INJ.Z0[0] += 1e-4
    sc.INJ.Z0ideal[2] = 1e-5
    sc.INJ.beamSize[0, 0] = 1e-8
    sc.INJ.nParticles = 3
    sc.INJ.nTurns = 2


def errors(sc):
    sc.apply_errors()


def multipoles(sc):
    ab = A([[0, 1], [0, 0], [1e-2, 2e-2]], dtype=float)
    sc.set_systematic_multipole_errors(sc.ORD.Magnet, ab, 1, False)
    sc.set_random_multipole_errors(sc.ORD.Magnet, ab)
    sc.update_magnets()


def cms(sc):
    sc.set_cm_setpoints(sc.ORD.HCM, 1e-5, skewness=False, method="add")
    sc.set_cm_setpoints(sc.ORD.HCM, 2e-5, skewness=True)


def quads(sc):
    sc.set_magnet_setpoints(sc.ORD.Magnet, 1.1, skewness=False, order=1, method="rel", dipole_compensation=True)


def cavs(sc):
    sc.set_cavity_setpoints(sc.ORD.RF, 1e3, "Frequency", method="add")


def supports(sc):
    sc.update_supports()


def reading(sc):
    from pySC.core.beam import bpm_reading, all_elements_reading, beam_transmission
    bpm_reading(sc)
    bpm_reading(sc, A([12]), calculate_errors=True)
    all_elements_reading(sc)
    beam_transmission(sc)


def models(sc):
    from pySC.lattice_properties import response_model as rm
    rm.SCgetModelRING(sc)
    rm.SCgetModelRING(sc, includeAperture=True)
    rm.SCgetModelRM(sc, sc.ORD.BPM, [sc.ORD.HCM, sc.ORD.HCM], useIdealRing=False)
    rm.SCgetModelRM(sc, sc.ORD.BPM, [sc.ORD.HCM, sc.ORD.HCM], useIdealRing=True, nTurns=2)
    if len(sc.ORD.RF):
        rm.SCgetModelDispersion(sc, sc.ORD.BPM, sc.ORD.RF, trackMode="TBT", useIdealRing=False)
        rm.SCgetModelDispersion(sc, sc.ORD.BPM, sc.ORD.RF, trackMode="TBT")


def apertures(sc):
    sc.RING[QF].EApertures = A([1e-2, 1e-2])
    sc.RING[9].RApertures = A([-1e-2, 1e-2, -1e-2, 1e-2])


def rf_rad(sc):
    from pySC.core.lattice_setting import switch_cavity_and_radiation
    sc.RING = switch_cavity_and_radiation(sc.RING, "cavityoff", "radiationoff")


def verify(sc):
    if any(len(np.ravel(sc.ORD[k])) for k in ("Section", "Plinth")) and not len(np.ravel(sc.ORD["Girder"])):
        raise Skip()
    sc.verify_structure()


OPS = [("magnets", reg_mag, None), ("split and combined magnets", reg_cf, None), ("BPMs", reg_bpm, None), ("cavities", reg_rf, None), ("supports", reg_sup, None), ("sigmas", sig, None),
       ("injection", inj, None), ("apertures", apertures, None), ("errors", errors, None), ("multipoles", multipoles, have("Magnet")), ("correctors", cms, have("HCM")), ("quadrupoles", quads, have("Magnet")), ("cavity", cavs, have("RF")),
       ("update supports", supports, None), ("reading", reading, have("BPM")), ("model", models, lambda sc: have("BPM")(sc) and have("HCM")(sc)), ("verify", verify, None), ("switch off", rf_rad, None)]
PURE = ("reading", "model", "verify")


def mutables(sc, ring_only=False):
    """every mutable leaf reachable from a machine: (name, array-like)"""
    flat = lib.live(sc) if not ring_only else None
    out = []

    def walk(k, v):
        if isinstance(v, np.ndarray) and v.size and v.dtype.kind in "fiu":
            out.append((k, v))
        elif isinstance(v, dict):
            for q in list(v):
                walk(k + (q,), v[q])
        elif isinstance(v, list):
            for n, q in enumerate(v):
                walk(k + (n,), q)
    for k, v in flat.items():
        walk(k, v)
    return out


def lattice_mutables(lat):
    return [((i, k), v) for i, e in enumerate(lat) for k, v in vars(e).items() if isinstance(v, np.ndarray) and v.size and v.dtype.kind in "fiu"]


class Many:
    """everything whose values are watched"""

    def __init__(self):
        from pySC.core.simulated_commissioning import SimulatedCommissioning
        lib.small_ring()
        self.input = lib._cache[("small_ring",)]
        self.machines = {"original": SimulatedCommissioning(self.input)}
        self.design = lib.snap_lattice(self.machines["original"].IDEALRING)
        lib.need_lattice(self.machines["original"].IDEALRING, REF[0], "stored design lattice differs from the input")
        self.other = None

    def do(self, side, op):
        name, fn, pre = op
        sc = self.machines[side]
        if pre and not pre(sc):
            raise Skip()
        watch = {k: lib.snap(m) for k, m in self.machines.items() if k != side or name in PURE}
        with env.seams(rng_source=lambda n: np.full(n, 0.6)):
            fn(sc)
        for k, b in watch.items():
            lib.need_state(self.machines[k], b, f"{name} on the {side} changed the {k}", rtol=0, atol=0)
        self.designs(f"{name} on the {side}")

    def designs(self, what):
        lib.need_lattice(self.input, REF[0], f"{what} changed the user's input lattice", rtol=0, atol=0)
        for k, m in self.machines.items():
            lib.need_lattice(m.IDEALRING, self.design, f"{what} changed the design lattice of the {k}", rtol=0, atol=0)

    def copy(self):
        sc = self.machines["original"]
        before = lib.snap(sc)
        new = sc.very_deep_copy()
        lib.need_state(sc, before, "copying changed the original", rtol=0, atol=0)
        lib.need_state(new, before, "the copy differs from the original", rtol=0, atol=0)
        self.machines["copy"] = new

    def scribble(self, side):
        """write into everything one machine holds (except its design lattice), look at all the others, restore"""
        sc = self.machines[side]
        others = {k: lib.snap(m) for k, m in self.machines.items() if k != side}
        todo = [(k, v) for k, v in mutables(sc) if k[0] != "IDEALRING"]
        saved = [v.copy() for _, v in todo]
        for _, v in todo:
            v += 1
        try:
            self.designs(f"writing in place into the {side}")
            for k, b in others.items():
                lib.need_state(self.machines[k], b, f"writing in place into the {side} changed the {k}", rtol=0, atol=0)
        finally:
            for (_, v), s in zip(todo, saved):
                v[...] = s

    def scribble_design(self, side):
        sc = self.machines[side]
        todo = lattice_mutables(sc.IDEALRING)
        saved = [v.copy() for _, v in todo]
        watch = {k: lib.snap(m, ideal=False) for k, m in self.machines.items()}
        ideals = {k: lib.snap_lattice(m.IDEALRING) for k, m in self.machines.items() if k != side}
        for _, v in todo:
            v += 1
        try:
            for k, m in self.machines.items():
                lib.need(not lib.differences(lib.live(m, ideal=False), watch[k], rtol=0, atol=0), f"the design lattice of the {side} shares values with the {k}")
                if k != side:
                    lib.need_lattice(m.IDEALRING, ideals[k], f"the design lattices of the {side} and the {k} share values")
            lib.need_lattice(self.input, REF[0], f"the design lattice of the {side} shares values with the input")
        finally:
            for (_, v), s in zip(todo, saved):
                v[...] = s


REF = []


def body(start, pre, post):
    def run(t):
        if not REF:
            lib.small_ring()
            REF.append(lib.snap_lattice(lib._cache[("small_ring",)]))
        m = Many()
        names = []
        if start == "everything":
            for k in range(7):
                m.do("original", OPS[k])
        for k in range(pre):
            op = t.choose([None] + OPS, f"before the copy {k + 1}")
            if op is None:
                if k + 1 < pre:
                    continue        # shorter histories appear once, at the end
                op = ("nothing", lambda sc: None, None)
            m.do("original", op)
            names.append(op[0])
        m.copy()
        m.scribble("original")
        m.scribble("copy")
        m.scribble_design("copy")
        for k in range(post):
            side = t.choose(("original", "copy"), "side")
            op = t.choose(OPS, f"after the copy {k + 1}")
            m.do(side, op)
            names.append((side, op[0]))
        m.scribble("original")
        m.scribble("copy")
        m.scribble_design("original")
        return tuple(names)
    return run


def shared(t):
    """lattices in which one element object appears several times: setting one position must not move the others; nor the user's elements"""
    from pySC.core.simulated_commissioning import SimulatedCommissioning
    q, d, c, b, cav = at.Quadrupole("Q", 0.4, 1.0), at.Drift("D", 0.3), lib.corrector("C"), at.Monitor("BPM"), at.RFCavity("CAV", 0.0, 1e6, 5e8, 31, lib.E0, PassMethod="RFCavityPass")
    ring = lib.ring_of([q, d, c, b, cav, q, d, c, b, cav])
    before = lib.snap_lattice(ring)
    sc = SimulatedCommissioning(ring)
    kind = t.choose(("magnet", "corrector", "cavity", "bpm", "error"), "what")
    second = t.choose((0, 5), "which")
    copied = t.choose((False, True), "copied")
    sc.register_magnets(A([0, 5]), HCM=1, MagnetOffset=1e-4 * np.ones(3))
    sc.register_magnets(A([2, 7]), HCM=1, VCM=1)
    sc.register_cavities(A([4, 9]), VoltageOffset=1e3)
    sc.register_bpms(A([3, 8]), Offset=A([1e-4, 1e-4]))
    if copied:
        sc = sc.very_deep_copy()
    state = lib.snap(sc)
    base = dict(magnet=0, corrector=2, cavity=4, bpm=3, error=0)[kind] + second
    if kind == "magnet":
        sc.set_magnet_setpoints(base, 0.5, skewness=False, order=1)
    elif kind == "corrector":
        sc.set_cm_setpoints(base, 1e-4, skewness=True)
    elif kind == "cavity":
        sc.set_cavity_setpoints(base, 2e6, "Voltage")
    elif kind == "bpm":
        sc.RING[base].Offset[0] = 1e-3
    else:
        sc.RING[base].MagnetOffset[0] = 1e-3
        sc.update_supports()
    bad = lib.differences(lib.live(sc), state, ignore=lambda k: k[0] == "RING" and (k[1] == base or (kind == "error" and k[-1] in ("R1", "R2", "T1", "T2", "SupportOffset", "SupportRoll"))))
    lib.need(not bad, f"changing {kind} at {base} changed others: {bad}")
    lib.need_lattice(ring, before, "user's lattice", rtol=0, atol=0)
    return (kind, base, copied)


def lattice_states():
    def plain(r):
        return r

    def six(r):
        r.enable_6d()
        return r

    def misaligned(r):
        r[QF].T1, r[QF].T2 = A([1e-4, 0, -1e-4, 0, 0, 0]), A([-1e-4, 0, 1e-4, 0, 0, 0])
        r[QF].R1, r[QF].R2 = np.eye(6), np.eye(6)
        return r

    def loss(r):
        r[9].RApertures = A([-1e-6, 1e-6, -1e-6, 1e-6])
        return r
    return {"plain": plain, "6d": six, "misaligned": misaligned, "loss": loss}


def wrappers(t):
    from pySC.utils import at_wrapper as aw, sc_tools
    from pySC.lattice_properties.response_model import orbpass
    states = lattice_states()
    st = t.choose(tuple(states), "lattice")
    ring = states[st](lib.small_ring())
    n = t.choose((1, 2, 3), "particles")
    z = np.asfortranarray(A([[1e-4 * (k + 1), 0, -1e-4 * k, 1e-5, 1e-4, 0] for k in range(n)]).T)
    if t.choose((False, True), "C order"):
        z = np.ascontiguousarray(z)
    refs = t.choose([A([3, 12, 16]), A([18]), A([0]), np.arange(19)], "points")
    fn = t.choose(("lattice_track", "lattice_track turns", "lattice_track mp", "findorbit6", "findorbit4", "findspos", "atgetfieldvalues", "atlinopt", "orbpass", "ords_from_regex"), "function")
    before = lib.snap_lattice(ring)
    zb = z.copy()
    if fn.startswith("lattice_track"):
        turns = 3 if "turns" in fn else 1
        out = lib.call(aw.lattice_track, ring, z, turns, refs, **(dict(use_mp=True) if "mp" in fn and n > 1 else {}))
        direct = env.tracker.real(lattice=ring.deepcopy(), r_in=np.asfortranarray(z.copy()), nturns=turns, refpts=refs)[0]
        lib.need_close(out, direct, f"{fn} {st}", rtol=1e-9, atol=1e-14)
    elif fn == "findorbit6":
        if st == "loss":
            raise Skip()
        o = lib.call(aw.findorbit6, ring, refs)
        d = env.orbiter.real(ring.deepcopy(), refs)
        lib.need_close(o[1], d[1], f"{fn} {st}", rtol=1e-7, atol=1e-12)
    elif fn == "findorbit4":
        if st in ("6d", "loss"):
            raise Skip()
        ring.disable_6d()
        before = lib.snap_lattice(ring)
        o = lib.call(aw.findorbit4, ring, 0.0, refs)
        lib.need_close(o[1], at.find_orbit4(ring.deepcopy(), dp=0.0, refpts=refs)[1], f"{fn} {st}", rtol=1e-7, atol=1e-12)
    elif fn == "findspos":
        lib.need_close(lib.call(aw.findspos, ring), np.concatenate(([0], np.cumsum([getattr(e, "Length", 0.0) for e in ring]))), fn, rtol=1e-12)
    elif fn == "atgetfieldvalues":
        lib.need_close(lib.call(aw.atgetfieldvalues, ring, A([QF, QD, SF]), "PolynomB", 1), A([1.2, -1.1, 0.0]), fn)
    elif fn == "atlinopt":
        if st == "loss":
            raise Skip()
        ring = lib.fodo(1)
        if st == "6d":
            ring.enable_6d()
        elif st == "misaligned":
            ring[0].T1, ring[0].T2 = A([1e-4, 0, -1e-4, 0, 0, 0]), A([-1e-4, 0, 1e-4, 0, 0, 0])
        before = lib.snap_lattice(ring)
        o = lib.call(aw.atlinopt, ring, refpts=A([1, 9]))
        lib.need_close(o[1].tune, at.get_optics(ring.deepcopy(), refpts=A([1, 9]))[1].tune, "tunes", rtol=1e-9)
    elif fn == "orbpass":
        if st == "loss":
            raise Skip()
        lib.call(orbpass, ring, np.zeros(6), 1, refs)
    else:
        lib.need(list(lib.call(sc_tools.ords_from_regex, ring, "^Q")) == [QF, QD], "ordinates of ^Q")
    lib.need_lattice(ring, before, f"{fn} changed the lattice", rtol=0, atol=0)
    lib.need(np.array_equal(z, zb), f"{fn} changed the coordinates")
    return (st, n, len(refs), fn)


def jobs(tier):
    q = tier == "quick"
    jobs = [TapeJob("pairs before the copy", body("nothing", 2, 0 if q else 1), shards=16, depth=2), TapeJob("copy of a full machine", body("everything", 1, 1), shards=16, depth=2),
            TapeJob("copy of an empty machine", body("nothing", 1, 1), shards=8, depth=2),
            TapeJob("repeated elements", shared), TapeJob("wrappers", wrappers, shards=8, depth=3)]
    if not q:
        jobs += [TapeJob("two before", body("everything", 2, 1), shards=24, depth=2), TapeJob("two after", body("everything", 0, 2), shards=24, depth=2)]
    return jobs
