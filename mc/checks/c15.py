"""Every measuring procedure on one machine away from its nominal settings, for all patterns of lost injections up to a bound (any injection, any kind of
loss): whatever the procedure returns or raises, all settings, injected trajectory and tracking configuration are those from before (only the documented
correction may have been made)."""
import numpy as np
import at
from mc import lib, env, beamsim as b
from mc.core import TapeJob, Skip

A = np.array
BPM = (2, 5, 9)
HCM, VCM = (1, 4, 8), (1, 8)
QUAD = (4, 11, 12)          # 4: combined-function bend used as corrector
RF = (7, 10)
SKEW = 11
C = 299792458.0


@lib.cached
def line():
    d = lambda n: at.Drift(n, 0.3)
    cav = lambda f: at.RFCavity("CAV", 0.0, 1e6, f, 31, lib.E0, PassMethod="RFCavityPass", TimeLag=0.05)
    return lib.ring_of([d("D0"), lib.corrector("CM"), at.Monitor("BPM"), d("D1"), at.Bend("BCF", 0.5, 0.1, k=0.8, PassMethod="BndMPoleSymplectic4Pass"), at.Monitor("BPM"), d("D2"), cav(5e8), lib.corrector("CM"),
                        at.Monitor("BPM"), cav(5e8), at.Quadrupole("QF", 0.25, 1.3), at.Quadrupole("QD", 0.25, -1.1), d("D3")])


def f(*i):
    return np.sin(1.3 + sum((1.7 + 0.61 * n) * (v + 1) for n, v in enumerate(i)))


LOSS = {"no": None, "not injected": 0, "after one BPM": 1, "one turn": 3, "four turns": 12}


class World:
    def __init__(self, mode, turns, particles, loss, shots=1):
        from pySC.core.simulated_commissioning import SimulatedCommissioning
        from pySC.correction import bba, rf, tune, loco, injection_fit  # noqa: F401  (imported before the random numbers are replaced)
        line()
        self.sc = sc = SimulatedCommissioning(lib._cache[("line",)])
        sc.register_bpms(A(BPM))
        sc.register_magnets(A(QUAD))
        sc.register_magnets(A(HCM), HCM=1.0)
        sc.register_magnets(A(VCM), VCM=1.0)
        sc.register_magnets(A([SKEW]), SkewQuad=0.5)
        sc.register_magnets(A([4]), HCM=1.0, CF=True)
        sc.register_cavities(A(RF))
        sc.RING[1].Marked = True
        for k, i in enumerate(HCM):
            sc.set_cm_setpoints(i, 1.1e-4 * (k + 1), skewness=False)
        for k, i in enumerate(VCM):
            sc.set_cm_setpoints(i, -2e-4 * (k + 1), skewness=True)
        for k, i in enumerate(QUAD):
            sc.set_magnet_setpoints(i, 1.01 + 0.01 * k, False, 1, method="rel")
            sc.RING[i].CalErrorB = A([0.0, 0.01 * (k + 1)])
            sc.RING[i].MagnetOffset = A([2e-4, -1e-4, 0.0])
        sc.set_magnet_setpoints(SKEW, 0.02, True, 1)
        for k, i in enumerate(RF):
            sc.RING[i].FrequencyOffset, sc.RING[i].TimeLagOffset = 30.0 * k, 0.01
            sc.set_cavity_setpoints(i, 120.0 * (k + 1), "Frequency", method="add")
            sc.set_cavity_setpoints(i, 0.02 * (k + 1), "TimeLag", method="add")
            sc.set_cavity_setpoints(i, 1.1, "Voltage", method="rel")
        sc.update_magnets()
        sc.update_supports()
        sc.INJ.Z0 = A([3e-4, -1e-4, -2e-4, 1e-4, 1e-3, 1e-2])
        sc.INJ.Z0ideal = A([1e-4, 0, 0, 0, 0, 0.0])
        sc.INJ.beamLostAt = 0.6
        sc.INJ.nParticles = particles
        sc.INJ.nShots = shots
        sc.INJ.trackMode = mode
        sc.INJ.nTurns = turns
        self.state0 = lib.snap(sc)
        self.shots = 0
        self.frf = [float(sc.RING[i].FrequencySetPoint) for i in RF]

        def true(shot, p, ref, t):
            n = t * len(BPM) + (BPM.index(ref) if ref in BPM else int(np.sum(A(BPM) < ref)) - 1)
            if self.reach is not None and n >= self.reach:
                return None
            k = BPM.index(ref) if ref in BPM else 5
            return self.position(0, k, t), self.position(1, k, t)
        beam = b.Beam(true)

        def note():
            self.reach = loss(self.shots)
            self.shots += 1

        def track(*a):
            note()
            return beam.track(*a)

        def orbit(*a):
            note()
            return beam.orbit(*a)
        self.handlers = dict(track=track, orbit=orbit)

    def position(self, plane, k, t):
        """some smooth dependence on everything that can be set (the injected coordinates are added by tracking)"""
        sc = self.sc
        x = 1e-4 * f(plane, k, 9)
        for i in (HCM, VCM)[plane]:
            if t == 0 and k < len(BPM) and i > BPM[k]:
                continue        # not seen in the first turn
            x += f(plane, k, t, i) * float(sc.get_cm_setpoints(i, skewness=bool(plane))[0])
        for n, i in enumerate(QUAD):
            x += f(plane, k, i, t) * sc.RING[i].PolynomB[1] * (sc.INJ.Z0[2 * plane] - 2e-4 * f(n, 3)) + f(plane, i, k, t) * sc.RING[i].PolynomA[1] * sc.INJ.Z0[2 - 2 * plane]
        if plane == 0:
            el = sc.RING[RF[0]]
            x += t * (1e-5 * np.sin(2 * np.pi * el.TimeLagSetPoint / 0.6 + 0.4) + 2e-8 * (el.FrequencySetPoint - self.frf[0] - 200.0))
        return x

    def same(self, what, ign=lambda k: False):
        bad = lib.differences(lib.live(self.sc), self.state0, ign, rtol=1e-11, atol=1e-15)
        lib.need(not bad, f"{what}: {bad}")


def resp(mode, n, bpms=BPM):
    def go(sc):
        from pySC.lattice_properties.response_measurement import response_matrix
        response_matrix(sc, 2e-5, A(bpms), [A(HCM), A(VCM)], mode=mode, n_steps=n)
    return go


def disp(n):
    def go(sc):
        from pySC.lattice_properties.response_measurement import dispersion
        dispersion(sc, 300.0, n_steps=n)
    return go


def locor(sc):
    from pySC.correction.loco import measure_closed_orbit_response_matrix
    measure_closed_orbit_response_matrix(sc, A(BPM), [A(HCM), A(VCM)])


def bba(skew, phase, planes=2, compensation=True, mags=(11, 12)):
    def go(sc):
        from pySC.correction.bba import trajectory_bba
        kw = dict(n_steps=3, dipole_compensation=compensation)
        if phase:
            kw.update(q_ord_phase=A([4, 12]), q_ord_setpoints=A([0.95, 1.03]))
        if skew:
            kw.update(skewness=True, setpoint_method="add", magnet_strengths=A([-0.1, 0.1]))
        trajectory_bba(sc, np.tile(A([5, 9]), (planes, 1)), np.tile(A(mags), (planes, 1)), **kw)
    return go


def rf(name, cavs=None):
    def go(sc):
        from pySC.correction import rf as m
        kw = dict(n_steps=7) if name == "correct_rf_phase" else dict(n_steps=6)
        if cavs:
            kw["cav_ords"] = A(cavs)
        getattr(m, name)(sc, **kw)
    return go


def scan(full):
    def go(sc):
        from pySC.correction.tune import tune_scan
        tune_scan(sc, [A([4, 11]), A([12])], [A([0.98, 1.0, 1.03]), A([0.97, 1.0, 1.02])], target=0.9, n_points=5, full_scan=full, nTurns=2, nParticles=4)
    return go


def transmission(sc):
    from pySC.core.beam import beam_transmission
    beam_transmission(sc, nParticles=5, nTurns=3)
    beam_transmission(sc)


def readings(sc):
    from pySC.core.beam import bpm_reading, all_elements_reading
    bpm_reading(sc)
    bpm_reading(sc, bpm_ords=A([9, 2]), calculate_errors=True)
    all_elements_reading(sc)


def drift(sc):
    from pySC.correction.injection_fit import fit_injection_drift
    fit_injection_drift(sc)


def reported(sc):
    from pySC.correction.rf import phase_and_energy_error
    phase_and_energy_error(sc, A(RF))


def offsets(k):
    return k[0] == "RING" and len(k) == 3 and k[1] in (5, 9) and k[2] == "Offset"


def cavity(field, cavs):
    return lambda k: k[0] == "RING" and len(k) == 3 and k[1] in cavs and k[2] in (field, field + "SetPoint")


def quads(k):
    return k[0] == "RING" and len(k) == 3 and k[1] in (4, 11, 12) and k[2] in ("SetPointB", "PolynomB")


TBT, ANY = (("TBT", 2),), (("TBT", 2), ("TBT", 1), ("ORB", 1), ("PORB", 2))
# name -> (procedure, modes and turns, what a documented correction may change)
PROC = {
    "response fixedKick 2": (resp("fixedKick", 2), ANY[:3], None), "response fixedKick 3": (resp("fixedKick", 3), ANY[:3], None), "response fixedOffset": (resp("fixedOffset", 2), ANY[:3], None),
    "response upstream": (resp("fixedKick", 2, BPM[:2]), ANY[1:2], None),
    "dispersion 2": (disp(2), ANY[:3], None), "dispersion 3": (disp(3), ANY[:3], None), "LOCO response": (locor, ANY, None),
    "alignment": (bba(False, False), TBT, offsets), "alignment phase scan": (bba(False, True), TBT, offsets), "alignment skew": (bba(True, False), TBT, offsets),
    "alignment bend": (bba(False, True, mags=(11, 4)), TBT, offsets), "alignment no compensation": (bba(False, False, planes=1, compensation=False, mags=(11, 4)), TBT, offsets),
    "RF phase": (rf("correct_rf_phase"), (("TBT", 5),), cavity("TimeLag", RF)), "RF frequency": (rf("correct_rf_frequency"), (("TBT", 5),), cavity("Frequency", RF)),
    "RF phase one": (rf("correct_rf_phase", (7,)), (("TBT", 5),), cavity("TimeLag", (7,))), "RF frequency one": (rf("correct_rf_frequency", (7,)), (("TBT", 4),), cavity("Frequency", (7,))),
    "RF phase unsuitable": (rf("correct_rf_phase"), (("ORB", 1), ("TBT", 2), ("PORB", 5)), lambda k: "never"), "RF frequency unsuitable": (rf("correct_rf_frequency"), (("ORB", 1), ("TBT", 2), ("PORB", 5)), None),
    "tune scan": (scan(False), TBT, quads), "full tune scan": (scan(True), TBT, quads), "transmission": (transmission, ANY[:2] + ANY[3:], None), "readings": (readings, ANY, None), "injection drift": (drift, TBT, None),
    "phase error": (reported, (("ORB", 1),), None)}
PROC["RF phase unsuitable"] = (PROC["RF phase unsuitable"][0], PROC["RF phase unsuitable"][1], None)


def body(ninj, kinds, blocks):
    def run(t):
        name = t.choose(tuple(PROC), "procedure")
        fn, modes, allowed = PROC[name]
        mode, turns = t.choose(modes, "mode")
        shots = 1 if mode == "ORB" else t.choose((1, 2), "shots", dev=True)
        if blocks:       # from some injection on (for some injections) the beam is lost
            lo = t.choose(ninj, "first lost")
            ln = t.choose((1000, 2, 4), "lost")
            kind = LOSS[t.choose(kinds[1:], "loss")]
            loss = lambda k: kind if lo <= k < lo + ln else None
            pat = (lo, ln, kind)
        else:
            pat = tuple(t.choose(kinds, f"injection {k}", dev=True) for k in range(ninj))
            loss = lambda k: LOSS[pat[k]] if k < ninj else None
        W = World(mode, turns, 1 if mode == "ORB" else 4, loss, shots)
        what = f"{name} ({mode}, {turns} turns, {shots} shots), lost {[(k, x) for k, x in enumerate(pat) if x != 'no'] if not blocks else pat}"
        err = None
        with env.seams(rng_source=env.zeros_source, **W.handlers):
            try:
                fn(W.sc)
            except (RuntimeError, ValueError, AttributeError) as e:
                err = f"{type(e).__name__}: {e}"
        if W.shots == 0 and "unsuitable" not in name and name != "phase error":
            lib.need(False, f"{what}: nothing was measured ({err})")
        if not blocks and all(x == "no" for x in pat):
            if shots == 1 or "RF" not in name:
                lib.need(err is None or "unsuitable" in name, f"{what}: {err}")
        if err is not None or allowed is None:
            W.same(f"{what} ({err or 'returned'})")
        else:
            W.same(what, allowed)
            sc = W.sc       # quantities the correction was allowed to touch are consistent with each other
            for i in RF:
                for p in ("Voltage", "Frequency", "TimeLag"):
                    el = sc.RING[i]
                    lib.need_close(getattr(el, p), getattr(el, p + "SetPoint") * (1 + getattr(el, p + "CalError")) + getattr(el, p + "Offset"), f"{what}: cavity {i} {p}", rtol=1e-12)
        return (name, mode, turns, shots, pat, err)
    return run


def jobs(tier):
    q = tier == "quick"
    K = tuple(LOSS)
    return [TapeJob("single losses", body(14 if q else 40, K, False), max_dev=1 if q else 2, shards=24, depth=2),
            TapeJob("lost for some time", body((0, 1, 2, 3, 4, 5, 6, 8, 10, 13, 17, 22) if q else tuple(range(60)), K if not q else ("no", "not injected", "after one BPM", "one turn"), True), max_dev=0 if q else 1, shards=24, depth=3)]
