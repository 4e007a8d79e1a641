"""A machine whose readings are an exactly linear function of corrector kicks and cavity frequencies, with losses chosen by the explorer; used for the
procedures that measure responses.  Every change of the machine between two injections is recorded."""
import numpy as np
import at
from mc import lib, env, beamsim as b

A = np.array
BPMS = (2, 5, 9)
HCM = (1, 4, 8, 10)
VCM = (1, 8, 10)
RF = (7, 11)


@lib.cached
def line():
    d = lambda n: at.Drift(n, 0.3)
    cav = lambda f: at.RFCavity("CAV", 0.0, 1e6, f, 31, lib.E0, PassMethod="RFCavityPass")
    return lib.ring_of([d("D0"), lib.corrector("CM"), at.Monitor("BPM"), d("D1"), at.Quadrupole("Q", 0.5, 0.8), at.Monitor("BPM"), d("D2"), cav(5e8), lib.corrector("CM"), at.Monitor("BPM"),
                        at.Sextupole("S", 0.25, 3.0, PassMethod="StrMPoleSymplectic4Pass"), cav(1.5e9), d("D3")])


def coefficient(*i):
    return 3 * np.sin(1.3 + sum((1.7 + 0.61 * n) * (v + 1) for n, v in enumerate(i)))


class Plant:
    scale = 1.0         # of all slopes

    def __init__(self, turns=1, mode="TBT", loss=None, limit=1e3, start=True):
        from pySC.core.simulated_commissioning import SimulatedCommissioning
        line()
        self.sc = sc = SimulatedCommissioning(lib._cache[("line",)])
        sc.register_bpms(A(BPMS))
        sc.register_magnets(A(HCM), HCM=limit)
        sc.register_magnets(A(VCM), VCM=limit)
        sc.register_cavities(A(RF))
        sc.RING[1].Marked = True
        if start:
            for k, i in enumerate(HCM):
                sc.set_cm_setpoints(i, 1e-4 * (k + 1), skewness=False)
            for k, i in enumerate(VCM):
                sc.set_cm_setpoints(i, -2e-4 * (k + 1), skewness=True)
            for k, i in enumerate(RF):
                sc.set_cavity_setpoints(i, 120.0 * (k + 1), "Frequency", method="add")
        sc.INJ.trackMode = mode
        sc.INJ.nTurns = turns
        self.turns, self.loss = turns, loss or (lambda k: None)
        self.full = turns * len(BPMS)
        self.settings = []
        self.zero = self.now()
        self.state0 = lib.snap(sc)

        def true(shot, p, ref, t):
            if ref not in BPMS:
                return (0.0, 0.0)
            n = t * len(BPMS) + BPMS.index(ref)
            if self.reach is not None and n >= self.reach:
                return None
            return self.position(0, t, BPMS.index(ref)), self.position(1, t, BPMS.index(ref))
        beam = b.Beam(true)

        def note():
            k = len(self.settings)
            self.settings.append(self.now())
            self.reach = self.loss(k)
            lib.need(np.all(np.isfinite(self.settings[-1])), "machine set to values that are not numbers")
            self.delta = self.settings[-1] - self.zero

        def track(*a):
            note()
            return beam.track(*a)

        def orbit(*a):
            note()
            return beam.orbit(*a)
        self.handlers = dict(track=track, orbit=orbit)

    def now(self):
        sc = self.sc
        return np.concatenate((sc.get_cm_setpoints(A(HCM), skewness=False), sc.get_cm_setpoints(A(VCM), skewness=True), [float(sc.RING[i].FrequencySetPoint) for i in RF]))

    @staticmethod
    def column(kind, o):
        return {"H": 0, "V": len(HCM), "F": len(HCM) + len(VCM)}[kind] + {"H": HCM, "V": VCM, "F": RF}[kind].index(o)

    def slope(self, plane, t, i, col):
        """change of reading per change of setting"""
        f = 1e-7 if col >= len(HCM) + len(VCM) else 1.0
        return self.scale * f * coefficient(plane, t, i, col)

    def position(self, plane, t, i):
        return 1e-4 * coefficient(plane, t, i, 77) + sum(self.slope(plane, t, i, c) * d for c, d in enumerate(self.delta) if d)

    def expected(self, bpms, cols):
        """matrix of slopes: rows plane, turn, BPM in the machine's order"""
        ks = [BPMS.index(i) for i in sorted(bpms)]
        return A([[self.slope(p, t, k, c) for c in cols] for p in (0, 1) for t in range(self.turns) for k in ks])

    def run(self, fn, *a, **kw):
        with env.seams(rng_source=env.zeros_source, **self.handlers):
            return lib.call(fn, self.sc, *a, **kw)

    def same(self, what, ign=None, settings=True):
        bad = lib.differences(lib.live(self.sc), self.state0, ign or (lambda k: False), rtol=1e-11, atol=1e-15)
        lib.need(not bad, f"{what}: {bad}")
