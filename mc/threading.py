"""A small beam line with correctors and BPMs whose reading at every injection is an answer of the explorer (how far the beam gets, where it is)."""
import numpy as np
import at
from mc import lib, env, beamsim as b, world as w

A = np.array
BPMS = (2, 5, 8)
HCM = (1, 4, 7, 10)
VCM = (1, 7, 9)
RF = (11, 13)


@lib.cached
def line():
    d = lambda n: at.Drift(n, 0.3)
    return lib.ring_of([d("D0"), lib.corrector("CM"), at.Monitor("BPM"), d("D1"), at.Quadrupole("Q", 0.5, 0.8), at.Monitor("BPM"), d("D2"), lib.corrector("CM"), at.Monitor("BPM"),
                        at.Quadrupole("Q", 0.4, -0.7), lib.corrector("CM"), at.RFCavity("CAV", 0.0, 1e6, 5e8, 31, lib.E0, PassMethod="RFCavityPass"), d("D3"), at.RFCavity("CAV", 0.0, 5e5, 5e8, 31, lib.E0, PassMethod="RFCavityPass")])


def frequencies(sc):
    return tuple(float(sc.RING[i].FrequencySetPoint) for i in RF)


class Line:
    """reach(k): number of readings (turn by turn, BPM by BPM) the beam reaches at injection k; xy(k, i, t): position"""

    def __init__(self, turns, reach, xy=None, mode="TBT"):
        from pySC.core.simulated_commissioning import SimulatedCommissioning
        line()
        self.sc = sc = SimulatedCommissioning(lib._cache[("line",)])
        sc.register_bpms(A(BPMS))
        sc.register_magnets(A(HCM), HCM=1e3)
        sc.register_magnets(A(VCM), VCM=1e3)
        sc.register_cavities(A(RF))
        sc.RING[1].Marked = True
        for k, i in enumerate(HCM):
            sc.set_cm_setpoints(i, 1e-4 * (k + 1), skewness=False)
        for k, i in enumerate(VCM):
            sc.set_cm_setpoints(i, -2e-4 * (k + 1), skewness=True)
        sc.INJ.trackMode = mode
        sc.INJ.nTurns = turns
        self.turns, self.reach, self.xy = turns, reach, xy or self.default_xy
        self.state0 = lib.snap(sc)
        self.history = []        # per injection: dict(reach, cms)

        def true(shot, p, ref, t):
            k = len(self.history) - 1
            if ref not in BPMS:
                return (0.0, 0.0)
            n = t * len(BPMS) + BPMS.index(ref)
            return self.xy(k, BPMS.index(ref), t) if n < self.history[-1]["reach"] else None
        beam = b.Beam(true)

        def note():
            cms = (sc.get_cm_setpoints(A(HCM), skewness=False), sc.get_cm_setpoints(A(VCM), skewness=True))
            lib.need(np.all(np.isfinite(cms[0])) and np.all(np.isfinite(cms[1])), "corrector set to a value that is not a number")
            self.history.append(dict(reach=self.reach(len(self.history)), cms=cms, freq=frequencies(sc)))

        def track(*a):
            note()
            return beam.track(*a)

        def orbit(*a):
            note()
            return beam.orbit(*a)
        self.track, self.orbit = track, orbit

    @staticmethod
    def default_xy(k, i, t):
        return 1e-4 * (1 + 0.3 * i - 0.2 * t + 0.05 * (k % 7)), -1e-4 * (0.5 - 0.2 * i + 0.1 * t + 0.03 * (k % 5))

    def run(self, fn, *a, **kw):
        """(outcome, exception)"""
        with env.seams(rng_source=env.zeros_source, track=self.track, orbit=self.orbit):
            try:
                out = lib.call(fn, self.sc, *a, **kw)
            except (RuntimeError, ValueError) as e:
                return None, e
        lib.need(out is self.sc, "the corrected machine must be returned")
        return out, None

    def seen(self, k, bpms):
        """flags of requested readings that injection k delivered, in order (turn, BPM)"""
        return A([t * len(BPMS) + BPMS.index(i) < self.history[k]["reach"] for t in range(self.turns) for i in bpms])

    def reading(self, k, bpms):
        out = A([[self.xy(k, BPMS.index(i), t)[d] for t in range(self.turns) for i in bpms] for d in (0, 1)])
        out[:, ~self.seen(k, bpms)] = np.nan
        return out

    def frame(self, what, cavities=False):
        """only corrector setpoints (and what follows from them) may have changed"""
        def ign(k):
            if k[0] != "RING" or len(k) != 3:
                return False
            if k[1] in HCM and k[2] in ("SetPointB", "PolynomB", "KickAngle"):
                return True
            if k[1] in VCM and k[2] in ("SetPointA", "PolynomA", "KickAngle"):
                return True
            return cavities and k[1] in RF and k[2] in ("FrequencySetPoint", "Frequency")
        bad = lib.differences(lib.live(self.sc), self.state0, ign)
        lib.need(not bad, f"{what}: {bad}")

    def final(self):
        return (self.sc.get_cm_setpoints(A(HCM), skewness=False), self.sc.get_cm_setpoints(A(VCM), skewness=True))


def matrix(rows, cols, seed=0):
    """well-conditioned response with distinct entries"""
    r = A([[np.sin(1.7 * i + 2.9 * j + 0.3 * i * j + seed) for j in range(cols)] for i in range(rows)]) * 3
    return r
