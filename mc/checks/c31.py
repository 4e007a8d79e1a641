"""Error ramp with every single (and pair of) beam loss or instability among its measurements: the environment answers the trajectory measurements and observes, at
every measurement, the complete machine; it must be the machine with a common fraction of all errors, fractions increasing by equal steps within one attempt."""
import numpy as np
import at
from mc import lib, env
from mc.core import TapeJob, Skip

A = np.array
CAL = ("CalErrorA", "CalErrorB", "PolynomAOffset", "PolynomBOffset", "MagnetOffset", "MagnetRoll")


@lib.cached
def line():
    d = lambda n: at.Drift(n, 0.4)
    return lib.ring_of([
        at.RFCavity("CAV", 0.0, 1.0e6, 5.0e8, 31, lib.E0, PassMethod="RFCavityPass", TimeLag=0.1),     # 0
        at.Marker("GS", PassMethod="IdentityPass"),                                                    # 1
        at.Quadrupole("QF", 0.3, 1.2), d("D"), at.Monitor("BPM"), lib.corrector("CM"),                 # 2-5
        at.Marker("GE", PassMethod="IdentityPass"), d("D"),                                            # 6, 7
        at.Bend("B", 0.5, 0.1, PassMethod="BndMPoleSymplectic4Pass"), d("D"), at.Sextupole("S", 0.2, 3.0, PassMethod="StrMPoleSymplectic4Pass"),  # 8-10
        at.Quadrupole("QD", 0.3, -1.2), at.Monitor("BPM"), d("D")])                                    # 11-13


def build(kind):
    from pySC.core.simulated_commissioning import SimulatedCommissioning
    line()
    sc = SimulatedCommissioning(lib._cache[("line",)])
    everything = kind != "BPMs"
    sc.register_bpms(A([4, 12]), CalError=A([0.05, 0.04]), Offset=A([1e-4, 2e-4]), Noise=A([1e-5, 2e-5]), NoiseCO=A([1e-6, 2e-6]), Roll=1e-3)
    sc.register_magnets(A([5]), HCM=1.0, VCM=1.0, CalErrorB=A([0.02]), CalErrorA=A([0.03]))
    if everything:
        sc.register_cavities(A([0]), FrequencyOffset=2e3, VoltageOffset=3e3, TimeLagOffset=0.1, VoltageCalError=0.01)
        sc.register_magnets(A([2, 11]), CalErrorB=A([0, 1e-3]), CalErrorA=A([0, 2e-3]), MagnetOffset=1e-4 * A([1, 2, 0.5]), MagnetRoll=1e-4 * A([1, 0.5, 0.3]))
        sc.register_magnets(A([8]), MagnetOffset=2e-4 * A([1, 1, 0]), MagnetRoll=1e-4 * A([1, 0, 0]))
        sc.register_magnets(A([10]), CalErrorB=A([0, 0, 1e-3]))
        sc.register_supports(A([[1], [6]]), "Girder", Offset=1e-4 * A([1, 1, 0]), Roll=1e-4 * A([1, 0, 0]))
        if kind != "no section":
            sc.register_supports(A([[3], [9]]), "Section", Offset=2e-4 * A([1, -1, 0]))
        sc.SIG.staticInjectionZ = A([1e-3, 1e-4, 2e-3, 2e-4, 3e-3, 1e-3])
        sc.SIG.randomInjectionZ = A([1e-4, 1e-5, 2e-4, 2e-5, 3e-4, 1e-4])
        sc.SIG.Circumference = 1e-5
        sc.INJ.beamSize = np.diag(A([1e-4, 1e-5, 1e-4, 1e-5, 1e-4, 1e-4]) ** 2)
        sc.INJ.Z0ideal = A([1e-3, 0, 0, 1e-4, 0, 0])
    else:
        sc.SIG.Circumference = 0.0
    n = [0]

    def draws(k):
        n[0] += k
        return A([0.3 + 0.1 * ((7 * j) % 9) if j % 3 else -0.5 - 0.1 * (j % 5) for j in range(n[0] - k, n[0])])
    with env.seams(rng_source=draws):
        sc.apply_errors()
    if everything:
        sc.RING[8].PolynomBOffset, sc.RING[10].PolynomAOffset = A([1e-3, 2e-3]), A([0, 2e-3, 0])
        sc.update_magnets()
    sc.RING[13].Marked = True
    sc.set_cm_setpoints(A([5]), 2e-4, skewness=False)
    sc.set_cm_setpoints(A([5]), -1e-4, skewness=True)
    sc.INJ.nParticles, sc.INJ.nTurns, sc.INJ.nShots = 1, 1, 1
    return sc


def scaled(full, f):
    """Independent statement of the machine with the fraction f of its errors."""
    sc = full.very_deep_copy()
    g = lambda e, k: setattr(e, k, f * np.asarray(getattr(e, k), dtype=float) if np.ndim(getattr(e, k)) else f * getattr(e, k))
    for i in sc.ORD.Magnet:
        for k in CAL:
            if hasattr(sc.RING[i], k):
                g(sc.RING[i], k)
    for i in sc.ORD.BPM:
        for k in ("Noise", "NoiseCO", "Offset", "Roll", "CalError"):
            g(sc.RING[i], k)
    for i in sc.ORD.RF:
        for p in ("Voltage", "Frequency", "TimeLag"):
            g(sc.RING[i], p + "Offset")
            g(sc.RING[i], p + "CalError")
    for s in ("Girder", "Section", "Plinth"):
        for i in np.unique(sc.ORD[s]):
            for k in ("Offset", "Roll"):
                if hasattr(sc.RING[i], s + k):
                    g(sc.RING[i], s + k)
    c0, c1 = (sum(e.Length for e in r) for r in (sc.IDEALRING, sc.RING))
    drift = sum(e.Length for e in sc.RING if e.PassMethod == "DriftPass")
    for e in sc.RING:
        if e.PassMethod == "DriftPass":
            e.Length *= 1 - (1 - f) * (c1 - c0) / drift
    sc.INJ.Z0 = sc.INJ.Z0ideal + f * (sc.INJ.Z0 - sc.INJ.Z0ideal)
    sc.INJ.randomInjectionZ = f * sc.INJ.randomInjectionZ
    sc.INJ.beamSize = f * sc.INJ.beamSize
    sc.update_supports()
    sc.update_magnets()
    sc.update_cavities()
    return sc


_built = {}
CMF = {("RING", 5, k) for k in ("SetPointA", "SetPointB", "PolynomA", "PolynomB", "KickAngle")}


# derived from the support errors and the lengths at the time; lengths change by 1e-5 at most
DERIVED = ("SupportOffset", "SupportRoll", "T1", "T2", "R1", "R2")


def compare(got, want):
    d = lambda k: k in CMF or k[-1] in DERIVED
    return lib.differences(got, want, d, rtol=1e-9, atol=1e-13) + lib.differences(
        {k: v for k, v in got.items() if k[-1] in DERIVED}, {k: v for k, v in want.items() if k[-1] in DERIVED}, (), rtol=1e-9, atol=3e-9)


def world(kind):
    """Reference machine and the states at all fractions used (built on demand)."""
    if kind not in _built:
        _built[kind] = (build(kind), {})
    return _built[kind]


def at_fraction(kind, num, den):
    full, memo = world(kind)
    k = num / den
    if k not in memo:
        memo[k] = lib.snap(scaled(full, k))
    return memo[k]


class Ramp:
    """Environment: answers trajectory measurements of the machine and checks what is measured."""

    def __init__(self, kind, steps, faults):
        self.kind, self.n, self.faults, self.calls, self.num, self.fracs, self.fresh = kind, steps, dict(faults), 0, 0, [], True
        self.hit, self.seen, self.vary = None, [], False
        full, _ = world(kind)
        self.start = {k: lib.frozen(v) for k, v in lib.live(full).items() if k in CMF}
        self.problem = None

    def state_is(self, lattice, z, num):
        want = at_fraction(self.kind, num, self.n)
        got = {}
        lib.lattice_items("RING", lattice, got)
        w = {k: v for k, v in want.items() if k[0] == "RING" and k[1] != "len"}
        bad = compare(got, w)
        if not lib.same(z, want[("INJ", "Z0")], 1e-9, 1e-13):
            bad = [f"injected at {z.tolist()}, expected {want[('INJ', 'Z0')].tolist()}"] + bad
        return bad

    def track(self, lattice, r_in, nturns, refs):
        if not getattr(lattice[13], "Marked", False):
            return env.tracker.real(lattice=lattice, r_in=r_in, nturns=nturns, refpts=refs, in_place=False)[0]
        r = np.asarray(r_in, dtype=float).reshape(6, -1)
        # same fraction as before, or the next one
        bad = [] if self.vary else self.state_is(lattice, r[:, 0], self.num) if self.num else ["nothing ramped yet"]
        if bad and self.num < self.n:
            bad2 = self.state_is(lattice, r[:, 0], self.num + 1)
            if not bad2:
                self.num += 1
                self.fracs.append((self.num, self.n))
                bad = []
            elif not self.num:
                bad = bad2
        if bad:
            raise lib.Violation(f"measurement {self.calls}: errors are not the fraction {self.num}/{self.n} nor the next one: {bad}")
        if self.fresh and not self.vary:
            got = {}
            lib.lattice_items("RING", lattice, got)
            for k in self.start:
                lib.need(k[2].startswith("Polynom") or k[2] == "KickAngle" or lib.same(got[k], self.start[k]), f"attempt with {self.n} steps starts with corrector {k} {got[k]}, before the ramp {self.start[k]}")
            self.fresh = False
        out = np.zeros((6, 1, len(refs), nturns))
        v = 1e-4 * (1 + len(self.seen) % 3 if self.vary else 1)
        self.seen.append((r[:, 0].copy(), [np.array(getattr(lattice[5], k), dtype=float) for k in ("SetPointA", "SetPointB")]))
        f = self.faults.get(self.calls)
        self.calls += 1
        lib.need(self.calls < 3000, "endless ramp")
        if f == "lost":
            out[0, 0, -1] = np.nan
            self.n, self.num, self.fresh, self.seen = 2 * self.n, 0, True, []
            return out
        out[0, 0], out[2, 0] = v, 0.5 * v
        if f == "unstable":
            self.wobble = True
        return out


def ramp(kinds, ns, maxfaults, span):
    def run(t):
        from pySC.correction.ramp_errors import SCrampUpErrors
        kind = t.choose(kinds, "machine")
        n = t.choose(ns, "steps")
        faults, last = {}, -1
        for _ in range(maxfaults):
            k = t.choose((None,) + tuple(range(last + 1, last + 1 + span)), "lost at measurement", dev=False)
            if k is None:
                break
            faults[k], last = "lost", k
        sc = world(kind)[0].very_deep_copy()
        R = Ramp(kind, n, faults)
        what = f"ramp of {kind} in {n} steps, lost at {sorted(faults)}"
        err, out = None, None
        with env.seams(rng_source=env.zeros_source, track=R.track):
            try:
                out = SCrampUpErrors(sc, nStepsRamp=n, maxsteps=20)
            except lib.Violation as e:
                raise lib.Violation(f"{what}: {e}")
            except Exception as e:  # noqa
                err = e
        used = [k for k in faults if k < R.calls]
        if err is not None:
            lib.need("amping up failed" in str(err) or isinstance(err, RuntimeError) or type(err) is Exception, f"{what}: {type(err).__name__}: {err}")
            lib.need(R.n > 100, f"{what}: gave up although {R.n} steps were still allowed: {err}")
            return ("failed", kind, n, tuple(faults))
        lib.need(R.n <= 100, f"{what}: {R.n} steps")
        lib.need(R.num == R.n, f"{what}: stopped at {R.num}/{R.n}")
        want = dict(at_fraction(kind, 1, 1))
        bad = compare(lib.live(out), want)
        lib.need(not bad, f"{what}: after the ramp {bad}")
        per = [sum(1 for a in R.fracs if a[1] == m) for m in sorted({a[1] for a in R.fracs})]
        return (kind, n, tuple(used), tuple(per))
    return run


def again(lengths, span):
    """an attempt repeated after a failure is the attempt made at once: same options, same start, same corrections"""
    def run(t):
        from pySC.correction.ramp_errors import SCrampUpErrors
        kind = t.choose(("everything", "BPMs"), "machine")
        n = t.choose(lengths, "steps")
        k = t.choose(tuple(range(span)), "lost at measurement")
        kw = {}
        for name, vals in (("alpha", (None, 1.0, 1e3)), ("eps", (None, 1e-9, 1e-3)), ("target", (None, 3e-4)), ("maxsteps", (None, 4, 12))):
            v = t.choose(vals, name)
            if v is not None:
                kw[name] = v
        res = []
        for start, faults in ((n, {k: "lost"}), (2 * n, {})):
            sc = world(kind)[0].very_deep_copy()
            R = Ramp(kind, start, faults)
            R.vary = True
            with env.seams(rng_source=env.zeros_source, track=R.track):
                try:
                    out = lib.call(SCrampUpErrors, sc, nStepsRamp=start, **kw)
                    end = [np.array(getattr(out.RING[5], a), dtype=float) for a in ("SetPointA", "SetPointB")]
                except lib.Violation:
                    raise
                except Exception as e:  # noqa
                    end = type(e).__name__
            if faults and R.n == n:
                raise Skip()        # finished before
            res.append((R.seen, end))
        what = f"ramp of {kind} in {n} steps, {kw}, lost at measurement {k}"
        (s1, e1), (s2, e2) = res
        lib.need(len(s1) == len(s2), f"{what}: the repeated attempt makes {len(s1)} measurements, {2 * n} steps at once {len(s2)}")
        for a, b in zip(s1, s2):
            lib.need(lib.same(a[0], b[0], 1e-9, 1e-13) and all(lib.same(x, y, 1e-7, 1e-11) for x, y in zip(a[1], b[1])), f"{what}: the repeated attempt sets {a}, {2 * n} steps at once {b}")
        lib.need(isinstance(e1, str) == isinstance(e2, str) and (isinstance(e1, str) or all(lib.same(x, y, 1e-7, 1e-11) for x, y in zip(e1, e2))), f"{what}: ends with {e1}, {2 * n} steps at once with {e2}")
        return (kind, n, k, tuple(sorted(kw.items())), len(s1))
    return run


def jobs(tier):
    q = tier == "quick"
    return [TapeJob("ramp", ramp(("everything", "BPMs", "no section"), (1, 2, 3) if q else (1, 2, 3, 5), 2 if q else 3, 10 if q else 16), shards=24, depth=3),
            TapeJob("repeated attempts", again((1, 2) if q else (1, 2, 3), 3 if q else 8), shards=24, depth=4),
            TapeJob("many steps", ramp(("everything",), (10, 26, 50, 51, 100), 1 if q else 2, 4 if q else 8), shards=16, depth=3)]
