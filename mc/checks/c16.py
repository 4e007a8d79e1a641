"""RF phase and frequency correction against a closed-loop environment: the turn-by-turn drift of every injection is an exact sine/line of the cavity
setpoint at that moment, the explorer chooses which measurements lose the beam (and when), curve parameters, number of steps, cavities and BPMs.
The applied step is compared with the analytic zero crossing; rejected or insignificant measurements must leave everything as it was."""
import numpy as np
import at
from mc import lib, env, beamsim as b
from mc.core import TapeJob, Skip

A = np.array
C = 299792458.0
BPMS = (2, 4, 6)
CAVS = (1, 5, 8)


@lib.cached
def line():
    cav = lambda f, tl: at.RFCavity("CAV", 0.0, 1e6, f, 31, lib.E0, PassMethod="RFCavityPass", TimeLag=tl)
    d = lambda: at.Drift("D", 0.3)
    return lib.ring_of([d(), cav(5e8, 0.1), at.Monitor("BPM"), d(), at.Monitor("BPM"), cav(5e8, -0.03), at.Monitor("BPM"), d(), cav(1.5e9, 0.02), at.Quadrupole("Q", 0.3, 0.5)])


LOSS = {"no": None, "never seen": 0, "two turns only": 2, "three turns only": 3, "lost in the fourth turn": 3.4}   # seen by the first BPM then
SCRAPED = 3e-4      # shift of the beam in the turn in which it is lost


class World:
    """slope(step): drift per turn as a function of the step of the setpoint from where it was"""

    def __init__(self, field, turns, slope, cavs, spread, loss):
        from pySC.core.simulated_commissioning import SimulatedCommissioning
        line()
        self.sc = sc = SimulatedCommissioning(lib._cache[("line",)])
        sc.register_bpms(A(BPMS))
        sc.register_cavities(A(CAVS))
        sc.RING[1].Marked = True
        for k, i in enumerate(CAVS):
            el = sc.RING[i]
            el.TimeLagOffset, el.TimeLagCalError, el.FrequencyOffset = 0.004 * (k + 1), 0.02 * (k + 1), 40.0 * (k + 1)
        sc.update_cavities()
        sc.INJ.nTurns = turns
        self.start = [float(getattr(sc.RING[i], field + "SetPoint")) for i in CAVS]
        self.state0 = lib.snap(sc)
        self.steps, self.cavs = [], cavs
        self.offstep = None

        def true(shot, p, ref, t):
            if ref not in BPMS:
                return (0.0, 0.0)
            reach = loss(shot)
            i = BPMS.index(ref)
            if reach is not None and t + (i + 0.5) / len(BPMS) >= reach + (reach == int(reach)) * 0.5 / len(BPMS):
                return None
            if reach is not None and t == int(reach):
                return (SCRAPED, -SCRAPED)
            return (2e-4 * (1 + 0 * i) + spread * (i - 1) + slope(self.steps[shot]) * t, 1e-4 * i)
        beam = b.Beam(true)

        def track(lattice, r_in, nturns, refs):
            now = [float(getattr(sc.RING[i], field + "SetPoint")) for i in CAVS]
            d = A(now) - A(self.start)
            on = A([i in cavs for i in CAVS])
            self.steps.append(d[on][0])
            lib.need(np.ptp(d[on]) < 1e-9 * max(1, abs(d[on][0])) + 1e-7 * (field == "Frequency"), f"cavities are moved by different steps {d}")
            lib.need(np.all(np.abs(d[~on]) < 1e-9), f"cavities that are not addressed are moved by {d}")
            return beam.track(lattice, r_in, nturns, refs)
        self.track = track
        self.field = field

    def run(self, fn, **kw):
        with env.seams(rng_source=env.zeros_source, track=self.track):
            try:
                out = lib.call(fn, self.sc, **kw)
            except (RuntimeError, ValueError, AttributeError, TypeError) as e:
                self.same("correction that ended with an error")
                if isinstance(e, TypeError):
                    raise
                return None, e
        lib.need(out is self.sc, "the corrected machine must be returned")
        return out, None

    def ignored(self, k):
        f = self.field
        return k[0] == "RING" and len(k) == 3 and k[1] in self.cavs and k[2] in (f, f + "SetPoint")

    def same(self, what, ign=None):
        tol = dict(rtol=1e-12, atol=1e-9)
        bad = lib.differences(lib.live(self.sc), self.state0, ign or (lambda k: False), **tol)
        lib.need(not bad, f"{what}: {bad}")

    def check_step(self, want, what, tol):
        now = A([float(getattr(self.sc.RING[i], self.field + "SetPoint")) for i in CAVS])
        on = A([i in self.cavs for i in CAVS])
        d = now - A(self.start)
        lib.need(np.all(np.abs(d[on] - want) <= tol), f"{what}: step {d[on]}, expected {want}")
        self.same(what, self.ignored)
        for i in self.cavs:
            el = self.sc.RING[i]
            v = getattr(el, self.field + "SetPoint") * (1 + getattr(el, self.field + "CalError")) + getattr(el, self.field + "Offset")
            lib.need_close(getattr(el, self.field), v, f"{what}: cavity field not updated", rtol=1e-12)


def loss_pattern(t, n, kinds):
    pat = [t.choose(kinds, f"measurement {k}", dev=True) for k in range(n)]
    return pat, lambda shot: LOSS[pat[shot]] if shot < n else None


def usable(pat, turns):
    return A([not (LOSS[p] is not None and min(int(LOSS[p]), turns) < 3) for p in pat])


def choose_args(t):
    kw = {}
    cav = t.choose((None, (1,), (1, 5), (5,)), "cavities")
    if cav:
        kw["cav_ords"] = A(cav)
    bp = t.choose((None, (2, 6)), "BPMs", dev=True)
    if bp:
        kw["bpm_ords"] = A(bp)
    return kw, (cav or CAVS), (bp or BPMS)


def fold(d, lam):
    return d - lam * np.round(d / lam)


def phase(steps, turns_, bs, cs, blocks):
    def run(t):
        from pySC.correction.rf import correct_rf_phase
        n = t.choose(steps, "steps")
        turns = t.choose(turns_, "turns", dev=True)
        kw, cavs, bp = choose_args(t)
        bb = t.choose(bs, "phase")
        c = t.choose(cs, "offset")
        amp = t.choose((1e-4, 5e-6), "amplitude", dev=True)
        spread = t.choose((0.0, 0.5), "measurement error", dev=True)
        if blocks:      # a block of consecutive measurements without beam
            lo = t.choose(n, "first lost")
            ln = t.choose(n - lo + 1, "lost")
            kind = t.choose(("never seen", "two turns only", "lost in the fourth turn"), "kind")
            if (ln == 0 and (lo or kind != "never seen")):
                raise Skip()
            pat = ["no"] * lo + [kind] * ln + ["no"] * (n - lo - ln)
            loss = lambda s: LOSS[pat[s]] if s < n else None
        else:
            pat, loss = loss_pattern(t, n, tuple(LOSS))
        lam = C / 5e8          # of the first addressed cavity; all addressed cavities move by the same length
        a, c = amp, c * amp
        slope = lambda d: a * np.sin(2 * np.pi * d / lam + bb) + c
        W = World("TimeLag", turns, slope, cavs, spread, loss)
        out, err = W.run(correct_rf_phase, n_steps=n, **kw)
        what = f"phase correction: {n} steps, lost {pat}, sine {a} {bb} {c}, cavities {cavs}, spread {spread}"
        ok = usable(pat, turns)
        if np.sum(ok) < 6:
            lib.need(err is not None, f"{what}: accepted with {np.sum(ok)} usable points")
            return ("too few", n, tuple(pat))
        if abs(c) > abs(a):
            lib.need(err is not None, f"{what}: accepted although the drift never vanishes")
            return ("no crossing", n, tuple(pat))
        lib.need(out is not None, f"{what}: {err}")
        if spread:
            W.same(f"{what}: insignificant measurement")
            return ("insignificant", n, tuple(pat))
        want = fold(lam * (np.arcsin(-c / a) - bb) / (2 * np.pi), lam)
        if abs(abs(want) - lam / 2) < 1e-3 * lam:
            raise Skip()
        W.check_step(want, what, 2e-4 * lam)
        return (round(want / lam, 3), n, tuple(pat), cavs)
    return run


def frequency(steps, turns_, f0s, ranges):
    def run(t):
        from pySC.correction.rf import correct_rf_frequency
        n = t.choose(steps, "steps")
        turns = t.choose(turns_, "turns", dev=True)
        kw, cavs, bp = choose_args(t)
        f0 = t.choose(f0s, "frequency error")
        g = t.choose((2e-8, -3e-8), "slope", dev=True)
        rng = t.choose(ranges, "range", dev=True)
        spread = t.choose((0.0, 0.5), "measurement error", dev=True)
        pat, loss = loss_pattern(t, n, tuple(LOSS))
        W = World("Frequency", turns, lambda d: g * (d - f0), cavs, spread, loss)
        if rng:
            kw["f_range"] = rng
        out, err = W.run(correct_rf_frequency, n_steps=n, **kw)
        what = f"frequency correction: {n} steps, lost {pat}, zero at {f0}, slope {g}, range {rng}, cavities {cavs}"
        ok = usable(pat, turns)
        if np.sum(ok) < 3:
            lib.need(err is not None, f"{what}: accepted with {np.sum(ok)} usable points")
            return ("too few", n, tuple(pat))
        lib.need(out is not None, f"{what}: {err}")
        if spread:
            W.same(f"{what}: insignificant measurement")
            return ("insignificant", n, tuple(pat))
        W.check_step(f0, what, 1e-3 * abs(f0) + 1e-3)
        # the scanned settings
        r = rng or (-1e3, 1e3)
        lib.need(len(W.steps) == n and abs(W.steps[0] - r[0]) < 1e-5 and abs(W.steps[-1] - r[1]) < 1e-5, f"{what}: measured at {W.steps}")
        return (f0, g, n, tuple(pat), cavs)
    return run


def significance(factors):
    """drift and slope of the measured line as multiples of their own uncertainties (from the spread of the BPMs)"""
    def run(t):
        from pySC.correction.rf import correct_rf_frequency
        n, turns = t.choose((6, 9), "steps"), t.choose((4, 7), "turns")
        kw, cavs, bp = choose_args(t)
        rng = t.choose(((-1e3, 1e3), (-200.0, 500.0)), "range")
        fs, fo = t.choose(factors, "slope") * t.choose((1, -1), "sign"), t.choose(factors, "offset")
        S = 1e-5
        x = S * A([BPMS.index(i) - 1 for i in bp])
        per_turn = np.std(x) / np.sqrt(len(bp))
        tt, fr = np.arange(turns), np.linspace(*rng, n)
        e = per_turn / np.sqrt(np.sum((tt - tt.mean()) ** 2))
        ss = np.sum((fr - fr.mean()) ** 2)
        g, c = fs * e / np.sqrt(ss), fo * e * np.sqrt(1 / n + fr.mean() ** 2 / ss)
        W = World("Frequency", turns, lambda d: g * d + c, cavs, S, lambda s: None)
        out, err = W.run(correct_rf_frequency, n_steps=n, f_range=rng, **kw)
        what = f"frequency correction: slope {fs} and offset {fo} times their uncertainties, {n} steps in {rng}, {turns} turns, BPMs {bp}"
        lib.need(out is not None, f"{what}: {err}")
        if min(abs(fs), abs(fo)) < 2:
            W.same(f"{what}: insignificant measurement")
        else:
            W.check_step(-c / g, what, 2e-3 * abs(c / g))
        return (n, turns, cavs, bp, rng, fs, fo)
    return run


def few(t):
    """frequency corrections with most measurements lost"""
    from pySC.correction.rf import correct_rf_frequency
    n = 6
    keep = [t.choose((False, True), f"kept {k}") for k in range(n)]
    loss = lambda s: None if s < n and keep[s] else 0
    W = World("Frequency", 4, lambda d: 2e-8 * (d - 250.0), CAVS, 0.0, loss)
    out, err = W.run(correct_rf_frequency, n_steps=n)
    if sum(keep) < 3:
        lib.need(err is not None, f"accepted with measurements {keep}")
    else:
        lib.need(out is not None, f"measurements {keep}: {err}")
        W.check_step(250.0, f"measurements {keep}", 1.0)
    return tuple(keep)


def rejected(t):
    from pySC.correction.rf import correct_rf_phase, correct_rf_frequency
    fn, field = t.choose(((correct_rf_phase, "TimeLag"), (correct_rf_frequency, "Frequency")), "procedure")
    bad = t.choose(("turns", "mode ORB", "mode PORB", "steps", "off", "not a cavity"), "what is wrong")
    W = World(field, 2 if bad == "turns" else 5, lambda d: 1e-4, CAVS, 0.0, lambda s: None)
    kw = {}
    if bad.startswith("mode"):
        W.sc.INJ.trackMode = bad[5:]
        W.sc.INJ.nTurns = 5
    if bad == "steps":
        kw["n_steps"] = t.choose((5, 3, 2), "n")
    if bad == "off":
        W.sc.RING[t.choose(CAVS, "cavity")].PassMethod = "IdentityPass"
    if bad == "not a cavity":
        kw["cav_ords"] = A(t.choose(((3,), (1, 9), (9, 5)), "ordinates"))
    W.state0 = lib.snap(W.sc)
    out, err = W.run(fn, **kw)
    lib.need(err is not None, f"{fn.__name__} with wrong {bad} was accepted")
    lib.need(not W.steps, f"{fn.__name__} with wrong {bad} injected beam")
    return (fn.__name__, bad, str(kw))


def reported(t):
    from pySC.correction.rf import phase_and_energy_error
    frac = t.choose((0, 0.1, -0.3, 0.45, -0.49, 0.7, 1.2, -2.4, 3.3), "phase")
    z5 = t.choose((0.0, 0.02, -0.4), "injected phase")
    de = t.choose((0.0, 1e-3, -2e-3), "orbit energy")
    e0 = t.choose((0.0, 5e-4), "injected energy")
    cav = t.choose(CAVS, "cavity")
    W = World("TimeLag", 4, lambda d: 0.0, CAVS, 0.0, lambda s: None)
    sc = W.sc
    sc.INJ.Z0[4], sc.INJ.Z0[5] = e0, z5
    lam = C / sc.RING[cav].Frequency
    o = np.zeros(6)
    o[4], o[5] = de, z5 + frac * lam
    W.state0 = lib.snap(sc)
    with env.seams(rng_source=env.zeros_source, orbit=lambda ring, refs: (o.copy(), np.tile(o, (len(refs), 1)))):
        p, e = lib.call(phase_and_energy_error, sc, A([cav]))
    W.same("reporting errors")
    what = f"phase {frac} periods from the injected beam at {z5} m, energy {de} and {e0}"
    p = float(np.ravel(p)[0])
    lib.need(abs(p) <= 180 + 1e-6, f"{what}: phase error {p}")
    lib.need(abs(fold(p - 360 * frac, 360.0)) < 1e-5, f"{what}: phase error {p}")
    lib.need_close(e, e0 - de, f"{what}: energy error", atol=1e-15)
    return (frac, z5, de, e0, cav)


def jobs(tier):
    q = tier == "quick"
    bs = (0.3, 0.0, 1.7, 3.1, -1.2, -2.6) if q else tuple(np.round(np.arange(-3.1, 3.2, 0.31), 3))
    return [TapeJob("phase, lost measurements", phase((9,) if q else (6, 7, 9, 15), (5, 3), bs[:3] if q else bs, (0.2, -0.5, 1.4) if q else (0.2, -0.5, 0.9, -0.97, 1.1, -3.0), False),
                    max_dev=1 if q else 2, shards=24, depth=3),
            TapeJob("phase, blocks of lost measurements", phase((15,) if q else (9, 15), (5,), bs, (0.2,) if q else (0.2, -0.6), True), max_dev=0 if q else 1, shards=24, depth=3),
            TapeJob("frequency", frequency((6,) if q else (6, 9, 15), (4, 6, 3), (300.0, -120.0) if q else (300.0, -120.0, 4.0, 2500.0), (None, (-200.0, 500.0), (300.0, 900.0))),
                    max_dev=1 if q else 2, shards=16, depth=3),
            TapeJob("frequency, significance", significance((0.3, 1.8, 2.3, 30.0) if q else (0.1, 1.0, 1.8, 1.95, 2.05, 2.3, 5.0, 300.0)), max_dev=1, shards=16, depth=4),
            TapeJob("frequency, few measurements", few, shards=8, depth=3),
            TapeJob("rejections", rejected, shards=4),
            TapeJob("reported errors", reported, shards=8)]
