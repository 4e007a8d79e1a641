"""Alignment results of every class (missing, outlier, insignificant, unknown error, good) on every BPM and plane against the acceptance rule; alignment
procedure in closed loop on an exactly linear line of thin quadrupoles, for all small patterns of BPM/magnet offsets and BPM gains, apertures and lost
injections, against the reading a beam through the magnet centre would give; pseudo alignment for all flag patterns with labelled random numbers."""
import numpy as np
import at
from mc import lib, env, beamsim as b
from mc.core import TapeJob, Skip

A = np.array
L = 1e-5
NB = 3


@lib.cached
def line():
    els = [at.Drift("D", 0.4), at.Quadrupole("QP", L, 0.2 / L), at.Drift("D", 0.5)]
    for k in range(NB):
        els += [at.Monitor("BPM"), at.Quadrupole("Q", L, (-1) ** k * 0.3 / L), at.Drift("D", 0.7 + 0.1 * k)]
    return lib.ring_of(els)


BPM = tuple(3 + 3 * k for k in range(NB))
MAG = tuple(4 + 3 * k for k in range(NB))
QP = 1


def machine():
    from pySC.core.simulated_commissioning import SimulatedCommissioning
    line()
    sc = SimulatedCommissioning(lib._cache[("line",)])
    sc.register_bpms(A(BPM))
    sc.register_magnets(A(MAG + (QP,)))
    sc.INJ.trackMode, sc.INJ.nTurns = "TBT", 2
    return sc


def accepted(off, err):
    if off != off or err != err:
        return False
    return abs(off) <= 1.5e-3 and abs(off) >= 2.5 * err


GOOD = dict(good=(1e-4, 1e-5), negative=(-2e-4, 3e-6), missing=(np.nan, 1e-5), outlier=(2e-3, 1e-5), negoutlier=(-1.51e-3, 1e-6), insignificant=(1e-4, 1e-4), neginsignificant=(-1e-4, 4.1e-5),
            unknown=(3e-4, np.nan), edge=(1.49e-3, 1e-5), justsignificant=(-1e-4, 3.9e-5), exact=(5e-5, 0.0), tiny=(4e-8, 1e-9), both=(np.nan, np.nan))


def acceptance(kinds, planes, n):
    def run(t):
        from pySC.correction.bba import apply_bpm_offsets, is_bba_errored
        sc = machine()
        pat = A([[t.choose(kinds, f"plane {d} BPM {k}") for k in range(n)] for d in range(planes)])
        order = t.choose(((0, 1, 2), (2, 0, 1)), "order", dev=True)
        for k, i in enumerate(BPM):
            sc.RING[i].Offset = A([1e-5 * (k + 1), -3e-5 * (k + 1)])
        ords = np.tile(A([BPM[k] for k in order[:n]]), (planes, 1))
        if planes == 2 and n > 1 and t.choose((False, True), "other order in the vertical plane", dev=True):
            ords[1] = ords[1][::-1]
        off = A([[GOOD[p][0] for p in row] for row in pat])
        err = A([[GOOD[p][1] for p in row] for row in pat])
        s0 = lib.snap(sc)
        flags = np.asarray(lib.call(is_bba_errored, off, err))
        want = A([[not accepted(off[d, k], err[d, k]) for k in range(n)] for d in range(planes)])
        lib.need(flags.shape == want.shape and np.all(flags.astype(bool) == want), f"failure flags {flags.tolist()} for {pat.tolist()}")
        out = lib.call(apply_bpm_offsets, sc, ords, off, err)
        lib.need(out is sc, "the corrected machine must be returned")
        for d in range(planes):
            for k in range(n):
                key = ("RING", int(ords[d, k]), "Offset")
                if not want[d, k]:
                    v = s0[key].copy()
                    v[d] += off[d, k]
                    s0[key] = v
        lib.need_state(sc, s0, f"applying alignment results {pat.tolist()} to BPMs {ords.tolist()}")
        return pat.tobytes() + ords.tobytes()
    return run


LIMITS = (None, 2.2e-3, 1.2e-3, 6e-4)


class Env:
    """real linear tracking with losses chosen by the explorer"""

    def __init__(self, aperture, lost):
        self.a, self.lost, self.k, self.positions = aperture, lost, 0, []

    def track(self, lattice, r_in, nturns, refs):
        full = np.arange(len(lattice))
        o = env.tracker.real(lattice=lattice, r_in=r_in, nturns=nturns, refpts=full, in_place=False)[0]
        from_ = self.lost(self.k)
        self.k += 1
        gone = False
        for t in range(nturns):
            for j in full:
                if self.a and np.max(np.abs(o[[0, 2], 0, j, t])) > self.a:
                    gone = True
                if from_ is not None and (t, j) >= from_:
                    gone = True
                if gone:
                    o[:, 0, j, t] = 0
                    o[0, 0, j, t] = np.nan
        return o[:, :, refs, :]


LOSS = {"no": None, "all": (0, 0), "after the first BPM": (0, BPM[1]), "second turn": (1, 0)}


def loop(values, steps, ninj, devs, variants):
    def run(t):
        from pySC.correction.bba import trajectory_bba
        n = t.choose(steps, "steps")
        skew = t.choose(variants, "magnets") == "skew"
        sc = machine()
        offs = A([[t.choose(values, f"BPM {k} plane {d}") for d in range(2)] for k in range(2)]) * 1e-4
        mags = A([[t.choose(values[:2], f"magnet {k} plane {d}", dev=True) for d in range(2)] for k in range(2)]) * 1.7e-4
        gain = t.choose((0.0, 0.08), "gain error", dev=True)
        sup = t.choose((0.0, 6e-5), "BPM support offset", dev=True)
        big = t.choose((False, True), "outlier", dev=True)
        planes = t.choose((2, 1), "planes", dev=True)
        phase = t.choose((False, True), "phase advance scan", dev=True)
        down = t.choose((None, 2), "downstream BPMs", dev=True)
        aper = t.choose(LIMITS, "aperture", dev=True)
        inj = t.choose((0.0, 2e-4), "injection offset", dev=True)
        lost = [t.choose(tuple(LOSS), f"injection {k}", dev=True) for k in range(ninj)]
        use = t.choose(((0, 1), (1, 2), (0, 2)), "BPMs", dev=True)
        for k, j in enumerate(use):
            sc.RING[BPM[j]].Offset = offs[k] + A([4e-3, 0.0]) * (big and k == 1)
            sc.RING[BPM[j]].CalError = A([gain, -gain])
            sc.RING[MAG[j]].MagnetOffset = A([mags[k][0], mags[k][1], 0.0])
            sc.RING[MAG[j]].SetPointB[1] *= 1.01        # not at the design setting
        sc.RING[QP].SetPointB[1] *= 0.97
        sc.update_magnets()
        sc.update_supports()
        for j in use:
            sc.RING[BPM[j]].SupportOffset = A([sup, -sup])
        sc.INJ.Z0[:4] = [inj, -inj, inj, inj]
        s0 = lib.snap(sc)
        cols = (use, use[::-1]) if planes == 2 and t.choose((False, True), "other order in the vertical plane", dev=True) else (use,) * planes
        bo, mo = A([[BPM[j] for j in c] for c in cols]), A([[MAG[j] for j in c] for c in cols])
        kw = dict(n_steps=n)
        if phase:
            kw.update(q_ord_phase=A([QP]), q_ord_setpoints=A([0.9, 1.0, 1.2]))
        if down:
            kw["num_downstream_bpms"] = down
        if skew:
            kw.update(skewness=True, setpoint_method="add", magnet_strengths=A([-0.02, 0.02]) / L)
        E = Env(aper, lambda k: LOSS[lost[k]] if k < ninj else None)
        with env.seams(rng_source=env.zeros_source, track=E.track):
            out, off, err = lib.call(trajectory_bba, sc, bo, mo, **kw)
        what = f"alignment of BPMs {use}, {planes} planes, offsets {offs.tolist()}, magnets {mags.tolist()}, gain {gain}, support {sup}, outlier {big}, aperture {aper}, " \
               f"lost {[(k, x) for k, x in enumerate(lost) if x != 'no']}, {kw}"
        lib.need(out is sc, "the corrected machine must be returned")
        lib.need(off.shape == bo.shape and err.shape == bo.shape, f"{what}: result of shape {off.shape}")
        nlost = sum(x != "no" for x in lost)
        nums = 0
        for d in range(planes):
            for k, j in enumerate(use):
                col = cols[d].index(j)
                key = ("RING", BPM[j], "Offset")
                true = (mags[k][d] - s0[key][d] - s0[("RING", BPM[j], "SupportOffset")][d]) * (1 + s0[("RING", BPM[j], "CalError")][d])
                if np.isnan(off[d, col]):
                    lib.need(aper or nlost or (big and k == 1), f"{what}: no result for BPM {j} plane {d} although no beam was lost")
                else:
                    nums += 1
                    lib.need(abs(off[d, col] - true) < 3e-8, f"{what}: result {off[d, col]} for BPM {j} plane {d}, expected {true}")
                if accepted(off[d, col], err[d, col]):
                    v = s0[key].copy()
                    v[d] += off[d, col]
                    s0[key] = v
                elif abs(off[d, col]) < 1.4e-3 and abs(true) > 1e-6:
                    lib.need(False, f"{what}: exact result {off[d, col]}+-{err[d, col]} of BPM {j} plane {d} is not accepted")
        bad = lib.differences(lib.live(sc), s0, rtol=1e-11, atol=1e-12)
        lib.need(not bad, f"{what}: {bad}")
        return (nums, cols, tuple(lost), offs.tobytes(), mags.tobytes(), gain, sup, big, planes, aper, use, n, phase, down, skew, inj)
    return run


def rejected(t):
    from pySC.correction.bba import trajectory_bba, fake_bba
    bad = t.choose(("mode ORB", "mode PORB", "one turn", "three turns", "shapes", "fit order", "nothing to fake"), "what is wrong")
    sc = machine()
    bo, mo, kw, fn = np.tile(A(BPM), (2, 1)), np.tile(A(MAG), (2, 1)), {}, trajectory_bba
    if bad.startswith("mode"):
        sc.INJ.trackMode = bad[5:]
    elif "turn" in bad:
        sc.INJ.nTurns = 1 if bad == "one turn" else 3
    elif bad == "shapes":
        mo = t.choose((mo[:, :2], mo[:1], mo.T), "magnets")
    elif bad == "fit order":
        kw["fit_order"] = 3
    else:
        fn = fake_bba
    s0 = lib.snap(sc)
    E = Env(None, lambda k: None)
    with env.seams(rng_source=env.zeros_source, track=E.track):
        lib.rejects(fn, sc, bo, mo, what=bad, **kw)
    lib.need(E.k == 0, f"{bad}: beam was injected")
    lib.need_state(sc, s0, f"rejected alignment ({bad})")
    return (bad, mo.shape)


def fake(n, given):
    def run(t):
        from pySC.correction.bba import fake_bba
        sc = machine()
        planes = t.choose((2, 1), "planes", dev=True)
        fl = A([[t.choose((False, True), f"failed plane {d} BPM {k}") for k in range(n)] for d in range(planes)])
        rms = t.choose(given, "residual")
        none = rms != "computed" and t.choose((False, True), "no flags given", dev=True)
        kind = t.choose(("bool", "int"), "flag type", dev=True)
        order = t.choose(((0, 1, 2), (2, 0, 1)), "BPM order", dev=True)
        mo_shift = t.choose((0, 1), "magnet next but one", dev=True)
        first = t.choose((0.7, 2.4, -3.1, -1.999), "first draw", dev=True)
        for k in range(NB):
            el, mg = sc.RING[BPM[k]], sc.RING[MAG[k]]
            el.Offset = A([1e-4 * (k + 1), -2e-4 * (k - 1.5)])
            el.SupportOffset = A([3e-5 * (k - 1), 4e-5 * (k + 1)])
            mg.MagnetOffset = A([-5e-5 * (k + 1), 6e-5 * (k - 2), 9e-3])
            mg.SupportOffset = A([2e-5 * (k + 2), -1e-5 * k, 8e-3])
        rows = (order[:n], order[:n][::-1]) if planes == 2 and t.choose((False, True), "other order in the vertical plane", dev=True) else (order[:n],) * planes
        bo = A([[BPM[k] for k in r] for r in rows])
        mo = A([[MAG[(k + mo_shift) % NB] for k in r] for r in rows])
        s0 = lib.snap(sc)
        src = b.Labels()
        first_ = [first]

        def source(m):
            v = src(m)
            if m and first_:
                v[0] = first_.pop()
            return v
        val = A([3e-5, 7e-5])[:planes]
        kw = {}
        if not none:
            kw["errors"] = fl if kind == "bool" else fl.astype(int)
        else:
            fl = np.ones_like(fl)
        if rms != "computed":
            kw["fake_offset"] = val * rms
        with env.seams(rng_source=source):
            out = lib.call(fake_bba, sc, bo, mo, **kw)
            draws = [x for x in env.rng.log if abs(x) <= 2]
        lib.need(out is sc, "the machine must be returned")
        what = f"pseudo alignment of {bo.tolist()} to {mo.tolist()}, failed {fl.tolist()}, residual {rms}"

        def tot(i, f, d):
            return s0[("RING", int(i), f)][d] + s0[("RING", int(i), "SupportOffset")][d]
        used = []
        for d in range(planes):
            dev = A([tot(bo[d, k], "Offset", d) - tot(mo[d, k], "MagnetOffset", d) for k in range(n) if not fl[d, k]])
            size = val[d] * rms if rms != "computed" else (np.sqrt(np.mean(dev ** 2)) if len(dev) else np.nan)
            for k in range(n):
                i = int(bo[d, k])
                got = float(sc.RING[i].Offset[d])
                if not fl[d, k] or np.isnan(size):
                    continue
                base = tot(mo[d, k], "MagnetOffset", d) - s0[("RING", i, "SupportOffset")][d]
                if size == 0:
                    lib.need_close(got, base, f"{what}: BPM {i} plane {d}", atol=1e-15)
                else:
                    r = (got - base) / size
                    hit = [j for j, x in enumerate(draws) if abs(x - r) < 1e-8 and j not in used]
                    lib.need(hit, f"{what}: residual of BPM {i} plane {d} is {r} in units of {size}, not one of the accepted random numbers {draws} (or already used)")
                    used.append(hit[0])
                v = s0[("RING", i, "Offset")].copy()
                v[d] = got
                s0[("RING", i, "Offset")] = v
        lib.need_state(sc, s0, what, rtol=0, atol=0)
        return (fl.tobytes(), rms, none, kind, order, mo_shift, first)
    return run


def jobs(tier):
    q = tier == "quick"
    allk = tuple(GOOD)
    return [TapeJob("acceptance, 2x2", acceptance(allk if not q else allk[:9], 2, 2), max_dev=1, shards=32, depth=2),
            TapeJob("acceptance, one plane", acceptance(allk, 1, 3), max_dev=1, shards=16, depth=2),
            TapeJob("closed loop", loop((-1, 2) if q else (0, -1, 2), (4,) if q else (4, 7), 0, 1, ("normal", "skew")), max_dev=1 if q else 2, shards=32, depth=5),
            TapeJob("closed loop with lost injections", loop((-1, 2), (4,), 40 if q else 44, 1, ("normal",)), max_dev=1, shards=32, depth=5),
            TapeJob("rejections", rejected, shards=4, depth=1)] + \
           [TapeJob("pseudo alignment", fake(3, ("computed", 1.0, 0.0)), max_dev=1 if q else 2, shards=32, depth=4)] + \
           ([] if q else [TapeJob("two lost injections", loop((-1,), (4,), 40, 2, ("normal",)), max_dev=2, shards=32, depth=30)])
