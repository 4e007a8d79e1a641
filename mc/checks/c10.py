"""Every particle of every shot is lost at every possible point of its journey (turn x BPM) or survives: all combinations, for all small numbers of
particles, BPMs, turns and shots, all classes of the beam-lost level and of sum-signal errors, in turn-by-turn and pseudo-orbit mode, with and without
reported errors.  Prediction: plain sums over the surviving particles."""
import numpy as np
from mc import lib, env, beamsim as b
from mc.core import TapeJob, Skip, Violation

A = np.array
D = 1.25      # value of every random draw


def true(shot, p, r, t):
    return 1e-3 * (1 + 0.37 * r - 0.61 * p + 0.053 * t + 0.217 * shot), -1e-3 * (0.4 - 0.29 * r + 0.47 * p + 0.031 * t - 0.313 * shot)


def predict(sc, bpms, alive, n, turns, shots, noise, porb):
    """(pos[2,nb*T], sum, err) ; alive(s,p,i,t)"""
    lvl = 1 - sc.INJ.beamLostAt
    nb = len(bpms)
    x = np.full((2, nb, turns, shots), np.nan)
    w = np.zeros((nb, turns, shots))
    for k, i in enumerate(bpms):
        el = sc.RING[i]
        for t in range(turns):
            for s in range(shots):
                seen = [p for p in range(n) if alive(s, p, i, t)]
                sig = len(seen) / n * (1 + float(el.SumError) * D)
                if abs(sig - lvl) < 1e-9 and sig != lvl:
                    raise Skip()
                if sig < lvl:
                    continue            # lost: NaN, no signal
                w[k, t, s] = sig
                if seen:
                    c = b.clean(el, np.mean([true(s, p, i, t)[0] for p in seen]), np.mean([true(s, p, i, t)[1] for p in seen]))
                    for d in (0, 1):
                        x[d, k, t, s] = c[d] + noise[d] * D / sig

    def wmean(v, ww):
        ok = ~np.isnan(v)
        return np.sum(v[ok] * ww[ok]) / np.sum(ww[ok]) if ok.any() else np.nan
    pos = A([[[wmean(x[d, k, t], w[k, t]) for t in range(turns)] for k in range(nb)] for d in (0, 1)])
    sig = w.mean(axis=2)
    err = A([[[np.nan if np.isnan(x[d, k, t]).any() else np.sqrt(np.sum(w[k, t] * (x[d, k, t] - pos[d, k, t]) ** 2) / np.sum(w[k, t]))
               for t in range(turns)] for k in range(nb)] for d in (0, 1)])
    if porb:
        pos = A([[[wmean(pos[d, k], sig[k])] for k in range(nb)] for d in (0, 1)])
        sig = sig.mean(axis=1, keepdims=True)
    flat = lambda a: np.transpose(a, (0, 2, 1)).reshape(2, -1)
    return flat(pos), flat(np.array([sig, sig])), flat(err)


LEVELS = (1.0, 0.5, 0.4, 0.0, 0.7)
SUMS = (0.0, 0.2, "mixed")


def body(shapes, levels, sums):
    def run(t):
        n, nb, turns, shots = t.choose(shapes, "particles, BPMs, turns, shots")
        mode = t.choose(("TBT", "PORB"), "mode")
        level = t.choose(levels, "beam lost at")
        se = t.choose(sums, "sum errors")
        noise = t.choose((0.0, 2e-4), "noise")
        bpms = b.BPMS[:nb]
        steps = nb * turns
        lost = {(s, p): t.choose(steps + 1, f"shot {s} particle {p} lost at") for s in range(shots) for p in range(n)}   # 0: survives
        sc = b.machine(bpms=bpms, n=n, turns=turns, shots=shots, mode=mode)
        sc.INJ.beamLostAt = level
        for k, i in enumerate(bpms):
            el = sc.RING[i]
            el.SumError = (0.4 if k % 2 else -0.3) if se == "mixed" else se
            el.Offset, el.CalError, el.Roll = A([1e-4, -2e-4]), A([0.1, -0.1]), 0.2
            el.Noise = A([noise, 2 * noise])
        order = {(tu, i): tu * nb + k for tu in range(turns) for k, i in enumerate(bpms)}

        def alive(s, p, i, tu):
            x = lost[(s, p)]
            return x == 0 or order[(tu, i)] < x - 1
        beam = b.Beam(lambda s, p, r, tu: true(s, p, r, tu) if alive(s, p, r, tu) else None)
        from pySC.core.beam import bpm_reading
        want = predict(sc, bpms, alive, n, turns, shots, (noise, 2 * noise), mode == "PORB")
        with_err = t.choose((False, True), "errors")
        with env.seams(rng_source=lambda m: np.full(m, D), track=beam.track):
            out = lib.call(bpm_reading, sc, calculate_errors=with_err)
        what = f"{n} particles, {nb} BPMs, {turns} turns, {shots} shots, lost {lost}, level {level}, sum errors {se}, {mode}"
        lib.need(len(out) == (3 if with_err and mode == "TBT" else 2), f"number of results {len(out)}")
        lib.need_close(out[0], want[0], "positions: " + what, rtol=1e-10, atol=1e-14)
        lib.need_close(out[1], want[1], "signal: " + what, rtol=1e-10, atol=1e-14)
        if len(out) == 3:
            lib.need_close(out[2], want[2], "reported errors: " + what, rtol=1e-8, atol=1e-12)
        return (mode, level, se, tuple(np.isnan(want[0][0])), tuple(np.round(want[1][0], 6)))
    return run


def subset(t):
    """requests for part of the BPMs under beam loss"""
    from pySC.core.beam import bpm_reading
    req = t.choose([[3], [12], [16], [16, 3], [12, 16], None], "request")
    level = t.choose((1.0, 0.4), "level")
    mode = t.choose(("TBT", "PORB"), "mode")
    lost = [t.choose(7, f"particle {p} lost at") for p in range(2)]
    sc = b.machine(n=2, turns=2, mode=mode)
    sc.INJ.beamLostAt = level

    def alive(s, p, i, tu):
        return lost[p] == 0 or tu * 3 + b.BPMS.index(i) < lost[p] - 1
    beam = b.Beam(lambda s, p, r, tu: true(s, p, r, tu) if alive(s, p, r, tu) else None)
    inds = [i for i in b.BPMS if req is None or i in req]
    want = predict(sc, inds, alive, 2, 2, 1, (0, 0), mode == "PORB")
    with env.seams(rng_source=env.zeros_source, track=beam.track):
        out = lib.call(bpm_reading, sc, *(() if req is None else (A(req),)))
    lib.need_close(out[0], want[0], f"positions {req} {lost} {level} {mode}", rtol=1e-10, atol=1e-14)
    lib.need_close(out[1], want[1], f"signal {req} {lost} {level} {mode}", rtol=1e-10, atol=1e-14)
    return (req, level, mode, tuple(np.isnan(want[0][0])))


def orbit(t):
    """closed-orbit mode: without a closed orbit every BPM reads NaN; the reading is the orbit otherwise"""
    from pySC.core.beam import bpm_reading
    pat = [t.choose((0, 1), f"orbit at {i} missing") for i in b.BPMS]
    shots = t.choose((1, 2, 3), "shots")
    sc = b.machine(mode="ORB", shots=shots)
    beam = b.Beam(lambda s, p, r, tu: None if pat[b.BPMS.index(r)] else true(s, p, r, tu))
    with env.seams(rng_source=env.zeros_source, orbit=beam.orbit):
        pos, sig = lib.call(bpm_reading, sc)
    w = A([[np.nan if pat[k] else np.mean([true(s, 0, i, 0)[d] for s in range(shots)]) for k, i in enumerate(b.BPMS)] for d in (0, 1)])
    lib.need_close(pos, w, f"orbit {pat}", rtol=1e-12)
    lib.need_close(sig, A([[1.0 - x for x in pat]] * 2), "signal", rtol=1e-12)
    return (pat, shots)


def jobs(tier):
    if tier == "quick":
        return [TapeJob("loss patterns", body([(1, 2, 2, 1), (2, 2, 2, 1), (1, 1, 2, 2), (2, 1, 1, 2), (2, 2, 1, 2), (3, 1, 2, 1)], (1.0, 0.5, 0.4, 0.0), (0.0, "mixed")), shards=16, depth=5),
                TapeJob("subsets", subset, shards=8, depth=2), TapeJob("closed orbit", orbit)]
    return [TapeJob("loss patterns", body([(1, 2, 2, 1), (2, 2, 2, 1), (1, 1, 2, 2), (2, 2, 1, 2), (3, 1, 2, 1), (2, 1, 2, 2), (1, 2, 2, 2), (1, 1, 2, 3), (2, 3, 2, 1), (3, 2, 2, 1), (3, 1, 1, 2)], LEVELS, SUMS), shards=48, depth=5),
            TapeJob("subsets", subset, shards=8, depth=2), TapeJob("closed orbit", orbit)]
