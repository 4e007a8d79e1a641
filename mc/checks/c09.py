"""Tracking and closed-orbit answers are chosen by the explorer (distinct true position per shot, particle, element and turn), every random draw
carries a unique label.  For all combinations of BPM error classes, requested BPM lists, tracking modes, particles, turns and shots, every single
reading is traced back to its own true position, errors and noise draws."""
import itertools

import numpy as np
from mc import lib, env, beamsim as b
from mc.core import TapeJob, Skip, Violation

A = np.array


def true(shot, p, r, t):
    return 1e-3 * (1 + 0.37 * r - 0.11 * p + 0.053 * t + 0.017 * shot), -1e-3 * (0.4 - 0.29 * r + 0.07 * p + 0.031 * t - 0.013 * shot)


ERRORS = {
    "none": {},
    "offset": dict(Offset=A([1e-3, -2e-3])),
    "support offset": dict(SupportOffset=A([-3e-4, 7e-4])),
    "roll": dict(Roll=0.3),
    "support roll": dict(SupportRoll=-0.2),
    "calibration": dict(CalError=A([0.1, -0.2])),
    "all": dict(Offset=A([1e-3, -2e-3]), SupportOffset=A([2e-4, 5e-4]), Roll=-0.4, SupportRoll=0.1, CalError=A([-0.3, 0.2])),
}
NOISES = {"no": {}, "tbt": dict(Noise=A([1e-4, 3e-4])), "orbit": dict(NoiseCO=A([2e-4, 5e-5])), "both": dict(Noise=A([1e-4, 3e-4]), NoiseCO=A([2e-5, 6e-5])), "x only": dict(Noise=A([1e-4, 0.0]), NoiseCO=A([0.0, 1e-4]))}
REQUESTS = [None, [3, 12, 16], [16, 3], [12], [16, 12, 3], [12, 5, 3], [0, 16], [3, 3], [5, 7], []]


def find(values, d, n, used, what):
    """d must be the sum of n unused labelled draws"""
    for c in itertools.combinations([i for i in range(len(values)) if i not in used], n):
        if abs(sum(values[i] for i in c) - d) < 2e-7:
            used.update(c)
            return
    raise Violation(f"{what}: noise {d} is not {n} fresh random number(s)")


def body(errs, noises, requests, sizes, beta):
    def run(t):
        e0 = t.choose(errs, "errors of the first BPM")
        e1 = t.choose(tuple(ERRORS) if beta else ("none", "all"), "errors of the other BPMs")
        noise = t.choose(noises, "noise")
        mode = t.choose(("TBT", "ORB", "PORB"), "mode")
        n, turns, shots = t.choose(sizes, "particles, turns, shots")
        if mode == "ORB" and (n, turns) != (1, 1):
            raise Skip()
        sums = t.choose((0.0, 0.3), "sum error")
        req = t.choose(requests, "requested BPMs")
        sc = b.machine(n=n, turns=turns, shots=shots, mode=mode)
        for i, err in ((3, e0), (12, e1), (16, e1)):
            for k, v in list(ERRORS[err].items()) + list(NOISES[noise].items()):
                setattr(sc.RING[i], k, v if np.ndim(v) == 0 else v.copy())
            sc.RING[i].SumError = sums
        sc.INJ.Z0 = A([1e-4, 0.0, -2e-4, 0.0, 0.0, 0.0])
        beam = b.Beam(true)
        state = lib.snap(sc)
        args = () if req is None else (A(req, dtype=int),)
        from pySC.core.beam import bpm_reading
        inds = [i for i in b.BPMS if req is None or i in req]
        with env.seams(rng_source=b.Labels(), track=beam.track, orbit=beam.orbit):
            if not inds:
                lib.rejects(bpm_reading, sc, *args, what=f"request {req}", exc=ValueError)
                lib.need_state(sc, state, "rejected reading")
                return "rejected"
            out = lib.call(bpm_reading, sc, *args)
            draws = list(env.rng.log)
        lib.need_state(sc, state, "reading the BPMs")
        lib.need(len(out) == 2, "reading without errors must have two parts")
        pos, sig = out
        nt = 1 if mode == "PORB" else turns
        lib.need(pos.shape == (2, nt * len(inds)) and sig.shape == (2, nt * len(inds)), f"shape of the reading {pos.shape} {sig.shape}")
        lib.need(beam.shot == shots, f"{beam.shot} injections for {shots} shots")
        used = set()
        z = (0.0, 0.0) if mode == "ORB" else (sc.INJ.Z0[0], sc.INJ.Z0[2])
        field = "NoiseCO" if mode == "ORB" else "Noise"
        tt = range(turns)
        for j in range(nt):
            for k, i in enumerate(inds):
                c = j * len(inds) + k
                what = f"BPM {i}, turn {j}, mode {mode}, request {req}, errors {e0}/{e1}, noise {noise}"
                mine = list(itertools.product(range(shots), tt if mode == "PORB" else [j]))
                s = sig[0, c]
                lib.need(sig[1, c] == s, f"{what}: the signal differs between planes")
                rel = []
                if sums:        # signal = 1 + sigma * draw, averaged; with one reading the draw is identified
                    d = (s - 1) / sums * len(mine)
                    if len(mine) <= 2:
                        find(draws, d, len(mine), used, what + " (signal)")
                    rel = None if len(mine) > 1 else s
                else:
                    lib.need_close(s, 1.0, what + " signal")
                    rel = 1.0
                if rel is None:
                    continue
                for d, (name, plane) in enumerate((("x", 0), ("y", 2))):
                    want = np.mean([b.clean(sc.RING[i], np.mean([true(sh, p, i, tu)[0] for p in range(n)]) + z[0],
                                            np.mean([true(sh, p, i, tu)[1] for p in range(n)]) + z[1])[d] for sh, tu in mine])
                    sigma = np.asarray(getattr(sc.RING[i], field))[d]
                    got = pos[d, c]
                    if sigma == 0:
                        lib.need_close(got, want, f"{what}, {name}", rtol=1e-10, atol=1e-14)
                    elif len(mine) <= 2:
                        find(draws, (got - want) * rel * len(mine) / sigma, len(mine), used, f"{what}, {name}")
        return (mode, req, e0, e1, noise, n, turns, shots)
    return run


def everywhere(t):
    """true positions at all elements together with BPM readings"""
    from pySC.core.beam import all_elements_reading
    n, turns, shots = t.choose([(1, 1, 1), (2, 2, 1), (1, 2, 2), (2, 1, 3)], "particles, turns, shots")
    mode = t.choose(("TBT", "ORB"), "mode")
    err = t.choose(tuple(ERRORS), "errors")
    loss = t.choose((None, (0, 7, 0), (1, 12, 1), (0, 17, 1)), "loss of particle at element, turn")
    if mode == "ORB" and ((n, turns) != (1, 1) or loss):
        raise Skip()
    if loss and (loss[0] >= n or loss[2] >= turns):
        raise Skip()
    sc = b.machine(n=n, turns=turns, shots=shots, mode=mode)
    for k, v in ERRORS[err].items():
        setattr(sc.RING[12], k, v)

    def tr(s, p, r, tu):
        return None if loss and p == loss[0] and (tu, r) >= (loss[2], loss[1]) else true(s, p, r, tu)
    beam = b.Beam(tr)
    state = lib.snap(sc)
    with env.seams(rng_source=b.Labels(), track=beam.track, orbit=beam.orbit):
        pos, allp = lib.call(all_elements_reading, sc)
    lib.need_state(sc, state, "reading all elements")
    nref = len(sc.RING) + 1
    lib.need(allp.shape == (2, n, nref, turns, shots), f"shape {allp.shape}")
    want = np.array([[[[[(tr(s, p, r, tu) or (np.nan, np.nan))[d] for s in range(shots)] for tu in range(turns)] for r in range(nref)] for p in range(n)] for d in range(2)])
    lib.need_close(allp, want, "true positions", rtol=1e-12)
    for tu in range(turns):
        for k, i in enumerate(b.BPMS):
            live = [p for p in range(n) if tr(0, p, i, tu)]
            for d in range(2):
                if not live:
                    w = np.nan
                else:
                    w = np.mean([b.clean(sc.RING[i], np.mean([tr(s, p, i, tu)[0] for p in live]), np.mean([tr(s, p, i, tu)[1] for p in live]))[d] for s in range(shots)])
                lib.need_close(pos[d, tu * 3 + k], w, f"reading of BPM {i} turn {tu}", rtol=1e-10, atol=1e-14)
    return (n, turns, shots, mode, err, loss)


def registered(t):
    """order and number of registered BPMs"""
    from pySC.core.beam import bpm_reading
    bp = t.choose([[16], [12, 3], [16, 3, 12], [3, 7, 16]], "registered")
    turns = t.choose((1, 2, 3), "turns")
    req = t.choose(REQUESTS, "requested")
    sc = b.machine(bpms=bp, turns=turns)
    inds = [i for i in sorted(bp) if req is None or i in req]
    beam = b.Beam(true)
    with env.seams(rng_source=env.zeros_source, track=beam.track):
        if not inds:
            lib.rejects(bpm_reading, sc, A(req, dtype=int), what=f"{req}", exc=ValueError)
            return "rejected"
        pos, _ = lib.call(bpm_reading, sc, *(() if req is None else (A(req),)))
    lib.need_close(pos, A([[true(0, 0, i, tu)[d] for tu in range(turns) for i in inds] for d in (0, 1)]), f"registered {bp}, requested {req}", rtol=1e-12)
    return (bp, turns, req)


def real(t):
    """no stand-ins: reading of a real machine equals real tracking / real closed orbit"""
    import at
    from pySC.core.beam import bpm_reading
    mode = t.choose(("TBT", "ORB", "PORB"), "mode")
    err = t.choose(tuple(ERRORS), "errors")
    z = t.choose((0.0, 1e-4), "x"), t.choose((0.0, -2e-4), "y")
    sc = b.machine(turns=1 if mode == "ORB" else 2, mode=mode)
    for k, v in ERRORS[err].items():
        setattr(sc.RING[12], k, v)
    sc.INJ.Z0[[0, 2]] = z
    if mode == "ORB":
        with env.seams():
            orb = env.orbiter.real(sc.RING.deepcopy(), A(b.BPMS))[1]
        xy = orb[:, [0, 2]].T[:, :, None]
    else:
        xy = env.tracker.real(lattice=sc.RING.deepcopy(), r_in=np.asfortranarray(sc.INJ.Z0.reshape(6, 1).copy()), nturns=2, refpts=np.array(b.BPMS))[0][[0, 2], 0]
    pos, _ = lib.call(bpm_reading, sc)
    want = A([[b.clean(sc.RING[i], xy[0, k, tu], xy[1, k, tu])[d] for tu in range(xy.shape[2]) for k, i in enumerate(b.BPMS)] for d in (0, 1)])
    if mode == "PORB":
        want = want.reshape(2, 2, 3).mean(axis=1)
    lib.need_close(pos, want, f"real reading, mode {mode}, errors {err}", rtol=1e-9, atol=1e-13)
    return (mode, err, z, float(np.max(np.abs(xy))) > 0)


def jobs(tier):
    q = tier == "quick"
    sizes = [(1, 1, 1), (2, 2, 1), (1, 1, 2)] if q else [(1, 1, 1), (2, 1, 1), (1, 2, 1), (2, 2, 1), (3, 2, 1), (1, 1, 2), (2, 3, 1), (2, 2, 2)]
    reqs = [None, [16, 3], [12, 5, 3], [5, 7]] if q else REQUESTS
    return [TapeJob("readings", body(tuple(ERRORS), ("no", "both", "x only") if q else tuple(NOISES), reqs, sizes, not q), shards=24, depth=4),
            TapeJob("all elements", everywhere, shards=4), TapeJob("registered BPMs", registered, shards=2), TapeJob("real tracking", real, shards=3)]
