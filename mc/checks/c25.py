"""Injection fits on a perfect machine for all sign patterns of the injected trajectory, BPM subsets and losses: the correction is minus the injected
trajectory, lost beam is an error that leaves the injection settings unchanged.  The drift fit is compared with the straight line through the two readings
around the injection point for all combinations of a small alphabet of readings."""
import contextlib
import io
import itertools

import numpy as np
import at
from mc import lib, env, beamsim as b
from mc.core import TapeJob, Skip

A = np.array


@lib.cached
def ring(kind):
    d = lambda x: at.Drift("D", x)
    els = []
    if kind == "drifts":
        for k in range(4):
            els += [d(0.4 + 0.2 * k), at.Monitor("BPM")]
        return lib.ring_of(els + [d(0.3)])
    for k in range(3):
        els += [d(0.3), at.Quadrupole("QF", 0.3, 1.2), at.Monitor("BPM"), d(0.7), lib.corrector("CM"), at.Quadrupole("QD", 0.3, -1.3), at.Monitor("BPM")]
        if kind == "bends":
            els += [d(0.2), at.Bend("B", 0.8, 0.15, PassMethod="BndMPoleSymplectic4Pass")]
        if kind == "coupled":
            q = at.Quadrupole("QS", 0.2, 0.0, PassMethod="StrMPoleSymplectic4Pass")
            q.PolynomA = A([0.0, 0.4])
            els += [q]
    return lib.ring_of(els + [d(0.3)])


SUBS = {"drifts": ((0, 1, 2), (0, 3), (1, 2, 3), (0, 1, 2, 3)), "quads": ((0, 1, 2), (0, 1), (2, 5), (4, 0, 1), (0, 1, 2, 3, 4, 5)), "bends": ((0, 1, 2), (1, 2, 4)), "coupled": ((0, 1, 2), (0, 2, 4))}


def machine(kind, turns=1, loss=None, shots=1):
    from pySC.core.simulated_commissioning import SimulatedCommissioning
    from pySC.correction import injection_fit  # noqa: F401
    ring(kind)
    sc = SimulatedCommissioning(lib._cache[("ring", kind)])
    bpms = [i for i, e in enumerate(sc.RING) if e.FamName == "BPM"]
    sc.register_bpms(A(bpms))
    cms = [i for i, e in enumerate(sc.RING) if e.FamName == "CM"]
    if cms:
        sc.register_magnets(A(cms), HCM=1.0, VCM=1.0)
    sc.INJ.nTurns = turns
    sc.INJ.nShots = shots
    return sc, bpms


def fitted(kinds, mags, lost):
    def run(t):
        from pySC.correction.injection_fit import fit_injection_trajectory
        kind = t.choose(kinds, "machine")
        sub = t.choose(SUBS[kind], "BPMs", dev=True)
        pat = [t.choose((0, 1, -1), f"coordinate {k}") for k in range(4)]
        mag = t.choose(mags, "size", dev=True)
        lon = t.choose(((0.0, 0.0), (0.0, 0.03)), "longitudinal", dev=True)
        turns = t.choose((1, 2), "turns", dev=True)
        shots = t.choose((1, 2), "shots", dev=True)
        ideal = t.choose((0.0, 1e-4), "design trajectory", dev=True)
        reach = t.choose((None,) + tuple(range(6)), "BPMs reached", dev=True) if lost else None
        sc, bpms = machine(kind, turns, None, shots)
        if reach is not None and reach >= len(bpms):
            raise Skip()
        z = A([pat[0] * mag[0], pat[1] * mag[1], pat[2] * mag[0] * 0.8, pat[3] * mag[1] * 0.7, lon[0], lon[1]])
        sc.INJ.Z0 = z.copy()
        sc.INJ.Z0ideal = A([ideal, 0, -ideal, 0, 0, 0])
        state = lib.snap(sc)
        count = [0]

        def track(lattice, r_in, nturns, refs):
            o = env.tracker.real(lattice=lattice, r_in=r_in, nturns=nturns, refpts=refs, in_place=False)[0]
            if lattice[0] is not sc.IDEALRING[0] and reach is not None and count[0] < shots:
                for k, r in enumerate(refs):
                    if r in bpms and bpms.index(r) >= reach:
                        o[0, :, k:, 0], o[1:, :, k:, 0] = np.nan, 0
                        o[0, :, :, 1:], o[1:, :, :, 1:] = np.nan, 0
                        break
            count[0] += 1
            return o
        what = f"fit on {kind}, injected {z[:4].tolist()}, BPMs {sub}, longitudinal {lon}, {turns} turns, {shots} shots, reach {reach}"
        err = None
        with env.seams(rng_source=env.zeros_source, track=track), contextlib.redirect_stdout(io.StringIO()):
            try:
                if sub == (0, 1, 2):
                    d = lib.call(fit_injection_trajectory, sc)
                else:
                    d = lib.call(fit_injection_trajectory, sc, bpm_inds=A(sub))
            except RuntimeError as e:
                err = e
            except IndexError as e:     # BPMs that are not in the order of the ring: refused or fitted
                lib.need(sub != tuple(sorted(sub)), f"{what}: {e}")
                lib.need_state(sc, state, what)
                return ("refused", kind, sub, tuple(pat))
        if reach is not None and reach <= max(sub):
            lib.need(err is not None, f"{what}: lost beam was not reported")
            lib.need_state(sc, state, what)
            return ("lost", kind, sub, reach)
        lib.need(err is None, f"{what}: {err}")
        d = np.asarray(d)
        lib.need(d.shape == (6,), f"{what}: correction of shape {d.shape}")
        tol = 3e-7
        lib.need(np.all(np.abs(d[:4] + z[:4]) < tol), f"{what}: correction {d[:4].tolist()}, expected {(-z[:4]).tolist()}")
        lib.need(np.all(d[4:] == 0), f"{what}: longitudinal correction {d[4:]}")
        state[("INJ", "Z0")] = z + d
        lib.need_state(sc, state, f"{what}: injected trajectory after the correction", rtol=1e-10, atol=1e-16)
        return (kind, sub, tuple(pat), mag, lon, turns, shots)
    return run


VALS = (0.0, 1e-4, -3e-4, 7e-4)


def drift(vals, kinds):
    def run(t):
        from pySC.correction.injection_fit import fit_injection_drift
        kind = t.choose(kinds, "machine")
        r = [t.choose(vals, f"reading {k}") for k in range(4)]      # x, x, y, y at the last BPM of turn one and the first of turn two
        z = t.choose((0.0, 2e-4), "injected", dev=True)
        turns = t.choose((2, 3), "turns", dev=True)
        nd = t.choose((None, (0,), (1,)), "planes", dev=True)
        reach = t.choose((None, 0, 1, 2), "beam", dev=True)
        plot = False
        sc, bpms = machine(kind, turns)
        sc.RING[1].Marked = True
        n = len(bpms)
        sc.INJ.Z0 = A([z, -z, 2 * z, z, 0, 0.1 * z])

        def true(shot, p, ref, tn):
            if ref not in bpms:
                return (0.0, 0.0)
            k = tn * n + bpms.index(ref)
            if reach is not None and k >= (0, n - 1, n)[reach]:
                return None
            v = {n - 1: (r[0], r[2]), n: (r[1], r[3])}.get(k, (1e-3 * k, -2e-3 * k))
            return v[0] - sc.INJ.Z0[0], v[1] - sc.INJ.Z0[2]
        B = b.Beam(true)
        state = lib.snap(sc)
        kw = dict(n_dims=A(nd)) if nd else {}
        what = f"drift fit on {kind}, readings {r}, {turns} turns, {kw}, beam {reach}"
        err = None
        with env.seams(rng_source=env.zeros_source, track=B.track):
            try:
                d = lib.call(fit_injection_drift, sc, **kw)
            except RuntimeError as e:
                err = e
        lib.need_state(sc, state, what)
        if reach is not None:
            lib.need(err is not None, f"{what}: lost beam was not reported")
            return ("lost", kind, reach)
        lib.need(err is None, f"{what}: {err}")
        s = np.concatenate(([0], np.cumsum([float(getattr(e, "Length", 0.0)) for e in sc.RING])))
        a, c = s[bpms[-1]] - s[-1], s[bpms[0]]
        want = np.zeros(6)
        for pl in range(2):
            x1, x2 = r[2 * pl], r[2 * pl + 1]
            slope = (x2 - x1) / (c - a)
            want[2 * pl], want[2 * pl + 1] = -(x1 - slope * a), -slope
        lib.need_close(np.asarray(d), want, what, rtol=1e-8, atol=1e-12)
        return (kind, tuple(r), turns, nd)
    return run


def rejected(t):
    from pySC.correction.injection_fit import fit_injection_drift
    sc, bpms = machine(t.choose(tuple(SUBS), "machine"))
    state = lib.snap(sc)
    with env.seams(rng_source=env.zeros_source):
        lib.rejects(fit_injection_drift, sc, what="drift fit with a single turn")
    lib.need_state(sc, state, "drift fit with a single turn")
    return len(bpms)


def jobs(tier):
    q = tier == "quick"
    return [TapeJob("trajectory", fitted(tuple(SUBS), ((1e-4, 5e-5), (6e-4, 3e-4), (1e-5, 1e-6)), False), max_dev=1 if q else 3, shards=24, depth=4),
            TapeJob("trajectory, lost beam", fitted(("quads", "drifts"), ((1e-4, 5e-5),), True) if not q else fitted(("drifts",), ((1e-4, 5e-5),), True), max_dev=1 if q else 2, shards=24, depth=5),
            TapeJob("drift", drift(VALS if q else VALS + (-2e-3, 1e-3), ("drifts", "quads", "bends")), max_dev=1 if q else 2, shards=16, depth=3),
            TapeJob("rejections", rejected)]
