"""Feedback and balancing driven by scripted readings (every injection may be full, partly or completely lost, or jump in either plane), with the exact
expected corrector and frequency change after every reading and an independent evaluation of the stopping rule; plus closed loops on all small linear
machines and on a real lattice."""
import itertools

import numpy as np
from mc import lib, env, threading as th
from mc.core import TapeJob, Skip, Violation
from mc.checks.c13 import pinv, changes, kicks, listed, OPTS, SUBSETS

A = np.array
EPS = 1e-4


def stable(rms, n, eps):
    if len(rms) < n or n == 0:
        return False
    sd = np.std(A(rms[-n:]), axis=0)
    if np.any((sd > eps / 1.02) & (sd < eps * 1.02)):
        raise Skip()        # too close to call
    return bool(np.all(sd < eps))


def script(t, n, what):
    """reading offsets of every injection: deviations from a constant reading"""
    opts = ("same", "lost", "lost at the last BPM", "jump x", "jump y", "zero")
    return [t.choose(opts, f"injection {k}", dev=True) for k in range(n)]


def run_line(turns, kinds, drift, mode, cms=None):
    full = len(th.BPMS) * turns

    def reach(k):
        a = kinds[k] if k < len(kinds) else "same"
        return 0 if a == "lost" else full - 1 if a.startswith("lost at") else full

    def xy(k, i, t):
        a = kinds[k] if k < len(kinds) else "same"
        f = 0 if a == "zero" else 1
        g = drift ** k
        return (f * (g * 4e-4 * (1 + 0.3 * i - 0.2 * t) + (3e-3 if a == "jump x" else 0)), f * (g * -3e-4 * (0.7 + 0.2 * i + 0.1 * t) - (4e-3 if a == "jump y" else 0)))
    return th.Line(turns, reach, xy, mode)


def lost(L, k, bpms):
    return not np.all(L.seen(k, bpms))


def rms_of(L, k, bpms):
    return np.sqrt(np.mean(L.reading(k, bpms) ** 2, axis=1))


def feedback(two_turns, steps, subsets, refs, opts, drifts, devs_on):
    """correct (two_turns False) or balance (True)"""
    def run(t):
        from pySC.correction.orbit_trajectory import correct, balance
        fn = balance if two_turns else correct
        mode, turns = ("TBT", 2) if two_turns else t.choose((("TBT", 1), ("ORB", 1), ("TBT", 2)), "tracking")
        sub = t.choose(subsets, "correctors and BPMs")
        nmax = t.choose(steps, "allowed steps")
        drift = t.choose(drifts, "trend")
        disp = t.choose((0, 2e3), "dispersion included", dev=True) if not two_turns else 0
        refk = t.choose(refs, "reference", dev=True)
        opt = t.choose(opts, "pseudo-inverse options", dev=True)
        eps = t.choose((EPS, 9e-4, 2.0, 1e-9), "tolerance", dev=True)
        target = t.choose((0, 1.0, 1e-12, 4e-4), "target", dev=True) if not two_turns else 0
        kinds = script(t, nmax + 1, "reading") if devs_on else []
        L = run_line(turns, kinds, drift, mode)
        cms, bp = SUBSETS[sub]
        hl, vl = cms or (th.HCM, th.VCM)
        bpms = bp or th.BPMS
        rows = 2 * len(bpms) * turns
        rm = th.matrix(rows, len(hl) + len(vl) + (1 if disp else 0))
        if disp:
            rm[:, -1] *= 0.5
        ref = {"none": None, "flat": 1e-4 * (1 + np.arange(rows)), "column": 1e-4 * (2 - np.arange(rows))[:, None]}[refk]
        kw = dict(maxsteps=nmax, eps=eps, **opt)
        if cms:
            kw["cm_ords"] = [A(hl), A(vl)]
        if bp:
            kw["bpm_ords"] = A(bp)
        if ref is not None:
            kw["reference"] = ref
        if not two_turns:
            kw["target"] = target
            if disp:
                kw["scaleDisp"] = disp
        out, err = L.run(fn, rm, **kw)
        what = f"{fn.__name__} {mode} {turns} turns, {sub}, {nmax} steps, readings {kinds}, trend {drift}, dispersion {disp}, eps {eps}"
        H, n = L.history, len(L.history)
        L.frame(what, cavities=bool(disp))
        P = pinv(rm, opt)
        r0 = np.zeros(rows) if ref is None else ref.ravel().copy()
        nb = len(bpms)
        if two_turns:
            r0 = r0.reshape(2, -1)
            r0[:, nb:] = 0
            r0 = r0.ravel()
        H2 = H + [dict(cms=L.final(), freq=th.frequencies(L.sc))]
        lib.need(n >= 1, what + ": no reading was taken")
        lib.need(n <= nmax + 1, f"{what}: {n} readings with {nmax} allowed steps")
        for k in range(n):
            ch = changes(H2[k]["cms"], H2[k + 1]["cms"])
            listed(ch, hl, vl, what)
            if k == n - 1:
                lib.need(not ch[0] and not ch[1] and H2[k]["freq"] == H2[k + 1]["freq"], f"{what}: machine changed after the last reading")
                continue
            r = L.reading(k, bpms)
            if two_turns:
                r = np.concatenate((r[:, :nb], r[:, nb:] - r[:, :nb]), axis=1)
            dphi = P @ (r.ravel() - r0)
            step = dphi[:len(hl) + len(vl)]
            lib.need_close(kicks(H2[k + 1]["cms"], hl, vl), kicks(H2[k]["cms"], hl, vl) - step, f"{what}: kicks after reading {k}", rtol=1e-7, atol=1e-12)
            if disp:
                lib.need_close(A(H2[k + 1]["freq"]) - A(H2[k]["freq"]), [-disp * dphi[-1]] * len(th.RF), f"{what}: frequency after reading {k}", rtol=1e-6, atol=1e-5)
        gone = next((k for k in range(n) if lost(L, k, bpms)), None)
        if gone is not None:
            lib.need(err is not None, f"{what}: success although beam was lost in reading {gone}")
            lib.need(gone == n - 1, f"{what}: continued after beam was lost in reading {gone}")
            return (fn.__name__, mode, turns, sub, nmax, tuple(kinds), drift, "lost", n)
        rms = [rms_of(L, k, bpms) for k in range(n)]
        first = next((k for k in range(1, n) if stable(rms[:k + 1], 5, eps)), None)
        m = min(5, nmax)
        hit = None
        if not two_turns and target:
            hit = next((k for k in range(1, n) if np.max(rms[k]) < target and stable(rms[:k + 1], m, eps)), None)
        end = min([k for k in (first, hit) if k is not None], default=None)
        if end is not None:
            lib.need(out is not None, f"{what}: {err} although the readings were stable after reading {end}")
            lib.need(n == end + 1, f"{what}: {n} readings although they were stable after reading {end}")
        else:
            lib.need(n == nmax + 1, f"{what}: stopped after {n - 1} of {nmax} steps with readings that are not stable")
            ok = not two_turns and (nmax == 1 or stable(rms, m, eps))
            lib.need((out is not None) == ok, f"{what}: {'success' if out is not None else err} although the rms readings of the last steps are {[list(x) for x in rms[-m:]]}")
        if err is not None:
            lib.need(isinstance(err, RuntimeError), f"{what}: failure reported as {type(err).__name__}")
        return (fn.__name__, mode, turns, sub, nmax, tuple(kinds), drift, out is not None, n)
    return run


class Linear:
    """reading = M kicks + b, in the same line"""

    def __init__(self, M, b, hl, vl, bpms, mode):
        self.L = th.Line(1, lambda k: len(th.BPMS), self.xy, mode)
        self.M, self.b, self.hl, self.vl, self.bpms = M, b, hl, vl, bpms

    def reading(self, k):
        return self.M @ kicks(self.L.history[k]["cms"], self.hl, self.vl) + self.b

    def xy(self, k, i, t):
        o = th.BPMS[i]
        if o not in self.bpms:
            return 5.0, -7.0
        r, n = self.reading(k), len(self.bpms)
        j = self.bpms.index(o)
        return r[j], r[n + j]


def linear(values, hl, vl, bpms, offsets):
    rows, cols = 2 * len(bpms), len(hl) + len(vl)

    def run(t):
        from pySC.correction.orbit_trajectory import correct
        M = A([t.choose(values, f"m{k}") for k in range(rows * cols)], dtype=float).reshape(rows, cols)
        b = A(t.choose(offsets, "offset"), dtype=float)[:rows] * 1e-3
        mode = t.choose(("TBT", "ORB"), "mode", dev=True)
        r0 = t.choose((None, 2e-4 * (1 + np.arange(rows))), "reference", dev=True)
        X = Linear(M, b, hl, vl, bpms, mode)
        kw = {} if r0 is None else dict(reference=r0)
        out, err = X.L.run(correct, M, cm_ords=[A(hl), A(vl)], bpm_ords=A(bpms), maxsteps=8, **kw)
        ref = np.zeros(rows) if r0 is None else r0
        what = f"feedback on linear machine {M.astype(int).tolist()}, offset {b.tolist()}"
        lib.need(out is not None, f"{what}: {err}")
        X.L.frame(what)
        n = len(X.L.history)
        res = X.reading(n - 1) - ref
        # nothing left that any corrector could correct
        lib.need_close(M.T @ res, np.zeros(cols), f"{what}: correctable deviation left", atol=1e-9)
        k0 = kicks(X.L.history[0]["cms"], hl, vl)
        lib.need_close(kicks(X.L.final(), hl, vl), k0 - np.linalg.pinv(M, rcond=1e-10) @ (M @ k0 + b - ref), f"{what}: final kicks", atol=1e-9)
        return (M.tobytes(), b.tobytes(), mode, n)
    return run


@lib.cached
def design():
    r = lib.fodo(3)
    for i, e in enumerate(r):
        if e.FamName in ("SF", "SD"):
            e.PolynomB[2] = 0.0
            e.K2 = 0.0 if hasattr(e, "K2") else None
    r.enable_6d()
    return r


_rm = {}


def machine():
    from pySC.core.simulated_commissioning import SimulatedCommissioning
    design()
    r = lib._cache[("design",)]
    sc = SimulatedCommissioning(r)
    o = lambda n: A([i for i, e in enumerate(r) if e.FamName == n])
    sc.register_bpms(o("BPM"))
    sc.register_magnets(o("CM"), HCM=1.0, VCM=1.0)
    sc.register_cavities(o("CAV"))
    return sc


def model(mode):
    from pySC.lattice_properties.response_model import SCgetModelRM, SCgetModelDispersion
    if mode not in _rm:
        sc = machine()
        _rm[mode] = (SCgetModelRM(sc, sc.ORD.BPM, sc.ORD.CM, trackMode=mode), SCgetModelDispersion(sc, sc.ORD.BPM, sc.ORD.RF))
    return _rm[mode]


def real(nk, amps, freqs):
    def run(t):
        from pySC.correction.orbit_trajectory import correct
        mode = t.choose(("ORB", "TBT"), "mode")
        sc = machine()
        rm, eta = model(mode)
        o = sc.ORD.CM[0]
        pat = [t.choose(amps, f"kick {j}") for j in range(nk)]
        df = t.choose(freqs, "frequency error") if mode == "ORB" else 0
        disp = mode == "ORB" and (df != 0 or t.choose((False, True), "dispersion"))
        use = o if nk > 4 else o[:]
        for j in range(nk):
            sc.set_cm_setpoints(use[(2 * j) % len(use)], 2e-5 * pat[j], skewness=bool(j % 2))
        if mode == "TBT":
            sc.INJ.Z0[:4] = [1e-5 * pat[0], 0, -1e-5 * pat[-1], 0]
        sc.INJ.trackMode = mode
        f0 = float(sc.RING[int(sc.ORD.RF[0])].FrequencySetPoint)
        if df:
            sc.set_cavity_setpoints(sc.ORD.RF, df, "Frequency", method="add")
        S = 1e8        # frequency preferred to kicks
        M = np.column_stack((rm, S * eta)) if disp else rm
        state = lib.snap(sc)
        with env.seams(rng_source=env.zeros_source):
            from pySC.core.beam import bpm_reading
            before = bpm_reading(sc)[0]
            out = lib.call(correct, sc, M, eps=1e-9, maxsteps=20, **(dict(scaleDisp=S) if disp else {}))
            after = bpm_reading(out)[0]
        what = f"{mode} correction of kicks {pat}, frequency error {df}, dispersion {disp}"

        def ign(k):
            return k[0] == "RING" and len(k) == 3 and (k[1] in o and k[2] in ("SetPointA", "SetPointB", "PolynomA", "PolynomB", "KickAngle", "MaxOrder")
                                                      or disp and k[1] in sc.ORD.RF and k[2] in ("Frequency", "FrequencySetPoint"))
        bad = lib.differences(lib.live(out), state, ign)
        lib.need(not bad, f"{what}: {bad}")
        # the part of the deviation that the correctors can reach must be gone
        U, S_, _ = np.linalg.svd(rm, full_matrices=False)
        U = U[:, S_ > 1e-9 * S_[0]]
        left, scale = np.linalg.norm(U.T @ after.ravel()), np.linalg.norm(before)
        lib.need(left <= 2e-3 * scale + 1e-9, f"{what}: correctable deviation {left:.3g} left of {scale:.3g}")
        if disp and df:
            f = float(out.RING[int(sc.ORD.RF[0])].FrequencySetPoint)
            lib.need(abs(f - f0) < 0.7 * abs(df), f"{what}: frequency error {f - f0:.4g} left of {df}")
        return (mode, tuple(pat), df, disp)
    return run


def jobs(tier):
    q = tier == "quick"
    subs = ("all", "subset") if q else tuple(SUBSETS)
    refs = ("none", "flat", "column")
    opts = OPTS
    out = [TapeJob("feedback, scripted readings", feedback(False, (1, 3, 6) if q else (1, 2, 3, 4, 5, 6, 8), subs, refs, opts, (1, 0.5) if q else (1, 0.5, 1.3), True), max_dev=1 if q else 2, shards=24, depth=4),
           TapeJob("balancing, scripted readings", feedback(True, (3, 6) if q else (1, 3, 4, 5, 6, 8), subs, refs, opts, (1, 0.5) if q else (1, 0.5, 1.3), True), max_dev=1 if q else 2, shards=24, depth=3),
           TapeJob("feedback, two deviations", feedback(False, (6,), ("all",), ("none",), OPTS[:1], (1,), True), max_dev=2, shards=16, depth=4),
           TapeJob("linear machines, one BPM", linear((1, 0, -2), (1, 4), (1,), (5,), [(1, -1)] if q else [(1, -1), (1, 1), (0, 2)]), max_dev=0 if q else 1, shards=16, depth=3),
           TapeJob("linear machines, two BPMs", linear((1, 0) if q else (1, 0, -2), (4,), (7,), (2, 8), [(1, -1, 2, 1)]), max_dev=1, shards=16, depth=3),
           TapeJob("real lattice", real(3 if q else 5, (0, 1, -1), (0, 200.0) if q else (0, 200.0, -150.0)), shards=16, depth=3)]
    return out
