"""Every measured response on a machine with exactly linear readings, for all amplitudes, limits, steps, subsets and orders and all patterns of lost
injections up to a bound: entries equal the slopes of the machine (or are absent where beam was lost).  The LOCO Jacobian is compared with independent
finite differences on the real lattice."""
import numpy as np
import at
from mc import lib, env, plant as pl
from mc.core import TapeJob, Skip

A = np.array

CMS = {"all": (pl.HCM, pl.VCM), "two": ((8, 1), (10,)), "horizontal only": ((4, 10), ()), "vertical only": ((), (10, 1))}
BPM = {"all": pl.BPMS, "two": (2, 9), "last": (9,)}
LOSS = {"no": None, "lost": 0, "first reading only": 1, "last reading lost": -1}


def losses(t, n, P):
    pat = [t.choose(tuple(LOSS), f"injection {k}", dev=True) for k in range(n)]

    def loss(k):
        v = LOSS[pat[k]] if k < n else None
        return P[0].full - 1 if v == -1 else v
    return pat, loss


def columns(cms):
    return [pl.Plant.column("H", i) for i in cms[0]] + [pl.Plant.column("V", i) for i in cms[1]]


def entries(got, want, what, complete):
    lib.need(got.shape == want.shape, f"{what}: response of shape {got.shape}, expected {want.shape}")
    lib.need(np.all(np.isfinite(got)), f"{what}: response with values that are not numbers")
    ok = np.abs(got - want) <= 1e-6 * np.abs(want) + 1e-9 * min(1, np.max(np.abs(want), initial=0))
    absent = got == 0
    bad = ~ok & ~absent
    lib.need(not np.any(bad), f"{what}: response {got[bad].tolist()}, expected {want[bad].tolist()} at {np.argwhere(bad).tolist()}")
    if complete:
        lib.need(np.all(ok), f"{what}: response missing at {np.argwhere(~ok).tolist()}")
    return int(np.sum(ok))


def limits(P, which):
    """limits near the present setpoints of some correctors"""
    sc = P.sc
    for k, i in enumerate(pl.HCM):
        s = abs(float(sc.get_cm_setpoints(i, skewness=False)[0]))
        if which == "at the limit":
            sc.RING[i].CMlimit[0] = s
        elif which == "close to the limit":
            sc.RING[i].CMlimit[0] = s + 4e-6
    for k, i in enumerate(pl.VCM):
        s = abs(float(sc.get_cm_setpoints(i, skewness=True)[0]))
        if which == "at the limit":
            sc.RING[i].CMlimit[1] = s
        elif which == "close to the limit":
            sc.RING[i].CMlimit[1] = s + 4e-6
    if which == "small range":
        for i in set(pl.HCM + pl.VCM):
            c = sc.RING[i].CMlimit
            sc.set_cm_setpoints(i, 3e-6, skewness=False)
            c[0] = 8e-6
            if i in pl.VCM:
                sc.set_cm_setpoints(i, -2e-6, skewness=True)
                c[1] = 6e-6
    P.zero = P.now()
    P.state0 = lib.snap(sc)


def measured(ninj, steps, subs, bpms):
    def run(t):
        from pySC.lattice_properties.response_measurement import response_matrix
        n = t.choose(steps, "steps")
        sub, bsub = t.choose(subs, "correctors"), t.choose(bpms, "BPMs")
        kind = t.choose(("array of one", "float", "list", "negative"), "amplitude")
        mode = t.choose(("fixedKick", "fixedOffset"), "mode")
        turns = t.choose((1, 2), "turns", dev=True)
        track = t.choose(("TBT", "ORB"), "tracking", dev=True) if turns == 1 else "TBT"
        lim = t.choose(("far", "at the limit", "close to the limit", "small range"), "limits", dev=True)
        order = t.choose((1, 2), "fit order", dev=True) if lim == "far" else 1
        box = [None]
        pat, loss = losses(t, ninj, box)
        P = box[0] = pl.Plant(turns, track, loss)
        P.scale = t.choose((1.0, 1e-4), "size of the responses", dev=True) if mode == "fixedKick" and lim == "far" else 1.0
        limits(P, lim)
        cms, bp = CMS[sub], BPM[bsub]
        a = 1e-5 if mode == "fixedKick" else 2e-5
        amp = {"array of one": A([a]), "float": a, "list": [A([a * (1 + 0.1 * k) for k in range(len(cms[0]))]), A([a * (1 - 0.1 * k) for k in range(len(cms[1]))])], "negative": -a}[kind]
        what = f"response, {n} steps, {sub}, {bsub}, amplitude {kind}, {mode}, {turns} turns {track}, limits {lim}, order {order}, lost {[(k, x) for k, x in enumerate(pat) if x != 'no']}"
        try:
            out = P.run(response_matrix, amp, A(bp), [A(cms[0], dtype=int), A(cms[1], dtype=int)], mode=mode, n_steps=n, fit_order=order)
        except ValueError as e:
            P.same(what)
            lib.need(track == "ORB" and pat and pat[0] != "no" and len(P.settings) == 1, f"{what}: {e}")
            return ("no orbit", sub, bsub, kind)
        P.same(what)
        rm = np.asarray(out[0])
        nlost = sum(x != "no" for x in pat)
        if nlost == 0 and n > order or n == 2 and nlost == 0:
            complete = True
        else:
            complete = False
        ok = entries(rm, P.expected(bp, columns(cms)), what, complete)
        st = out[2]
        lib.need(len(st) == 2 and st[0].shape == (n, len(cms[0])) and st[1].shape == (n, len(cms[1])), f"{what}: steps of shape {[x.shape for x in st]}")
        made = A(P.settings) - P.zero
        for d in range(2):
            for c, i in enumerate(cms[d]):
                m = made[:, P.column("HV"[d], i)]
                for s in st[d][:, c]:
                    lib.need(abs(s) < 1e-14 or np.any(np.abs(m - s) < 1e-12), f"{what}: reported step {s} was never made")
        return (ok, n, sub, bsub, kind, mode, turns, track, lim, order, tuple(pat))
    return run


def dispersion(ninj, steps):
    def run(t):
        from pySC.lattice_properties.response_measurement import dispersion
        n = t.choose(steps, "steps")
        bsub = t.choose((None, "all", "two", "last"), "BPMs")
        cav = t.choose((None, (7,), (11,), (11, 7)), "cavities")
        step = t.choose((1e3, -500.0, 40), "step")
        turns = t.choose((1, 2), "turns", dev=True)
        track = t.choose(("TBT", "ORB"), "tracking", dev=True) if turns == 1 else "TBT"
        box = [None]
        pat, loss = losses(t, ninj, box)
        P = box[0] = pl.Plant(turns, track, loss)
        kw = dict(n_steps=n)
        if bsub:
            kw["bpm_ords"] = A(BPM[bsub])
        if cav:
            kw["cav_ords"] = A(cav)
        what = f"dispersion, step {step}, {kw}, {turns} turns {track}, lost {[(k, x) for k, x in enumerate(pat) if x != 'no']}"
        out = np.asarray(P.run(dispersion, step, **kw))
        P.same(what)
        want = P.expected(BPM[bsub or "all"], [P.column("F", i) for i in (cav or pl.RF)]).sum(axis=1)
        lib.need(out.shape == want.shape, f"{what}: shape {out.shape}, expected {want.shape}")
        ok = np.abs(out - want) <= 1e-5 * np.abs(want) + 1e-12
        lib.need(np.all(ok | np.isnan(out)), f"{what}: {out.tolist()}, expected {want.tolist()}")
        if not any(x != "no" for x in pat):
            lib.need(np.all(ok), f"{what}: missing values {out.tolist()}")
        return (n, bsub, cav, step, turns, track, tuple(pat))
    return run


def loco(ninj):
    def run(t):
        from pySC.correction.loco import measure_closed_orbit_response_matrix as measure
        sub, bsub = t.choose(tuple(CMS), "correctors"), t.choose(tuple(BPM), "BPMs")
        kick = t.choose((1e-5, -2e-5, None), "kick")
        lim = t.choose(("far", "at the limit", "close to the limit", "small range"), "limits")
        mode = t.choose(("TBT", "ORB", "PORB"), "tracking mode before", dev=True)
        turns = 1 if mode == "ORB" else t.choose((1, 3), "turns before", dev=True)
        npart = 1 if mode == "ORB" else t.choose((1, 4), "particles before", dev=True)
        box = [None]
        pat, loss = losses(t, ninj, box)
        P = box[0] = pl.Plant(turns, mode, loss)
        P.sc.INJ.nParticles = npart
        P.turns, P.full = 1, len(pl.BPMS)
        limits(P, lim)
        cms, bp = CMS[sub], BPM[bsub]
        kw = {} if kick is None else dict(dkick=kick)
        what = f"LOCO response, {sub}, {bsub}, kick {kick}, limits {lim}, before {mode} {turns} {npart}, lost {[(k, x) for k, x in enumerate(pat) if x != 'no']}"
        out = np.asarray(P.run(measure, A(bp), [A(cms[0], dtype=int), A(cms[1], dtype=int)], **kw))
        P.same(what)
        want = P.expected(bp, columns(cms))
        lib.need(out.shape == want.shape, f"{what}: shape {out.shape}, expected {want.shape}")
        ok = np.abs(out - want) <= 1e-6 * np.abs(want) + 1e-9
        lib.need(np.all(ok | np.isnan(out)), f"{what}: {out.tolist()}, expected {want.tolist()}")
        if not any(x != "no" for x in pat):
            lib.need(np.all(ok), f"{what}: missing values {out.tolist()}")
        return (sub, bsub, kick, lim, mode, turns, npart, tuple(pat))
    return run


def rejected(t):
    from pySC.lattice_properties.response_measurement import response_matrix
    P = pl.Plant()
    bad = t.choose((A([1e-5, 1e-5]), [A([1e-5]), A([1e-5])], [A([1e-5] * 4), A([1e-5])], [A([1e-5] * 3), A([1e-5] * 3)]), "amplitude")
    with env.seams(rng_source=env.zeros_source, **P.handlers):
        lib.rejects(response_matrix, P.sc, bad, A(pl.BPMS), [A(pl.HCM), A(pl.VCM)], what=f"amplitude {bad}")
    P.same("rejected response measurement")
    lib.need(not P.settings, "beam was injected for a rejected measurement")
    return str(bad)


# ------------------------------------------------------------------ Jacobian
@lib.cached
def ring():
    r = lib.fodo(3)
    r.enable_6d()
    return r


def orbit(lat, refs):
    return at.find_orbit6(lat, refs)[1][:, [0, 2]].T.ravel()


def response(lat, bpms, cms, kick):
    lat = lat.deepcopy()
    base = orbit(lat, bpms)
    cols = []
    for d in range(2):
        for i in cms[d]:
            lat[i] = lat[i].deepcopy()
            e = lat[i]
            e.KickAngle = A(e.KickAngle, dtype=float)
            old = e.KickAngle.copy()
            e.KickAngle[d] += kick
            cols.append((orbit(lat, bpms) - base) / kick)
            e.KickAngle = old
    return A(cols).T


def disp(lat, bpms, cavs, step):
    lat = lat.deepcopy()
    base = orbit(lat, bpms)
    for i in cavs:
        lat[i] = lat[i].deepcopy()
        lat[i].Frequency += step
    return (orbit(lat, bpms) - base) / step


def jacobian(t):
    from pySC.core.simulated_commissioning import SimulatedCommissioning
    from pySC.correction.loco import calculate_jacobian
    ring()
    r = lib._cache[("ring",)]
    sc = SimulatedCommissioning(r)
    o = lambda n: A([i for i, e in enumerate(r) if e.FamName == n])
    sc.register_bpms(o("BPM"))
    sc.register_magnets(o("CM"), HCM=1.0, VCM=1.0)
    sc.register_magnets(o("QF"))
    sc.register_magnets(o("QD"))
    sc.register_magnets(o("SF"))
    sc.register_cavities(o("CAV"))
    detune = t.choose((0.0, 0.01), "quadrupole setpoints away from design")
    if detune:
        sc.set_magnet_setpoints(o("QF")[:1], 1 + detune, False, 1, method="rel")
    targets = {"single": [o("QD")[1], o("QF")[0]], "families": [o("QF"), o("QD")], "one sextupole": [o("SF")[0]]}
    which = t.choose(tuple(targets), "magnets")
    skew, order, dk = t.choose(((False, 1, 1e-3), (True, 1, 2e-3)) + (((False, 2, 1e-1),) if which == "one sextupole" else ()), "component")
    full = t.choose((True, False), "full")
    wd = t.choose((False, True), "dispersion")
    cms = t.choose((([0, 3], [2]), ([4, 1], [])), "correctors", dev=True)
    bp = o("BPM")[A(t.choose(((0, 1, 2, 3, 4, 5), (1, 4)), "BPMs", dev=True))]
    cm = [o("CM")[A(c, dtype=int)] for c in cms]
    kick = 1e-5
    lat = r.deepcopy()
    for i in range(len(lat)):
        e = sc.RING[i]
        if hasattr(e, "SetPointB") and e.FamName != "CM":
            lat[i] = lat[i].deepcopy()
            lat[i].PolynomB = A(e.SetPointB, dtype=float)
    C = response(lat, bp, cm, kick)
    if wd and full:
        raise Skip()        # gains of the dispersion are not defined
    s0 = lib.snap(sc)
    J = np.asarray(lib.call(calculate_jacobian, sc, C, kick, cm, bp, targets[which], dk, trackMode="ORB", useIdealRing=False, skewness=skew, order=order,
                            includeDispersion=wd, cav_ords=o("CAV"), full_jacobian=full))
    what = f"Jacobian of {which}, skew {skew} order {order} step {dk}, dispersion {wd}, full {full}, correctors {cms}"
    bad = lib.differences(lib.live(sc), s0, rtol=1e-11, atol=1e-14)
    lib.need(not bad, f"{what}: machine changed {bad}")
    nm, nc, nb = len(targets[which]), len(cm[0]) + len(cm[1]), len(bp) * 2
    if wd:
        C = np.column_stack((C, disp(lat, bp, o("CAV"), 1e3)))
    lib.need(J.shape == ((nm + nc + nb if full else nm),) + C.shape, f"{what}: shape {J.shape}")
    for k, tg in enumerate(targets[which]):
        l2 = lat.deepcopy()
        for i in np.ravel(tg):
            l2[int(i)] = l2[int(i)].deepcopy()
            e = l2[int(i)]
            getattr(e, "PolynomA" if skew else "PolynomB")[order] += dk
            e.MaxOrder = max(e.MaxOrder, order)
        C2 = response(l2, bp, cm, kick)
        if wd:
            C2 = np.column_stack((C2, disp(l2, bp, o("CAV"), 1e3)))
        want = (C2 - C) / dk
        tol = 2e-3 * np.max(np.abs(want)) + 2e-5 * np.max(np.abs(C)) / dk * 1e-2
        if wd:      # the dispersion column is compared on its own scale
            lib.need(np.max(np.abs(J[k][:, -1] - want[:, -1])) <= 2e-3 * np.max(np.abs(want[:, -1])) + 1e-13 / dk, f"{what}: dispersion derivative of magnet {tg}: {J[k][:, -1].tolist()}, expected {want[:, -1].tolist()}")
        lib.need(np.max(np.abs(J[k] - want)) <= tol, f"{what}: derivative of magnet {tg} differs by {np.max(np.abs(J[k] - want))} of {np.max(np.abs(want))}")
    if full:
        for i in range(nc):
            w = np.zeros_like(C)
            w[:, i] = C[:, i]
            lib.need_close(J[nm + i], w, f"{what}: corrector gain derivative {i}")
        for i in range(nb):
            w = np.zeros_like(C)
            w[i] = C[i]
            lib.need_close(J[nm + nc + i], w, f"{what}: BPM gain derivative {i}")
    return (which, skew, order, wd, full, detune, str(cms), len(bp))


def jobs(tier):
    q = tier == "quick"
    S, B = tuple(CMS), tuple(BPM)
    return [TapeJob("response", measured(0, (2, 3, 4, 5), S, B), max_dev=2 if q else 4, shards=24, depth=3),
            TapeJob("response, lost injections", measured(10 if q else 16, (2, 3, 4), ("two", "vertical only"), ("all",) if q else ("all", "two")), max_dev=1 if q else 2, shards=24, depth=3),
            TapeJob("dispersion", dispersion(6, (2, 3, 5) if q else (2, 3, 4, 5)), max_dev=1 if q else 3, shards=16, depth=3),
            TapeJob("LOCO response", loco(8), max_dev=1 if q else 2, shards=16, depth=3),
            TapeJob("rejections", rejected),
            TapeJob("Jacobian", jacobian, max_dev=1, shards=16, depth=3)]
