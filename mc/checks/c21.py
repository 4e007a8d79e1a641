"""Model lattice after all short operation histories, compared value by value with design lattice + setpoints; model responses and dispersions for all
small corrector/BPM orders, planes, turns, modes against independent finite differences, and against closed formulas on a drift line."""
import numpy as np
import at
from mc import lib, env
from mc.core import TapeJob, Skip
from mc.checks import c12

A = np.array
CHILDREN = (c12.BC,)


def skew_quad(sc):
    sc.set_magnet_setpoints(c12.QF, 0.03, skewness=True, order=1)
    sc.set_magnet_setpoints(A([c12.QD]), -0.9, skewness=False, order=1)


def one_cavity(sc):
    sc.register_cavities(A([13]))
    sc.set_cavity_setpoints(A([13]), 2.5e6, "Voltage")


def sextupole(sc):
    sc.set_magnet_setpoints(c12.SF, 0.5, skewness=False, order=2, method="rel")


def skew_of_split(sc):
    sc.set_magnet_setpoints(c12.BM, 0.2, skewness=False, order=1, method="add")


OPS = [o for o in c12.OPS if o[0] not in c12.PURE + ("injection", "update supports")] + [
    ("skew quadrupole", skew_quad, lambda sc: c12.have("Magnet")(sc) and c12.QF in sc.ORD.Magnet), ("sextupole", sextupole, lambda sc: c12.SF in sc.ORD.Magnet),
    ("one cavity", one_cavity, lambda sc: 13 not in sc.ORD.RF), ("gradient of split magnet", skew_of_split, lambda sc: c12.BM in sc.ORD.Magnet)]


def expected(sc, design, ap):
    out = dict(design)
    m = lib.snap(sc, ideal=False)
    for i in range(len(sc.RING)):
        for ab in "AB":
            if ("RING", i, "SetPointA") in m:
                v = m[("RING", i, f"SetPoint{ab}")].astype(float)
                v[0] = 0.0
                out[("LATTICE", i, f"Polynom{ab}")] = v
        if i in sc.ORD.RF:
            for f in ("Voltage", "Frequency", "TimeLag"):
                out[("LATTICE", i, f)] = m[("RING", i, f"{f}SetPoint")]
        for f in ("EApertures", "RApertures"):
            if ap and ("RING", i, f) in m:
                out[("LATTICE", i, f)] = m[("RING", i, f)]
    return out


def lattice(depth, start):
    def run(t):
        from pySC.core.simulated_commissioning import SimulatedCommissioning
        from pySC.lattice_properties.response_model import SCgetModelRING
        lib.small_ring()
        sc = SimulatedCommissioning(lib._cache[("small_ring",)])
        design = lib.snap_lattice(sc.IDEALRING)
        names = []
        todo = ([OPS[k] for k in range(5)] if start else [])
        with env.seams(rng_source=lambda n: np.full(n, 0.6)):
            for op in todo:
                op[1](sc)
            for k in range(depth):
                op = t.choose([None] + OPS, f"operation {k + 1}")
                if op is None:
                    if k + 1 < depth:
                        continue
                    break
                if op[2] and not op[2](sc):
                    raise Skip()
                op[1](sc)
                names.append(op[0])
            for ap in (False, True):
                before = lib.snap(sc)
                ring = lib.call(SCgetModelRING, sc, includeAperture=ap)
                what = f"model lattice after {names}, apertures {ap}"
                lib.need_state(sc, before, what, rtol=0, atol=0)
                ign = lambda k: k[0] == "LATTICE" and k[1] in CHILDREN and k[2].startswith("Polynom")
                bad = lib.differences({k: v for k, v in lib.snap_lattice(ring).items()}, expected(sc, design, ap), ign, rtol=1e-12, atol=0)
                lib.need(not bad, f"{what}: {bad}")
                for _, v in c12.lattice_mutables(ring):       # the model lattice belongs to the caller
                    v += 1
                lib.need_state(sc, before, f"{what}: writing into the model lattice", rtol=0, atol=0)
                again = SCgetModelRING(sc, includeAperture=ap)
                bad = lib.differences(lib.snap_lattice(again), expected(sc, design, ap), ign, rtol=1e-12, atol=0)
                lib.need(not bad, f"{what}, second time: {bad}")
        return (tuple(names), start)
    return run


# ------------------------------------------------------------------ responses
@lib.cached
def ring(kind):
    """ring with thin, thick and multipole correctors; 6D or without cavities"""
    els = []
    for c in range(2):
        els += [at.Quadrupole("QF", 0.4, 1.15), at.Monitor("BPM"), lib.corrector("CM"), at.Drift("D", 0.5), at.Sextupole("SF", 0.2, 4.0, PassMethod="StrMPoleSymplectic4Pass"), at.Drift("D", 0.3),
                at.Bend("B", 1.0, 0.2, PassMethod="BndMPoleSymplectic4Pass"), at.Drift("D", 0.3), at.Quadrupole("QD", 0.4, -1.15), at.Monitor("BPM"),
                at.Multipole("TC", 0.2, [0.0, 0.0], [0.0, 0.0], PassMethod="StrMPoleSymplectic4Pass"), at.Drift("D", 0.5), lib.corrector("CL", length=0.1), at.Drift("D", 0.3), at.Monitor("BPM"),
                at.Bend("B", 1.0, 0.2, PassMethod="BndMPoleSymplectic4Pass"), at.Drift("D", 0.3)]
    els += [at.RFCavity("CAV", 0.0, 1.0e6, 5.0e8, 31, lib.E0, PassMethod="RFCavityPass", TimeLag=0.1), at.Drift("D", 0.1), at.RFCavity("CAV", 0.0, 0.5e6, 5.0e8, 31, lib.E0, PassMethod="RFCavityPass", TimeLag=0.1),
            at.Marker("END", PassMethod="IdentityPass")]
    circ = float(sum(getattr(e, "Length", 0.0) for e in els))
    for e, h in zip([e for e in els if e.FamName == "CAV"], (5, 15)):
        e.HarmNumber, e.Frequency = h, h * 299792458.0 / circ
    return lib.ring_of(els)


HC = {"thin, sextupole": (2, 4), "reversed mix": (27, 10, 8, 2), "thick": (8, 10), "bend and quadrupole": (6, 0), "none": (), "second cell": (19, 25)}
VC = {"none": (), "mix": (2, 8, 10), "reversed": (25, 19, 4)}
BP = {"all": (1, 9, 14, 18, 26, 31), "some": (9, 26), "one": (31,), "elements": (0, 5, 33)}
THIN = (2, 12, 19, 29)


def kicked(lat, i, plane, kick):
    """the lattice with an additional kick towards positive position at element i"""
    new = lat.copy()
    new[i] = e = lat[i].deepcopy()
    if e.PassMethod == "CorrectorPass":
        e.KickAngle = A([e.KickAngle[0] + kick * (plane == 0), e.KickAngle[1] + kick * (plane == 1)])
    elif plane == 0:
        e.PolynomB = A(e.PolynomB, dtype=float) - kick / e.Length * np.eye(len(e.PolynomB))[0]
    else:
        e.PolynomA = A(e.PolynomA, dtype=float) + kick / e.Length * np.eye(len(e.PolynomA))[0]
    return new


def positions(lat, mode, z, turns, refs):
    """(plane, turn, BPM) flattened"""
    if mode == "ORB":
        o = at.find_orbit6(lat.copy(), A(refs))[1]
        return np.concatenate((o[:, 0], o[:, 2]))
    r = at.lattice_track(lattice=lat.copy(), r_in=z.copy(), nturns=turns, refpts=A(refs), in_place=False)[0]
    return np.concatenate([r[p, 0, b, n:n + 1] for p in (0, 2) for n in range(turns) for b in range(len(refs))])


def machine(t):
    from pySC.core.simulated_commissioning import SimulatedCommissioning
    ring("r")
    r = lib._cache[("ring", "r")]
    sc = SimulatedCommissioning(r)
    sc.register_bpms(A([1, 9, 14, 18, 26, 31]), Offset=A([1e-4, 1e-4]))
    sc.register_magnets(A([2, 12, 19, 29]), HCM=1, VCM=1)
    sc.register_magnets(A([0, 8, 10, 17, 25, 27]), HCM=1, VCM=1, CalErrorB=A([0.1, 0.1]), MagnetOffset=1e-3 * np.ones(3))
    sc.register_magnets(A([4, 21]), HCM=1)
    cavs = sorted(i for i, e in enumerate(r) if e.FamName == "CAV")
    sc.register_cavities(A(cavs[:t.choose((2, 1), "registered cavities", dev=True)]), VoltageOffset=1e3)
    with env.seams(rng_source=lambda n: np.full(n, 0.7)):
        sc.apply_errors()
    state = t.choose(("design", "quadrupoles", "correctors, cavity"), "setpoints", dev=True)
    if state == "quadrupoles":
        sc.set_magnet_setpoints(A([0, 17]), 1.02, False, 1, method="rel")
        sc.set_magnet_setpoints(A([8]), 0.01, True, 1)
    elif state == "correctors, cavity":
        sc.set_cm_setpoints(A([2, 10]), A([1e-4, -2e-4]), skewness=False)
        sc.set_cm_setpoints(A([2, 10]), A([2e-4, 1e-4]), skewness=True)
        sc.set_cavity_setpoints(A(cavs[:1]), 2e6, "Voltage")
    if t.choose((False, True), "design kicks", dev=True):
        sc.IDEALRING[2].KickAngle = A([1e-4, -1e-4])
        sc.IDEALRING[10].PolynomA[0] = 1e-4
    return sc, cavs, state


def model_of(sc, ideal):
    lat = sc.IDEALRING.deepcopy()
    for i in range(len(lat)):
        lat[i] = lat[i].deepcopy()
        if ideal:
            continue
        e = sc.RING[i]
        if hasattr(e, "SetPointB"):
            lat[i].PolynomA = A(e.SetPointA, dtype=float) * (np.arange(len(e.SetPointA)) > 0)
            lat[i].PolynomB = A(e.SetPointB, dtype=float) * (np.arange(len(e.SetPointB)) > 0)
        if i in sc.ORD.RF:
            for f in ("Voltage", "Frequency", "TimeLag"):
                setattr(lat[i], f, float(getattr(e, f + "SetPoint")))
    return lat


Z0 = {"zero": None, "trajectory": A([1e-3, -1e-4, -5e-4, 2e-4, 1e-3, 1e-3])}


def args(t, turns_):
    mode = t.choose(("TBT", "ORB"), "mode")
    turns = t.choose(turns_, "turns")
    if mode == "ORB" and turns > 2:
        raise Skip()
    ideal = t.choose((False, True), "design lattice")
    z = t.choose(tuple(Z0), "start") if mode == "TBT" else "zero"
    kw = dict(trackMode=mode, nTurns=turns, useIdealRing=ideal)
    if z != "zero":
        kw["Z0"] = Z0[z].copy()
    return mode, (1 if mode == "ORB" else turns), ideal, Z0[z] if z != "zero" else np.zeros(6), kw


def response(turns_, bps):
    def run(t):
        from pySC.lattice_properties.response_model import SCgetModelRM
        h, v = HC[t.choose(tuple(HC), "horizontal correctors")], VC[t.choose(tuple(VC), "vertical correctors")]
        mode, turns, ideal, z, kw = args(t, turns_)
        bp = BP[t.choose(bps, "BPMs")]
        dk = t.choose((1e-5, -3e-5, 1e-4), "kick", dev=True)
        if dk != 1e-5:
            kw["dkick"] = dk
        sc, cavs, state = machine(t)
        as_list = t.choose((False, True), "lists", dev=True)
        cms = [list(h), list(v)] if as_list else [A(h, dtype=int), A(v, dtype=int)]
        before = lib.snap(sc)
        rm = lib.call(SCgetModelRM, sc, A(bp), cms, **kw)
        what = f"model response of {h} {v} at {bp}, {kw}, {state}"
        lib.need_state(sc, before, what, rtol=0, atol=0)
        lat = model_of(sc, ideal)
        base = positions(lat, mode, z, turns, bp)
        want = np.zeros((2 * turns * len(bp), len(h) + len(v)))
        for c, (i, p) in enumerate([(i, 0) for i in h] + [(i, 1) for i in v]):
            want[:, c] = (positions(kicked(lat, i, p, dk), mode, z, turns, bp) - base) / dk
        rm = np.asarray(rm)
        lib.need(rm.shape == want.shape, f"{what}: shape {rm.shape}, expected {want.shape}")
        tol = 1e-6 if mode == "ORB" else 1e-9
        lib.need(np.all(np.abs(rm - want) <= tol * (1 + np.abs(want))), f"{what}: {rm.tolist()}, expected {want.tolist()}")
        return (h, v, bp, str(sorted((k, str(x)) for k, x in kw.items())), state)
    return run


def dispersion(turns_, bps):
    def run(t):
        from pySC.lattice_properties.response_model import SCgetModelDispersion
        mode, turns, ideal, z, kw = args(t, turns_)
        bp = BP[t.choose(bps, "BPMs")]
        which = t.choose(("both", "first", "second", "reversed"), "cavities")
        step = t.choose((1e3, -200, 50.0), "step")
        if step != 1e3:
            kw["rfStep"] = step
        sc, cavs, state = machine(t)
        cs = dict(both=cavs, first=cavs[:1], second=cavs[1:], reversed=cavs[::-1])[which]
        before = lib.snap(sc)
        eta = np.asarray(lib.call(SCgetModelDispersion, sc, A(bp), A(cs), **kw))
        what = f"model dispersion at {bp}, cavities {which}, {kw}, {state}"
        lib.need_state(sc, before, what, rtol=0, atol=0)
        lat = model_of(sc, ideal)
        base = positions(lat, mode, z, turns, bp)
        for c in cs:
            lat[c].Frequency += step
        want = (positions(lat, mode, z, turns, bp) - base) / step
        lib.need(eta.shape == want.shape, f"{what}: shape {eta.shape}, expected {want.shape}")
        scale = np.max(np.abs(want))
        tol = 1e-12 if mode == "ORB" else 1e-15
        lib.need(np.all(np.abs(eta - want) <= tol + 1e-6 * scale), f"{what}: {eta.tolist()}, expected {want.tolist()}")
        return (bp, which, str(sorted((k, str(x)) for k, x in kw.items())), state)
    return run


# ------------------------------------------------------------------ closed formula
def formula(n):
    """drifts and correctors only: the response is the lever arm"""
    kinds = dict(drift=lambda: at.Drift("D", 0.4), thin=lambda: lib.corrector("CM"), thick=lambda: at.Multipole("TC", 0.3, [0.0, 0.0], [0.0, 0.0], PassMethod="StrMPoleSymplectic4Pass"),
                 bpm=lambda: at.Monitor("BPM"), long=lambda: lib.corrector("CL", length=0.2))

    def run(t):
        from pySC.core.simulated_commissioning import SimulatedCommissioning
        from pySC.lattice_properties.response_model import SCgetModelRM
        names = [t.choose(tuple(kinds), f"element {k}") for k in range(n)] + ["drift", "bpm", "drift"]
        cms = [i for i, x in enumerate(names) if x in ("thin", "thick", "long")]
        if not cms or "bpm" not in names[cms[0]:]:
            raise Skip()
        els = [kinds[x]() for x in names]
        lat = lib.ring_of(els)
        sc = SimulatedCommissioning(lat)
        bpms = [i for i, x in enumerate(names) if x == "bpm"]
        sc.register_bpms(A(bpms))
        sc.register_magnets(A(cms), HCM=1, VCM=1)
        turns = t.choose((1, 2), "turns")
        ideal = t.choose((True, False), "design lattice")
        dk = 1e-5
        rm = np.asarray(lib.call(SCgetModelRM, sc, A(bpms), [A(cms), A(cms[::-1])], nTurns=turns, useIdealRing=ideal, dkick=dk))
        L = [float(getattr(e, "Length", 0.0)) for e in els]
        s = np.concatenate(([0], np.cumsum(L)))
        total = s[-1]

        def arm(i, b, k):    # position at BPM b in turn k per kick at i
            x = 0.0
            for m in range(k + 1):
                d = s[b] + (k - m) * total - (s[i] + (L[i] / 2 if names[i] == "thick" else L[i] / 2))
                if m < k or b > i:
                    x += d
            return x
        want = A([[arm(i, b, k) * (p == q) for q in (0, 1) for i in (cms if q == 0 else cms[::-1])] for p in (0, 1) for k in range(turns) for b in bpms])
        lib.need(rm.shape == want.shape, f"shape {rm.shape}, expected {want.shape}")
        lib.need_close(rm, want, f"response of {names}, {turns} turns, ideal {ideal}", rtol=1e-7, atol=1e-8)
        return (tuple(names), turns, ideal)
    return run


def no_orbit(t):
    """no closed orbit, or a trajectory that is lost, must be reported as an error"""
    from pySC.lattice_properties.response_model import SCgetModelRM, SCgetModelDispersion
    fn = t.choose(("response", "dispersion"), "function")
    ideal = t.choose((False, True), "design lattice")
    mode = t.choose(("TBT", "ORB", "lost"), "mode")
    sc, cavs, _ = machine(t)
    kw = dict(trackMode=mode, useIdealRing=ideal)
    if mode == "TBT":
        kw["Z0"] = A([np.nan, 0, 0, 0, 0, 0])
    elif mode == "ORB":
        if ideal:
            for i in (0, 17):
                sc.IDEALRING[i].PolynomB[1] = 40.0
        else:
            sc.set_magnet_setpoints(A([0, 17]), 40.0, False, 1)
        lat = model_of(sc, ideal)
        if np.all(np.isfinite(positions(lat, "ORB", None, 1, (1, 9)))):
            raise Skip()
    else:
        kw["trackMode"] = "TBT"
        sc.IDEALRING[3].RApertures = A([-1e-3, 1e-3, -1e-3, 1e-3])
        kw["Z0"] = A([5e-3, 0, 0, 0, 0, 0])
    before = lib.snap(sc)
    a = (sc, A([1, 9, 14]), [A([2]), A([8])]) if fn == "response" else (sc, A([1, 9, 14]), A(cavs))
    lib.rejects(SCgetModelRM if fn == "response" else SCgetModelDispersion, *a, what=f"{fn} without beam ({mode})", **kw)
    lib.need_state(sc, before, f"{fn} without beam", rtol=0, atol=0)
    return (fn, ideal, mode)


def jobs(tier):
    q = tier == "quick"
    return [TapeJob("model lattice", lattice(3 if q else 4, False), shards=17, depth=1),
            TapeJob("model lattice, registered", lattice(2 if q else 3, True), shards=17, depth=1),
            TapeJob("response", response((1, 2, 3), ("all", "some", "elements") if q else tuple(BP)), max_dev=1 if q else 3, shards=24, depth=3),
            TapeJob("dispersion", dispersion((1, 2, 3), ("all", "some") if q else tuple(BP)), max_dev=1 if q else 3, shards=16, depth=4),
            TapeJob("formula", formula(3 if q else 5), shards=16, depth=2),
            TapeJob("no orbit", no_orbit, max_dev=1)]
