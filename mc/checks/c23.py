"""Two identical machines in lock step: one driven through the MATLAB-named functions, the other by the native operation written out with the
documented translation (plane 1/2 = horizontal/vertical, type 1/2 = skew/normal, orders from one, columns A, B).  All sequences of set/register/update/
read operations up to a depth, and all combinations of small arguments of every larger procedure; after each call results, errors and complete
machine states are compared."""
import contextlib
import io
import os
import tempfile

import numpy as np
import at
from mc import lib, env, beamsim as b
from mc.core import HistJob, TapeJob, Skip

A = np.array
RING_ONLY = ("RING", "ORD", "SIG", "INJ", "plot", "IDEALRING")


class Pair:
    def __init__(self):
        from pySC.core.simulated_commissioning import SimulatedCommissioning
        import pySC.matlab_index as mi
        lib.small_ring()
        self.f, self.n = mi.SCinit(lib._cache[("small_ring",)]), SimulatedCommissioning(lib._cache[("small_ring",)])
        for sc in (self.f, self.n):
            setup(sc)

    def canon(self):
        return lib.canon(lib.live(self.n, ideal=False))


def setup(sc):
    sc.register_bpms(A([3, 12, 16]), Offset=A([1e-4, 2e-4]), Noise=A([1e-5, 1e-5]))
    sc.register_magnets(A([2, 15]), CalErrorB=A([0, 1e-3]), MagnetOffset=A([1e-4, 1e-4, 0]), SkewQuad=0.5)
    sc.register_magnets(A([5]), CF=True, CalErrorB=A([0, 1e-3]))
    sc.register_magnets(A([7, 8]), HCM=1.0, VCM=0.8, CalErrorA=A([1e-2]))
    sc.register_magnets(A([10]), MasterOf=A([[11]]))
    sc.register_cavities(A([0, 13]), TimeLagOffset=1e-3)
    sc.register_supports(A([[1, 9], [8, 16]]), "Girder", Offset=A([1e-4, 1e-4, 0]), Roll=A([1e-4, 0, 0]))


def outcome(fn, sc, kind):
    """value or error of one side"""
    with env.seams(rng_source=b.Labels()), contextlib.redirect_stdout(io.StringIO()):
        try:
            return "ok", fn(sc)
        except lib.Violation:
            raise
        except Exception as e:  # noqa
            return "error", e


def flat(v, sc):
    if v is sc:
        return "the machine"
    if isinstance(v, at.Lattice):
        return {str(k): (x if lib.is_num(x) else repr(x) if not isinstance(x, dict) else {str(p): q for p, q in x.items()}) for k, x in lib.snap_lattice(v).items()}
    if isinstance(v, tuple):
        return [flat(x, sc) for x in v]
    return v


def agree(pair, ff, nf, what, invalid=False, result=True):
    """ff, nf: functions of a machine; invalid: the MATLAB-named call must be rejected and change nothing"""
    before = lib.snap(pair.f) if invalid else None
    kf, vf = outcome(ff, pair.f, "MATLAB-named")
    if invalid:
        lib.need(kf == "error" and not isinstance(vf, (AttributeError, NameError, UnboundLocalError)), f"{what}: invalid call accepted" if kf == "ok" else f"{what}: {vf!r}")
        lib.need_state(pair.f, before, f"{what}: rejected call", rtol=0, atol=0)
        return
    kn, vn = outcome(nf, pair.n, "native")
    if kn == "error" and isinstance(vn, (TypeError, AttributeError, NameError)):
        raise vn
    lib.need(kf == kn, f"{what}: MATLAB-named function {kf} ({vf!r:.200}), native operation {kn} ({vn!r:.200})")
    if kf == "error":
        lib.need(isinstance(vf, type(vn)) or isinstance(vn, type(vf)), f"{what}: {vf!r} instead of {vn!r}")
    elif result:
        a, c = flat(vf, pair.f), flat(vn, pair.n)
        lib.need(lib.same(a, c, 1e-9, 1e-13), f"{what}: returns {lib.show(a)}, native operation gives {lib.show(c)}")
    lib.need_state(pair.f, lib.live(pair.n), f"{what}: machine differs from the one after the native operation", rtol=1e-9, atol=1e-13)


# ------------------------------------------------------------------ small operations, in all sequences
def small_ops():
    import pySC.matlab_index as mi
    from pySC.core.lattice_setting import switch_cavity_and_radiation
    from pySC.core.beam import bpm_reading, generate_bunches, beam_transmission
    out = []

    def op(name, ff, nf, **kw):
        out.append((name, lambda p: agree(p, ff, nf, name, **kw)))

    def then(fn):       # native methods return nothing; the MATLAB-named function returns the machine
        def g(sc):
            fn(sc)
            return sc
        return g
    for dim in (1, 2, 0, 3, -1):
        for mode in ("abs", "rel", "add"):
            op(f"cms dim {dim} {mode}", lambda sc, d=dim, m=mode: mi.SCsetCMs2SetPoints(sc, A([7, 8]), A([1e-4, 2e-4]), d, mode=m),
               lambda sc, d=dim, m=mode: (then(lambda s: s.set_cm_setpoints(A([7, 8]), A([1e-4, 2e-4]), d == 2, m))(sc), sc.get_cm_setpoints(A([7, 8]), d == 2)), invalid=dim not in (1, 2))
        op(f"one cm dim {dim}", lambda sc, d=dim: mi.SCsetCMs2SetPoints(sc, A([8]), A([-3e-4]), d),
           lambda sc, d=dim: (then(lambda s: s.set_cm_setpoints(A([8]), A([-3e-4]), d == 2))(sc), sc.get_cm_setpoints(A([8]), d == 2)), invalid=dim not in (1, 2))
        op(f"get cms dim {dim}", lambda sc, d=dim: mi.SCgetCMSetPoints(sc, A([8, 7]), d), lambda sc, d=dim: sc.get_cm_setpoints(A([8, 7]), d == 2), invalid=dim not in (1, 2))
    for typ in (1, 2, 0, 3):
        for order in (1, 2, 3):
            for method in ("abs", "rel", "add") if order == 2 else ("add",):
                for comp in (False, True) if order == 2 and method == "rel" else (False,):
                    ords = A([7]) if order == 3 else A([2, 15]) if order == 1 else A([2, 5])
                    op(f"mags type {typ} order {order} {method} {comp}",
                       lambda sc, o=ords, t=typ, k=order, m=method, c=comp: mi.SCsetMags2SetPoints(sc, o, t, k, A([0.9]), method=m, dipCompensation=c),
                       lambda sc, o=ords, t=typ, k=order, m=method, c=comp: then(lambda s: s.set_magnet_setpoints(o, A([0.9]), t == 1, k - 1, m, c))(sc), invalid=typ not in (1, 2))
    AB = A([[1e-3, 2e-3], [3e-3, 1.0], [5e-4, 7e-4]])
    for typ in (1, 2, 0, 3):
        for order in (1, 2, 3):
            op(f"sys multipoles type {typ} order {order}", lambda sc, t=typ, o=order: mi.SCsetMultipoles(sc, A([2, 15]), AB.copy(), method="sys", order=o, type=t),
               lambda sc, t=typ, o=order: then(lambda s: s.set_systematic_multipole_errors(A([2, 15]), AB[:, ::-1].copy(), o - 1, t == 1))(sc), invalid=typ not in (1, 2))
    op("rnd multipoles", lambda sc: mi.SCsetMultipoles(sc, A([2, 5]), AB.copy(), method="rnd"), then(lambda s: s.set_random_multipole_errors(A([2, 5]), AB[:, ::-1].copy())))
    op("rnd multipoles by default", lambda sc: mi.SCsetMultipoles(sc, A([5]), AB.copy()), then(lambda s: s.set_random_multipole_errors(A([5]), AB[:, ::-1].copy())))
    op("flat multipoles", lambda sc: mi.SCsetMultipoles(sc, A([2, 5]), AB[:, 0].copy()), None, invalid=True)
    for ty in ("Voltage", "Frequency", "TimeLag"):
        for mode in ("abs", "rel", "add"):
            op(f"cavity {ty} {mode}", lambda sc, t=ty, m=mode: mi.SCsetCavs2SetPoints(sc, A([0, 13]), t, A([1.1, 0.9]), mode=m),
               then(lambda s, t=ty, m=mode: s.set_cavity_setpoints(A([0, 13]), A([1.1, 0.9]), t, m)))
        op(f"cavity {ty} default", lambda sc, t=ty: mi.SCsetCavs2SetPoints(sc, A([13]), t, A([2.0])), then(lambda s, t=ty: s.set_cavity_setpoints(A([13]), A([2.0]), t)))
    op("cavity bad", lambda sc: mi.SCsetCavs2SetPoints(sc, A([13]), "Phase", A([2.0])), None, invalid=True)
    for ns in (None, 1, 3):
        op(f"apply errors {ns}", lambda sc, k=ns: mi.SCapplyErrors(sc) if k is None else mi.SCapplyErrors(sc, k), then(lambda s, k=ns: s.apply_errors() if k is None else s.apply_errors(nsigmas=k)))
    op("register bpms", lambda sc: mi.SCregisterBPMs(sc, A([12]), Roll=1e-3, CalError=A([1e-2, 2e-2])), then(lambda s: s.register_bpms(A([12]), Roll=1e-3, CalError=A([1e-2, 2e-2]))))
    op("register magnets", lambda sc: mi.SCregisterMagnets(sc, A([2, 7]), HCM=0.1, CalErrorA=A([0, 1e-3])), then(lambda s: s.register_magnets(A([2, 7]), HCM=0.1, CalErrorA=A([0, 1e-3]))))
    op("register cavities", lambda sc: mi.SCregisterCAVs(sc, A([0]), FrequencyOffset=10.0), then(lambda s: s.register_cavities(A([0]), FrequencyOffset=10.0)))
    op("register support", lambda sc: mi.SCregisterSupport(sc, "Section", A([[1], [16]]), Offset=A([1e-3, 0, 0])), then(lambda s: s.register_supports(A([[1], [16]]), "Section", Offset=A([1e-3, 0, 0]))))
    op("register bad support", lambda sc: mi.SCregisterSupport(sc, "Bridge", A([[1], [16]])), None, invalid=True)
    for bp, mg in ((True, True), (False, True), (True, False), (False, False)):
        op(f"update support {bp} {mg}", lambda sc, p=bp, q=mg: mi.SCupdateSupport(sc, p, q), then(lambda s, p=bp, q=mg: s.update_supports(offset_bpms=p, offset_magnets=q)))
    op("update support default", lambda sc: mi.SCupdateSupport(sc), then(lambda s: s.update_supports()))
    for o in (None, A([2]), A([5, 10])):
        op(f"update magnets {o}", lambda sc, o=o: mi.SCupdateMagnets(sc, o), then(lambda s, o=o: s.update_magnets(o)))
    for o in (None, A([13])):
        op(f"update cavities {o}", lambda sc, o=o: mi.SCupdateCAVs(sc, o), then(lambda s, o=o: s.update_cavities(o)))
    op("support offset", lambda sc: mi.SCgetSupportOffset(sc, A([0.3, 1.7, 2.9])), lambda sc: sc.support_offset_and_roll(A([0.3, 1.7, 2.9]))[0])
    op("support roll", lambda sc: mi.SCgetSupportRoll(sc, A([0.3, 1.7, 2.9])), lambda sc: sc.support_offset_and_roll(A([0.3, 1.7, 2.9]))[1])
    op("sanity", lambda sc: mi.SCSanityCheck(sc), lambda sc: sc.verify_structure())
    for args in (("cavityoff",), ("cavityon", "radiationon"), ("radiationoff",), ("nonsense",)):
        op(f"cronoff {args}", lambda sc, a=args: (mi.SCcronoff(sc.RING, *a), sc)[1], lambda sc, a=args: (switch_cavity_and_radiation(sc.RING, *a), sc)[1])

    def beam(sc, fn):
        m = b.Beam(lambda s, p, r, t: (1e-4 * r + 1e-5 * t, -5e-5 * r), mark="Length")
        with env.seams(track=m.track, orbit=m.orbit):
            return fn(sc)
    op("reading", lambda sc: beam(sc, lambda s: mi.SCgetBPMreading(s)), lambda sc: beam(sc, lambda s: bpm_reading(s)[0]))
    op("reading of some", lambda sc: beam(sc, lambda s: mi.SCgetBPMreading(s, BPMords=A([16, 3]))), lambda sc: beam(sc, lambda s: bpm_reading(s, bpm_ords=A([16, 3]))[0]))
    op("bunches", lambda sc: mi.SCgenBunches(sc), lambda sc: generate_bunches(sc))
    for np_, nt in ((None, None), (3, None), (None, 2), (2, 3)):
        op(f"transmission {np_} {nt}", lambda sc, p=np_, q=nt: beam(sc, lambda s: mi.SCgetBeamTransmission(s, nParticles=p, nTurns=q)),
           lambda sc, p=np_, q=nt: beam(sc, lambda s: beam_transmission(s, p, q)))
    return out


# ------------------------------------------------------------------ procedures
@lib.cached
def cells(cavity):
    d = lambda x: at.Drift("D", x)
    els = []
    for c in range(4):
        els += [at.Quadrupole("QF", 0.4, 1.15), at.Monitor("BPM"), lib.corrector("CM"), d(0.8), at.Bend("B", 1.0, 0.2, PassMethod="BndMPoleSymplectic4Pass"), d(0.3),
                at.Quadrupole("QD", 0.4, -1.15), at.Monitor("BPM"), lib.corrector("CM"), d(0.8), at.Bend("B", 1.0, 0.2, PassMethod="BndMPoleSymplectic4Pass"), d(0.3)]
    els += [at.RFCavity("CAV", 0.0, 1.0e6, 5.0e8, 31, lib.E0, PassMethod="RFCavityPass" if cavity else "IdentityPass"), at.Marker("END", PassMethod="IdentityPass")]
    r = lib.ring_of(els)
    circ = float(sum(getattr(e, "Length", 0.0) for e in els))
    els[-2].HarmNumber, els[-2].Frequency = 5, 5 * 299792458.0 / circ
    if cavity:
        r.enable_6d()
    return r


class Big(Pair):
    def __init__(self, turns, mode="TBT", cavity=False, errors=True, nshots=1):
        from pySC.core.simulated_commissioning import SimulatedCommissioning
        cavity = bool(cavity or mode == "ORB")
        cells(cavity)
        self.f, self.n = (SimulatedCommissioning(lib._cache[("cells", cavity)]) for _ in range(2))
        for sc in (self.f, self.n):
            g = lambda nm: A([i for i, e in enumerate(sc.RING) if e.FamName == nm])
            sc.register_bpms(g("BPM"), Offset=A([1e-4, 1e-4]), Noise=A([1e-6, 1e-6]))
            sc.register_magnets(g("CM"), HCM=1.0, VCM=1.0)
            sc.register_magnets(A(sorted(g("QF").tolist() + g("QD").tolist())), MagnetOffset=A([5e-5, 5e-5, 0]), CalErrorB=A([0, 1e-3]))
            sc.register_cavities(g("CAV"), TimeLagOffset=1e-2, FrequencyOffset=1e2)
            if errors:
                with env.seams(rng_source=b.Labels()):
                    sc.apply_errors()
            sc.INJ.trackMode = mode
            sc.INJ.nTurns = turns
            sc.INJ.nShots = nshots
            sc.INJ.Z0 = A([1e-4, 2e-5, -1e-4, 1e-5, 0, 0])
        self.bpm, self.cm, self.q, self.rf = sc.ORD.BPM.copy(), [x.copy() for x in sc.ORD.CM], {n: g(n) for n in ("QF", "QD")}, sc.ORD.RF.copy()


_mats = {}


def rm(turns, mode):
    from pySC.lattice_properties.response_model import SCgetModelRM
    k = (turns, mode)
    if k not in _mats:
        p = Big(turns, mode)
        _mats[k] = SCgetModelRM(p.n, p.bpm, p.cm, trackMode=mode, nTurns=turns)
    return _mats[k]


def feedback(t):
    import pySC.matlab_index as mi
    from pySC.correction import orbit_trajectory as ot
    which = t.choose(("first turn", "stitch", "balance", "run", "run orbit", "run dispersion"), "feedback")
    turns = 1 if which in ("first turn", "run", "run orbit", "run dispersion") else 2
    mode = "ORB" if which in ("run orbit", "run dispersion") else "TBT"
    p = Big(turns, mode)
    M = rm(turns, mode)
    ref = t.choose((None, 1e-4), "reference")
    sub = t.choose((False, True), "subset")
    bp, cm = (None, None)
    if sub:
        bp, cm = p.bpm[:6], [p.cm[0][:5], p.cm[1][:4]]
        rows = np.concatenate([A([d * len(p.bpm) * turns + k * len(p.bpm) + i for k in range(turns) for i in range(6)]) for d in range(2)])
        M = M[rows][:, list(range(5)) + [len(p.cm[0]) + i for i in range(4)]]
    if which == "run dispersion":
        eta = np.sin(np.arange(1, M.shape[0] + 1)) * 1e-7
        M = np.column_stack((M, eta * 1e6))
    R0 = None if ref is None else ref * np.cos(np.arange(M.shape[0])).reshape(-1)
    kw = dict(cm_ords=cm, bpm_ords=bp, reference=R0)
    km = dict(CMords=cm, BPMords=bp, R0=R0)
    x = t.choose((0, 1), "other option")
    if which == "first turn":
        n = (5, 7)[x]
        agree(p, lambda s: mi.SCfeedbackFirstTurn(s, np.linalg.pinv(M), maxsteps=n, **km), lambda s: ot.first_turn(s, M, maxsteps=n, **kw), which)
    elif which == "stitch":
        n = (2, 4)[x]
        agree(p, lambda s: mi.SCfeedbackStitch(s, np.linalg.pinv(M), nBPMs=n, maxsteps=6, **km), lambda s: ot.stitch(s, M, n_bpms=n, maxsteps=6, **kw), which)
    elif which == "balance":
        e = (1e-4, 1e-7)[x]
        agree(p, lambda s: mi.SCfeedbackBalance(s, np.linalg.pinv(M), eps=e, maxsteps=7, **km), lambda s: ot.balance(s, M, eps=e, maxsteps=7, **kw), which)
    else:
        tgt = (0, 1e-3)[x]
        sd = 1e6 if which == "run dispersion" else 0
        for e in (1e-5,):
            agree(p, lambda s: mi.SCfeedbackRun(s, np.linalg.pinv(M), eps=e, target=tgt, maxsteps=3 + x, scaleDisp=sd, **km),
                  lambda s: ot.correct(s, M, eps=e, target=tgt, maxsteps=3 + x, scaleDisp=sd, **kw), which)
    lib.need(any(np.any(p.n.get_cm_setpoints(p.cm[d], bool(d)) != 0) for d in range(2)) or which != "run", "the feedback did not act")
    return (which, ref, sub, x)


def procedures(t):
    import pySC.matlab_index as mi
    from pySC.correction import bba, injection_fit, rf, tune
    from pySC.lattice_properties import response_measurement as meas, response_model as model
    from pySC.utils import sc_tools
    which = t.choose(("fit trajectory", "fit drift", "fit bad", "dispersion", "response", "model response", "model dispersion", "model lattice", "pseudo bba", "bba",
                      "frequency", "phase", "frequency fails", "phase fails", "tune scan", "dynamic aperture", "momentum aperture", "magnet orbit", "ramp"), "procedure")
    if which == "fit trajectory":
        inds = A(t.choose(((0, 1, 2), (0, 1, 2, 3), (1, 3)), "BPMs"))
        agree(Big(1), lambda s: mi.SCfitInjectionZ(s, "fitTrajectory", nBPMs=inds), lambda s: injection_fit.fit_injection_trajectory(s, bpm_inds=inds), which)
    elif which == "fit drift":
        dims = A(t.choose(((0, 1), (0,), (1,)), "planes"))
        agree(Big(2), lambda s: mi.SCfitInjectionZ(s, "injectionDrift", nDims=dims), lambda s: injection_fit.fit_injection_drift(s, n_dims=dims), which)
    elif which == "fit bad":
        m = t.choose(("fit", "FitTrajectory", "", None), "mode")
        agree(Big(1), lambda s: mi.SCfitInjectionZ(s, m), None, which, invalid=True)
    elif which == "dispersion":
        n, sub = t.choose((2, 3, 4), "steps"), t.choose((None, A([3, 5])), "BPMs")
        p = Big(1, "ORB")
        sub = None if sub is None else p.bpm[sub]
        agree(p, lambda s: mi.SCgetDispersion(s, 1e3, BPMords=sub, CAVords=p.rf, nSteps=n), lambda s: meas.dispersion(s, 1e3, bpm_ords=sub, cav_ords=p.rf, n_steps=n), which)
    elif which == "response":
        fit, n, mode = t.choose(("linear", "quadratic", None), "fit"), t.choose((2, 3, 4), "steps"), t.choose((None, "fixedKick", "fixedOffset"), "mode")
        p = Big(1)
        cm = [p.cm[0][:2], p.cm[1][:1]]
        km = {} if fit is None else dict(fit=fit)
        kw = {}
        if mode:
            km["mode"] = kw["mode"] = mode
        agree(p, lambda s: mi.SCgetRespMat(s, 1e-5, p.bpm[:5], cm, nSteps=n, **km), lambda s: meas.response_matrix(s, 1e-5, p.bpm[:5], cm, n_steps=n, fit_order=2 if fit == "quadratic" else 1, **kw), which)
    elif which in ("model response", "model dispersion"):
        mode, ideal, turns = t.choose(("TBT", "ORB"), "mode"), t.choose((True, False), "design lattice"), t.choose((1, 2), "turns")
        step = t.choose((None, 3.0), "step")
        p = Big(1, errors=ideal)
        if which == "model response":
            k = {} if step is None else dict(dkick=step * 1e-5)
            z = t.choose((0.0, 1e-4), "start")
            agree(p, lambda s: mi.SCgetModelRM(s, p.bpm, p.cm, trackMode=mode, nTurns=turns, useIdealRing=ideal, Z0=np.full(6, z), **k),
                  lambda s: model.SCgetModelRM(s, p.bpm, p.cm, trackMode=mode, nTurns=turns, useIdealRing=ideal, Z0=np.full(6, z), **k), which)
        else:
            k = {} if step is None else dict(rfStep=step * 1e3)
            agree(p, lambda s: mi.SCgetModelDispersion(s, p.bpm, p.rf, trackMode=mode, nTurns=turns, useIdealRing=ideal, **k),
                  lambda s: model.SCgetModelDispersion(s, p.bpm, p.rf, trackMode=mode, nTurns=turns, useIdealRing=ideal, **k), which)
    elif which == "model lattice":
        ap = t.choose((None, True, False), "apertures")
        p = Big(1)
        for s in (p.f, p.n):
            s.RING[3].EApertures = A([0.01, 0.01])
        k = {} if ap is None else dict(includeAperture=ap)
        agree(p, lambda s: mi.SCgetModelRING(s, **k), lambda s: model.SCgetModelRING(s, **k), which)
    elif which == "pseudo bba":
        p = Big(1)
        off = A(t.choose(((5e-5, 5e-5), (1e-4, 0.0), (0.0, 2e-5)), "offset"))
        bp, mg = np.tile(p.bpm[:2], (2, 1)), np.tile(A([p.q["QF"][0], p.q["QD"][0]]), (2, 1))
        agree(p, lambda s: mi.SCpseudoBBA(s, bp, mg, off), lambda s: bba.fake_bba(s, bp, mg, fake_offset=off), which)
    elif which == "bba":
        p = Big(2)
        bp, mg = np.tile(p.bpm[:1], (2, 1)), np.tile(p.q["QF"][:1], (2, 1))
        n = t.choose((4, 5), "steps")
        agree(p, lambda s: mi.SCBBA(s, bp, mg, mode="TBT", n_steps=n, num_downstream_bpms=4),
              lambda s: bba.trajectory_bba(s, bp, mg, n_steps=n, num_downstream_bpms=4), which)
    elif which in ("frequency", "phase", "frequency fails", "phase fails"):
        fails = which.endswith("fails")
        n, nt = t.choose((5, 6), "steps"), t.choose((4, 6), "turns")
        init = t.choose((1, 3), "turns before")
        p = Big(init, cavity=True)
        if fails:
            for s in (p.f, p.n):
                s.RING[2].RApertures = A([-1e-9, 1e-9, -1e-9, 1e-9])
        kind = which.split()[0]

        def native(s):
            s.INJ.nTurns = nt
            try:
                return rf.correct_rf_frequency(s, cav_ords=cav, f_range=fr, n_steps=n) if kind == "frequency" else rf.correct_rf_phase(s, cav_ords=cav, n_steps=n)
            finally:
                s.INJ.nTurns = init
        cav = t.choose((None, p.rf), "cavities")
        fr = (-2e3, 1e3)
        if kind == "frequency":
            agree(p, lambda s: mi.SCsynchEnergyCorrection(s, cavOrd=cav, f_range=fr, nSteps=n, nTurns=nt), native, which)
        else:
            agree(p, lambda s: mi.SCsynchPhaseCorrection(s, cavOrd=cav, nSteps=n, nTurns=nt), native, which)
    elif which == "dynamic aperture":
        from pySC.lattice_properties.apertures import SCdynamicAperture
        p = Big(1)
        kw = {}
        for k, v in (("launchOnOrbit", True), ("centerOnOrbit", False), ("bounds", A([0.0, 3e-3])), ("accuracy", 3e-4), ("nturns", 3)):
            if t.choose((False, True), k):
                kw[k] = v
        dE = t.choose((0.0, 0.004), "momentum")
        th = A(t.choose(((0.0, 1.0, 2.5), (0.5,)), "angles"))
        kw = dict(dict(nturns=2, accuracy=1e-4), **kw)
        for s in (p.f, p.n):
            s.RING[3].EApertures = A([0.004, 0.003])
        agree(p, lambda s: mi.SCdynamicAperture(s.RING, dE, thetas=th, **kw), lambda s: SCdynamicAperture(s.RING, dE, thetas=th, **kw), which)
    elif which == "momentum aperture":
        from pySC.lattice_properties.apertures import SCmomentumAperture
        p = Big(1, cavity=True)
        bounds, refs = A(t.choose(((0.002, 0.01), (-0.002, -0.01)), "bounds")), A(t.choose(((0,), (7, 2)), "elements"))
        kw = {k: v for k, v in (("accuracy", 1e-2), ("stepsize", 3e-3), ("nturns", 3)) if t.choose((False, True), k)}
        kw = dict(dict(nturns=2, accuracy=3e-3), **kw)
        for s in (p.f, p.n):
            s.RING[3].EApertures = A([0.02, 0.02])
        agree(p, lambda s: mi.SCmomentumAperture(s.RING, refs, bounds, **kw), lambda s: SCmomentumAperture(s.RING, refs, bounds, **kw), which)
    elif which == "magnet orbit":
        from pySC.lattice_properties.magnet_orbit import SCgetCOD
        p = Big(1, cavity=True)
        o = t.choose((None, p.q["QF"]), "magnets")
        agree(p, lambda s: mi.SCgetCOD(s, ords=o), lambda s: SCgetCOD(s, ords=o), which)
    elif which == "ramp":
        from pySC.correction.ramp_errors import SCrampUpErrors
        p = Big(1)
        kw = {k: v for k, v in (("eps", 1e-3), ("target", 1e-2), ("alpha", 30), ("maxsteps", 8)) if t.choose((False, True), k)}
        n = t.choose((1, 2), "steps")
        agree(p, lambda s: mi.SCrampUpErrors(s, nStepsRamp=n, **kw), lambda s: SCrampUpErrors(s, nStepsRamp=n, **kw), which)
    else:
        p = Big(1)
        par, turns, full, target = t.choose((None, 3), "particles"), t.choose((None, 2), "turns"), t.choose((0, 1), "full scan"), t.choose((1, 0.5), "target")
        q, v = [p.q["QF"], p.q["QD"]], [A([0.95, 1.0, 1.05]), A([0.9, 1.0, 1.1])]
        fa = t.choose((0, 1), "losses")
        if fa:
            for s in (p.f, p.n):
                s.RING[20].RApertures = A([-1.5e-4, 1.5e-4, -1.5e-4, 1.5e-4])
        agree(p, lambda s: mi.SCtuneScan(s, q, v, nParticles=par, nTurns=turns, fullScan=full, target=target),
              lambda s: tune.tune_scan(s, q, v, target=target, nParticles=par, nTurns=turns, full_scan=bool(full)), which)
    return which


class NoMachine:
    def __init__(self, lat):
        self.RING = lat


def tools(t):
    import pySC.matlab_index as mi
    from pySC.utils import sc_tools
    from pySC.core.classes import DotDict
    which = t.choose(("ords", "pinv", "random", "scale", "scale relative", "transformation", "center", "multipole file", "not available"), "tool")
    if which == "ords":
        rx = t.choose(("^B", "BPM", "CM$", "Q[FD]", "nothing", ""), "expression")
        lat = lib.small_ring()
        lib.need(np.array_equal(lib.call(mi.SCgetOrds, lat, rx), sc_tools.ords_from_regex(lat, rx)), f"ordinates of {rx!r}")
    elif which == "pinv":
        n, al, da = t.choose((0, 1, 2), "N"), t.choose((0, 0.3), "alpha"), t.choose((1, 0.5), "damping")
        M = A([[1.0, 2, 3], [0, 1, -1], [2, 0, 1], [1, 1, 1]])
        lib.need_close(lib.call(mi.SCgetPinv, M, N=n, alpha=al, damping=da), sc_tools.pinv(M, num_removed=n, alpha=al, damping=da), "pseudo-inverse")
        lib.need_close(mi.SCgetPinv(M), sc_tools.pinv(M), "plain pseudo-inverse")
    elif which == "random":
        cut, shape = t.choose((2, 0.5, 1), "cut"), t.choose(((1,), (), (3,), (2, 2)), "shape")
        got = []
        for fn in (mi.SCrandnc, sc_tools.randnc):
            with env.seams(rng_source=b.Labels()):
                got.append(fn(cut, shape))
        lib.need_close(got[0], got[1], "random numbers")
    elif which.startswith("scale"):
        rel = which == "scale relative"
        v = t.choose((1.01, 0.99, 1.2), "factor")
        one, two = lib.small_ring(), lib.small_ring()
        c = sum(e.Length for e in one)
        r = [mi.SCscaleCircumference(one, v, mode="rel") if rel else mi.SCscaleCircumference(one, v * c), sc_tools.scale_circumference(two, v, "rel") if rel else sc_tools.scale_circumference(two, v * c)]
        lib.need_lattice(r[0], lib.snap_lattice(r[1]), which)
    elif which == "transformation":
        d = [t.choose((0.0, 1e-3), f"offset {k}") for k in "xyz"]
        a = [t.choose((0.0, 2e-3), f"angle {k}") for k in "xyz"]
        th, ln = t.choose((0.0, 0.3), "bend"), t.choose((0.0, 0.7), "length")
        if th and not ln:
            raise Skip()
        el = at.Bend("B", ln, th) if th else at.Quadrupole("Q", ln, 0.0)
        for k, v in dict(MagnetOffset=A(d), MagnetRoll=A([a[2], a[0], a[1]]), SupportOffset=np.zeros(3), SupportRoll=np.zeros(3)).items():
            setattr(el, k, v)
        sc_tools.update_transformation(el)
        got = mi.SCgetTransformation(*d, *a, th, ln, refPoint="entrance")
        for g, n in zip(got, ("T1", "T2", "R1", "R2")):
            lib.need_close(g, getattr(el, n), f"{n} of {d} {a} {th} {ln}", atol=1e-15)
    elif which == "center":
        lib.rejects(mi.SCgetTransformation, 0, 0, 0, 0, 0, 0, 0, 1.0, what="centre reference")
        lib.rejects(mi.SCgetTransformation, 0, 0, 0, 0, 0, 0, 0, 1.0, refPoint="center", what="centre reference")
    elif which == "multipole file":
        row, col = t.choose((0, 1, 2), "order"), t.choose((0, 1), "column")
        tab = 1e-4 * np.arange(1, 10).reshape(3, 3)
        tab[:, 0] = np.arange(3)
        tab[row, 1 + col] = 1.0
        with tempfile.TemporaryDirectory() as dd:
            f = os.path.join(dd, "t")
            np.savetxt(f, tab)
            g, w = mi.SCmultipolesRead(f), sc_tools.read_multipoles(f)
        lib.need(lib.same(list(g), list(w)), "table of multipoles")
        lib.need_close(g[0], tab[:, [2, 1]], "columns B, A of the table")
        lib.need(g[1] == row and g[2] == col, f"nominal component {g[1:]} of table {row} {col}")
    else:
        for fn, args in ((mi.SClocoLib, ("a",)), (mi.SCparticlesIn3D, ())):
            lib.rejects(fn, *args, what="function that is not available")
    return which


def jobs(tier):
    th = tier == "thorough"
    ops = small_ops()
    return [HistJob("operations", Pair, ops, lambda s: s.canon(), 3 if th else 2, shards=16, deep_ops=None),
            TapeJob("feedback", feedback, shards=8, depth=2), TapeJob("procedures", procedures, shards=8, depth=2), TapeJob("tools", tools)]
