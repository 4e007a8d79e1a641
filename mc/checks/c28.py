"""Every plotting function with all combinations of a small set of options on machines in several states: the machine, its lattices' attributes, the
plotting defaults and numpy's settings are compared before and after, also when the call is rejected; procedures with plotting switched on
give the results and the machine they give without.  All nestings of debug contexts (explicit and inherited levels, exceptions, inactive ones): levels,
handlers and open files of all loggers afterwards equal those before, and debug messages arrive in the log of every open context only."""
import contextlib
import io
import itertools
import logging
import os
import tempfile

import numpy as np
import at
from mc import lib, env, beamsim as b
from mc.core import TapeJob, Skip

A = np.array


# ------------------------------------------------------------------ global settings
def settings():
    import matplotlib as mpl
    out = {"rc " + k: repr(v) for k, v in mpl.rcParams.items() if k != "backend"}
    out["numpy errors"] = repr(np.geterr())
    out["numpy printing"] = repr(np.get_printoptions())
    return out


def need_settings(before, what):
    now = settings()
    bad = [f"{k}: {now.get(k)}, was {before.get(k)}" for k in sorted(set(before) | set(now)) if now.get(k) != before.get(k)]
    lib.need(not bad, f"{what}: settings changed: " + "; ".join(bad[:3]))


@contextlib.contextmanager
def canvas(font):
    """plots are drawn, not shown; pauses take no time"""
    import matplotlib
    from matplotlib import pyplot as plt
    pause, shown = plt.pause, matplotlib.figure.Figure.show
    plt.pause = lambda *a, **k: None
    matplotlib.figure.Figure.show = lambda *a, **k: None
    keep = plt.rcParams["font.size"]
    plt.rcParams["font.size"] = font
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        plt.close("all")
        plt.rcParams["font.size"] = keep
        plt.pause, matplotlib.figure.Figure.show = pause, shown


def attributes(lat):
    sr = repr(tuple(float(x) for x in lat.s_range))
    return {k: repr(v) for k, v in vars(lat).items() if not k.startswith("_")} | {"s_range": sr}


# ------------------------------------------------------------------ machines
@lib.cached
def cells(cavity, apertures):
    d = lambda x: at.Drift("D", x)
    els = []
    for c in range(4):
        els += [at.Quadrupole("QF", 0.4, 1.15), at.Monitor("BPM"), lib.corrector("CM"), d(0.5), at.Sextupole("S", 0.2, 1.0), d(0.1), at.Bend("B", 1.0, 0.2, PassMethod="BndMPoleSymplectic4Pass"),
                d(0.3), at.Quadrupole("QD", 0.4, -1.15), at.Monitor("BPM"), lib.corrector("CM"), d(0.8), at.Bend("B", 1.0, 0.2, PassMethod="BndMPoleSymplectic4Pass"), d(0.3)]
    els += [at.RFCavity("CAV", 0.0, 1.0e6, 5.0e8, 31, lib.E0, PassMethod="RFCavityPass" if cavity else "IdentityPass"), at.Marker("END", PassMethod="IdentityPass")]
    r = lib.ring_of(els)
    circ = float(sum(getattr(e, "Length", 0.0) for e in els))
    els[-2].HarmNumber, els[-2].Frequency = 5, 5 * 299792458.0 / circ
    if cavity:
        r.enable_6d()
    if apertures:
        els[3].EApertures = A([0.02, 0.01])
        els[20].RApertures = A([-0.02, 0.02, -0.01, 0.01])
    return r


SUPPORTS = {"none": (), "girders": (("Girder", [[0, 16], [12, 28]]),), "all": (("Girder", [[0, 16], [12, 28]]), ("Plinth", [[0], [14]]), ("Section", [[0], [30]])),
            "around": (("Girder", [[50, 5], [4, 20]]),)}


def machine(cavity=False, apertures=False, supports="none", turns=1, mode="TBT", errors=True):
    from pySC.core.simulated_commissioning import SimulatedCommissioning
    cells(cavity, apertures)
    sc = SimulatedCommissioning(lib._cache[("cells", cavity, apertures)])
    g = lambda n: A([i for i, e in enumerate(sc.RING) if e.FamName == n])
    sc.register_bpms(g("BPM"), Offset=A([1e-4, 1e-4]), Noise=A([1e-6, 1e-6]), Roll=1e-3)
    sc.register_magnets(g("CM"), HCM=1.0, VCM=1.0)
    sc.register_magnets(A(sorted(g("QF").tolist() + g("QD").tolist())), MagnetOffset=A([5e-5, 5e-5, 0]), MagnetRoll=A([1e-4, 0, 0]), CalErrorB=A([0, 1e-3]))
    sc.register_magnets(g("S"), SkewQuad=0.1)
    sc.register_cavities(g("CAV"), TimeLagOffset=1e-2, FrequencyOffset=1e2)
    for kind, ords in SUPPORTS[supports]:
        sc.register_supports(A(ords), kind, Offset=A([1e-5, 1e-5, 0]), Roll=A([1e-5, 0, 0]))
    if errors:
        with env.seams(rng_source=b.Labels()):
            sc.apply_errors()
    for k, i in enumerate(g("CM")):
        sc.set_cm_setpoints(i, 1e-5 * (k - 3), False)
        sc.set_cm_setpoints(i, -2e-5 * (k - 2), True)
    sc.INJ.trackMode = mode
    sc.INJ.nTurns = turns
    sc.INJ.Z0 = A([1e-4, 2e-5, -1e-4, 1e-5, 0, 0])
    return sc


def quiet(sc, fn, what, rejected=False):
    """fn must leave the machine and the settings alone"""
    before, lats = lib.snap(sc), [attributes(l) for l in (sc.RING, sc.IDEALRING)]
    glob = settings()
    with env.seams(rng_source=b.Labels()):
        if rejected:
            try:
                fn()
            except Exception:  # noqa
                pass
        else:
            fn()
    lib.need_state(sc, before, what, rtol=0, atol=0)
    for l, w, n in zip((sc.RING, sc.IDEALRING), lats, ("RING", "IDEALRING")):
        lib.need(attributes(l) == w, f"{what}: attributes of {n} changed: " + ", ".join(f"{k}" for k in w if attributes(l).get(k) != w[k]))
    need_settings(glob, what)


def plots(t):
    from pySC.plotting.plot_lattice import plot_lattice, plot_cm_strengths
    from pySC.plotting.plot_phase_space import plot_phase_space
    from pySC.plotting.plot_support import plot_support
    from pySC.plotting.plot_synoptic import plot_synoptic
    from pySC.correction import bba
    from pySC.core.beam import bpm_reading, all_elements_reading, beam_transmission
    import pySC.matlab_index as mi
    which = t.choose(("lattice", "correctors", "support", "phase space", "phase space rejected", "bba", "bba offsets", "reading", "synoptic", "matlab"), "plot")
    font = t.choose((10.0, 7.0), "font size before", dev=True)
    with canvas(font):
        if which == "lattice":
            cav, ap = t.choose((False, True), "cavity", dev=True), t.choose((False, True), "apertures")
            kw = {}
            for k, opts in (("transfer_line", (None, True)), ("s_range", (None, (1.0, 8.0))), ("indices", (None, [3, 25, 12])), ("n_sectors", (None, 2)),
                            ("ideal_ring", (None, True)), ("plot_magnet_names", (None, True)), ("font_size", (None, 13))):
                v = t.choose(opts, k, dev=True)
                if v is not None:
                    kw[k] = v
            sc = machine(cav, ap)
            quiet(sc, lambda: lib.call(plot_lattice, sc, **kw), f"plot_lattice {kw}")
        elif which == "correctors":
            sc = machine()
            quiet(sc, lambda: plot_cm_strengths(sc), which)
        elif which == "support":
            sup, lim, fs = t.choose(tuple(SUPPORTS), "supports"), t.choose((None, (0.0, 6.0), (5.0, 12.0), (15.0, 20.0)), "range"), t.choose((None, 14), "font", dev=True)
            sc = machine(supports=sup)
            kw = {k: v for k, v in dict(x_lim=lim, font_size=fs).items() if v is not None}
            quiet(sc, lambda: plot_support(sc, **kw), f"plot_support {sup} {kw}")
        elif which.startswith("phase space"):
            cav, n, turns, co = t.choose((True, False), "cavity"), t.choose((None, 3), "particles"), t.choose((None, 4), "turns"), t.choose((False, True), "closed orbit")
            if co and not cav:
                raise Skip()
            o = t.choose((None, A([7])), "at")
            bunch = t.choose((None, 1), "bunch")
            kw = {} if o is None else dict(ords=o)
            bad = which.endswith("rejected")
            if bunch is not None:
                bunch = np.linspace(-1e-5, 1e-5, 12).reshape((6, 2) if not bad or n else (4, 3))
            if bad != bool(bunch is not None and (n or len(bunch) != 6)):
                raise Skip()
            sc = machine(cav)
            if bad:
                quiet(sc, lambda: lib.rejects(plot_phase_space, sc, custom_bunch=bunch, nParticles=n, nTurns=turns, plotCO=co, what=which, **kw), which)
            else:
                quiet(sc, lambda: lib.call(plot_phase_space, sc, custom_bunch=bunch, nParticles=n, nTurns=turns, plotCO=co, **kw), f"{which} {n} {turns} {co}")
        elif which in ("bba", "bba offsets"):
            n, planes = t.choose((1, 2, 3, 5, 6, 8), "BPMs"), t.choose((2, 1), "planes")
            fl = t.choose((0, 1, 2), "failures")
            sc = machine()
            q = A([i for i, e in enumerate(sc.RING) if e.FamName in ("QF", "QD")])
            bp, mg = np.tile(sc.ORD.BPM[:n], (planes, 1)), np.tile(q[:n], (planes, 1))
            off, err = 1e-5 * np.arange(planes * n).reshape(planes, n), np.full((planes, n), 1e-6)
            flags = np.zeros((planes, n), dtype=bool)
            flags.ravel()[:(0, 1, planes * n)[fl]] = True
            off[flags] = np.nan
            if which == "bba":
                quiet(sc, lambda: lib.call(bba.plot_bba_results, sc, bp, off, err), f"{which} {n} {planes}")
            else:
                quiet(sc, lambda: lib.call(bba.plot_bpm_offsets_from_magnets, sc, bp, mg, flags), f"{which} {n} {planes}")
        elif which == "reading":
            kind = t.choose(("bpms", "some bpms", "errors", "all", "transmission"), "reading")
            turns, ap, n, shots = t.choose((1, 2), "turns"), t.choose((False, True), "apertures"), t.choose((1, 2), "particles"), t.choose((1, 2), "shots")
            got = []
            for plot in (False, True):
                sc = machine(False, ap, turns=turns)
                sc.INJ.nParticles, sc.INJ.nShots, sc.plot = n, shots, plot
                out = []
                quiet(sc, lambda: out.append(bpm_reading(sc) if kind == "bpms" else bpm_reading(sc, sc.ORD.BPM[2:4]) if kind == "some bpms" else bpm_reading(sc, calculate_errors=True) if kind == "errors"
                                             else all_elements_reading(sc) if kind == "all" else beam_transmission(sc, plot=plot)), f"reading {kind} plot={plot}")
                got.append(list(out[0]))
            lib.need(lib.same(got[0], got[1]), f"reading {kind} with plot differs from the one without")
        elif which == "synoptic":
            cor, names, new = t.choose((False, True), "correctors"), t.choose((False, True), "names"), t.choose((False, True), "own figure")
            sc = machine()
            from matplotlib import pyplot as plt
            quiet(sc, lambda: plot_synoptic(sc, None if new else plt.subplots()[1], cor, names), which)
        else:
            k = t.choose(("lattice", "lattice names", "phase space", "phase space bunch", "support", "correctors", "reading", "reading on"), "function")
            sc = machine(supports="all", cavity=k.startswith("phase"))
            sc.plot = k == "reading on"
            fn = {"lattice": lambda: mi.SCplotLattice(sc), "lattice names": lambda: mi.SCplotLattice(sc, nSectors=4, plotMagNames=1, plotIdealRing=0, fontSize=12),
                  "phase space": lambda: mi.SCplotPhaseSpace(sc), "phase space bunch": lambda: mi.SCplotPhaseSpace(sc, ord=A([4]), customBunch=np.full((6, 2), 1e-6), nTurns=3, plotCO=True),
                  "support": lambda: mi.SCplotSupport(sc), "correctors": lambda: mi.SCplotCMstrengths(sc), "reading": lambda: mi.SCplotBPMreading(sc), "reading on": lambda: mi.SCplotBPMreading(sc)}[k]
            quiet(sc, fn, f"matlab {k}")
    return which


def procedures(t):
    """the same procedure without and with plots"""
    from pySC.correction import bba, injection_fit, rf, tune, loco
    from pySC.utils import sc_tools
    which = t.choose(("trajectory fit", "drift fit", "rf phase", "rf frequency", "tune scan", "pseudo-inverse", "beta beat", "bba"), "procedure")
    font = t.choose((10.0, 7.0), "font size before")
    opt = t.choose((0, 1, 2), "option")
    got, states = [], []
    with canvas(font):
        for plot in (False, True):
            glob = settings()
            sc = machine(which.startswith("rf"), turns=2 if which in ("drift fit", "bba") else 5 if which.startswith("rf") else 1, errors=which != "beta beat")
            g = lambda n: A([i for i, e in enumerate(sc.RING) if e.FamName == n])
            with env.seams(rng_source=b.Labels()):
                if which == "trajectory fit":
                    r = injection_fit.fit_injection_trajectory(sc, bpm_inds=A([0, 1, 2 + opt]), plot=plot)
                elif which == "drift fit":
                    r = injection_fit.fit_injection_drift(sc, n_dims=A([[0, 1], [0], [1]][opt]), plot=plot)
                elif which.startswith("rf"):
                    kw = dict(plot_results=plot and opt != 1, plot_progress=plot and opt != 0)
                    fn = rf.correct_rf_phase if which == "rf phase" else rf.correct_rf_frequency
                    r = fn(sc, n_steps=6, **kw) is sc
                elif which == "tune scan":
                    r = list(tune.tune_scan(sc, [g("QF"), g("QD")], [A([0.95, 1.0, 1.05])] * 2, target=1, full_scan=opt == 1, nTurns=1 + opt, n_points=9, do_plot=plot))[1:]
                elif which == "pseudo-inverse":
                    r = sc_tools.pinv(A([[1.0, 2, 3], [0, 1, -1], [2, 0, 1], [1, 1, 1]]), num_removed=opt, alpha=0.1 * opt, plot=plot)
                elif which == "beta beat":
                    q = g("BPM")
                    _, _, tw = at.get_optics(sc.IDEALRING, q)
                    sc.set_magnet_setpoints(g("QF")[:1], A([1 + 0.01 * opt]), False, 1, "rel")
                    r = list(loco.model_beta_beat(sc.RING, tw, q, plot=plot))
                else:
                    r = list(bba.trajectory_bba(sc, np.tile(sc.ORD.BPM[:1], (1 + (opt > 0), 1)), np.tile(g("QF")[:1], (1 + (opt > 0), 1)), n_steps=4, num_downstream_bpms=3 + (opt == 2), plot_results=plot))[1:]
            need_settings(glob, f"{which} plot={plot}")
            got.append(r)
            states.append(lib.snap(sc))
    lib.need(lib.same(got[0], got[1], 1e-12, 1e-18), f"{which}: result with plots {lib.show(got[1])}, without {lib.show(got[0])}")
    bad = lib.differences(states[1], states[0], rtol=1e-12, atol=1e-18)
    lib.need(not bad, f"{which}: machine after plotting differs: " + " | ".join(bad))
    return (which, opt)


def shown(t):
    """what is plotted as being after the correction is read with the correction applied once"""
    from pySC.correction.injection_fit import fit_injection_trajectory
    inds = A(t.choose(((0, 1, 2), (0, 1, 2, 3), (2, 3)), "BPMs"))
    sgn = t.choose((1, -1), "sign")
    sc = machine(errors=False)
    sc.INJ.Z0 = sgn * A([1e-4, 2e-5, -1e-4, 1e-5, 0, 0])
    from matplotlib import pyplot as plt
    with canvas(10.0):
        with env.seams(rng_source=env.zeros_source):
            d = fit_injection_trajectory(sc, bpm_inds=inds, plot=True)
        lines = {ln.get_label(): np.asarray(ln.get_ydata(), dtype=float) for f in plt.get_fignums() for ax in plt.figure(f).axes for ln in ax.get_lines()}
    after = [v for k, v in lines.items() if "after" in k.lower()]
    if not after:
        raise Skip()
    from pySC.core.beam import bpm_reading
    with env.seams(rng_source=env.zeros_source):
        now = 1e3 * bpm_reading(sc)[0][:, inds]
    scale = 1e3 * np.max(np.abs(d[[0, 2]]))
    lib.need(any(np.allclose(after[0], row, atol=0.05 * scale) for row in now), f"reading after correction is plotted as {after[0]}, is {now.tolist()}")
    return (inds.tolist(), sgn)


# ------------------------------------------------------------------ debug contexts
def loggers():
    out = {}
    names = [""] + sorted(logging.Logger.manager.loggerDict)
    for n in names:
        lg = logging.getLogger(n) if n else logging.getLogger()
        if not isinstance(lg, logging.Logger):
            continue
        out[n] = (lg.level, tuple(id(h) for h in lg.handlers), lg.propagate, lg.disabled, tuple(id(f) for f in lg.filters))
    return out


def need_loggers(before, what):
    now = loggers()
    for n, v in now.items():
        w = before.get(n, (0, (), True, False, ()))
        lib.need(v == w, f"{what}: logger '{n}' has level {v[0]} and {len(v[1])} handlers, had level {w[0]} and {len(w[1])} handlers" + (", or other handlers" if v[0] == w[0] and len(v[1]) == len(w[1]) else ""))


def fds(d):
    out = []
    for f in os.listdir("/proc/self/fd"):
        try:
            p = os.readlink(f"/proc/self/fd/{f}")
        except OSError:
            continue
        if p.startswith(d):
            out.append(p)
    return out


class Boom(Exception):
    pass


@contextlib.contextmanager
def silent():
    """debug output goes to the standard output that was current when the module was imported"""
    saved = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    import sys
    sys.stdout.flush()
    os.dup2(null, 1)
    try:
        yield
    finally:
        sys.stdout.flush()
        if sys.__stdout__:
            sys.__stdout__.flush()
        os.dup2(saved, 1)
        os.close(saved)
        os.close(null)


def debugging(depth):
    def run(t):
        from pySC.utils import logging_tools as lt
        log = lt.get_logger(__name__)
        levels = t.choose((0, logging.INFO, logging.ERROR, logging.DEBUG), "own level")
        rootlevel = t.choose((logging.WARNING, logging.DEBUG), "root level")
        n = t.choose(tuple(range(1, depth + 1)), "nested contexts")
        act = [t.choose((True, False), f"context {k} active") for k in range(n)]
        boom = t.choose((None,) + tuple(range(n)), "exception inside")
        again = t.choose((False, True), "used twice")
        root = logging.getLogger()
        keep = (log.level, root.level)
        log.setLevel(levels)
        root.setLevel(rootlevel)
        try:
            with tempfile.TemporaryDirectory() as d, silent():
                before = loggers()
                held = []
                for rep in range(2 if again else 1):
                    nested(lt, log, d, rep, act, boom, before, held)
                    need_loggers(before, f"after contexts {act}, exception in {boom}")
                    lib.need(log.isEnabledFor(logging.DEBUG) == ((levels or rootlevel) <= logging.DEBUG), "effective level afterwards")
                    lib.need(not fds(d), f"log files still open: {fds(d)}")
                log.debug("outside")
                for rep in range(2 if again else 1):
                    for k in range(n):
                        f = [x for x in os.listdir(d) if x.endswith(f"log{rep}{k}")]
                        entered = act[k] and (boom is None or k <= boom)
                        lib.need(len(f) == int(entered), f"{len(f)} log files for context {k}, active: {act[k]}")
                        if entered:
                            txt = open(os.path.join(d, f[0])).read()
                            lib.need("outside" not in txt, "message after the context in its log")
                            for j in range(n):      # message j was written inside contexts 0..j
                                inside = j >= k and (boom is None or j <= boom)
                                lib.need((f"message {rep} {j}." in txt) == inside, f"message {j} in log of context {k}: {not inside}")
        finally:
            log.setLevel(keep[0])
            root.setLevel(keep[1])
        return (levels, rootlevel, act, boom)

    def nested(lt, log, d, rep, act, boom, before, held):
        def level(k):
            if k == len(act):
                return
            cm = lt.DebugMode(active=act[k], log_file=os.path.join(d, f"log{rep}{k}"))
            held.append(cm)
            with cm:
                log.debug("message %d %d.", rep, k)
                if any(act[:k + 1]):
                    lib.need(log.isEnabledFor(logging.DEBUG), f"debug messages not enabled inside {k + 1} contexts")
                if boom == k:
                    raise Boom()
                level(k + 1)
        try:
            level(0)
        except Boom:
            lib.need(boom is not None, "exception from nowhere")
        else:
            lib.need(boom is None, "exception swallowed by a debug context")
    return run


def plain_loggers(t):
    """asking for a logger changes nothing (unless asked for by the main program)"""
    from pySC.utils import logging_tools as lt
    name = t.choose(("pySC.x", "", "main", __name__), "name")
    kw = t.choose(({}, dict(level_root=logging.ERROR), dict(level_console=logging.DEBUG, color=True)), "options")
    before = loggers()
    a, c = lt.get_logger(name, **kw), lt.get_logger(name, **kw)
    lib.need(a is c and isinstance(a, logging.Logger), "different loggers for one module")
    need_loggers(before, "asking for a logger")
    return name


def jobs(tier):
    th = tier == "thorough"
    return [TapeJob("plots", plots, max_dev=4 if th else 2, shards=8, depth=4), TapeJob("procedures", procedures, shards=8, depth=3), TapeJob("shown", shown),
            TapeJob("debugging", debugging(4 if th else 3), shards=4, depth=2), TapeJob("loggers", plain_loggers)]
