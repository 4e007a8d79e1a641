"""What is drawn: for all small sets of options and machine states, the points drawn by the reports (phase space, supports, correctors, lattice, readings, transmission,
tune scan, RF and injection corrections, orbit in magnets, apertures, alignment, beta beating) are read back from the figures and compared with the data of the machine or of the (scripted) measurement."""
import contextlib
import itertools

import numpy as np
import at
from mc import lib, env, beamsim as b
from mc.core import TapeJob, Skip
from mc.checks.c28 import canvas, machine, SUPPORTS

A = np.array
C0 = 299792458.0


# ------------------------------------------------------------------ reading figures back
def figures():
    from matplotlib import pyplot as plt
    return [plt.figure(n) for n in plt.get_fignums()]


def axes_by(fig, text):
    return [a for a in fig.axes if text in a.get_ylabel()]


def finite(x, y):
    x, y = np.broadcast_arrays(np.asarray(x, dtype=float), np.asarray(y, dtype=float))
    p = np.column_stack((x.ravel(), y.ravel()))
    return p[np.all(np.isfinite(p), axis=1)]


def points(ax, label=None, markers=None):
    """all vertices of the lines with this label"""
    out = [finite(ln.get_xdata(), ln.get_ydata()) for ln in ax.get_lines()
           if (label is None or label.lower() in ln.get_label().lower()) and (markers is None or (ln.get_marker() not in ("None", None, "", " ")) == markers)]
    return np.vstack(out) if out else np.zeros((0, 2))


def scattered(ax):
    out = [A(c.get_offsets(), dtype=float) for c in ax.collections if hasattr(c, "get_offsets") and not c.get_paths() == []]
    out = [finite(o[:, 0], o[:, 1]) for o in out if len(o)]
    return np.vstack(out) if out else np.zeros((0, 2))


def need_points(got, want, what, tol=1e-6):
    """the same points, in any order and with any multiplicity of repetitions"""
    got, want = np.asarray(got, dtype=float).reshape(-1, 2), np.asarray(want, dtype=float).reshape(-1, 2)
    scale = np.maximum(np.max(np.abs(np.vstack((got, want, np.zeros((1, 2))))), axis=0), 1e-30) * tol

    def covered(p, q, txt):
        for r in p:
            lib.need(len(q) and np.any(np.all(np.abs(q - r) <= scale, axis=1)), f"{what}: {txt} {r.tolist()}; drawn are {got[:8].tolist()}, expected {want[:8].tolist()}")
    covered(want, got, "not drawn:")
    covered(got, want, "drawn wrongly:")


# ------------------------------------------------------------------ phase space
def phase_space(t):
    from pySC.plotting.plot_phase_space import plot_phase_space
    cav = t.choose((True, False), "cavity")
    n = t.choose((1, 2, 3), "particles")
    turns = t.choose((1, 2, 4), "turns")
    co = t.choose(("orbit", "no", "none", "second try"), "closed orbit", dev=True)
    custom = t.choose((False, True), "own bunch", dev=True)
    ords = t.choose((None, 7, 0), "at", dev=True)
    lost = [t.choose((turns,) + tuple(range(turns)), f"particle {p} lost at", dev=p > 0) if p < 2 else turns for p in range(n)]
    z0 = t.choose((A([1e-4, 2e-5, -1e-4, 1e-5, 1e-3, 2e-3]), A([0.0, 1e-4, 0, 0, -2e-3, 0])), "injection", dev=True)
    if all(k == 0 for k in lost) and co == "second try":
        raise Skip()
    sc = machine(cav, turns=turns)
    sc.INJ.Z0 = z0
    sc.INJ.nParticles = n
    bunch = A([[1e-5 * (i + 1) * (p + 1) for p in range(n)] for i in range(6)]) if custom else None
    orb = A([3e-4, -2e-5, -5e-4, 7e-5, 2e-3, -4e-3])
    hist = {}
    tries = [0]

    def track(lattice, r_in, nturns, refs):
        r = np.asarray(r_in, dtype=float).reshape(6, -1)
        out = np.zeros((6, r.shape[1], len(refs), nturns))
        for p in range(r.shape[1]):
            for k in range(nturns):
                v = A([(i + 1) * 1e-4 * (-1) ** (i + p) * (1 + k) + 1e-5 * p for i in range(6)])
                if k >= lost[p]:
                    v = A([np.nan, 0, 0, 0, 0, 0])
                else:
                    hist[p, k] = v
                out[:, p, :, k] = v[:, None]
        hist["in"], hist["refs"] = r, list(refs)
        return out

    def orbit(ring, refs):
        tries[0] += 1
        o = orb if co == "orbit" or (co == "second try" and tries[0] > 1) else orb * np.nan
        return o.copy(), np.tile(o, (len(refs), 1))
    what = f"phase space, cavity {cav}, {n} particles, {turns} turns, orbit {co}, own bunch {custom}, at {ords}, lost {lost}"
    kw = {} if ords is None else {"ords": A([ords])}
    if custom:
        kw["custom_bunch"] = bunch
    with canvas(10.0), env.seams(rng_source=b.Labels(), track=track, orbit=orbit):
        lib.call(plot_phase_space, sc, plotCO=co != "no", **kw)
        lib.need(hist["refs"] == [ords or 0], f"{what}: tracked to {hist['refs']}")
        if custom:
            lib.need_close(hist["in"], bunch, f"{what}: tracked bunch")
        circ = float(np.sum([getattr(e, "Length", 0.0) for e in sc.RING]))
        e = sc.RING[sc.ORD.RF[0]]
        slip = C0 * e.HarmNumber / e.Frequency - circ if cav else 0.0
        unit = A([1e6, 1e6, 1e6, 1e6, 1.0, 1e2])      # x, x', y, y', ct, delta
        order = lambda v: A([v[0], v[1], v[2], v[3], v[5], v[4]]) * unit
        seen = [order(v - A([0, 0, 0, 0, 0, slip * k])) for (p, k), v in ((q, v) for q, v in hist.items() if isinstance(q, tuple))]
        f = figures()
        lib.need(len(f) == 1, f"{what}: {len(f)} figures")
        ax = f[0].axes[:3]
        for j in range(3):
            w = f"{what}, plane {j}"
            need_points(scattered(ax[j]), [v[2 * j:2 * j + 2] for v in seen], w)
            need_points(points(ax[j], "injection"), [order(z0)[2 * j:2 * j + 2]], f"{w}: injection point")
            need_points(points(ax[j], "orbit"), [order(orb)[2 * j:2 * j + 2]] if co in ("orbit", "second try") else [], f"{w}: closed orbit")
            lib.need(("S" in ax[j].get_xlabel()) == (j == 2) and ("E" in ax[j].get_ylabel()) == (j == 2), f"{w}: labels {ax[j].get_xlabel()}, {ax[j].get_ylabel()}")
    return (cav, n, turns, co, custom, ords, tuple(lost))


# ------------------------------------------------------------------ supports
def support(t):
    from pySC.plotting.plot_support import plot_support
    sup = t.choose(tuple(SUPPORTS), "supports")
    lim = t.choose((None, (0.0, 6.0), (5.0, 12.0), (15.0, 20.0)), "range")
    scale = t.choose((1.0, -3.0), "scale")
    who = t.choose(("all", "magnets", "BPMs", "supports"), "displaced")
    sc = machine(supports=sup, errors=False)
    k = 0
    for i in range(len(sc.RING)):
        el = sc.RING[i]
        for name, n in (("MagnetOffset", 3), ("MagnetRoll", 3), ("Offset", 2), ("Roll", 1)) + tuple((s + f, 3) for s in ("Girder", "Plinth", "Section") for f in ("Offset", "Roll")):
            if not hasattr(el, name) or (name in ("Offset", "Roll") and i not in sc.ORD.BPM):
                continue
            kind = "magnets" if name.startswith("Magnet") else "BPMs" if n < 3 else "supports"
            k += 1
            v = scale * 1e-5 * A([1 + k % 7, -2 - k % 5, 1.5 + k % 3][:n]) if who in ("all", kind) else np.zeros(n)
            if name.endswith("Roll") and n == 3 and kind != "supports":
                v[1:] = 0.0
            if name.endswith("Roll") and kind == "supports":
                v = A([v[0], 0.0, 0.0])
            setattr(el, name, v if n > 1 or np.ndim(getattr(el, name)) else v)
    sc.update_supports()
    what = f"support plot of {sup}, range {lim}, displaced {who}, scale {scale}"
    with canvas(10.0), env.seams():
        lib.call(plot_support, sc, **({} if lim is None else {"x_lim": lim}))
        f = figures()
        lib.need(len(f) == 1 and len(f[0].axes) == 18, f"{what}: figure has {[len(x.axes) for x in f]} axes")
        ax = A(f[0].axes, dtype=object).reshape(9, 2)
        s = np.concatenate(([0.0], np.cumsum([getattr(e, "Length", 0.0) for e in sc.RING])))
        circ = s[-1]
        lo, hi = lim or (0.0, circ)
        mag, bpm = list(sc.ORD.Magnet), list(sc.ORD.BPM)
        for d in range(3):
            def line(ordset, fn):
                return [(s[i], 1e6 * fn(sc.RING[i])) for i in ordset]
            pad = lambda v, n: np.concatenate((np.ravel(v), np.zeros(3)))[:n]
            comp = lambda name: (lambda e: pad(getattr(e, name), 3)[d])
            rows = [(0, 0, "overall supp", line(mag, comp("SupportOffset"))), (0, 1, "overall supp", line(mag, comp("SupportRoll"))),
                    (1, 0, "individual magnet", line(mag, comp("MagnetOffset"))), (1, 1, "individual magnet", line(mag, comp("MagnetRoll"))),
                    (1, 1, "overall magnet", line(mag, lambda e: e.SupportRoll[d] + e.MagnetRoll[d])),
                    (2, 0, "random bpm", line(bpm, comp("Offset"))), (2, 0, "bpm support", line(bpm, comp("SupportOffset"))),
                    (2, 1, "random bpm", line(bpm, comp("Roll"))), (2, 1, "bpm support", line(bpm, comp("SupportRoll")))]
            if d < 2:
                # displacement of the axis seen by the beam at the exit of magnets without pitch and yaw: the sum of its parts (rotated supports pitch elements over their length)
                rows.append((1, 0, "overall magnet", line(mag, lambda e: e.T2[(0, 2)[d]])))
            for r, c, label, want in rows:
                need_points(points(ax[3 * d + r, c], label), want, f"{what}: axes {3 * d + r}, {c}, '{label}'")
            # the individual supports
            for c, name in ((0, "Offset"), (1, "Roll")):
                own = []
                for kind, ords in SUPPORTS[sup]:
                    for a_, e_ in zip(*ords):
                        if not (lo <= s[a_] <= hi or lo <= s[e_] <= hi):
                            continue
                        va, ve = 1e6 * getattr(sc.RING[a_], kind + name)[d], 1e6 * getattr(sc.RING[e_ if c == 0 else a_], kind + name)[d]
                        if s[a_] <= s[e_]:
                            own.append([(s[a_], va), (s[e_], ve)])
                        else:
                            mid = va + (ve - va) * (circ - s[a_]) / (circ - s[a_] + s[e_])
                            own += [[(s[a_], va), (circ, mid)], [(0.0, mid), (s[e_], ve)]]
                have = [finite(ln.get_xdata(), ln.get_ydata()) for ln in ax[3 * d, c].get_lines() if ln.get_label().startswith("_")]
                want = [p for o in own for p in o]
                need_points(np.vstack(have) if have else [], want, f"{what}: axes {3 * d}, {c}, single supports")
            lib.need(np.allclose(ax[3 * d, 0].get_xlim(), (lo, hi)), f"{what}: limits {ax[3 * d, 0].get_xlim()}")
            for c, got in enumerate(sc.support_offset_and_roll(np.linspace(lo, hi, 7))):
                st = [p.get_data() for p in ax[3 * d, c].patches if hasattr(p, "get_data")]
                lib.need(len(st) == 1, f"{what}: axes {3 * d}, {c}: {len(st)} overall lines")
                vals, edges = A(st[0].values, dtype=float), A(st[0].edges, dtype=float)
                lib.need(np.isclose(edges[0], lo) and np.isclose(edges[-1], hi), f"{what}: overall line from {edges[0]} to {edges[-1]}")
                true = sc.support_offset_and_roll(edges[:-1])[c][d]
                lib.need_close(vals, 1e6 * true, f"{what}: axes {3 * d}, {c}: overall line", atol=1e-6)
    return (sup, lim, scale, who)


# ------------------------------------------------------------------ correctors
def correctors(t):
    from pySC.plotting.plot_lattice import plot_cm_strengths
    sc = machine(errors=t.choose((False, True), "errors"))
    pat = t.choose(("one by one", "equal", "zero", "one"), "strengths")
    fewer = t.choose((False, True), "fewer vertical")
    if fewer:
        sc.ORD.CM = [sc.ORD.CM[0], sc.ORD.CM[1][2:5]]
    for d in (0, 1):
        for k, i in enumerate(sc.ORD.CM[d]):
            sc.set_cm_setpoints(i, {"one by one": 1e-5 * (k - 2) * (1 - 3 * d), "equal": 2e-5, "zero": 0.0, "one": 1e-4 * (k == 1)}[pat], bool(d))
    what = f"corrector plot, strengths {pat}, fewer vertical {fewer}"
    with canvas(10.0), env.seams():
        lib.call(plot_cm_strengths, sc)
        f = figures()
        lib.need(len(f) == 1 and len(f[0].axes) >= 2, f"{what}: {len(f)} figures")
        top, low = f[0].axes[:2]
        s = np.concatenate(([0.0], np.cumsum([getattr(e, "Length", 0.0) for e in sc.RING])))
        want = [(s[i], 1e6 * float(np.ravel(sc.get_cm_setpoints(int(i), skewness=bool(d)))[0])) for d in (0, 1) for i in sc.ORD.CM[d]]
        got = [(p.get_x() + p.get_width() / 2, p.get_y() + p.get_height()) if p.get_y() == 0 or p.get_height() > 0 else (p.get_x() + p.get_width() / 2, p.get_y()) for p in top.patches]
        need_points(got, want, what)
        lib.need(len(got) == len(want), f"{what}: {len(got)} bars for {len(want)} correctors")
        lines = low.get_lines()
        lib.need(len(lines) == 2, f"{what}: {len(lines)} distributions")
        for d, ln in enumerate(lines):
            v = A([w[1] for w in want[:len(sc.ORD.CM[0])]] if d == 0 else [w[1] for w in want[len(sc.ORD.CM[0]):]])
            for x, y in zip(ln.get_xdata(), ln.get_ydata()):
                eps = 1e-9 * (1 + abs(x))
                lib.need(np.mean(v < x - eps) - 1e-9 <= y <= np.mean(v <= x + eps) + 1e-9, f"{what}: distribution {d} at {x} is {y}, strengths are {v.tolist()}")
            lib.need(np.isclose(ln.get_ydata()[-1], 1.0), f"{what}: distribution {d} ends at {ln.get_ydata()[-1]}")
    return (pat, fewer)


# ------------------------------------------------------------------ lattice
def optics_at_boundaries(ring):
    _, _, o = at.get_optics(ring, range(len(ring) + 1), get_chrom=True)
    return o


def lattice(t):
    from pySC.plotting.plot_lattice import plot_lattice
    ideal = t.choose((False, True), "ideal")
    rng = t.choose(("all", "s_range", "indices", "sectors", "sectors and range"), "range")
    ap = t.choose((True, False), "apertures")
    if not ap and rng != "all":
        raise Skip()
    sc = machine(False, ap, errors=False)
    q = [i for i, e in enumerate(sc.RING) if e.FamName == "QF"]
    sc.set_magnet_setpoints(A(q[:2]), A([1.03, 0.98]), False, 1, method="rel")
    if ap:
        sc.RING[10].EApertures = A([0.3, 0.015])      # the first is beyond the plotted range of apertures
    ring = sc.IDEALRING if ideal else sc.RING
    s = np.concatenate(([0.0], np.cumsum([getattr(e, "Length", 0.0) for e in ring])))
    kw, (lo, hi) = {"all": ({}, (0.0, s[-1])), "s_range": (dict(s_range=A([1.0, 8.0])), (1.0, 8.0)), "indices": (dict(indices=[3, 25, 12]), (s[3], s[25])),
                    "sectors": (dict(n_sectors=2), (0.0, s[-1] / 2)), "sectors and range": (dict(n_sectors=2, s_range=A([2.0, 5.5])), (2.0, 5.5))}[rng]
    what = f"lattice plot, ideal {ideal}, range {rng}, apertures {ap}"
    o = optics_at_boundaries(ring)
    with canvas(10.0), env.seams():
        lib.call(plot_lattice, sc, ideal_ring=ideal, **kw)
        f = figures()
        lib.need(len(f) == 1, f"{what}: {len(f)} figures")
        allax = f[0].axes
        for name, val in (("beta_x", o.beta[:, 0]), ("beta_y", o.beta[:, 1]), ("D_x", 100 * o.dispersion[:, 0])):
            lines = [ln for a in allax for ln in a.get_lines() if name in ln.get_label()]
            lib.need(len(lines) == 1, f"{what}: {len(lines)} lines of {name}")
            x, y = A(lines[0].get_xdata(), dtype=float), A(lines[0].get_ydata(), dtype=float)
            for i in range(len(s)):
                if lo - 1e-9 <= s[i] <= hi + 1e-9:
                    at_ = np.abs(x - s[i]) < 1e-9
                    lib.need(np.any(at_), f"{what}: {name} is not drawn at {s[i]}")
                    lib.need_close(y[at_], np.full(at_.sum(), val[i]), f"{what}: {name} at {s[i]}", rtol=1e-5, atol=1e-6)
        if ap:
            lines = {k: [ln for a in allax for ln in a.get_lines() if k in ln.get_label()] for k in ("elliptic$_{a}", "elliptic$_{b}", "rectangular$_{x}", "rectangular$_{y}")}
            for k, (attr, j) in {"elliptic$_{a}": ("EApertures", 0), "elliptic$_{b}": ("EApertures", 1), "rectangular$_{x}": ("RApertures", 0), "rectangular$_{y}": ("RApertures", 1)}.items():
                lib.need(len(lines[k]) == 1, f"{what}: {len(lines[k])} lines of {k}")
                x, y = A(lines[k][0].get_xdata(), dtype=float), A(lines[k][0].get_ydata(), dtype=float)
                for i, e in enumerate(ring):
                    inside = (x > s[i] + 1e-9) & (x < s[i + 1] - 1e-9) & (x >= lo) & (x <= hi)
                    if s[i + 1] - s[i] < 0.05 or not np.any(inside):
                        continue
                    v = getattr(e, attr, None)
                    want = set() if v is None else {round(1e3 * c, 9) for c in ((-v[j], v[j]) if attr[0] == "E" else v[2 * j:2 * j + 2])}
                    want = {c for c in want if abs(c) <= 100}
                    got = {round(float(c), 9) for c in y[inside] if np.isfinite(c)}
                    lib.need(got == want, f"{what}: {k} in element {i}: {sorted(got)}, is {sorted(want)}")
        # synoptics: where something is drawn
        own = sc.IDEALRING
        span = lambda i: (round(s[i], 6), round(s[i] + getattr(own[i], "Length", 0.0), 6))
        kinds = dict(dip=at.Dipole, quad=at.Quadrupole, sext=at.Sextupole, mon=at.Monitor)
        normal = sorted(span(i) for i, e in enumerate(own) if isinstance(e, (at.Multipole, at.Dipole, at.Quadrupole, at.Sextupole, at.Monitor)))
        corr = sorted([span(i) for i in sc.ORD.BPM] + [span(i) for i in sc.ORD.SkewQuad] + [(round(s[i], 6), round(s[i] + 0.9 * own[i].Length, 6)) for i in sc.ORD.HCM]
                      + [(round(s[i], 6), round(s[i] + 0.95 * own[i].Length, 6)) for i in sc.ORD.VCM])
        del kinds
        drawn = []
        for a in allax:
            ext = []
            for c in a.collections:
                for p in c.get_paths():
                    v = p.vertices
                    ext.append((round(float(v[:, 0].min()), 6), round(float(v[:, 0].max()), 6)))
            if ext:
                drawn.append(sorted(ext))
        lib.need(sum(set(d) == set(normal) for d in drawn) == 3, f"{what}: magnets drawn at {drawn[0][:5]}.., are at {normal[:5]}..")
        starts = {c[0] for c in corr}
        lib.need(any({x[0] for x in d} == starts and len(d) == len(corr) for d in drawn), f"{what}: correctors drawn at {[sorted({x[0] for x in d})[:6] for d in drawn]}, are at {sorted(starts)}")
        for a in f[0].axes[:3]:
            lib.need(np.allclose(a.get_xlim(), (lo, hi), atol=1e-6), f"{what}: limits {a.get_xlim()}, expected {lo}, {hi}")
    return (ideal, rng, ap)


# ------------------------------------------------------------------ readings
def readings(t):
    from pySC.core.beam import bpm_reading, all_elements_reading
    kind = t.choose(("bpms", "some bpms", "all"), "reading")
    turns, n, shots = t.choose((1, 2, 3), "turns"), t.choose((1, 2), "particles"), t.choose((1, 2), "shots")
    ap = t.choose((False, True), "apertures")
    lost = t.choose((None, 0, 5), "lost from", dev=True)
    sc = machine(False, ap, turns=turns)
    sc.INJ.nParticles, sc.INJ.nShots, sc.plot = n, shots, True
    if ap:      # limits that differ between places, sides and planes
        sc.RING[20].RApertures = A([-0.005, 0.015, -0.003, 0.012])
    count = [0]
    true = {}

    def track(lat, r_in, nturns, refs):
        m = np.asarray(r_in).reshape(6, -1).shape[1]
        out = np.zeros((6, m, len(refs), nturns))
        for p, (j, i), k in itertools.product(range(m), enumerate(refs), range(nturns)):
            v = 1e-4 * A([1 + i + 0.1 * k + 0.01 * p, 0, -2 + i * 0.5 - 0.2 * k + 0.03 * p, 0, 0, 0]) + 1e-6 * count[0]
            if lost is not None and k == nturns - 1 and i >= lost:
                v[:] = np.nan
            out[:, p, j, k] = v
            true[count[0], p, int(i), k] = v[[0, 2]]
        count[0] += 1
        return out
    what = f"plot of the reading of {kind}, {turns} turns, {n} particles, {shots} shots, apertures {ap}, lost from {lost}"
    with canvas(10.0), env.seams(rng_source=b.Labels(), track=track):
        bpms = sc.ORD.BPM[2:4] if kind == "some bpms" else sc.ORD.BPM
        r = all_elements_reading(sc)[0] if kind == "all" else bpm_reading(sc, *([bpms] if kind == "some bpms" else []))[0]
        f = figures()
        lib.need(len(f) == 1 and len(f[0].axes) == 2, f"{what}: {[len(x.axes) for x in f]} axes")
        s = np.concatenate(([0.0], np.cumsum([getattr(e, "Length", 0.0) for e in sc.RING])))
        for d in (0, 1):
            ax = f[0].axes[d]
            want = [(k * s[-1] + s[i], 1e3 * r[d, k * len(bpms) + j]) for k in range(turns) for j, i in enumerate(bpms) if np.isfinite(r[d, k * len(bpms) + j])]
            need_points(points(ax, "reading"), want, f"{what}, plane {d}")
            want = [(k * s[-1] + s[i], 1e3 * v[d]) for (_, p, i, k), v in true.items() if np.isfinite(v[d])] if kind == "all" else []
            need_points(points(ax, "trajector"), want, f"{what}, plane {d}: trajectories")
            want = []
            for k in range(turns):
                for i, e in enumerate(sc.RING):
                    lim = (-e.EApertures[d], e.EApertures[d]) if hasattr(e, "EApertures") else tuple(e.RApertures[2 * d:2 * d + 2]) if hasattr(e, "RApertures") else ()
                    want += [(k * s[-1] + s[i], 1e3 * v) for v in lim]
            need_points(points(ax, "aperture"), want, f"{what}, plane {d}: apertures")
    return (kind, turns, n, shots, ap, lost)


# ------------------------------------------------------------------ transmission and tune scan
def transmission(t):
    from pySC.core.beam import beam_transmission
    turns, n = t.choose((1, 2, 3, 4), "turns"), t.choose((1, 2, 3), "particles")
    at_ = [t.choose(turns + 1, f"particle {p} survives") for p in range(n)]
    lim = t.choose((1.0, 0.5, 0.25), "lost at")
    sc = machine(False, False, turns=turns)
    sc.INJ.beamLostAt = lim

    def track(lat, r_in, nturns, refs):
        out = np.zeros((6, n, len(refs), nturns))
        for p in range(n):
            out[:, p, :, at_[p]:] = np.nan
        return out
    with canvas(10.0), env.seams(rng_source=b.Labels(), track=track):
        beam_transmission(sc, nParticles=n, plot=True)
        ax = figures()[0].axes[0]
        solid = [ln for ln in ax.get_lines() if ln.get_linestyle() == "-"]
        rest = [ln for ln in ax.get_lines() if ln.get_linestyle() != "-"]
        what = f"transmission plot of {at_} surviving turns of {turns}, lost at {lim}"
        lib.need(len(solid) == 1 and len(rest) == 1, f"{what}: {len(solid)} curves, {len(rest)} limits")
        lib.need_close(A(solid[0].get_ydata(), dtype=float), A([100 * np.mean([k < a for a in at_]) for k in range(turns)]), what)
        lib.need_close(A(rest[0].get_ydata(), dtype=float), np.full(2, 100 * (1 - lim)), f"{what}: limit")
    return (turns, tuple(at_), lim)


@contextlib.contextmanager
def no_layout():
    """arranging axes is slow and changes nothing that is compared"""
    from matplotlib.figure import Figure
    keep, Figure.tight_layout = Figure.tight_layout, lambda *a, **k: None
    try:
        yield
    finally:
        Figure.tight_layout = keep


def scan(t):
    from pySC.correction.tune import tune_scan
    n1, n2 = t.choose((2, 3), "first"), t.choose((2, 3, 4), "second")
    turns, full = t.choose((1, 3), "turns"), t.choose((True, False), "full")
    target = t.choose((1.0, 0.5), "target")
    bad = t.choose(5, "pattern")
    sc = machine(False, False, turns=turns, errors=False)
    g = lambda n: A([i for i, e in enumerate(sc.RING) if e.FamName == n])
    rel = [np.linspace(0.9, 1.05, n1), np.linspace(0.95, 1.1, n2)]
    k0 = [sc.RING[int(g(n)[0])].SetPointB[1] for n in ("QF", "QD")]
    vals = lambda i, j: ((i + 2 * j) % 3, (2 * i + j) % 4, int(i == 1 and j == 0), 0 if i else 2, 3 * j % 4)[bad]

    def track(lat, r_in, nturns, refs):
        i = int(np.argmin(np.abs(rel[0] - lat[int(g("QF")[0])].SetPointB[1] / k0[0])))
        j = int(np.argmin(np.abs(rel[1] - lat[int(g("QD")[0])].SetPointB[1] / k0[1])))
        out = np.zeros((6, 4, len(refs), nturns))
        out[:, vals(i, j):, :, nturns // 2:] = np.nan
        return out
    what = f"plot of a scan of {n1}x{n2}, {turns} turns, full {full}, target {target}, pattern {bad}"
    with canvas(10.0), no_layout(), env.seams(rng_source=b.Labels(), track=track):
        try:
            r = tune_scan(sc, [g("QF"), g("QD")], rel, target=target, n_points=10, nParticles=4, nTurns=turns, full_scan=full, do_plot=True)
        except RuntimeError:
            return "no transmission"
        f = figures()[-1:]
        maps = [a for a in f[0].axes if a.images]
        lib.need(len(maps) >= 2, f"{what}: {len(maps)} maps")
        maps = maps[-2:]        # the state after the last point lies on top
        for a, truth in zip(maps, (100 * r[3][:, :, -1], r[2])):
            data = np.ma.filled(np.ma.masked_invalid(A(a.images[0].get_array(), dtype=float)), np.nan)
            xq, yq = ("QF" in a.get_xlabel(), "QF" in a.get_ylabel())
            lib.need(xq != yq and ("QD" in a.get_xlabel()) == yq and ("QD" in a.get_ylabel()) == xq, f"{what}: labels {a.get_xlabel()}, {a.get_ylabel()}")
            want = truth.T if xq else truth
            lib.need(data.shape == want.shape and np.allclose(np.nan_to_num(data, nan=-1), np.nan_to_num(np.asarray(want, dtype=float), nan=-1)),
                     f"{what}: map with {a.get_xlabel()} to the right and {a.get_ylabel()} downwards shows {data.tolist()}, is {np.asarray(want).tolist()}")
            for axis, fam in ((a.xaxis, 0 if xq else 1), (a.yaxis, 1 if xq else 0)):
                for pos, lab in zip(axis.get_majorticklocs(), [x.get_text() for x in axis.get_majorticklabels()]):
                    if lab:
                        lib.need(0 <= pos < len(rel[fam]) and abs(float(lab.replace("\u2212", "-")) - (rel[fam][int(pos)] - 1)) < 1e-4, f"{what}: tick {lab} at {pos} of family {fam}: {rel[fam].tolist()}")
    return (n1, n2, turns, full, target, bad)


# ------------------------------------------------------------------ RF corrections
def rf_plots(t):
    from mc.checks import c16
    from pySC.correction import rf
    ph = t.choose((True, False), "phase")
    n = t.choose((6, 8), "steps")
    how = t.choose(("results", "progress", "both"), "plots")
    pat = [t.choose(("no", "never seen", "two turns only"), f"measurement {k}", dev=True) for k in range(n)]
    spread = t.choose((0.0, 1e-5), "measurement error", dev=True)
    cavs = t.choose((c16.CAVS, (5,)), "cavities", dev=True)
    c = t.choose((0.2, -0.4), "offset", dev=True)
    turns = 6
    lam = C0 / 5e8
    field = "TimeLag" if ph else "Frequency"
    slope = (lambda d: 1e-4 * np.sin(2 * np.pi * d / lam + 0.7) + c * 1e-4) if ph else (lambda d: 1e-4 * (d / 1e3 - c))
    loss = lambda s: c16.LOSS[pat[s]] if s < n else None
    what = f"{'phase' if ph else 'frequency'} correction, {n} steps, plots of {how}, measurements {pat}"
    fn = rf.correct_rf_phase if ph else rf.correct_rf_frequency
    kw = dict(n_steps=n, **({} if cavs == c16.CAVS else {"cav_ords": A(cavs)}))
    if sum(p == "no" for p in pat) < (6 if ph else 3):
        kw["plot"] = None
    ref = c16.World(field, turns, slope, cavs, spread, loss)
    failed = kw.pop("plot", 1) is None
    _, err = ref.run(fn, **kw)
    lib.need(failed == (err is not None), f"{what}: without plots {err!r}")
    W = c16.World(field, turns, slope, cavs, spread, loss)
    with canvas(10.0), no_layout():
        _, err = W.run(fn, plot_results=how != "progress", plot_progress=how != "results", **kw)
        lib.need(failed == (err is not None), f"{what}: with plots {err!r}")
        k0 = cavs[0]
        step = lambda w: float(getattr(w.sc.RING[k0], field + "SetPoint")) - w.start[c16.CAVS.index(k0)]
        lib.need_close(step(W), step(ref), f"{what}: applied step with plots", rtol=1e-9, atol=1e-9)
        at_ = (lam * np.linspace(-0.5, 0.5, n)) if ph else np.linspace(-1e3, 1e3, n)
        ok = [k for k in range(n) if pat[k] == "no"]
        figs = figures()
        if how != "results":
            axes = [a for f in figs for a in f.axes if "urns" in a.get_xlabel()]
            lib.need(axes, f"{what}: no progress shown")
            f = axes[-1].figure
            pts = [a for a in f.axes if "urns" not in a.get_xlabel()][-1]
            need_points(errorbars(pts), [(at_[k], 1e6 * slope(at_[k])) for k in ok], f"{what}: progress", tol=1e-4)
            if pat[-1] == "no":
                need_points(points(axes[-1], markers=True), [(k, 1e6 * slope(at_[-1]) * k) for k in range(turns)], f"{what}: last measurement", tol=1e-4)
                need_points(points(axes[-1], markers=False), [(k, 1e6 * slope(at_[-1]) * k) for k in range(turns)], f"{what}: last fit", tol=1e-4)
        if how != "progress" and not failed:
            ax = [a for f in figs for a in f.axes if a.get_legend() is not None]
            lib.need(len(ax) == 1, f"{what}: {len(ax)} result plots")
            ax, xs = ax[0], (360 / lam if ph else 1e-3)
            need_points(errorbars(ax), [(xs * at_[k], 1e6 * slope(at_[k])) for k in ok], f"{what}: measurements", tol=1e-4)
            need_points(points(ax, "fit"), [(xs * at_[k], 1e6 * slope(at_[k])) for k in ok], f"{what}: fit", tol=2e-3)
            need_points(points(ax, "initial"), [(0, 1e6 * slope(0.0))], f"{what}: initial", tol=2e-3)
            need_points(points(ax, "corrected"), [(xs * step(W), 0.0)], f"{what}: corrected", tol=1e-4)
    return (ph, n, how, tuple(pat), c)


def errorbars(ax, label=None):
    out = [finite(c.lines[0].get_xdata(), c.lines[0].get_ydata()) for c in ax.containers if hasattr(c, "lines") and c.lines[0] is not None
           and (label is None or c.get_label().lower() == label.lower())]
    return np.vstack(out) if out else np.zeros((0, 2))


def bar_lengths(ax, label):
    """[x, half length] of the error bars"""
    out = []
    for c in ax.containers:
        if hasattr(c, "lines") and c.get_label().lower() == label.lower():
            for col in c.lines[2]:
                out += [(seg[0, 0], np.ptp(seg[:, 1]) / 2) for seg in col.get_segments() if np.shape(seg) == (2, 2) and np.all(np.isfinite(seg))]
    return A(out).reshape(-1, 2)


# ------------------------------------------------------------------ injection fits
def injection(t):
    from pySC.correction.injection_fit import fit_injection_drift, fit_injection_trajectory
    drift = t.choose((True, False), "drift")
    dims = t.choose(((0, 1), (0,), (1,)), "planes") if drift else (0, 1)
    inds = None if drift else t.choose(((0, 1, 2), (2, 3, 4), (1, 3)), "BPMs")
    vals = [t.choose((0.0, 3e-4, -2e-4), f"reading {k}") for k in range(4)]
    z0 = t.choose((A([1e-4, 2e-5, -1e-4, 1e-5, 0, 0]), A([0.0, -1e-5, 2e-4, 0, 0, 0])), "injection", dev=True)
    sc = machine(errors=False, turns=2 if drift else 1)
    sc.INJ.Z0 = z0.copy()
    s = np.concatenate(([0.0], np.cumsum([getattr(e, "Length", 0.0) for e in sc.RING])))
    bpms = list(sc.ORD.BPM)
    count = [0]

    def track(lat, r_in, nturns, refs):
        r = np.asarray(r_in, dtype=float).reshape(6, -1)
        out = np.zeros((6, r.shape[1], len(refs), nturns))
        if lat[0] is sc.RING[0]:
            count[0] += 1
            for i, k in itertools.product(bpms, range(nturns)):
                if i in list(refs):
                    j, m = list(refs).index(i), bpms.index(i)
                    x = A([vals[0], vals[1]]) if (i, k) == (bpms[-1], 0) else A([vals[2], vals[3]]) if (i, k) == (bpms[0], 1) else A([1e-5 * (m + 1), -2e-5 * m])
                    out[0, :, j, k], out[2, :, j, k] = x + (0 if drift else (count[0] == 1) * A([vals[0], vals[1]]))
        else:       # the model is a drift
            for j, i in enumerate(refs):
                out[0, :, j, 0], out[2, :, j, 0] = r[0] + s[i] * r[1], r[2] + s[i] * r[3]
        return out
    what = f"{'drift' if drift else 'trajectory'} fit, planes {dims}, BPMs {inds}, readings {vals}"
    if not drift and any(vals[2:]):
        raise Skip()
    sc.register_bpms(A(bpms), Noise=np.zeros(2), Offset=np.zeros(2), Roll=0.0)
    with canvas(10.0), env.seams(rng_source=env.zeros_source, track=track):
        d = fit_injection_drift(sc, n_dims=A(dims), plot=True) if drift else fit_injection_trajectory(sc, bpm_inds=A(inds), plot=True)
        f = figures()
        lib.need(len(f) == 1 and len(f[0].axes) == 2, f"{what}: {[len(x.axes) for x in f]} axes")
        for p in (0, 1):
            ax, w = f[0].axes[p], f"{what}, plane {p}"
            if drift:
                sb = [s[bpms[-1]] - s[-1], s[bpms[0]]]
                on = p in dims
                r = [1e3 * vals[p], 1e3 * vals[2 + p]]
                need_points(points(ax, "reading"), list(zip(sb, r)) if on else [], f"{w}: readings")
                need_points(points(ax, "fitted"), list(zip(sb, r)) if on else [], f"{w}: fit", tol=1e-5)
                need_points(points(ax, "real"), [(x, 1e3 * (z0[2 * p] + z0[2 * p + 1] * x)) for x in sb] if on else [], f"{w}: real trajectory")
                lib.need_close(sc.INJ.Z0, z0, f"{w}: injection changed", rtol=0, atol=0)
            else:
                base = [1e-5 * (j + 1) if p == 0 else -2e-5 * j for j in inds]
                need_points(points(ax, "initial"), [(s[bpms[j]], 1e3 * (v + vals[p])) for j, v in zip(inds, base)], f"{w}: initial")
                need_points(points(ax, "after"), [(s[bpms[j]], 1e3 * v) for j, v in zip(inds, base)], f"{w}: after")
                lib.need_close(sc.INJ.Z0, z0 + d, f"{w}: injection", rtol=0, atol=1e-15)
    return (drift, dims, inds, tuple(vals))


# ------------------------------------------------------------------ orbit in magnets and apertures
def orbit_plot(t):
    from pySC.lattice_properties.magnet_orbit import SCgetCOD
    which = t.choose(("default", "some", "reversed", "one"), "magnets")
    pat = [t.choose((0.0, 1e-4, -3e-4), f"value {k}") for k in range(4)]
    if which == "one" and any(pat[2:]):
        raise Skip()
    sc = machine(errors=False)
    mags = list(sc.ORD.Magnet)
    ords = {"default": mags, "some": mags[1:6], "reversed": mags[4::-1], "one": mags[2:3]}[which]
    for k, i in enumerate(mags):
        sc.RING[i].MagnetOffset = A([pat[2] * (1 + 0.1 * k), pat[3] * (1 - 0.2 * k), 0])
    sc.update_supports()
    co = lambda i: A([pat[0] * (1 + 0.01 * i), 9e-4, pat[1] * (2 - 0.03 * i), 8e-4, 0, 0])
    s = np.concatenate(([0.0], np.cumsum([getattr(e, "Length", 0.0) for e in sc.RING])))
    with canvas(10.0), no_layout(), env.seams(orbit=lambda ring, refs: (co(0), A([co(i) for i in refs]))):
        SCgetCOD(sc, plot=True, **({} if which == "default" else {"ords": A(ords)}))
        f = figures()
        lib.need(len(f) == 1 and len(f[0].axes) == 2, f"{[len(x.axes) for x in f]} axes")
        for d in (0, 1):
            ax = f[0].axes[d]
            names = [x.get_text().lower() for x in ax.get_legend().get_texts()]
            lines = ax.get_lines()
            lib.need(len(names) == len(lines) == 3, f"{len(lines)} lines, names {names}")
            for name, ln in zip(names, lines):
                off = lambda i: sc.RING[i].T2[2 * d]
                fn = (lambda i: co(i)[2 * d] - off(i)) if "cod" in name else off if "offset" in name else (lambda i: co(i)[2 * d])
                need_points(finite(ln.get_xdata(), ln.get_ydata()), [(s[i], 1e3 * fn(i)) for i in ords], f"orbit plot of {which} magnets, plane {d}, '{name}', {pat}")
    return (which, tuple(pat))


def apertures(t):
    from mc.checks import c30
    from pySC.lattice_properties.apertures import SCdynamicAperture, SCmomentumAperture
    which = t.choose(("dynamic", "momentum positive", "momentum negative"), "aperture")
    kick = t.choose((0.0, 3e-4), "orbit")
    c30.line(kick)
    ring = lib._cache[("line", kick)]
    s = np.concatenate(([0.0], np.cumsum([getattr(e, "Length", 0.0) for e in ring])))
    if which == "dynamic":
        angles = A(c30.ANG[t.choose(("full", "uneven", "one"), "angles")])
        lim = [t.choose((0.4e-3, 0.8e-3), f"at {k}") for k in range(min(3, len(angles)))]
        centre = t.choose((False, True), "centre on orbit")
    else:
        refs = list(t.choose(((0, 2, 5), (5, 2), (3,)), "elements"))
        sgn = 1.0 if "positive" in which else -1.0
        lim = [t.choose((2e-3, 7e-3), f"at {k}") for k in range(len(refs))]
    with canvas(10.0):
        from matplotlib import pyplot as plt
        keep, plt.show = plt.show, lambda *a, **k: None
        try:
            if which == "dynamic":
                def track(lattice, r_in, nturns, rr):
                    r = np.asarray(r_in, dtype=float).reshape(6, -1)
                    out = np.zeros((6, r.shape[1], len(rr), nturns))
                    for p in range(r.shape[1]):
                        k = int(np.argmin(np.abs(np.exp(1j * np.arctan2(r[2, p], r[0, p])) - np.exp(1j * angles))))
                        if not np.hypot(r[0, p], r[2, p]) < lim[k % len(lim)]:
                            out[0, p] = np.nan
                    return out
                with env.seams(track=track):
                    _, rad, _ = SCdynamicAperture(ring, 0.0, nturns=2, thetas=angles.copy(), accuracy=1e-5, centerOnOrbit=centre, plot=True)
                want = [(lim[int(np.argmin(np.abs(np.exp(1j * a) - np.exp(1j * angles)))) % len(lim)], a) for a in angles]
                want = [(r * np.cos(a), r * np.sin(a)) for r, a in want]
                got = np.vstack([scattered(a) for f in figures() for a in f.axes])
                lib.need(len(figures()) == 1, f"{len(figures())} figures")
                # drawn as searched for, about the origin, or as returned
                lib.need(len(got) == len(want) and all(np.min(np.hypot(*(got - w).T)) < 2e-5 for w in A(want)), f"dynamic aperture plot for {lim} shows {got.tolist()}, expected {want}")
            else:
                start = {}

                def track(lattice, r_in, nturns, rr):
                    r = np.asarray(r_in, dtype=float).reshape(6, -1)
                    out = np.zeros((6, r.shape[1], len(rr), nturns))
                    k = start.setdefault("at", [[e.FamName for e in ring[i:]] + [e.FamName for e in ring[:i]] for i in refs]).index([e.FamName for e in lattice])
                    for p in range(r.shape[1]):
                        if not (sgn * r[4, p] < lim[k]):
                            out[0, p] = np.nan
                    return out
                with env.seams(track=track, orbit=lambda ring_, rr: (np.zeros(6), np.zeros((len(rr), 6)))):
                    r = SCmomentumAperture(ring, refs, sgn * A([1e-4, 1e-3]), nturns=2, accuracy=1e-3, stepsize=1e-3, plot=1)
                ax = figures()[0].axes[0]
                got = [finite(ln.get_xdata(), ln.get_ydata()) for ln in ax.get_lines()]
                need_points(np.vstack(got), [(s[i], v) for i, row in zip(refs, np.asarray(r)) for v in row], f"momentum aperture plot for {lim} at {refs}")
        finally:
            plt.show = keep
    return (which, kick, tuple(lim))


# ------------------------------------------------------------------ alignment results
def alignment(t):
    from mc.checks import c17
    from pySC.correction import bba
    which = t.choose(("results", "offsets"), "plot")
    planes = t.choose((2, 1), "planes")
    n = t.choose((4, 2, 1, 3, 8), "BPMs")
    order = t.choose(("ring", "reversed", "shifted"), "order")
    sc = machine(errors=False)
    bpms = list(sc.ORD.BPM)
    pick = bpms[:n] if n != 4 else [bpms[k] for k in (0, 2, 3, 7)]
    pick = pick if order == "ring" else pick[::-1] if order == "reversed" else pick[1:] + pick[:1]
    if n == 1 and order != "ring":
        raise Skip()
    ords = np.tile(A(pick), (planes, 1))
    flip = planes == 2 and n > 1 and t.choose((False, True), "other order in the vertical plane")
    if flip:
        ords[1] = ords[1][::-1]
    kinds = ("good", "negative", "missing", "outlier", "insignificant")
    pat = A([[t.choose(kinds, f"plane {d} BPM {k}", dev=True) if k < 3 else "good" for k in range(n)] for d in range(planes)])
    what = f"plot of alignment {which}, BPMs {ords.tolist()}, {pat.tolist()}"
    vary = A([[1 + 0.1 * k + 0.01 * d for k in range(n)] for d in range(planes)])
    off = A([[c17.GOOD[p][0] for p in row] for row in pat]) * vary
    err = A([[c17.GOOD[p][1] for p in row] for row in pat]) * vary
    bad = A([[not c17.accepted(off[d, k], err[d, k]) for k in range(n)] for d in range(planes)])
    lib.need(np.all(np.asarray(bba.is_bba_errored(off, err)).astype(bool) == bad), f"{what}: flags")
    mags = ords + 1
    if which == "offsets":
        mags = A([[[i for i in sc.ORD.Magnet if i < b_][-1] for b_ in row] for row in ords])
        for k, i in enumerate(bpms):
            sc.RING[i].Offset = A([1e-5 * (k + 1), -3e-5 * k])
            sc.RING[i].SupportOffset = A([2e-6 * k, 5e-6, 0])[:len(np.ravel(sc.RING[i].SupportOffset))]
        for k, i in enumerate(sc.ORD.Magnet):
            sc.RING[i].MagnetOffset = A([7e-6 * k, 4e-6 * (3 - k), 0])
            sc.RING[i].SupportOffset = A([-3e-6, 1e-6 * k, 0])
    with canvas(10.0), no_layout(), env.seams():
        if which == "results":
            bba.plot_bba_results(sc, ords, off, err)
        else:
            bba.plot_bpm_offsets_from_magnets(sc, ords, mags, bad)
        f = figures()
        lib.need(len(f) == 1, f"{what}: {len(f)} figures")
        for d in range(planes):
            name = ("Horizontal", "Vertical")[d]
            at_ = [bpms.index(o) for o in ords[d]]
            for state, lab in ((False, name), (True, name + " failed")):
                sel = [k for k in range(n) if bad[d, k] == state]
                w = f"{what}: {lab}"
                if which == "results":
                    ax = f[0].axes[d]
                    want = [(at_[k], 1e6 * off[d, k]) for k in sel if np.isfinite(off[d, k])]
                    need_points(errorbars(ax, lab), want, w)
                    need_points(bar_lengths(ax, lab), [(at_[k], 1e6 * err[d, k]) for k in sel if np.isfinite(off[d, k] + err[d, k])], f"{w}: error bars")
                else:
                    ax = f[0].axes[d + 1]
                    val = lambda k: sc.RING[ords[d, k]].Offset[d] + sc.RING[ords[d, k]].SupportOffset[d] - sc.RING[mags[d, k]].MagnetOffset[d] - sc.RING[mags[d, k]].SupportOffset[d]
                    lines = [ln for ln in ax.get_lines() if ln.get_label() == lab]
                    need_points(np.vstack([finite(ln.get_xdata(), ln.get_ydata()) for ln in lines]) if lines else [], [(at_[k], 1e6 * val(k)) for k in sel], w)
    return (which, planes, n, order, bool(flip), pat.tobytes())


def beating(t):
    from pySC.correction.loco import model_beta_beat
    where = t.choose(("BPMs", "quadrupoles", "one", "unordered"), "elements")
    fac = [t.choose((1.0, 1.02, 0.97), f"quadrupole {k}") for k in range(3)]
    sc = machine(errors=False)
    g = lambda n: A([i for i, e in enumerate(sc.RING) if e.FamName == n])
    q = {"BPMs": g("BPM"), "quadrupoles": g("QF"), "one": g("QD")[1:2], "unordered": g("BPM")[[0, 3, 6]]}[where]
    _, _, tw = at.get_optics(sc.IDEALRING, q)
    for k, v in enumerate(fac):
        sc.set_magnet_setpoints(g("QF")[k:k + 1], A([v]), False, 1, "rel")
    _, _, now = at.get_optics(sc.RING, q)
    s = np.concatenate(([0.0], np.cumsum([getattr(e, "Length", 0.0) for e in sc.RING])))
    with canvas(10.0):
        model_beta_beat(sc.RING, tw, q, plot=True)
        f = figures()
        lib.need(len(f) == 1 and len(f[0].axes) == 2, f"{[len(x.axes) for x in f]} axes")
        for d in (0, 1):
            need_points(points(f[0].axes[d]), [(s[i], now.beta[k, d] / tw.beta[k, d] - 1) for k, i in enumerate(q)], f"beta beating at {where}, quadrupoles {fac}, plane {d}")
    return (where, tuple(fac))


def jobs(tier):
    q = tier == "quick"
    return [TapeJob("phase space", phase_space, shards=32, depth=4, max_dev=1 if q else 3), TapeJob("supports", support, shards=16, depth=3), TapeJob("correctors", correctors, shards=4, depth=2),
            TapeJob("lattice", lattice, shards=8, depth=2), TapeJob("readings", readings, max_dev=1 if q else 2, shards=16, depth=3),
            TapeJob("transmission", transmission, shards=8, depth=2), TapeJob("scan", scan, shards=16, depth=3),
            TapeJob("RF corrections", rf_plots, max_dev=1 if q else 2, shards=16, depth=3), TapeJob("injection fits", injection, max_dev=0 if q else None, shards=16, depth=3),
            TapeJob("orbit in magnets", orbit_plot, shards=16, depth=3), TapeJob("apertures", apertures, shards=8, depth=3),
            TapeJob("alignment", alignment, max_dev=1 if q else 2, shards=16, depth=3), TapeJob("beta beating", beating, shards=4, depth=2)]
