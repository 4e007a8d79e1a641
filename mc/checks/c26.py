"""Tune scan with every table of transmissions over small grids (all tables on the smallest, a bounded number of different points on larger ones), full and
early-stopping, against a direct evaluation of the tables; chromaticity fit on a real ring from all small patterns of sextupole settings."""
import contextlib
import io

import numpy as np
import at
from mc import lib, env, beamsim as b
from mc.core import TapeJob, Skip

A = np.array


@lib.cached
def line():
    d = lambda: at.Drift("D", 0.3)
    return lib.ring_of([d(), at.Monitor("BPM"), at.Quadrupole("QF", 0.25, 1.3), d(), at.Quadrupole("QD", 0.25, -1.1), lib.corrector("CM"), at.Quadrupole("QF", 0.3, 1.25),
                        at.Bend("BD", 0.5, 0.1, k=-0.8, PassMethod="BndMPoleSymplectic4Pass"), at.Quadrupole("QX", 0.25, 0.4), d()])


FAM = (A([2, 6]), A([4, 7]))
NP, NT = 4, 3
# surviving particles per turn
OUT = {"none": (0, 0, 0), "few": (1, 1, 0), "one turn": (3, 1, 0), "two turns": (4, 3, 0), "part": (3, 3, 1), "half": (4, 2, 2), "most": (4, 4, 3), "full": (4, 4, 4)}
# ... of a large bunch: traces of beam, almost reaching the target
MANY = 150
BIG = {"none": (0, 0, 0), "trace": (1, 1, 1), "two turns": (150, 149, 0), "long trace": (150, 150, 1), "almost": (150, 74, 74), "half": (150, 75, 75), "nearly full": (150, 150, 149), "full": (150, 150, 150)}


class Machine:
    def __init__(self, grid, table, lost):
        from pySC.core.simulated_commissioning import SimulatedCommissioning
        from pySC.correction import tune, chroma  # noqa: F401
        line()
        self.sc = sc = SimulatedCommissioning(lib._cache[("line",)])
        sc.register_bpms(A([1]))
        sc.register_magnets(A([2, 4, 6, 8]), CalErrorB=A([0, 1e-3]))
        sc.register_magnets(A([5]), HCM=1.0)
        sc.register_magnets(A([7]), HCM=1.0)
        sc.RING[1].Marked = True
        for k, i in enumerate((2, 4, 6, 7, 8)):
            sc.RING[i].CalErrorB = A([0.0, 1e-3 * k])
            sc.set_magnet_setpoints(i, 1.004 - 0.003 * k, False, 1, method="rel")
        sc.set_cm_setpoints(7, 1e-4, skewness=False)
        sc.INJ.beamLostAt = lost
        sc.INJ.nTurns, sc.INJ.nParticles = 7, 2
        self.state0 = lib.snap(sc)
        self.grid, self.visits = grid, []
        nom = [float(sc.RING[i].NomPolynomB[1]) for i in (2, 6, 4, 7)]

        def true(shot, p, ref, t):
            lib.need(ref == len(sc.RING), "transmission is not looked at at the end of the ring")
            return (0.0, 0.0) if p < table[self.visits[-1]][t] else None
        beam = b.Beam(true)

        def track(lattice, r_in, nturns, refs):
            q = [float(sc.RING[i].SetPointB[1]) / n for i, n in zip((2, 6, 4, 7), nom)]
            lib.need(abs(q[0] - q[1]) < 1e-12 and abs(q[2] - q[3]) < 1e-12, f"families are not set to common values: {q}")
            k = [int(np.argmin(np.abs(A(g) - v))) for g, v in zip(grid, (q[0], q[2]))]
            lib.need(abs(grid[0][k[0]] - q[0]) < 1e-11 and abs(grid[1][k[1]] - q[2]) < 1e-11, f"scanned setting {q[0]}, {q[2]} is not on the grid")
            self.visits.append(tuple(k))
            self.at_settings(q[0], q[2], "during the scan")
            return beam.track(lattice, r_in, nturns, refs)
        self.track = track

    def at_settings(self, f1, f2, what):
        want = dict(self.state0)
        for i, f in zip((2, 6, 4, 7), (f1, f1, f2, f2)):
            sp = want[("RING", i, "SetPointB")].copy()
            sp[1] = f * want[("RING", i, "NomPolynomB")][1]
            pb = want[("RING", i, "PolynomB")].copy()
            pb[1] = sp[1] * (1 + want[("RING", i, "CalErrorB")][1])
            want[("RING", i, "SetPointB")], want[("RING", i, "PolynomB")] = sp, pb
        bad = lib.differences(lib.live(self.sc), want, lambda k: k[0] == "RING" and k[-1] == "PolynomB" and k[1] == 7, rtol=1e-11, atol=1e-15)
        lib.need(not bad, f"{what}: {bad}")


GRIDS = {"1x1": ((1.01,), (0.98,)), "1x2": ((1.0,), (0.99, 1.02)), "2x2": ((0.98, 1.01), (0.97, 1.03)), "3x3": ((0.98, 1.0, 1.02), (0.95, 0.99, 1.03)), "3x2": ((0.98, 1.0, 1.02), (0.95, 1.03)), "4x5": ((0.9, 0.95, 1.0, 1.05), (0.9, 0.95, 1.0, 1.05, 1.1)),
         "5x5": ((0.9, 0.95, 1.0, 1.05, 1.1), (0.92, 0.96, 1.0, 1.04, 1.08))}


def scan(grids, points, outs, dev, OUT=OUT, NP=NP, targets=(1, 0.7, 0.5)):
    def run(t):
        from pySC.correction.tune import tune_scan
        g = t.choose(grids, "grid")
        grid = GRIDS[g]
        n = t.choose(points, "points")
        full = t.choose((False, True), "full scan")
        target = t.choose(targets, "target", dev=True)
        lost = t.choose((0.5, 0.3), "lost at", dev=True)
        base = t.choose(("none", "few", "two turns", "half", "most") if dev else outs[:1], "everywhere")
        order = outs[outs.index(base):] + outs[:outs.index(base)]
        table = {(i, j): t.choose(order, f"point {i} {j}", dev=dev) for i in range(len(grid[0])) for j in range(len(grid[1]))}
        frac = {k: A(OUT[v]) / NP for k, v in table.items()}
        M = Machine(grid, {k: OUT[v] for k, v in table.items()}, lost)
        what = f"scan of {g}, {n} points, full {full}, target {target}, lost at {lost}, transmission {table}"
        res, err = None, None
        with env.seams(rng_source=env.zeros_source, track=M.track):
            try:
                res = lib.call(tune_scan, M.sc, [FAM[0], FAM[1]], [A(grid[0]), A(grid[1])], target=target, n_points=n, nParticles=NP, nTurns=NT, full_scan=full)
            except RuntimeError as e:
                err = str(e)
        seen = M.visits
        lib.need(1 <= len(seen) <= n, f"{what}: {len(seen)} points measured")
        turns = {k: int(np.sum(f > 1 - lost)) for k, f in frac.items()}
        hit = [k for k in seen if frac[k][-1] >= target]
        if res is None:
            lib.need(all(turns[k] == 0 for k in seen), f"{what}: failed ({err}) although beam survives")
            lib.need(len(seen) == n, f"{what}: gave up after {len(seen)} points")
            M_state = lib.differences(lib.live(M.sc), M.state0, lambda k: k[0] == "RING" and k[-1] == "PolynomB" and k[1] == 7, rtol=1e-11, atol=1e-15)
            lib.need(not M_state, f"{what}: failed scan changed {M_state}")
            return ("failed", g, n, tuple(table.values()))
        sc, sp, mt, tr = res
        lib.need(sc is M.sc, "the machine must be returned")
        k = tuple(int(np.argmin(np.abs(A(q) - v))) for q, v in zip(grid, sp))
        lib.need(k in seen and abs(grid[0][k[0]] - sp[0]) < 1e-12 and abs(grid[1][k[1]] - sp[1]) < 1e-12, f"{what}: reported setting {sp} was not scanned")
        if hit and not full:
            lib.need(len(seen) == seen.index(hit[0]) + 1, f"{what}: scan continued after the target was reached")
            lib.need(k == hit[0], f"{what}: reported {k}, target was reached at {hit[0]}")
        else:
            lib.need(len(seen) == n, f"{what}: stopped after {len(seen)} of {n} points")
            lib.need(any(turns[q] > 0 for q in seen), f"{what}: no beam survives anywhere, but the scan did not fail")
            best = max(frac[q][-1] for q in seen)
            if best > 0:
                lib.need(frac[k][-1] == best, f"{what}: reported {k} with transmission {frac[k][-1]}, best is {best}")
            else:
                lib.need(turns[k] == max(turns[q] for q in seen), f"{what}: reported {k} with {turns[k]} turns")
        M.at_settings(sp[0], sp[1], f"{what}: after the scan")
        lib.need(mt.shape == (len(grid[0]), len(grid[1])) and tr.shape == mt.shape + (NT,), f"{what}: shapes {mt.shape}, {tr.shape}")
        for q in table:
            if q in seen:
                lib.need(mt[q] == turns[q] and np.allclose(tr[q], frac[q], rtol=0, atol=1e-12), f"{what}: point {q} reported {mt[q]} {tr[q]}, was {turns[q]} {frac[q]}")
            else:
                lib.need(np.isnan(mt[q]) and np.all(np.isnan(tr[q])), f"{what}: values for the unscanned point {q}")
        return (k, g, n, full, target, lost, tuple(table.values()))
    return run


@contextlib.contextmanager
def merits(sc, name, goal, magnets):
    """distances from the goal of everything measured on the machine with changed settings"""
    from at.lattice import Lattice
    real, seen = getattr(Lattice, name), []
    now = lambda: [sc.RING[int(i)].SetPointB.tolist() for i in magnets]     # noqa
    first = now()

    def measured(self, *a, **k):
        out = real(self, *a, **k)
        if self is sc.RING and not (name == "get_tune" and len(k) + len(a) == 0) and now() != first:
            seen.append(float(np.sqrt(np.mean((np.asarray(out)[:2] - goal) ** 2))))
        return out
    setattr(Lattice, name, measured)
    try:
        yield seen
    finally:
        setattr(Lattice, name, real)


COARSE = (None, (1.0, 3.0), (0.3, 0.5), (1e-2, 5e-2), (3e-3, 2e-2))


def best(seen, got, goal, what):
    """the setting left is as good as the best one seen"""
    m = float(np.sqrt(np.mean((got - goal) ** 2)))
    lib.need(m <= min(seen, default=m) * (1 + 1e-6) + 1e-10, f"{what}: left at a distance of {m} from the target, the best setting seen had {min(seen, default=m)}")


# ------------------------------------------------------------------ chromaticity
def chroma(targets, patterns):
    def run(t):
        from pySC.core.simulated_commissioning import SimulatedCommissioning
        from pySC.correction.chroma import fit_chroma
        lib.fodo(2)
        sc = SimulatedCommissioning(lib._cache[("fodo", 2)])
        o = lambda n: A([i for i, e in enumerate(sc.RING) if e.FamName == n])
        sf, sd = o("SF"), o("SD")
        sc.register_magnets(o("QF"), CalErrorB=A([0, 1e-3]))
        sc.register_magnets(sf)
        sc.register_magnets(sd)
        pat = t.choose(patterns, "initial settings")
        cal = t.choose((0.0, 0.02), "calibration error", dev=True)
        q = t.choose((1.0, 1.02), "quadrupoles", dev=True)
        step = t.choose((None, (1, 1), (0.5, -0.5)), "first step", dev=True)
        number = t.choose((2, 3, 1), "number of families", dev=True)
        coarse = t.choose(COARSE, "tolerances", dev=True)
        swap = t.choose((False, True), "families swapped", dev=True)
        lists = t.choose((False, True), "lists", dev=True)
        part = t.choose((False, True), "part of a family", dev=True)
        for k, i in enumerate(list(sf) + list(sd)):
            sc.set_magnet_setpoints(int(i), float(sc.RING[i].NomPolynomB[2]) + pat[k % len(pat)], False, 2)
            sc.RING[i].CalErrorB = A([0.0, 0.0, cal])
        sc.set_magnet_setpoints(o("QF"), q, False, 1, method="rel")
        sc.update_magnets()
        tg = t.choose(targets, "target")
        fams = [sf[:1] if part else sf, sd]
        if swap:
            fams = fams[::-1]
        if number == 3:
            fams = fams[:1] + [sd[1:], sd[:1]] if not swap else [sd[1:], sd[:1]] + fams[1:]
        elif number == 1:
            fams = fams[:1]
        s0 = lib.snap(sc)
        kw = {}
        if tg is not None:
            kw["target_chroma"] = A(tg, dtype=float)
        if step or number != 2:
            kw["init_step_size"] = np.resize(A(step or (2, 2), dtype=float), number)
        goal = A(tg if tg is not None else sc.IDEALRING.get_chrom()[0:2])
        if coarse:
            kw["xtol"], kw["ftol"] = coarse
        what = f"chromaticity fit to {tg}, tolerances {coarse}, settings {pat}, calibration {cal}, quadrupoles {q}, first step {step}, families {fams}"
        with contextlib.redirect_stdout(io.StringIO()), merits(sc, "get_chrom", goal, np.concatenate(fams)) as seen:
            out = lib.call(fit_chroma, sc, [list(map(int, f)) for f in fams] if lists else fams, **kw)
        lib.need(out is sc, "the machine must be returned")
        if tg is not None and np.any(np.isnan(tg)):
            lib.need_state(sc, s0, f"{what}")
            return ("nan", pat)
        want = dict(s0)
        for f in fams:
            d = [float(sc.RING[i].SetPointB[2]) - s0[("RING", int(i), "SetPointB")][2] for i in f]
            lib.need(np.ptp(d) < 1e-9 * max(1, abs(d[0])), f"{what}: family {f} changed by different steps {d}")
            for i in f:
                sp, pb = s0[("RING", int(i), "SetPointB")].copy(), s0[("RING", int(i), "PolynomB")].copy()
                sp[2] += d[0]
                pb[2] = sp[2] * (1 + cal)
                want[("RING", int(i), "SetPointB")], want[("RING", int(i), "PolynomB")] = sp, pb
        lib.need_state(sc, want, what, rtol=1e-9, atol=1e-12)
        got = sc.RING.get_chrom()[0:2]
        best(seen, got, goal, what)
        lib.need(coarse or number == 1 or np.all(np.abs(got - goal) < 0.02), f"{what}: chromaticity {got}, target {goal}")
        return (str(tg), pat, cal, q, step, swap, lists, part, number, coarse)
    return run


# ------------------------------------------------------------------ tunes
def tunes(targets, patterns):
    def run(t):
        from pySC.core.simulated_commissioning import SimulatedCommissioning
        from pySC.correction.tune import fit_tune, tune
        lib.fodo(2)
        sc = SimulatedCommissioning(lib._cache[("fodo", 2)])
        o = lambda n: A([i for i, e in enumerate(sc.RING) if e.FamName == n])
        qf, qd = o("QF"), o("QD")
        sc.register_magnets(qf)
        sc.register_magnets(qd)
        sc.register_magnets(o("SF"))
        pat = t.choose(patterns, "initial settings")
        cal = t.choose((0.0, 0.01), "calibration error", dev=True)
        integer = t.choose((True, False, None), "integer part", dev=True)
        swap = t.choose((False, True), "families swapped", dev=True)
        lists = t.choose((False, True), "lists", dev=True)
        part = t.choose((False, True), "part of a family", dev=True)
        for k, i in enumerate(list(qf) + list(qd)):
            sc.set_magnet_setpoints(int(i), float(sc.RING[i].NomPolynomB[1]) + pat[k % len(pat)], False, 1)
            sc.RING[i].CalErrorB = A([0.0, cal])
        sc.update_magnets()
        design, now = sc.IDEALRING.get_tune(get_integer=integer is not False)[:2], sc.RING.get_tune(get_integer=integer is not False)[:2]
        k = integer is not False
        lib.need_close(tune(sc, k), now, "tunes of the machine", atol=1e-9)
        lib.need_close(tune(sc, k, ideal=True), design, "tunes of the design", atol=1e-9)
        tg = t.choose(targets, "target")
        number = t.choose((2, 3, 1), "number of families", dev=True)
        coarse = t.choose(COARSE, "tolerances", dev=True)
        fams = [qf[:1] if part else qf, qd]
        if tg is None:
            if part:
                raise Skip()
            goal = design
        else:       # reachable by construction
            ref = sc.RING.deepcopy()
            for f, d in zip(fams, tg):
                for i in f:
                    ref[i] = ref[i].deepcopy()
                    pb = ref[i].PolynomB.copy()
                    pb[1] += d * (1 + cal)
                    ref[i].PolynomB = pb
            goal = ref.get_tune(get_integer=integer is not False)[:2]
        if swap:
            fams = fams[::-1]
        if number == 3:
            fams = fams[:1] + [qd[1:], qd[:1]] if not swap else [qd[1:], qd[:1]] + fams[1:]
        elif number == 1:
            fams = fams[:1]
        s0 = lib.snap(sc)
        kw = {}
        if tg is not None:
            kw["target_tune"] = goal.copy()
        if integer is not None:
            kw["fit_integer"] = integer
        if coarse:
            kw["xtol"], kw["ftol"] = coarse
        what = f"tune fit to steps {tg}, tolerances {coarse} (tunes {goal}), settings {pat}, calibration {cal}, integer {integer}, families {fams}"
        with contextlib.redirect_stdout(io.StringIO()), merits(sc, "get_tune", goal, np.concatenate(fams)) as seen:
            try:
                out = lib.call(fit_tune, sc, [list(map(int, f)) for f in fams] if lists else fams, **kw)
            except at.AtError as e:     # more or fewer families than tunes: the search may leave the stable settings, and must then say so
                lib.need(number != 2 and "nstable" in str(e), f"{what}: {e}")
                return ("unstable", str(tg), pat, number)
        lib.need(out is sc, "the machine must be returned")
        want = dict(s0)
        for f in fams:
            d = [float(sc.RING[i].SetPointB[1]) - s0[("RING", int(i), "SetPointB")][1] for i in f]
            lib.need(np.ptp(d) < 1e-9 * max(1, abs(d[0])), f"{what}: family {f} changed by different steps {d}")
            for i in f:
                sp, pb = s0[("RING", int(i), "SetPointB")].copy(), s0[("RING", int(i), "PolynomB")].copy()
                sp[1] += d[0]
                pb[1] = sp[1] * (1 + cal)
                want[("RING", int(i), "SetPointB")], want[("RING", int(i), "PolynomB")] = sp, pb
        lib.need_state(sc, want, what, rtol=1e-9, atol=1e-12)
        got = sc.RING.get_tune(get_integer=k)[:2]
        best(seen, got, goal, what)
        lib.need(coarse or number == 1 or np.all(np.abs(got - goal) < 0.002), f"{what}: tunes {got}, target {goal}, before {now}")
        return (str(tg), pat, cal, integer, swap, lists, part, number, coarse)
    return run


def jobs(tier):
    q = tier == "quick"
    O = tuple(OUT)
    return [TapeJob("small grids", scan(("1x1", "1x2", "2x2"), (2, 3, 5) if q else (2, 3, 5, 9), O[:1] + O[2:] if not q else ("none", "few", "two turns", "half", "full"), False), max_dev=1, shards=24, depth=5),
            TapeJob("large bunches", scan(("1x2",) if q else ("1x2", "2x2"), (2, 5), tuple(BIG), False, BIG, MANY, (1, 0.5, 0.995)), max_dev=1, shards=16, depth=4),
            TapeJob("grids", scan(("3x3", "3x2", "4x5") + (() if q else ("5x5",)), (6, 20) if q else (6, 12, 25, 60), O, True), max_dev=1 if q else 2, shards=24, depth=3),
            TapeJob("chromaticity", chroma((None, (1.0, 2.0), (-1.5, 0.5), (np.nan, 1.0)), ((0.0,), (0.3, -0.2), (-0.45, 0.2, 0.35))), max_dev=1 if q else 3, shards=16, depth=1),
            TapeJob("tunes", tunes((None, (0.04, -0.03), (-0.05, -0.02), (0.0, 0.06)), ((0.0,), (0.02, -0.03), (-0.02, 0.01, 0.03), (0.03, 0.03, -0.03, -0.03))), max_dev=1 if q else 3, shards=16, depth=1)]
