"""Aperture searches against every small survival table: the tracking environment answers each launch from a table (survival time as a function of amplitude and
angle, or of start element and momentum); the returned radii and momenta must lie on a boundary of that table.  Closed orbit in the magnets from every orbit table."""
import numpy as np
import at
from mc import lib, env
from mc.core import TapeJob, Skip

A = np.array
INF = 1e9


@lib.cached
def line(kick):
    d = lambda: at.Drift("D", 0.4)
    els = [lib.corrector("CM", kick=(kick, -0.5 * kick)), d(), at.Quadrupole("QF", 0.2, 1.6), d(), d(), at.Quadrupole("QD", 0.2, -1.6), d(), at.Marker("END", PassMethod="IdentityPass")]
    return lib.ring_of(els)


def life_of(table, r):
    """Turns survived by a launch at amplitude r: table = ((upper edge, turns survived), ...), last edge INF."""
    for edge, turns in table:
        if r < edge:
            return turns
    return 0


def boundaries(table, n):
    """Amplitudes where a surviving launch (inside) is followed by a lost one."""
    out, alive, edge0 = [], True, 0.0
    for edge, turns in table:
        now = turns >= n
        if alive and not now:
            out.append(edge0)
        alive, edge0 = now, edge
    return out


# name -> ((edge, turns survived or INF), ...)
TAB = {"0.4 mm": ((0.4e-3, INF), (INF, 0)), "0.8 mm": ((0.8e-3, INF), (INF, 2)), "3 mm": ((3e-3, INF), (INF, 4)), "near the bound": ((1.0003e-3, INF), (INF, 1)), "70 mm": ((0.07, INF), (INF, 0)), "2 m": ((2.0, INF), (INF, 0)),
       "2 um": ((2e-6, INF), (INF, 0)), "graded": ((0.3e-3, INF), (0.6e-3, 9), (0.9e-3, 5), (1.4e-3, 3), (INF, 0)), "island": ((0.35e-3, INF), (0.55e-3, 2), (0.7e-3, INF), (INF, 0)),
       "far island": ((0.35e-3, INF), (2e-3, 2), (4e-3, INF), (INF, 0)), "nothing": ((INF, 0),)}
ANG = {"full": (0.0, np.pi / 2, np.pi, 3 * np.pi / 2, 2 * np.pi), "uneven": (0.1, 0.7, 2.0, 2.5), "one": (0.6,), "two": (0.0, 1.2), "clockwise": (2.0, 1.0, 0.3)}
BND = {"default": None, "0-2": (0.0, 2e-3), "inside": (1e-4, 2e-4), "outside": (5e-3, 9e-3), "descending": (2e-3, 0.0), "around": (0.3e-3, 1.2e-3)}


class Launches:
    def __init__(self, ring, angles, tables, turns, dp, slope, offset=(0.0, 0.0, 0.0)):
        self.ring, self.angles, self.tables, self.turns, self.dp, self.slope, self.n, self.off = ring, A(angles), tables, turns, dp, slope, 0, offset
        self.first = ring[0].FamName

    def __call__(self, lattice, r_in, nturns, refs):
        r = np.asarray(r_in, dtype=float).reshape(6, -1)
        out = np.full((6, r.shape[1], len(refs), nturns), 0.0)
        out[:] = r[:, :, None, None]
        for p in range(r.shape[1]):
            if np.any(np.isnan(r[:, p])):
                out[0, p] = np.nan
                continue
            self.n += 1
            lib.need(lattice[0].FamName == self.first and len(lattice) == len(self.ring), "launch into another lattice")
            lib.need(abs(r[4, p] - self.dp) < 1e-12, f"launched with momentum deviation {r[4, p]}, requested {self.dp}")
            lib.need(np.allclose(r[[1, 3], p], self.slope, rtol=1e-6, atol=1e-12), f"launched with angles {r[[1, 3], p]}, expected {self.slope}")
            rho = float(np.hypot(r[0, p], r[2, p]))
            if rho > 1e-12:
                # angle of the launch -> which requested angle
                k = int(np.argmin([abs(np.exp(1j * np.arctan2(r[2, p], r[0, p])) - np.exp(1j * a)) for a in self.angles]))
                lib.need(abs(np.exp(1j * np.arctan2(r[2, p], r[0, p])) - np.exp(1j * self.angles[k])) < 1e-7, f"launch at angle {np.arctan2(r[2, p], r[0, p])}, requested are {self.angles}")
                tab = self.tables[k]
            else:
                tab = ((INF, INF),) if any(t[0][1] == INF for t in self.tables) else ((INF, 0),)
            life = life_of(tab, rho)
            for t in range(nturns):
                if t >= life:
                    out[0, p, :, t] = np.nan
        lib.need(self.n < 4000, "endless search")
        return out


def dynamic(tables, angs, bnds, dev):
    def run(t):
        from pySC.lattice_properties.apertures import SCdynamicAperture
        an = t.choose(angs, "angles")
        kick = t.choose((0.0, 3e-4), "orbit", dev=True)
        launch = t.choose((False, True), "launch on orbit", dev=True)
        center = t.choose((False, True), "centre on orbit")
        six = t.choose((False, True), "6D orbit", dev=True)
        turns = t.choose((4, 1, 8), "turns", dev=True)
        acc = t.choose((1e-6, 2e-5), "accuracy", dev=True)
        dE = t.choose((0.0, 0.01, -0.02), "momentum", dev=True)
        bn = t.choose(bnds, "bounds", dev=True)
        base = t.choose(tables, "everywhere")
        rest = tables[tables.index(base):] + tables[:tables.index(base)]
        angles = ANG[an]
        names = [base] + [t.choose(rest, f"at angle {k}", dev=dev) for k in range(1, len(angles))]
        if an == "full":
            names[-1] = names[0]        # the same direction
        tabs = [TAB[n] for n in names]
        if len({n == "nothing" for n in names}) > 1:
            raise Skip()
        if not all(boundaries(v, turns) for v in tabs):
            raise Skip()        # all launches survive: nothing to find
        line(kick)
        ring = lib._cache[("line", kick)]
        before = lib.snap_lattice(ring)
        orb = np.zeros(6)
        if six:
            orb = A([2e-4, 3e-5, -1e-4, -2e-5, 1e-3, 5e-3]) if kick else np.zeros(6)
        elif kick:
            orb[:4] = at.find_orbit4(ring)[0][:4]
        slope = orb[[1, 3]] if launch else np.zeros(2)
        dp = dE + (orb[4] if six and launch else 0.0)
        L = Launches(ring, angles, tabs, turns, dp, slope)
        kw = {} if BND[bn] is None else {"bounds": A(BND[bn])}
        what = f"angles {an}, survival {names}, bounds {bn}, {turns} turns, accuracy {acc}, orbit {kick}, launch on orbit {launch}, centre {center}, 6D {six}, momentum {dE}"
        with env.seams(track=L, orbit=lambda r, refs: (orb.copy(), np.tile(orb, (len(refs), 1)))):
            da, rmax, th = lib.call(SCdynamicAperture, ring, dE, nturns=turns, thetas=A(angles), accuracy=acc, launchOnOrbit=launch, centerOnOrbit=center, useOrbit6=six, **kw)
        lib.need(not lib.differences(lib.snap_lattice(ring), before), f"{what}: the lattice was changed")
        lib.need(np.shape(rmax) == (len(angles),) and np.shape(th) == (len(angles),), f"{what}: shapes {np.shape(rmax)}, {np.shape(th)}")
        off = orb[[0, 2]] if center else np.zeros(2)
        x, y = rmax * np.cos(th) + off[0], rmax * np.sin(th) + off[1]
        radii = np.zeros(len(angles))
        for k, a in enumerate(angles):
            radii[k] = x[k] * np.cos(a) + y[k] * np.sin(a)
            lib.need(abs(-x[k] * np.sin(a) + y[k] * np.cos(a)) < 1e-11, f"{what}: result {k} is not at the angle {a}: {x[k]}, {y[k]}")
            ok = boundaries(tabs[k], turns)
            lib.need(min(abs(radii[k] - b) for b in ok) <= acc * 1.0001, f"{what}: radius {radii[k]} at angle {a}, boundaries are {ok}")
        d = np.diff(A(angles))
        want = 0.5 * np.sum(radii[:-1] * radii[1:] * np.sin(d))
        lib.need(abs(da - want) <= 1e-9 * np.sum(np.abs(radii)) ** 2 + 1e-18, f"{what}: area {da}, polygon has {want}")
        return (an, tuple(names), bn, turns, acc, kick, launch, center, six, dE)
    return run


# ------------------------------------------------------------------ momentum aperture
# per element, |deviation| tables; the boundary towards larger deviations
MTAB = {"1.5 %": ((0.015, INF), (INF, 0)), "0.33 %": ((0.0033, INF), (INF, 2)), "4 %": ((0.04, INF), (INF, 3)), "graded": ((0.004, INF), (0.008, 6), (0.011, 4), (0.021, 3), (INF, 0)),
        "island": ((0.0043, INF), (0.0061, 1), (0.0083, INF), (INF, 0)), "at the bound": ((0.0100003, INF), (INF, 0))}
MB = {"1-2 %": (0.01, 0.02), "tight": (0.004, 0.005), "narrow": (0.012, 0.0121), "from zero": (0.0, 0.03)}


@lib.cached
def mring():
    return lib.ring_of([at.Marker("E0", PassMethod="IdentityPass"), at.Drift("E1", 0.4), at.Quadrupole("E2", 0.2, 1.6), at.Drift("E3", 0.4), at.Monitor("E4"), at.Quadrupole("E5", 0.2, -1.6), at.Drift("E6", 0.4)])


def momentum(tables, refs_, dev):
    def run(t):
        from pySC.lattice_properties.apertures import SCmomentumAperture
        refs = t.choose(refs_, "elements")
        sign = t.choose((1, -1), "side")
        bn = t.choose(tuple(MB), "bounds")
        turns = t.choose((4, 1, 8), "turns", dev=True)
        acc = t.choose((1e-4, 5e-3), "accuracy", dev=True)
        step = t.choose((1e-3, 4e-4), "step", dev=True)
        kind = t.choose(("array", "list", "tuple"), "kind of bounds", dev=True)
        orbits = t.choose(("orbit", "zero", "none", "small"), "orbit", dev=True)
        base = t.choose(tables, "everywhere")
        rest = tables[tables.index(base):] + tables[:tables.index(base)]
        names = {r: (base if k == 0 else t.choose(rest, f"at element {r}", dev=dev)) for k, r in enumerate(refs)}
        if not all(boundaries(MTAB[v], turns) for v in names.values()):
            raise Skip()
        mring()
        ring = lib._cache[("mring",)]
        before = lib.snap_lattice(ring)
        n = len(ring)
        orb = {r: (A([1e-4 * (r + 1), 2e-5 * r, -1e-4 * r, 1e-5, 1e-3 * (r - 2), 1e-3 * r]) * {"orbit": 1.0, "small": 1e-2}.get(orbits, 0.0)) for r in range(n + 1)}
        what = f"momentum aperture at {refs}, survival {names}, side {sign}, bounds {bn} as {kind}, {turns} turns, accuracy {acc}, step {step}, orbit {orbits}"
        count = [0]

        def track(lattice, r_in, nturns, at_):
            r = np.asarray(r_in, dtype=float).reshape(6, -1)
            out = np.zeros((6, r.shape[1], len(at_), nturns))
            out[:] = r[:, :, None, None]
            start = int(lattice[0].FamName[1:])
            lib.need([e.FamName for e in lattice] == [f"E{(start + i) % n}" for i in range(n)], f"{what}: tracked through {[e.FamName for e in lattice]}")
            lib.need(start in names, f"{what}: launched at element {start}")
            for p in range(r.shape[1]):
                count[0] += 1
                lib.need(count[0] < 4000, f"{what}: endless search")
                z = r[:, p] - orb[start]
                lib.need(np.allclose(z[[0, 1, 2, 3, 5]], 0, rtol=0, atol=1e-12), f"{what}: launch at {r[:, p]}, orbit at element {start} is {orb[start]}")
                life = life_of(MTAB[names[start]], abs(z[4]) if z[4] * sign >= 0 else 0.0)
                for k in range(nturns):
                    if k >= life:
                        out[0, p, :, k] = np.nan
            return out

        def orbit(r_, refs2):
            o = A([orb[int(k)] for k in refs2]).reshape(-1, 6)
            return (orb[0] * np.nan, o * np.nan) if orbits == "none" else (orb[0].copy(), o)
        bounds = [sign * v for v in MB[bn]]
        bounds = A(bounds) if kind == "array" else tuple(bounds) if kind == "tuple" else bounds
        with env.seams(track=track, orbit=orbit):
            res = lib.call(SCmomentumAperture, ring, A(refs), bounds, nturns=turns, accuracy=acc, stepsize=step)
        lib.need(not lib.differences(lib.snap_lattice(ring), before), f"{what}: the lattice was changed")
        lib.need(np.shape(res) == (len(refs), 2), f"{what}: shape {np.shape(res)}")
        if orbits == "none":
            lib.need(np.all(res == 0), f"{what}: without orbit {res}")
            return ("none", refs)
        for k, r in enumerate(refs):
            hi, lo = res[k]
            lib.need(hi * sign >= 0 and lo * sign > 0 and abs(hi) < abs(lo), f"{what}: bounds {hi}, {lo} at element {r}")
            lib.need(abs(lo - hi) <= 1.0001 * acc * abs(lo), f"{what}: bounds {hi}, {lo} at element {r} wider than the accuracy")
            tab = MTAB[names[r]]
            lib.need(life_of(tab, abs(hi)) >= turns > life_of(tab, abs(lo)), f"{what}: bounds {hi}, {lo} at element {r}, boundaries are {boundaries(tab, turns)}")
        return (refs, tuple(names.values()), sign, bn, turns, acc, step, kind, orbits)
    return run


# ------------------------------------------------------------------ closed orbit in the magnets
def cod(t):
    from pySC.core.simulated_commissioning import SimulatedCommissioning
    from pySC.lattice_properties.magnet_orbit import SCgetCOD
    mring()
    sc = SimulatedCommissioning(lib._cache[("mring",)])
    sc.register_magnets(A([2]))
    sc.register_magnets(A([5]))
    support = t.choose((False, True), "girder")
    if support:
        sc.register_supports(A([[0], [6]]), "Girder")
        sc.RING[0].GirderOffset, sc.RING[6].GirderOffset = A([1e-4, -2e-4, 0.0]), A([1e-4, -2e-4, 0.0])
    VAL = ((0.0, 0.0), (3e-4, 0.0), (0.0, -5e-4), (2e-4, 7e-4))
    offs = {i: A(t.choose(VAL, f"offset {i}")) for i in (2, 5)}
    pos = {i: A(t.choose(VAL, f"orbit {i}")) for i in (2, 5)}
    lost = t.choose((False, True), "no orbit")
    ords = t.choose((None, (2, 5), (5,), (5, 2)), "magnets")
    for i in offs:
        sc.RING[i].MagnetOffset = A([offs[i][0], offs[i][1], 0.0])
    sc.update_supports()
    s0 = lib.snap(sc)

    def orbit(r, refs):
        o = A([[pos[int(k)][0], 1e-5, pos[int(k)][1], 2e-5, 1e-3, 2e-3] for k in refs]).reshape(-1, 6)
        return (np.full(6, np.nan), o * np.nan) if lost else (np.zeros(6), o)
    what = f"orbit {pos} in magnets with offsets {offs}, girder {support}, ordinates {ords}"
    with env.seams(orbit=orbit):
        got = lib.call(SCgetCOD, sc, ords=None if ords is None else A(ords)) if ords is not None else lib.call(SCgetCOD, sc)
    lib.need_state(sc, s0, what)
    g = A([1e-4, -2e-4]) if support else np.zeros(2)
    want = A([pos[i] - offs[i] - g for i in (ords or (2, 5))]).T
    lib.need_close(got, want * np.nan if lost else want, what, atol=1e-12)
    return tuple(np.round(want.ravel(), 12)) + (lost,)


def jobs(tier):
    q = tier == "quick"
    T = tuple(TAB)
    return [TapeJob("dynamic aperture", dynamic(T, tuple(ANG), tuple(BND), True), max_dev=1 if q else 2, shards=32, depth=3),
            TapeJob("momentum aperture", momentum(tuple(MTAB), ((0, 2, 5), (4,), (6, 1)), True), max_dev=1 if q else 3, shards=32, depth=3),
            TapeJob("orbit in magnets", cod, shards=8, depth=2)]
