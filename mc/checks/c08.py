"""All combinations of signs/zeros of the six misalignment components (at small and large sizes, as own misalignment, as support misalignment and
as both at once) on straight, thin and bending elements: the entrance and exit coordinate changes are compared, constant part and full first-order
part, with exact ray geometry between the design and the displaced frames; field-free elements are tracked for real; children follow the master."""
import numpy as np
import at
from mc import lib, env
from mc.core import TapeJob

A = np.array
SIZES = {"small": (A([1e-4, -2e-4, 3e-4]), A([2e-4, -3e-4, 1.5e-4])), "large": (A([5e-3, -3e-3, 8e-3]), A([0.05, -0.08, 0.11]))}


def mk():
    return at.Marker("E", PassMethod="IdentityPass")


def dipole(L, th, **kw):
    return at.Bend("B", L, th, PassMethod="BndMPoleSymplectic4Pass", **kw)


ELEMENTS = {
    "quadrupole": lambda: at.Quadrupole("Q", 0.4, 1.0),
    "field-free": lambda: at.Multipole("M", 0.7, [0.0, 0], [0.0, 0], PassMethod="StrMPoleSymplectic4Pass", MaxOrder=1),
    "thin": lambda: lib.corrector("CM"),
    "bend": lambda: dipole(1.0, 0.2),
    "bend other way": lambda: dipole(0.6, -0.1),
    "strong bend": lambda: dipole(0.8, 0.9),
    "weak bend": lambda: dipole(0.5, 1e-4),
}


def rot(ax, ay, az):
    c, s = np.cos, np.sin
    rx = A([[1, 0, 0], [0, c(ax), -s(ax)], [0, s(ax), c(ax)]])
    ry = A([[c(ay), 0, s(ay)], [0, 1, 0], [-s(ay), 0, c(ay)]])
    rz = A([[c(az), -s(az), 0], [s(az), c(az), 0], [0, 0, 1]])
    return rx @ ry @ rz


def transfer(r, o1, a1, o2, a2):
    """coordinates r in the plane z=0 of frame (o1, a1) -> plane z=0 of frame (o2, a2), straight flight, exact"""
    x, px, y, py, d, ct = r
    pz = np.sqrt((1 + d) ** 2 - px ** 2 - py ** 2)
    p = a2.T @ (o1 + a1 @ A([x, y, 0 * x]) - o2)
    v = a2.T @ (a1 @ A([px, py, pz]))
    s = -p[2] / v[2]
    return A([p[0] + s * v[0], v[0], p[1] + s * v[1], v[1], d, ct + s * (1 + d)])


def affine(*frames):
    """constant and linear part at zero (complex step: exact to rounding)"""
    const = transfer(np.zeros(6), *frames)
    jac = np.empty((6, 6))
    for k in range(6):
        r = np.zeros(6, dtype=complex)
        r[k] = 1e-30j
        jac[:, k] = transfer(r, *frames).imag / 1e-30
    return const, jac


def frames(length, theta, off, roll):
    """design entrance, actual entrance, actual exit, design exit"""
    az, ax, ay = roll
    RX = rot(ax, ay, az)
    arc = A([length * (np.cos(theta) - 1) / theta, 0, length * np.sin(theta) / theta]) if theta else A([0, 0, length])
    RB = rot(0, -theta, 0)
    return (np.zeros(3), np.eye(3)), (off, RX), (off + RX @ arc, RX @ RB), (arc, RB)


def judge(el, off, roll, what):
    f = frames(getattr(el, "Length", 0), getattr(el, "BendingAngle", 0), off, roll)
    c1, j1 = affine(*f[0], *f[1])
    c2, j2 = affine(*f[2], *f[3])
    # AT: r -> R1 (r + T1) at the entrance, r -> R2 r + T2 at the exit
    lib.need_close(el.R1, j1, f"entrance matrix of {what}", rtol=1e-9, atol=1e-12)
    lib.need_close(el.R1 @ el.T1, c1, f"entrance displacement of {what}", rtol=1e-9, atol=1e-13)
    lib.need_close(el.R2, j2, f"exit matrix of {what}", rtol=1e-9, atol=1e-12)
    lib.need_close(el.T2, c2, f"exit displacement of {what}", rtol=1e-9, atol=1e-13)


RAYS = A([[0, 0, 0, 0, 0, 0], [1e-4, 0, 0, 0, 0, 0], [0, 5e-5, 0, 0, 0, 0], [0, 0, -1e-4, 0, 0, 0], [0, 0, 0, -5e-5, 0, 0], [1e-4, -5e-5, 1e-4, 5e-5, 1e-3, 0]]).T


def track(lat):
    out, _, _ = env.tracker.real(lattice=lat, r_in=np.asfortranarray(RAYS.copy()), nturns=1, refpts=[len(lat)])
    return out[:, :, 0, 0]


def machine(kind):
    """0 drift, 1 master, 2 child, 3 drift, 4 plain registered neighbour, 5 end"""
    from pySC.core.simulated_commissioning import SimulatedCommissioning
    ring = lib.ring_of([at.Drift("D0", 0.3), ELEMENTS[kind](), ELEMENTS[kind](), at.Drift("D1", 0.5), at.Quadrupole("Q2", 0.3, -0.7), at.Monitor("BPM"), at.Drift("D", 0.2), mk()])
    sc = SimulatedCommissioning(ring)
    sc.register_magnets(A([1]), MasterOf=A([[2]]))
    sc.register_magnets(A([4]))
    sc.register_bpms(A([5]))
    return sc


def body(kinds, comps):
    def run(t):
        kind = t.choose(kinds, "element")
        size = t.choose(tuple(SIZES), "size")
        where = t.choose(("own", "support", "both"), "where")
        sg = [t.choose(comps, n) for n in ("x", "y", "z", "roll", "pitch", "yaw")]
        off, rl = SIZES[size]
        off, rl = off * sg[:3], rl * sg[3:]
        sc = machine(kind)
        before = lib.snap(sc)
        el = sc.RING[1]
        if where in ("support", "both"):
            sc.register_supports(A([[0], [3]]), "Girder")
            sup = off if where == "support" else -2 * off
            sr = rl if where == "support" else -0.5 * rl
            s = np.concatenate(([0.0], np.cumsum([e.Length for e in sc.RING])))
            length = s[3] - s[0]
            pos = s[1]
            slope = A([sr[2], sr[1], 0.0])      # yaw from x, pitch from y
            sc.RING[0].GirderOffset = sup - slope * pos
            sc.RING[3].GirderOffset = sup + slope * (length - pos)
            sc.RING[0].GirderRoll = A([sr[0], 0.0, 0.0])
        if where != "support":
            el.MagnetOffset = off.copy() if where == "own" else 3 * off
            el.MagnetRoll = rl.copy() if where == "own" else 1.5 * rl
        sc.update_supports()
        el = sc.RING[1]
        lib.need_close(el.MagnetOffset + el.SupportOffset, off, "total offset", rtol=1e-7, atol=1e-13)
        lib.need_close(el.MagnetRoll + el.SupportRoll, rl, "total roll", rtol=1e-7, atol=1e-13)
        what = f"{kind} displaced by {off.tolist()}, rolled by {rl.tolist()} ({where})"
        judge(el, el.MagnetOffset + el.SupportOffset, el.MagnetRoll + el.SupportRoll, what)
        for k in ("T1", "T2", "R1", "R2"):
            lib.need(np.array_equal(getattr(sc.RING[2], k), getattr(el, k)), f"{k} of the child of {what} differs from the master's")
        judge(sc.RING[4], np.zeros(3), np.zeros(3), "undisplaced neighbour")
        lib.need_close(sc.RING[4].T1, np.zeros(6), "entrance displacement without misalignment", atol=1e-14)
        lib.need_close(sc.RING[4].R1, np.eye(6), "entrance matrix without misalignment", atol=1e-14)
        after = lib.snap(sc)
        fields = ("T1", "T2", "R1", "R2", "MagnetOffset", "MagnetRoll", "SupportOffset", "SupportRoll")
        bad = lib.differences(after, before, ignore=lambda k: (k[0] == "RING" and len(k) == 3 and (k[2] in fields or k[2].startswith("Girder"))) or k[0] in ("SIG", "ORD"))
        lib.need(not bad, f"{what}: {bad}")
        # real tracking: removing the field, a misaligned straight element is a drift
        if kind == "field-free" and size == "small":
            lat = lib.ring_of([sc.RING[1].deepcopy()])
            lib.need_close(track(lat), track(lib.ring_of([at.Drift("D", 0.7)])), f"trajectories through {what}", rtol=0, atol=6e-7)
        if kind == "bend" and size == "small" and not any(sg[i] for i in (0, 2, 3, 4, 5)):
            lat = lib.ring_of([sc.RING[1].deepcopy()])
            lib.need_close(track(lat), track(lib.ring_of([ELEMENTS[kind]()])), f"trajectories through {what}", rtol=0, atol=1e-12)
        if kind == "quadrupole" and not any(sg[2:]):      # pure transverse displacement: same as displacing the beam
            lat = lib.ring_of([sc.RING[1].deepcopy()])
            d = A([off[0], 0, off[1], 0, 0, 0])[:, None]
            r, _, _ = env.tracker.real(lattice=lib.ring_of([ELEMENTS[kind]()]), r_in=np.asfortranarray(RAYS - d), nturns=1, refpts=[1])
            lib.need_close(track(lat), r[:, :, 0, 0] + d, f"trajectories through {what}", rtol=0, atol=1e-12)
        return (kind, size, where, tuple(sg))
    return run


def bump(t):
    """sequences of misalignments: the coordinate changes depend on the current misalignment only"""
    kind = t.choose(tuple(ELEMENTS), "element")
    sc = machine(kind)
    for k in range(2):
        size = t.choose(tuple(SIZES), "size")
        n = t.choose(5, "step")
        off, rl = [v * m for v, m in zip(SIZES[size], A([[1, 0, 0], [0, 0, 0]] if n == 0 else [[0, 0, 0], [0, 1, -1]] if n == 1 else [[1, 1, 1], [1, 1, 1]] if n == 2 else
                                                         [[0, 0, 0], [0, 0, 0]] if n == 3 else [[0, 1, -1], [1, 0, 1]]))]
        sc.RING[1].MagnetOffset, sc.RING[1].MagnetRoll = off.copy(), rl.copy()
        sc.update_supports(offset_bpms=False)
        judge(sc.RING[1], off, rl, f"{kind}, step {k}")
        sc2 = machine(kind)
        sc2.RING[1].MagnetOffset, sc2.RING[1].MagnetRoll = off, rl
        sc2.update_supports()
        for i in (1, 2):
            for f in ("T1", "T2", "R1", "R2"):
                lib.need_close(getattr(sc.RING[i], f), getattr(sc2.RING[i], f), f"{f} after a sequence of misalignments", atol=1e-15)
        if n == 3:
            lib.need(np.max(np.abs(sc.RING[1].T1)) < 1e-12 and np.max(np.abs(sc.RING[1].R2 - np.eye(6))) < 1e-12, "no misalignment must be the identity")
    return (kind, tuple(off), tuple(rl))


def jobs(tier):
    comps = (0, 1, -1) if tier != "quick" else (0, 1)
    return [TapeJob("components", body(tuple(ELEMENTS), comps), shards=16, depth=3), TapeJob("sequences", bump, shards=8, depth=2)]
