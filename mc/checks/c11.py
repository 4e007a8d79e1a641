"""Bunch generation as a linear map of its random draws: for every beam matrix / jitter / particle number of the alphabet every single draw is
switched on alone, giving the exact covariance of all coordinates of all particles; every draw is also made too large once (must be redrawn).
Transmission for every combination of loss turns of the particles; all sequences of tracking-mode changes."""
import numpy as np
from mc import lib, env, beamsim as b
from mc.core import TapeJob, HistJob, Skip, Violation

A = np.array


def blocks(*b2):
    m = np.zeros((6, 6))
    for k, (p, q, s) in enumerate(b2):
        m[2 * k:2 * k + 2, 2 * k:2 * k + 2] = A([[p, s], [s, q]])
    return m * 1e-8


Q = np.linalg.qr(A([[np.sin(i * j + 1) for i in range(6)] for j in range(6)]))[0]


def sym(ev):
    s = Q @ np.diag(ev) @ Q.T * 1e-8
    return (s + s.T) / 2


MATRICES = {
    "diagonal": blocks((1, 4, 0), (9, 16, 0), (25, 36, 0)),
    "zero": np.zeros((6, 6)),
    "equal": np.eye(6) * 1e-8,
    "flat": blocks((1, 2, 0), (0, 0, 0), (3, 0, 0)),
    "longitudinal": blocks((0, 0, 0), (0, 0, 0), (2, 5, 1)),
    "vertical": blocks((0, 0, 0), (4, 9, 2), (0, 0, 0)),
    "correlated": blocks((2, 5, 3), (4, 1, -1.5), (3, 1, 0.2)),
    "same correlation in both planes": blocks((2, 5, 3), (2, 5, 3), (1, 1, 0)),
    "fully correlated": blocks((1, 4, 2), (4, 1, -2), (1, 1, 1)),
    "coupled": sym([1, 2, 3, 4, 5, 6]),
    "coupled, repeated sizes": sym([1, 1, 2, 2, 3, 3]),
    "coupled, flat": sym([1, 2, 0, 0, 3, 0]),
}
JITTER = {"none": np.zeros(6), "transverse": A([1e-4, 2e-5, 3e-4, 0, 0, 0]), "all": A([1e-4, 2e-5, 3e-4, 4e-5, 5e-4, 6e-3])}
Z0S = {"zero": np.zeros(6), "all": A([1e-3, -2e-4, -3e-3, 4e-4, 5e-3, -6e-2])}


class Doubler:
    """user post-processing"""

    def __init__(self):
        self.calls = []

    def __call__(self, z):
        self.calls.append(z.shape)
        return 2 * z + 1e-5


class Stream:
    """zeros, except value v at position p of the stream"""

    def __init__(self, p=None, v=1.0, every=0.0):
        self.p, self.v, self.every, self.n = p, v, every, 0

    def __call__(self, n):
        out = np.full(n, self.every)
        if self.p is not None and self.n <= self.p < self.n + n:
            out[self.p - self.n] = self.v
        self.n += n
        return out


def bunches(ns):
    def run(t):
        from pySC.core.beam import generate_bunches
        mat, jit, z0 = t.choose(tuple(MATRICES), "beam matrix"), t.choose(tuple(JITTER), "jitter"), t.choose(tuple(Z0S), "trajectory")
        n = t.choose(ns, "particles")
        given = t.choose((False, True), "number given in the call")
        post = t.choose((False, True), "post-processing")
        sc = b.machine(n=2 if given else n)
        sc.INJ.beamSize, sc.INJ.randomInjectionZ, sc.INJ.Z0 = MATRICES[mat].copy(), JITTER[jit].copy(), Z0S[z0].copy()
        if post:
            sc.INJ.postFun = Doubler()
        state = lib.snap(sc)
        what = f"bunch of {n}, matrix {mat}, jitter {jit}, trajectory {z0}, post-processing {post}"

        def gen(src):
            with env.seams(rng_source=src):
                z = lib.call(generate_bunches, sc, *((n,) if given else ()))
            lib.need(z.shape == (6, n), f"{what}: shape {z.shape}")
            t.inner += 1
            return np.asarray(z, dtype=float)
        s = Stream()
        base = gen(s)
        total = s.n
        g = 2.0 if post else 1.0
        c0 = Z0S[z0] * g + (1e-5 if post else 0)
        lib.need_close(base, np.tile(c0[:, None], (1, n)), what + ": all draws zero", atol=1e-15)
        W = np.array([(gen(Stream(p)) - base).ravel() / g for p in range(total)]).reshape(total, 6 * n).T
        cov = W @ W.T
        want = np.zeros((6, n, 6, n))
        for p in range(n):
            for q in range(n):
                want[:, p, :, q] = np.diag(JITTER[jit] ** 2)
            if n > 1:
                want[:, p, :, p] += MATRICES[mat]
        lib.need_close(cov, want.reshape(6 * n, 6 * n), what + ": covariance of all coordinates of all particles", rtol=1e-8, atol=1e-16)
        # superposition of all draws; nothing accepted beyond all reasonable cut-offs
        lib.need_close(gen(Stream(every=0.7)) - base, g * 0.7 * W.sum(axis=1).reshape(6, n), what + ": linear in the draws", rtol=1e-8, atol=1e-14)
        for p in range(total):
            if np.any(W[:, p]):
                lib.need_close(gen(Stream(p, 40.0)), base, what + f": draw {p} of 40 sigma", atol=1e-15)
        if post:
            lib.need(set(sc.INJ.postFun.calls) == {(6, n)}, f"{what}: post-processing got {set(sc.INJ.postFun.calls)}")
        lib.need_state(sc, state, what)
        return (mat, jit, z0, n, post)
    return run


def transmission(sizes, levels):
    def run(t):
        from pySC.core.beam import beam_transmission
        n, turns = t.choose(sizes, "particles, turns")
        level = t.choose(levels, "beam lost at")
        given = t.choose((0, 1, 2, 3), "numbers given in the call")
        lost = [t.choose(turns + 1, f"particle {p} lost in turn") for p in range(n)]    # turns: survives
        sc = b.machine(n=n if not given & 1 else 1, turns=turns if not given & 2 else 1)
        sc.INJ.beamLostAt = level
        sc.INJ.Z0 = A([1e-3, 0, 2e-3, 0, 0, 0.0])
        beam = b.Beam(lambda s, p, r, tu: None if (tu, r) >= (lost[p], 5) else (0.1 * tu, 0.2))
        state = lib.snap(sc)
        kw = {}
        if given & 1:
            kw["nParticles"] = n
        if given & 2:
            kw["nTurns"] = turns
        with env.seams(rng_source=env.zeros_source, track=beam.track):
            k, frac = lib.call(beam_transmission, sc, **kw)
        lib.need_state(sc, state, "transmission measurement")
        want = A([np.mean([tu < lost[p] for p in range(n)]) for tu in range(turns)])
        if np.any((np.abs(want - (1 - level)) < 1e-9) & (want != 1 - level)):
            raise Skip()
        what = f"{n} particles lost in turns {lost} of {turns}, level {level}"
        lib.need(beam.shot == 1 and beam.inputs[0].shape == (6, n), f"{what}: tracked {[z.shape for z in beam.inputs]}")
        lib.need_close(frac, want, what + ": surviving fraction per turn", rtol=1e-12)
        lib.need(k == int(np.sum(want > 1 - level)), f"{what}: {k} turns, expected {int(np.sum(want > 1 - level))}")
        return (n, turns, level, tuple(want))
    return run


class Inj:
    def __init__(self):
        from pySC.core.classes import Injection
        self.real = Injection()
        self.m = dict(trackMode="TBT", nTurns=1, nParticles=1, nShots=1, beamLostAt=1.0)
        self.verify()

    def verify(self):
        got = {k: getattr(self.real, k) for k in self.m}
        lib.need(got == self.m, f"injection settings {got}, expected {self.m}")
        for k in ("Z0", "Z0ideal", "randomInjectionZ", "staticInjectionZ"):
            lib.need(np.array_equal(getattr(self.real, k), np.zeros(6)), f"{k} changed")


def set_mode(m):
    def op(s):
        s.real.trackMode = m
        s.m["trackMode"] = m
        if m == "ORB":
            s.m.update(nTurns=1, nParticles=1)
        s.verify()
    return (f"mode {m}", op)


def bad_mode(m):
    def op(s):
        lib.rejects(setattr, s.real, "trackMode", m, what=f"mode {m!r}")
        s.verify()
    return (f"unknown mode {m!r}", op)


def set_field(k, v):
    def op(s):
        setattr(s.real, k, v)
        s.m[k] = v
        s.verify()
    return (f"{k}={v}", op)


OPS = [set_mode(m) for m in ("TBT", "ORB", "PORB")] + [bad_mode(m) for m in ("orb", "", None, 1, "TBT ", "ORBIT")] + \
      [set_field("nTurns", 3), set_field("nParticles", 5), set_field("nShots", 4), set_field("nTurns", 1), set_field("beamLostAt", 0.5)]


def real_loss(t):
    """no stand-in: apertures really stop particles; the fraction is the one of real tracking"""
    import at
    from pySC.core.beam import beam_transmission, bpm_reading
    x = [t.choose((0.0, 2e-3), f"offset of particle {p}") for p in range(3)]
    where = t.choose((4, 14), "aperture at")
    turns = t.choose((1, 3), "turns")
    sc = b.machine(n=3, turns=turns)
    sc.RING[where].RApertures = A([-1e-3, 1e-3, -1e-3, 1e-3])
    sc.INJ.postFun = lambda z: z + A([x, [0] * 3, [0] * 3, [0] * 3, [0] * 3, [0] * 3])
    k, frac = beam_transmission(sc)
    z = np.asfortranarray(A([x, [0] * 3, [0] * 3, [0] * 3, [0] * 3, [0] * 3], dtype=float))
    out = env.tracker.real(lattice=sc.RING.deepcopy(), r_in=z, nturns=turns, refpts=[len(sc.RING)])[0]
    want = np.mean(~np.isnan(out[0, :, 0, :]), axis=0)
    lib.need_close(frac, want, f"transmission of {x} through an aperture at {where}")
    lib.need(k == int(np.sum(want > 0)), f"{k} turns")
    pos, sig = bpm_reading(sc)
    at_bpm = env.tracker.real(lattice=sc.RING.deepcopy(), r_in=z.copy(order="F"), nturns=turns, refpts=A(b.BPMS))[0]
    lib.need_close(sig[0], np.mean(~np.isnan(at_bpm[0]), axis=0).T.ravel(), "signal of the BPMs")
    return (tuple(want), where)


def jobs(tier):
    q = tier == "quick"
    return [TapeJob("bunches", bunches((1, 2, 3) if q else (1, 2, 3, 4, 5)), shards=16, depth=3),
            TapeJob("transmission", transmission([(1, 1), (1, 3), (2, 2), (3, 2)] if q else [(1, 1), (1, 3), (1, 5), (2, 2), (2, 4), (3, 2), (3, 4), (4, 3)], (1.0, 0.5, 0.4, 0.0) if q else (1.0, 0.5, 0.4, 0.0, 0.7, 0.25)), shards=8, depth=3),
            HistJob("tracking modes", Inj, OPS, lambda s: str(sorted(s.m.items())), 4 if q else 6, shards=4), TapeJob("apertures", real_loss)]
