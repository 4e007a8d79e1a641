"""All combinations of girder, plinth and section layouts (nested; adjacent with coinciding ends; wrapping around the injection point; single
structures) x end offset patterns x roll patterns x sequences of updates: every magnet's and BPM's support offset and roll is compared with a direct
evaluation of the structure geometry, along with the complete machine state."""
import itertools

import numpy as np
import at
from mc import lib, env, world as w
from mc.core import TapeJob, Skip

A = np.array
KINDS = ("Section", "Plinth", "Girder")


def mk(n):
    return at.Marker(n, PassMethod="IdentityPass")


@lib.cached
def ring():
    def cell(b):
        return [mk("S"), at.Quadrupole("Q", 0.4, 1.0), at.Monitor("BPM"), at.Drift("D", 0.3), b, mk("E")]
    els = [at.Quadrupole("Q", 0.4, 1.0), at.Monitor("BPM"), at.Drift("D", 0.2), mk("E")]            # 0..3, may be in a wrapping structure
    for k in range(3):
        els += cell(at.Multipole("M", 0.5, [0, 0], [0, 0.5]) if k != 1 else at.Bend("B", 0.5, 0.05, PassMethod="BndMPoleSymplectic4Pass"))   # 4..9 10..15 16..21
    els += [mk("S"), at.Sextupole("SX", 0.2, 3.0), at.Drift("D", 0.6), at.Monitor("BPM"), lib.corrector("CM")]   # 22..26
    return lib.ring_of(els)


N = 27
MAGS = (0, 5, 8, 11, 14, 17, 20, 23, 26)
BPMS = (1, 6, 12, 18, 25)

GIRDERS = [[], [(4, 9)], [(4, 9), (10, 15)], [(4, 9), (10, 15), (16, 21)], [(22, 3)], [(22, 3), (4, 9)], [(16, 3), (10, 15)], [(22, 26)], [(10, 14)], [(2, 15)]]
PLINTHS = [[], [(4, 15)], [(4, 9), (16, 21)], [(16, 3)], [(22, 9), (10, 21)], [(3, 22)]]
SECTIONS = [[], [(4, 21)], [(22, 15)], [(16, 9)], [(3, 15), (16, 26)]]


def span(p):
    a, b = p
    return list(range(a, b + 1)) if a < b else list(range(a, N)) + list(range(0, b + 1))


def nested(layout):
    for k1, k2 in itertools.combinations(range(3), 2):   # outer, inner
        for o in layout[KINDS[k1]]:
            for i in layout[KINDS[k2]]:
                so, si = set(span(o)), set(span(i))
                if so & si and not si <= so:
                    return False
                if so & si and span(i)[0] not in so:
                    return False
                # a structure that contains the same ordinates but cut at another place is not nested
                if si <= so:
                    order = span(o)
                    idx = [order.index(x) for x in span(i)]
                    if idx != list(range(idx[0], idx[0] + len(idx))):
                        return False
    return True


LAYOUTS = []
for g, p, s in itertools.product(GIRDERS, PLINTHS, SECTIONS):
    L = dict(Girder=g, Plinth=p, Section=s)
    if nested(L) and (g or p or s):
        LAYOUTS.append(L)

OFFS = {"zero": (A([0.0, 0, 0]), A([0.0, 0, 0])), "parallel": (A([1e-4, -2e-4, 3e-4]), A([1e-4, -2e-4, 3e-4])), "tilted": (A([2e-4, 1e-4, 0]), A([-1e-4, 4e-4, 5e-5])),
        "end only": (A([0.0, 0, 0]), A([3e-4, 0, 0]))}
ROLLS = {"zero": 0.0, "pos": 1e-3, "neg": -2e-3}


def spos(m):
    return np.concatenate(([0.0], np.cumsum([w.R(m, i, "Length") for i in range(N)])))


def geometry(m, layout):
    """(offset[3,N], roll[3,N]) of every ordinate, from the structure ends; only for nested layouts"""
    s = spos(m)
    C = s[-1]
    off = np.zeros((3, N))
    rl = np.zeros((3, N))

    def line(kind, p, i):
        a, b = p
        sa, sb, si = s[a], s[b], s[i]
        if a > b:
            sb += C
            if i < a:
                si += C
        f0, f1 = A(w.R(m, a, f"{kind}Offset")), A(w.R(m, b, f"{kind}Offset"))
        x = (si - sa) / (sb - sa)
        return f0 + (f1 - f0) * x, sb - sa
    for kind in KINDS:
        for p in layout[kind]:
            for i in span(p):
                off[:, i] += line(kind, p, i)[0]
    for kind in KINDS:      # from outer to inner: the innermost structure decides pitch and yaw
        for p in layout[kind]:
            length = line(kind, p, p[0])[1]
            d = off[:, p[1]] - off[:, p[0]]
            for i in span(p):
                rl[0, i] += w.R(m, p[0], f"{kind}Roll")[0]
                rl[1, i] = d[1] / length
                rl[2, i] = d[0] / length
    return off, rl


class Sys(lib.Machine):
    def __init__(self, magnets=True):
        ring()
        super().__init__(lib._cache[("ring",)])
        self.layout = {k: [] for k in KINDS}
        if magnets:
            self.sc.register_magnets(A([i for i in MAGS if i not in (5, 8)]), HCM=1e-3)
            self.sc.register_magnets(A([5]), MasterOf=A([[8]]))
        self.sc.register_bpms(A(BPMS))
        self.m = lib.snap(self.sc)

    def setup(self, layout):
        self.layout = layout
        for k in KINDS:
            for p in layout[k]:
                self.sc.register_supports(A([[p[0]], [p[1]]]), k)
                w.register_supports(self.m, A([[p[0]], [p[1]]]), k)
        self.verify("registration of supports")

    def place(self, kind, p, offs, roll):
        for o, v in zip(p, OFFS[offs]):
            setattr(self.sc.RING[o], f"{kind}Offset", v.copy())
            w.P(self.m, o, f"{kind}Offset", v.copy())
        v = A([ROLLS[roll], 0, 0])
        setattr(self.sc.RING[p[0]], f"{kind}Roll", v.copy())
        w.P(self.m, p[0], f"{kind}Roll", v.copy())

    def update(self, what, bpms=True, magnets=True):
        if bpms and magnets:
            self.sc.update_supports()
        else:
            self.sc.update_supports(offset_bpms=bpms, offset_magnets=magnets)
        off, rl = geometry(self.m, self.layout)
        if magnets:
            for i in self.m[("ORD", "Magnet")]:
                w.P(self.m, int(i), "SupportOffset", off[:, i])
                w.P(self.m, int(i), "SupportRoll", rl[:, i])
        if bpms:
            for i in BPMS:
                w.P(self.m, i, "SupportOffset", off[:2, i])
                w.P(self.m, i, "SupportRoll", rl[0, i])
        lib.need_state(self.sc, self.m, f"{what}: layout {self.layout}", ignore=lambda k: k[0] == "RING" and k[-1] in ("T1", "T2", "R1", "R2"), rtol=1e-9, atol=1e-15)
        if magnets:
            for i in self.m[("ORD", "Magnet")]:
                for c in [int(i)] + ([8] if i == 5 else []):
                    e = self.sc.RING[c]
                    tot = off[:, i] + self.m[("RING", int(i), "MagnetOffset")]
                    rt = rl[:, i] + self.m[("RING", int(i), "MagnetRoll")]
                    if np.max(np.abs(rt)) < 1e-12 and np.max(np.abs(tot)) < 1e-12:
                        lib.need(np.max(np.abs(e.T1)) < 1e-12 and np.max(np.abs(e.T2)) < 1e-12, f"undisplaced magnet {c} has coordinate offsets")
                    elif np.max(np.abs(rt)) < 1e-12:
                        lib.need_close(e.T1[[0, 2]], -tot[:2], f"{what}: entrance displacement of magnet {c}, layout {self.layout}", rtol=1e-6, atol=1e-12)
                    elif np.max(np.abs(tot[:2])) > 1e-9:
                        lib.need(np.max(np.abs(e.T1)) > 1e-12, f"displaced magnet {c} has no entrance displacement")
            self.m.update({k: v for k, v in lib.snap(self.sc, ideal=False).items() if k[0] == "RING" and k[-1] in ("T1", "T2", "R1", "R2")})
        return off, rl


def positions(s, off, rl, layout):
    """evaluation at free positions inside structures (away from their ends)"""
    sp = spos(s.m)
    C = sp[-1]
    locs, want, wantr = [], [], []
    for kind in reversed(KINDS):
        for p in layout[kind]:
            seq = span(p)
            for i, j in zip(seq, seq[1:]):
                a, b = sp[i], sp[j]
                if b <= a or abs(b - a) < 1e-9:
                    continue
                if any(abs(sp[q] - x) < 1e-9 and not np.allclose(np.r_[off[:, q], rl[:, q]], np.r_[off[:, k], rl[:, k]], rtol=0, atol=1e-15)
                       for k, x in ((i, a), (j, b)) for q in range(N)):
                    continue    # a structure starts or ends here: a position does not name one element
                inner = [q for k2 in KINDS for q in layout[k2] if (i in q or j in q)]
                if inner:
                    continue
                locs.append((a + 2 * b) / 3)
                want.append(off[:, i] / 3 + 2 * off[:, j] / 3)
                wantr.append(rl[:, i])
    if locs:
        o, r = lib.call(s.sc.support_offset_and_roll, A(locs))
        lib.need_close(o, A(want).T, f"offsets at positions {locs}, layout {layout}", rtol=1e-8, atol=1e-14)
        lib.need_close(r, A(wantr).T, f"rolls at positions {locs}, layout {layout}", rtol=1e-8, atol=1e-14)


def body(offs, rolls, second):
    def run(t):
        layout = LAYOUTS[t.choose(len(LAYOUTS), "layout")]
        s = Sys(magnets=t.choose((True, False), "magnets registered", dev=True))
        s.setup(layout)
        many = [(k, p) for k in KINDS for p in layout[k]]
        pat = {}
        for k in KINDS:
            if layout[k]:
                pat[k] = (t.choose(offs, f"{k} offsets", dev=True), t.choose(rolls, f"{k} roll", dev=True))
        for n, (k, p) in enumerate(many):
            o, r = pat[k]
            if layout[k].index(p) % 2:      # neighbours differ
                o, r = {"tilted": "parallel", "parallel": "tilted"}.get(o, o), {"pos": "neg", "neg": "pos"}.get(r, r)
            s.place(k, p, o, r)
        own = t.choose((0, 1), "own misalignment", dev=True)
        if own and len(s.m[("ORD", "Magnet")]):
            for i in (0, 5, 14):
                v = A([1e-4, 2e-4, 0.0])
                s.sc.RING[i].MagnetOffset = v.copy()
                w.P(s.m, i, "MagnetOffset", v)
        off, rl = s.update("first update")
        positions(s, off, rl, layout)
        s.update("repeated update")
        mode = t.choose(second, "second update", dev=True)
        k, p = many[-1]
        s.place(k, p, "end only", "neg")
        s.update(f"after moving {k} {p}, {mode}", bpms=mode != "magnets", magnets=mode != "bpms")
        s.update("all again")
        last = t.choose(("keep", "all straight", "last straight"), "finally", dev=True)
        if last != "keep":
            for k, p in many if last == "all straight" else many[-1:]:
                s.place(k, p, "zero", "zero")
            s.update(f"finally {last}")
        return (str(layout), str(pat), mode, last)
    return run


def centre(t):
    """explicit pitch/yaw through error application tilts about the centre"""
    kind = t.choose(KINDS, "kind")
    p = t.choose([(4, 9), (10, 21), (22, 3), (16, 9)], "structure")
    roll = A([t.choose((0.0, 1e-3), "roll"), t.choose((0.0, 2e-3, -1e-3), "pitch"), t.choose((0.0, 3e-3, -2e-3), "yaw")])
    o = t.choose((np.zeros(3), A([1e-4, -2e-4, 1e-4])), "offset")
    s = Sys()
    kw = dict(Roll=roll)
    if o.any():
        kw["Offset"] = o
    s.sc.register_supports(A([[p[0]], [p[1]]]), kind, **kw)
    d = 0.5
    times = t.choose((1, 2), "applications")
    for _ in range(times):
        with env.seams(rng_source=lambda n: np.full(n, d)):
            s.sc.apply_errors()
    sp = spos(lib.snap(s.sc))
    C = sp[-1]
    L = (sp[p[1]] - sp[p[0]]) % C
    for i in MAGS + BPMS:
        e = s.sc.RING[i]
        if i == 8:
            continue
        if i not in span(p):
            lib.need(not np.any(e.SupportOffset) and not np.any(e.SupportRoll), f"element {i} outside {kind} {p} was displaced")
            continue
        x = (sp[i] - sp[p[0]]) % C - L / 2
        want = o * d + A([roll[2] * d * x, roll[1] * d * x, 0])
        lib.need_close(e.SupportOffset, want[:len(e.SupportOffset)], f"element {i} on tilted {kind} {p}", rtol=1e-8, atol=1e-15)
        lib.need_close(np.ravel(e.SupportRoll), (roll * d)[:np.size(e.SupportRoll)], f"angles of element {i} on tilted {kind} {p}", rtol=1e-8, atol=1e-15)
    return (kind, p, tuple(roll), bool(o.any()), times)


def jobs(tier):
    q = tier == "quick"
    offs = ("tilted", "parallel") if q else tuple(OFFS)
    rolls = ("pos", "zero") if q else ("pos", "zero", "neg")
    return [TapeJob("layouts", body(offs, rolls, ("bpms", "magnets", "both") if not q else ("bpms", "magnets")), max_dev=2 if q else 3, shards=24, depth=1), TapeJob("tilt about the centre", centre, shards=4)]
