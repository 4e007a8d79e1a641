"""Histories of registrations, error assignments, multipole assignments, setpoint changes and updates on a ring with plain, combined,
split, sextupole and thin corrector magnets; after every operation the complete machine state is compared with a reference model
written from the documented field equation."""
import numpy as np
from mc import lib, env, world as w
from mc.core import HistJob, TapeJob, Skip

QF, BCF, SF, CM, BM, BC, QD = 2, 5, 7, 8, 10, 11, 15


class Sys(lib.Machine):
    def do(self, what, real, model, draw=0.7):
        with env.seams(rng_source=lambda n: np.full(n, draw)):
            real(self.sc)
        model(self.m)
        self.verify(what)
        if self.check:
            # nothing changes when the update is repeated
            before = dict(self.m)
            upd = [i for i in self.sc.ORD.Magnet if self.clean(int(i))]
            if len(upd) == len(self.sc.ORD.Magnet):
                self.sc.update_magnets()
                self.verify(what + " followed by repeated updates")
            elif upd:
                self.sc.update_magnets(np.array(upd))
                self.verify(what + " followed by repeated updates of the magnets that were up to date")

    dirty = frozenset()

    def clean(self, i):
        return i not in self.dirty and not (set(int(c) for c in self.m.get(("RING", i, "MasterOf"), [])) & self.dirty)


def op(name, real, model, dirty=(), clean=(), pre=None):
    def fn(s):
        if pre and not pre(s):
            raise Skip()
        s.dirty = (s.dirty | frozenset(dirty)) - frozenset(clean)
        s.do(name, real, model)
    return name, fn


def fields_to(i, **kw):
    """assign error fields of one element, as user scripts do"""
    def real(sc):
        for k, v in kw.items():
            setattr(sc.RING[i], k, v.copy() if isinstance(v, np.ndarray) else v)

    def model(m):
        for k, v in kw.items():
            w.P(m, i, k, v.copy() if isinstance(v, np.ndarray) else v)
    return real, model


A = np.array
ALLREG = dict(a=[QF, QD, SF, CM, BCF], b=[BM])
MAGS = (QF, BCF, SF, CM, BM, BC, QD)


def reg_all(sc):
    sc.register_magnets(A([QF, QD]), VCM=1e-3, HCM=1e-3)
    sc.register_magnets(A([SF]), SkewQuad=0.5, HCM=2e-3)
    sc.register_magnets(A([CM]), HCM=5e-4, VCM=5e-4)
    sc.register_magnets(A([BCF]), CF=True, HCM=1e-2)
    sc.register_magnets(A([BM]), MasterOf=A([[BC]]))


def m_reg_all(m):
    w.register_magnets(m, [QF, QD], VCM=1e-3, HCM=1e-3)
    w.register_magnets(m, [SF], SkewQuad=0.5, HCM=2e-3)
    w.register_magnets(m, [CM], HCM=5e-4, VCM=5e-4)
    w.register_magnets(m, [BCF], CF=True, HCM=1e-2)
    w.register_magnets(m, [BM], MasterOf=A([[BC]]))


def make():
    s = Sys()
    reg_all(s.sc)
    m_reg_all(s.m)
    s.verify("registration")
    s.dirty = frozenset(MAGS)
    return s


S3 = A([[1e-3, 2e-3], [0.0, 5e-3], [0.3, -0.2]])
S2 = A([[4e-3, -3e-3], [1.0, 6e-3]])
S1 = A([[1.0, 2e-3], [3e-3, 0.0], [0.02, 0.5], [4.0, -2.0]])


def sysm(name, ords, BA, order, skew):
    return op(f"systematic {name}", lambda sc: lib.call(sc.set_systematic_multipole_errors, A(ords), BA, order, skew),
              lambda m: w.systematic(m, ords, BA, order, skew), dirty=ords)


def rndm(name, ords, BA):
    return op(f"random multipoles {name}", lambda sc: lib.call(sc.set_random_multipole_errors, A(ords), BA),
              lambda m: w.random_multipoles(m, ords, BA, 0.7), dirty=ords)


def assign(name, i, **kw):
    return op(f"errors {name}", *fields_to(i, **kw), dirty=[i])


def setm(name, ords, val, skew, order, method, comp=False):
    return op(f"set {name}", lambda sc: lib.call(sc.set_magnet_setpoints, A(ords), val, skew, order, method, comp),
              lambda m: w.set_magnet(m, ords, val, skew, order, method, comp), clean=clean_of(ords))


def clean_of(ords):
    return list(ords) + ([BC] if BM in ords else [])


def setk(name, ords, val, skew, method):
    return op(f"kick {name}", lambda sc: lib.call(sc.set_cm_setpoints, A(ords), val, skew, method),
              lambda m: w.set_kick(m, ords, val, skew, method), clean=clean_of(ords))


def upd(name, ords):
    if ords is None:
        return op(f"update {name}", lambda sc: sc.update_magnets(), lambda m: w.update_magnets(m), clean=MAGS)
    return op(f"update {name}", lambda sc: lib.call(sc.update_magnets, A(ords)), lambda m: w.update_magnets(m, ords), clean=clean_of(ords))


def rereg(i, **kw):
    return op(f"register again {i}", lambda sc: sc.register_magnets(A([i]), **kw), lambda m: w.register_magnets(m, [i], **kw), dirty=[i])


def all_ops():
    return [
        upd("all", None),
        sysm("SF normal sextupole", [SF], S3, 2, False),
        sysm("BC normal dipole", [BC], S1, 0, False),
        sysm("BC,BM other normal dipole", [BC, BM], S2, 0, False),
        sysm("BC other skew quadrupole", [BC], S3, 1, True),
        sysm("BM,BC skew quadrupole", [BM, BC], S2, 1, True),
        sysm("QF normal quadrupole", [QF, QD], S1, 1, False),
        sysm("CM normal dipole", [CM], S2, 0, False),
        sysm("CM skew dipole", [CM], S1, 0, True),
        sysm("BCF normal quadrupole", [BCF], S3, 1, False),
        rndm("QF,BC", [QF, BC], S3),
        rndm("CM,BCF", [CM, BCF], S2),
        rndm("BM,SF,QF short", [BM, SF, QF], A([[2e-3, 1e-3]])),
        assign("SF", SF, CalErrorB=A([0.1, 0.0, 0.05]), CalErrorA=A([0.02])),
        assign("BCF", BCF, CalErrorB=A([0.0, 0.04]), BendingAngleError=2e-3),
        assign("BM", BM, CalErrorB=A([0.2, 0.03]), CalErrorA=A([0.1, 0.3]), BendingAngleError=-1e-3),
        assign("CM", CM, CalErrorA=A([0.3]), CalErrorB=A([-0.2])),
        assign("QF", QF, CalErrorB=A([0.1]), CalErrorA=A([])),
        setm("BM quadrupole", [BM], 0.3, False, 1, "add"),
        setm("BM skew", [BM], 0.11, True, 1, "abs"),
        setm("BCF rel compensated", [BCF], 1.05, False, 1, "rel", True),
        setm("SF rel", [SF], 0.9, False, 2, "rel"),
        setm("QF,QD add", [QF, QD], A([0.05, -0.02]), False, 1, "add"),
        setm("BM dipole", [BM], -0.02, False, 0, "add"),
        setk("CM h", [CM], 2e-4, False, "add"),
        setk("CM,QF v", [CM, QF], A([1e-4, -2e-4]), True, "abs"),
        setk("SF,BCF h", [SF, BCF], 1e-3, False, "add"),
        upd("QF,CM", [QF, CM]),
        upd("BM", [BM]),
        upd("CM,BM,SF", [CM, BM, SF]),
        setm("QF,BM,BCF,QD abs", [QF, BM, BCF, QD], A([0.4, 0.25, 0.02, -0.6]), False, 1, "abs"),
        rereg(QF, HCM=2e-3),
        rereg(CM),
    ]


DEEP = ("update all", "systematic BC other skew quadrupole", "systematic BM,BC skew quadrupole", "systematic CM skew dipole", "systematic BCF normal quadrupole", "random multipoles QF,BC", "random multipoles CM,BCF",
        "errors BCF", "errors BM", "errors CM", "set BM skew", "set BCF rel compensated", "set BM dipole", "kick CM h", "kick SF,BCF h", "update BM")


def ops_named(ops, names):
    got = [i for i, o in enumerate(ops) if o[0] in names]
    assert len(got) == len(names), set(names) - set(o[0] for o in ops)
    return got


def vectors(lengths, row_counts):
    """every combination of vector lengths of setpoint-independent error sources on one magnet"""
    def body(t):
        i = t.choose((QF, SF, CM, BM), "magnet")
        s = make()
        n = len(s.m[("RING", i, "PolynomB")])
        kw = {}
        for f in ("CalErrorB", "CalErrorA"):
            k = t.choose(range(n + 1), f)
            kw[f] = A([0.1 * (j + 1) for j in range(k)])
        k = t.choose(lengths, "length of the field offsets")
        if k:
            kw["PolynomBOffset"] = A([0.01 * (j + 2) for j in range(k)])
            kw["PolynomAOffset"] = A([-0.03 * (j + 1) for j in range(k)])
        order = t.choose(range(n), "order")
        skew = t.choose((False, True), "skew")
        rows = t.choose(row_counts, "rows")
        tgt = t.choose((i,) if i != BM else (BM, BC), "target of systematic multipoles")
        real, model = fields_to(i, **kw)
        s.dirty = frozenset([i])
        real(s.sc), model(s.m)
        if rows > order:
            BA = A([[0.5 + j, -0.25 - 2 * j] for j in range(rows)])
            if t.choose((0, 1), "give as") == 1:
                BA = BA.astype(int)
            lib.call(s.sc.set_systematic_multipole_errors, A([tgt]), BA, order, skew)
            w.systematic(s.m, [tgt], BA, order, skew)
        for sk in (False, True):
            o = order if sk == skew else 0
            s.sc.set_magnet_setpoints(A([i]), 0.3 + 0.1 * sk, sk, o)
            w.set_magnet(s.m, [i], 0.3 + 0.1 * sk, sk, o)
        s.dirty = frozenset()
        s.verify(f"field of magnet {i} with {kw}, systematic rows {rows} of order {order} skew {skew}")
        s.sc.update_magnets()
        w.update_magnets(s.m)
        s.verify("repeated update")
        return (i, {k: len(v) for k, v in kw.items()}.__repr__(), order, skew, rows, tgt)
    return body


KINDS = ("quadrupole", "bend", "combined bend", "thin corrector", "corrector")


def split_ring(kind):
    """one split magnet: element 2 is the master, 1 and 4 may be its children (of other lengths, angles and own fields)"""
    import at

    def part(name, f):
        if kind == "quadrupole":
            return at.Quadrupole(name, 0.5 * f, 1.2)
        if kind == "bend":
            return at.Bend(name, 0.8 * f, 0.2 * f * f, PassMethod="BndMPoleSymplectic4Pass", PolynomA=[0, 0.0], PolynomB=[0, 0.0])
        if kind == "combined bend":
            return at.Bend(name, 0.8 * f, 0.2 * f * f, k=-0.7, PassMethod="BndMPoleSymplectic4Pass")
        if kind == "thin corrector":
            return lib.corrector(name)
        return at.Multipole(name, 0.3 * f, [0.0, 0.0], [0.0, 0.0])
    return lib.ring_of([at.Drift("D", 0.4), part("C", 0.5), part("M", 1.0), at.Drift("D", 0.2), part("C", 1.5), at.Drift("D", 0.3), at.Monitor("BPM")])


def split(t):
    """every combination of error sources of a split magnet and its children"""
    kind = t.choose(KINDS, "kind")
    children = t.choose(((4,), (1, 4), (1,), ()), "children")
    s = Sys(split_ring(kind))
    n = len(s.m[("RING", 2, "PolynomB")])
    kw = dict(HCM=np.inf, VCM=np.inf) if kind.endswith("corrector") else dict(CF=1) if kind.startswith("combined") else {}
    if children:
        kw["MasterOf"] = A([[c] for c in children])
    s.sc.register_magnets(A([2]), **kw)
    w.register_magnets(s.m, [2], **kw)
    err = {}
    if t.choose((True, False), "calibration"):
        err.update(CalErrorB=A([0.1, 0.03])[:n], CalErrorA=A([-0.2, 0.05])[:n])
    if "bend" in kind and t.choose((True, False), "bending angle error"):
        err["BendingAngleError"] = 2e-3
    if t.choose((True, False), "own multipoles of the master"):
        err.update(PolynomBOffset=A([1e-3, 2e-2, 0.5]), PolynomAOffset=A([-2e-3, 1e-2, 0.1]))
    real, model = fields_to(2, **err)
    real(s.sc), model(s.m)
    for c in children:
        if t.choose((True, False), f"own multipoles of child {c}"):
            real, model = fields_to(c, PolynomBOffset=A([3e-3 * c, -1e-2]), PolynomAOffset=A([5e-3, 2e-2, -0.3 * c]))
            real(s.sc), model(s.m)
    sys = t.choose(((), (2,), children[:1], (2,) + children), "systematic multipoles of")
    if sys:
        BA = A([[0.5, -0.2], [0.3, 0.4], [2.0, -1.0]])
        for o, sk in ((0, False), (n - 1, True)):
            s.sc.set_systematic_multipole_errors(A(sys), BA, o, sk)
            w.systematic(s.m, sys, BA, o, sk)
    dip = t.choose((0.0, 0.01), "dipole term")
    for sk, o, v in ((False, n - 1, -0.75 if n > 1 else dip), (True, 0, -2 * dip), (False, 0, dip)):
        s.sc.set_magnet_setpoints(A([2]), v, sk, o)
        w.set_magnet(s.m, [2], v, sk, o)
    what = f"{kind} with children {children}, errors {err}, systematic multipoles of {sys}"
    s.verify(what)
    if kind.endswith("corrector"):
        s.sc.set_cm_setpoints(A([2]), 3e-4, True)
        w.set_kick(s.m, [2], 3e-4, True)
        s.verify(what + ", vertical kick")
    s.sc.update_magnets()
    s.verify(what + ", updated again")
    return (kind, children, sorted(err), sys, dip)


def random_independent(t):
    """each component of each magnet gets its own truncated draw, stored in the right place"""
    ords = t.choose([(QF,), (QF, CM), (SF, BC, QD), (QF, QF)], "magnets")
    if len(set(ords)) < len(ords):
        raise Skip()
    BA = t.choose([S3, S2, A([[1e-3, 2e-3]]), np.zeros((2, 2)), -S3], "BA")
    s = make()
    times = t.choose((1, 2), "times")
    rejects = t.choose(range(0, 5), "position of a draw beyond two sigma")
    cnt = [0]

    def source(n):
        out = []
        for _ in range(n):
            cnt[0] += 1
            out.append(2.5 if cnt[0] == rejects + 1 else 0.1 + 0.013 * cnt[0])
        return A(out)
    with env.seams(rng_source=source):
        for _ in range(times):
            lib.call(s.sc.set_random_multipole_errors, A(ords), BA)
        log = [v for v in env.rng.log if abs(v) <= 2]
    used = set()
    for i in ords:
        for col, tgt in enumerate("BA"):
            off = np.asarray(getattr(s.sc.RING[i], f"Polynom{tgt}Offset"), dtype=float)
            lib.need(len(off) == len(BA), f"length of the random multipoles of magnet {i}")
            for r in range(len(BA)):
                if BA[r, col] == 0:
                    lib.need(off[r] == 0, f"component {r}{tgt} of magnet {i} without declared size has value {off[r]}")
                    continue
                x = off[r] / BA[r, col]
                if times == 1:
                    c = [d for d in log if abs(d - x) < 1e-9]
                    lib.need(len(c) == 1 and c[0] not in used, f"component {r}{tgt} of magnet {i}: {x} is not an own truncated draw out of {log}")
                    used.add(c[0])
                else:
                    c = [(a, b) for a in log for b in log if a < b and abs(a + b - x) < 1e-9]
                    lib.need(c, f"component {r}{tgt} of magnet {i}: {x} is not the sum of two truncated draws")
            s.m[("RING", i, f"Polynom{tgt}Offset")] = off
    s.verify("random multipoles: everything else", )
    s.sc.update_magnets()
    w.update_magnets(s.m)
    s.verify("fields after random multipoles")
    return (ords, lib.rounded(BA), times, rejects)


def jobs(tier):
    q = tier == "quick"
    ops = all_ops()
    state = lambda s: (s.canon(), tuple(sorted(s.dirty)))  # noqa
    out = [HistJob("histories", make, ops, state, 3, shards=len(ops), deep_ops=ops_named(ops, DEEP) if q else None)]
    if q:
        out.append(HistJob("pairs of operations", make, ops, state, 2, shards=8))
    else:
        out.append(HistJob("longer histories", make, ops, state, 4, shards=len(ops), deep_ops=ops_named(ops, DEEP)))
    return out + [
            TapeJob("error vector shapes", vectors((0, 2, 3) if q else (0, 1, 2, 3, 4), (0, 1, 4) if q else (0, 1, 2, 4)), shards=8, depth=3),
            TapeJob("split magnets", split, shards=16, depth=3), TapeJob("random multipoles", random_independent)]


CAP = dict(quick=600, thorough=3000)
