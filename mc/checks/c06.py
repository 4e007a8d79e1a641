"""Error application with the random source answered by the explorer: every draw carries a unique label; for every configuration of declared
uncertainties and cut-offs, and for every position p in the stream of draws, the p-th draw is made large (between the cut-offs / beyond all of
them).  Every error component is traced to its own draw, the complete machine state is compared with the prediction, and over all positions every
component must accept large draws exactly up to its own cut-off."""
import numpy as np
from mc import lib, env, world as w
from mc.core import TapeJob, HistJob, Skip, Violation

A = np.array
QF, BCF, SF, CM, BM, BC, QD = 2, 5, 7, 8, 10, 11, 15
MID, HUGE = 2.5, 40.0
DERIVED = ("T1", "T2", "R1", "R2", "SupportOffset", "SupportRoll", "PolynomA", "PolynomB", "KickAngle", "MaxOrder", "Voltage", "Frequency", "TimeLag")


def nothing(s):
    pass


def bpms(s):
    s.both("bpms", [3, 12], Offset=A([1e-4, 2e-4]), Roll=1e-3, CalError=A([0.1, 0.0]), SumError=0.2, Noise=A([1e-5, 2e-5]), NoiseCO=A([1e-6, 3e-6]))
    s.both("bpms", [16], Offset=[A([3e-4, 3e-4]), 3], Roll=[2e-3, 1.5], CalError=[A([0.0, 0.05]), 3])


def bpms_default_zero(s):
    s.both("bpms", [3, 12, 16])
    s.both("bpms", [12], Noise=A([0.0, 2e-5]), Offset=np.zeros(2))


def cavities(s):
    s.both("cavities", [0, 13], VoltageOffset=1e3, VoltageCalError=0.01, TimeLagOffset=[0.2, 3])
    s.both("cavities", [13], FrequencyOffset=[100.0, 1.5], FrequencyCalError=1e-6, TimeLagCalError=0.0)


def cavities_plain(s):
    s.both("cavities", [0, 13])


def magnets(s):
    s.both("magnets", [QF, SF], CalErrorB=A([0.1, 0.2]), CalErrorA=A([0.05]), MagnetOffset=A([1e-4, 2e-4, 3e-4]), MagnetRoll=A([1e-3, 0.0, 2e-3]))
    s.both("magnets", [BCF], CF=True, CalErrorB=[A([0.0, 1e-2]), 3], BendingAngle=[1e-3, 3], MagnetOffset=[A([1e-4, 0.0, 0.0]), 1.5])
    s.both("magnets", [BM], MasterOf=A([[BC]]), BendingAngle=2e-3, MagnetRoll=A([2e-4, 0, 0]))
    s.both("magnets", [CM], HCM=1e-3, CalErrorB=A([0.2]), CalErrorA=A([0.3]))


def magnets_plain(s):
    s.both("magnets", [QF, CM, QD], HCM=1e-3)


def girders(s):
    s.both("supports", A([[1, 9], [4, 14]]), "Girder", Offset=A([1e-4, 2e-4, 3e-4]), Roll=A([1e-3, 0.0, 0.0]))
    s.both("bpms", [3, 12])


def girders_tilted(s):
    s.both("supports", A([[1, 9], [4, 14]]), "Girder", Offset=A([1e-4, 2e-4, 0.0]), Roll=A([1e-3, 2e-3, 3e-3]))
    s.both("magnets", [QF, BM], MagnetOffset=A([1e-4, 0, 0]))
    s.both("bpms", [3, 12])


def girders_ends(s):
    s.both("supports", A([[1, 9], [4, 14]]), "Girder", Offset=A([[1e-4, 2e-4, 3e-4], [2e-4, 0.0, 1e-4]]), Roll=A([1e-3, 0.0, 0.0]))
    s.both("bpms", [3])


def girders_cut(s):
    s.both("supports", A([[1], [4]]), "Girder", Offset=[A([1e-4, 2e-4, 3e-4]), 3], Roll=[A([1e-3, 0.0, 1e-4]), 1.5])
    s.both("supports", A([[9], [14]]), "Girder", Offset=[A([[1e-4, 2e-4, 3e-4], [3e-4, 1e-4, 1e-4]]), 3])
    s.both("supports", A([[14], [1]]), "Section", Offset=A([1e-3, 1e-3, 0.0]), Roll=A([0.0, 0.0, 1e-4]))
    s.both("bpms", [3])


def girders_alike(s):
    s.both("supports", A([[1], [4]]), "Girder", Offset=[A([[1e-4, 2e-4, 3e-4], [1e-4, 2e-4, 3e-4]]), 3], Roll=A([1e-3, 0.0, 0.0]))
    s.both("supports", A([[9], [14]]), "Girder", Offset=A([[1e-4, 2e-4, 0.0], [1e-4, 2e-4, 0.0]]))
    s.both("bpms", [3])


def layers(s):
    s.both("supports", A([[1], [4]]), "Girder", Offset=A([1e-4, 2e-4, 0.0]))
    s.both("supports", A([[1], [14]]), "Section", Offset=A([[3e-4, 1e-4, 0.0], [1e-4, 2e-4, 5e-5]]), Roll=A([1e-3, 0, 0]))
    s.both("supports", A([[1], [9]]), "Plinth", Roll=A([1e-4, 1e-5, 0]))
    s.both("supports", A([[6], [9]]), "Girder")
    s.both("magnets", [QF, SF])


def injection(s):
    s.sc.SIG.staticInjectionZ = A([1e-3, 1e-4, 2e-3, 0.0, 1e-3, 1e-4])
    s.sc.SIG.randomInjectionZ = A([1e-4, 1e-5, 0.0, 1e-5, 2e-4, 1e-4])
    s.sc.INJ.Z0ideal = A([1e-5, 0, 2e-5, 0, 0, 1e-3])
    s.sync()


def circumference(s):
    s.sc.SIG.Circumference = 1e-3
    s.sync()
    magnets_plain(s)


def everything(s):
    for f in (bpms, cavities, magnets, girders_ends, injection):
        f(s)
    s.sc.SIG.Circumference = 1e-4
    s.sync()


CONFIGS = (nothing, bpms, bpms_default_zero, cavities, cavities_plain, magnets, magnets_plain, girders, girders_tilted, girders_ends, girders_cut, girders_alike, layers, injection, circumference, everything)


class Sys(lib.Machine):
    def both(self, kind, *a, **kw):
        getattr(self.sc, f"register_{kind}")(*[A(x) if isinstance(x, list) else x for x in a], **kw)
        getattr(w, f"register_{kind}")(self.m, *a, **kw)


class Trace:
    """identifies which draw produced which component"""

    def __init__(self, log):
        self.log, self.used, self.seen = log, {}, {}

    def take(self, name, x, sigma, cut):
        x, sigma = np.asarray(x, dtype=float), np.asarray(sigma, dtype=float)
        lib.need(x.shape == sigma.shape, f"{name}: shape {x.shape}, declared {sigma.shape}")
        for k, (a, sg) in enumerate(zip(x.ravel(), sigma.ravel())):
            c = f"{name}[{k}]"
            if sg == 0:
                lib.need(a == 0, f"{c}: {a} although declared zero")
                continue
            r = a / sg
            hits = [i for i, d in enumerate(self.log) if abs(d - r) < 1e-6 * max(1, abs(r))]
            lib.need(len(hits) == 1, f"{c} = {a} is not the declared sigma {sg} times one of the draws (ratio {r})")
            lib.need(hits[0] not in self.used, f"{c} shares its random number with {self.used.get(hits[0])}")
            lib.need(abs(r) <= cut, f"{c} is {r} sigma, beyond its cut-off {cut}")
            self.used[hits[0]] = c
            self.seen[c] = (r, cut)


def split(v, default):
    return (v[0], v[1]) if isinstance(v, list) else (v, default)


def decode(s, nsig, log, spos):
    """trace all components; write the traced values into the expected state"""
    tr = Trace(log)
    sc, m = s.sc, s.m
    el = sc.RING

    def put(i, f, v):
        w.P(m, i, f, lib.frozen(v))
    for kind in ("RF", "BPM", "Magnet"):
        for i in m[("ORD", kind)]:
            i = int(i)
            for f, v in m[("SIG", kind)].get(i, {}).items():
                sg, cut = split(v, nsig)
                tgt = "BendingAngleError" if f == "BendingAngle" else f
                lib.need(hasattr(el[i], tgt), f"{kind} {i} has no field {tgt}")
                got = getattr(el[i], tgt)
                if f in ("Noise", "NoiseCO"):
                    lib.need_close(got, v, f"noise level {f} of {i}")
                    lib.need(not np.shares_memory(got, sc.SIG.BPM[i][f]), f"noise level {f} of {i} shares memory with the declaration")
                else:
                    tr.take(f"{kind} {i} {tgt}", got, sg, cut)
                put(i, tgt, got)
    inj = sc.INJ
    tr.take("injection", inj.Z0 - inj.Z0ideal, m[("SIG", "staticInjectionZ")], nsig)
    m[("INJ", "Z0")] = inj.Z0.copy()
    lib.need_close(inj.randomInjectionZ, m[("SIG", "randomInjectionZ")], "injection jitter")
    lib.need(not np.shares_memory(inj.randomInjectionZ, sc.SIG.randomInjectionZ), "injection jitter shares memory with its declaration")
    m[("INJ", "randomInjectionZ")] = inj.randomInjectionZ.copy()
    # circumference
    drifts = [i for i in range(len(el)) if w.R(m, i, "PassMethod") == "DriftPass"]
    c0, c1 = (sum(x) for x in zip(*[(w.R(m, i, "Length"), el[i].Length) for i in range(len(el))]))
    d0 = sum(w.R(m, i, "Length") for i in drifts)
    scale = c1 / c0 - 1
    if m[("SIG", "Circumference")] == 0:
        lib.need(abs(scale) < 1e-13, "circumference changed without declared error")
    else:
        sg = m[("SIG", "Circumference")]
        hits = [d for d in log if abs(scale / sg - d) < 1e-6]
        lib.need(len(hits) == 1, f"circumference scaled by 1+{scale}: not sigma {sg} times one draw")
        tr.take("circumference", hits[0] * sg, sg, nsig)
    for i in drifts:
        put(i, "Length", w.R(m, i, "Length") * (1 + (c1 - c0) / d0))
    spos = np.concatenate(([0.0], np.cumsum([w.R(m, i, "Length") for i in range(len(el))])))
    # supports
    sig = m[("SIG", "Support")]
    for kind in ("Section", "Plinth", "Girder"):
        for a, b in np.asarray(m[("ORD", kind)]).T:
            a, b = int(a), int(b)
            so, sr = sig[a].get(f"{kind}Offset"), sig[a].get(f"{kind}Roll")
            eo = sig[b].get(f"{kind}Offset")
            off0, off1 = (np.asarray(getattr(el[i], f"{kind}Offset"), dtype=float) for i in (a, b))
            roll = np.asarray(getattr(el[a], f"{kind}Roll"), dtype=float)
            if so is None and sr is None:
                continue    # nothing declared: must be untouched
            length = (spos[b] - spos[a]) % spos[-1]
            tilt = np.array([roll[2], roll[1], 0.0])    # explicit yaw moves x, explicit pitch moves y
            sgr, cutr = split(sr, nsig) if sr is not None else (np.zeros(3), nsig)
            explicit = np.array([sgr[2] != 0, sgr[1] != 0, False])
            half = np.where(explicit, tilt * length / 2, 0.0)
            tr.take(f"{kind} {a} roll", np.where(sgr != 0, roll, 0.0), sgr, cutr)
            lib.need(sgr[0] != 0 or roll[0] == 0, f"{kind} {a} roll {roll[0]} without declaration")
            if so is not None:
                sgo, cuto = split(so, nsig)
                clean0 = off0 + half
                clean0[np.asarray(sgo) == 0] = np.where(np.abs(clean0[np.asarray(sgo) == 0]) < 1e-17, 0, clean0[np.asarray(sgo) == 0])
                tr.take(f"{kind} {a} start offset", clean0, sgo, cuto)
            else:
                clean0 = off0 + half
                lib.need(np.all(np.abs(clean0) < 1e-17), f"{kind} {a} start offset {clean0} without declaration")
            if eo is not None:
                sge, cute = split(eo, nsig)
                tr.take(f"{kind} {a} end offset", off1 - half, sge, cute)
            else:
                lib.need_close(off1 - half, clean0, f"{kind} {a}: both ends get the same offset", rtol=1e-9, atol=1e-16)
            for c, k in ((0, 2), (1, 1)):   # implied yaw/pitch
                if not explicit[c]:
                    lib.need_close(roll[k], (off1[c] - off0[c]) / length, f"{kind} {a}: slope between the ends", rtol=1e-9, atol=1e-16)
            for i, f in ((a, "Offset"), (b, "Offset"), (a, "Roll"), (b, "Roll")):
                put(i, f"{kind}{f}", getattr(el[i], f"{kind}{f}"))
    w.update_magnets(m)
    if len(m[("ORD", "RF")]):
        w.update_cavities(m)
    if not len(m[("ORD", "Magnet")]):
        pass
    return tr


def run_once(s, nsig, p, size, with_arg):
    cnt = [0]

    def source(n):
        out = []
        for _ in range(n):
            i = cnt[0]
            cnt[0] += 1
            if i > 2000:
                raise Violation("error application does not terminate: acceptable draws are refused")
            v = 0.05 + 0.002 * (i % 400)
            large = nsig * (0.95 + 1e-4 * (i % 400)) if size == "near" else size + 1e-3 * (i % 400) * (size / MID)
            out.append((large if i == p else v) * (-1) ** i)
        return A(out)
    with env.seams(rng_source=source):
        if with_arg == 0:
            s.sc.apply_errors()
        elif with_arg == 1:
            s.sc.apply_errors(nsig)
        else:
            s.sc.apply_errors(nsigmas=nsig)
        log = list(env.rng.log)
    lib.need(len(log) <= 400, "more draws than labels")   # labels stay unique
    tr = decode(s, nsig, log, None)
    bad = lib.differences(lib.live(s.sc), s.m, ignore=lambda k: k[0] == "RING" and k[-1] in ("T1", "T2", "R1", "R2", "SupportOffset", "SupportRoll"))
    lib.need(not bad, f"after applying errors: {bad}")
    now = lib.snap(s.sc)
    s.sc.update_supports()
    s.sc.update_magnets()
    s.sc.update_cavities()
    bad = lib.differences(lib.live(s.sc), now)
    lib.need(not bad, f"dependent fields were not up to date after applying errors: {bad}")
    s.m = lib.snap(s.sc)
    return tr, len(log)


def body(t):
    cfg = t.choose(CONFIGS, "declared")
    nsig, arg = t.choose([(2, 0), (1.0, 1), (4.5, 2)], "cut-off")
    times = t.choose((1, 2), "applications")
    size = t.choose((MID, HUGE, "near"), "large draw")    # "near": just within the general cut-off
    big = 0.95 * nsig if size == "near" else MID
    seen, n, p, names = {}, 1, -1, None
    while p < n:
        s = Sys()
        cfg(s)
        s.verify("registration")
        for k in range(times - 1):
            run_once(s, nsig, 3, HUGE, arg)
        tr, n = run_once(s, nsig, p, size, arg)
        if names is None:
            names = set(tr.seen)
        lib.need(set(tr.seen) == names, "different components received errors")
        for c, (r, cut) in tr.seen.items():
            if abs(r) >= big:
                seen.setdefault(c, p)
            if abs(r) <= cut < big:
                seen.setdefault(c, None)
        p += 1
        t.inner += 1
    missing = [c for c in names if c not in seen]
    if size != HUGE:
        lib.need(not missing, f"no position of a draw of {big} sigma reaches {missing} although it lies within the cut-off")
    return (cfg.__name__, nsig, times, size, n)


def explicit_tilt_conflict(t):
    """explicit pitch/yaw together with individual end offsets cannot be honoured and is rejected"""
    kind = t.choose(("Girder", "Plinth", "Section"), "kind")
    k = t.choose((1, 2), "angle")
    s = Sys()
    r = np.zeros(3)
    r[k] = 1e-3
    s.sc.register_supports(A([[1], [9]]), kind, Offset=A([[1e-4, 1e-4, 0], [1e-4, 1e-4, 0]]), Roll=r)
    with env.seams(rng_source=lambda n: np.full(n, 0.5)):
        lib.rejects(s.sc.apply_errors, what="explicit tilt and individual end offsets")
    return kind, k


def jobs(tier):
    return [TapeJob("declared x cut-off x draw position", body, shards=60, depth=3), TapeJob("conflicts", explicit_tilt_conflict)]
