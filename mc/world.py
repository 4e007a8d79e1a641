"""Reference model of the machine state: plain functions on the flat state dictionary of lib.Machine (written from the
documentation; independent of the implementation's code)."""
import math

import numpy as np

AB = ("A", "B")
LET = {False: "B", True: "A"}
RFP = ("Voltage", "Frequency", "TimeLag")


def R(m, i, k, default=None):
    return m.get(("RING", i, k), default)


def P(m, i, k, v):
    m[("RING", i, k)] = v


def has(m, i, k):
    return ("RING", i, k) in m


def padd(*vs):
    n = max(len(v) for v in vs)
    out = np.zeros(n)
    for v in vs:
        out[:len(v)] += v
    return out


def as_list(x):
    return [int(v) for v in np.ravel(np.array([x]))]


def spread(setpoints, n):
    s = [float(v) for v in np.ravel(np.array([setpoints], dtype=float))]
    if len(s) == 1:
        return s * n
    assert len(s) == n
    return s


# ------------------------------------------------------------------ magnets
def excitation(m, i, ab):
    sp = np.asarray(R(m, i, f"SetPoint{ab}"), dtype=float)
    cal = np.asarray(R(m, i, f"CalError{ab}"), dtype=float)
    return np.array([s * (1 + (cal[k] if k < len(cal) else 0.0)) for k, s in enumerate(sp)])


def field(m, src, tgt):
    """(PolynomA, PolynomB) of tgt driven by src (src == tgt, or master and child)."""
    ex = {ab: excitation(m, src, ab) for ab in AB}
    out = {}
    for ab in AB:
        parts = [ex[ab]]
        if has(m, tgt, f"Polynom{ab}Offset"):
            parts.append(R(m, tgt, f"Polynom{ab}Offset"))
        for other in AB:
            for order, comp in (R(m, tgt, f"SysPol{ab}From{other}") or {}).items():
                parts.append(ex[other][order] * np.asarray(comp))
        out[ab] = padd(*parts)
    if has(m, src, "BendingAngleError"):
        out["B"][0] += float(np.ravel(R(m, src, "BendingAngleError"))[0]) * R(m, tgt, "BendingAngle") / R(m, tgt, "Length")
    if has(m, src, "BendingAngle") and R(m, src, "CombinedFunction", False):
        ratio = ex["B"][1] / R(m, src, "NomPolynomB")[1]
        out["B"][0] += (ratio - 1) * R(m, tgt, "BendingAngle") / R(m, tgt, "Length")
    return out


def update_magnets(m, ords=None):
    for i in (m[("ORD", "Magnet")] if ords is None else ords):
        i = int(i)
        targets = [i] + [int(c) for c in (R(m, i, "MasterOf") if has(m, i, "MasterOf") else [])]
        for t in targets:
            f = field(m, i, t)
            P(m, t, "PolynomA", f["A"])
            P(m, t, "PolynomB", f["B"])
            P(m, t, "MaxOrder", len(f["B"]) - 1)
            if R(m, i, "PassMethod") == "CorrectorPass":
                P(m, t, "KickAngle", np.array([f["B"][0], f["A"][0]]))


def union(m, key, ords):
    m[("ORD", key)] = np.array(sorted(set(int(v) for v in m[("ORD", key)]) | set(int(v) for v in ords)), dtype=int)


def merge_sig(m, kind, ords, kw):
    sig = m[("SIG", kind)]
    for i in set(int(v) for v in ords):
        sig.setdefault(i, {})
        for k, v in kw.items():
            sig[i][k] = v


def register_magnets(m, ords, **kw):
    ords = [int(v) for v in ords]
    union(m, "Magnet", ords)
    for k in ("HCM", "VCM", "SkewQuad"):
        if k in kw:
            union(m, k, ords)
    merge_sig(m, "Magnet", ords, {k: v for k, v in kw.items() if k not in ("HCM", "VCM", "SkewQuad", "CF", "MasterOf")})
    for n, i in enumerate(ords):
        for ab in AB:
            p = np.array(R(m, i, f"Polynom{ab}"), dtype=float)
            P(m, i, f"NomPolynom{ab}", p.copy())
            P(m, i, f"SetPoint{ab}", p.copy())
            P(m, i, f"CalError{ab}", np.zeros(len(p)))
        for k in ("MagnetOffset", "SupportOffset", "MagnetRoll", "SupportRoll"):
            P(m, i, k, np.zeros(3))
        P(m, i, "T1", np.zeros(6))
        P(m, i, "T2", np.zeros(6))
        if "CF" in kw:
            P(m, i, "CombinedFunction", True)
        if "HCM" in kw or "VCM" in kw:
            lim = np.array(R(m, i, "CMlimit", np.zeros(2)), dtype=float)
            if "HCM" in kw:
                lim[0] = kw["HCM"]
            if "VCM" in kw:
                lim[1] = kw["VCM"]
            P(m, i, "CMlimit", lim)
        if "SkewQuad" in kw:
            P(m, i, "SkewQuadLimit", kw["SkewQuad"])
        if "MasterOf" in kw:
            P(m, i, "MasterOf", np.array(kw["MasterOf"])[:, n].ravel())


def register_bpms(m, ords, **kw):
    ords = [int(v) for v in ords]
    union(m, "BPM", ords)
    merge_sig(m, "BPM", ords, kw)
    for i in ords:
        for k in ("Noise", "NoiseCO", "Offset", "SupportOffset", "CalError"):
            P(m, i, k, np.zeros(2))
        for k in ("Roll", "SupportRoll", "SumError"):
            P(m, i, k, 0.0)


def register_cavities(m, ords, **kw):
    ords = [int(v) for v in ords]
    union(m, "RF", ords)
    merge_sig(m, "RF", ords, kw)
    for i in ords:
        for p in RFP:
            P(m, i, f"{p}SetPoint", R(m, i, p))
            P(m, i, f"{p}Offset", 0.0)
            P(m, i, f"{p}CalError", 0.0)


def register_supports(m, pairs, kind, **kw):
    """pairs: 2 x n"""
    pairs = np.asarray(pairs)
    old = m[("ORD", kind)]
    allp = set((int(a), int(b)) for a, b in np.asarray(old).T) | set((int(a), int(b)) for a, b in pairs.T)
    m[("ORD", kind)] = np.array(sorted(allp, key=lambda p: (p[1], p[0])), dtype=int).T.reshape(2, -1)
    sig = m[("SIG", "Support")]
    for i in pairs.ravel():
        P(m, int(i), f"{kind}Offset", np.zeros(3))
        P(m, int(i), f"{kind}Roll", np.zeros(3))
        sig.setdefault(int(i), {})
    for a, b in pairs.T:
        for k, v in kw.items():
            val, cut = (v[0], v[1]) if isinstance(v, list) else (v, None)
            rows = [val] if val.ndim == 1 else [val[0], val[1]]
            for e, row in zip((int(a), int(b)), rows):
                sig[e][f"{kind}{k}"] = row if cut is None else [row, cut]


# ------------------------------------------------------------------ cavities
def update_cavities(m, ords=None):
    for i in (m[("ORD", "RF")] if ords is None else ords):
        for p in RFP:
            P(m, int(i), p, R(m, int(i), f"{p}SetPoint") * (1 + float(np.ravel(R(m, int(i), f"{p}CalError"))[0]))
              + float(np.ravel(R(m, int(i), f"{p}Offset"))[0]))


def set_cavity(m, ords, setpoints, param, method="abs"):
    ords = as_list(ords)
    for i, s in zip(ords, spread(setpoints, len(ords))):
        old = R(m, i, f"{param}SetPoint")
        P(m, i, f"{param}SetPoint", {"abs": s, "rel": old * s, "add": old + s}[method])
    update_cavities(m, ords)


# ------------------------------------------------------------------ correctors and magnets
def kick_factor(m, i, skew):
    """kick angle per unit of dipole setpoint"""
    if R(m, i, "PassMethod") == "CorrectorPass":
        return 1.0
    return R(m, i, "Length") * (1.0 if skew else -1.0)


def get_kick(m, i, skew):
    return float(R(m, i, f"SetPoint{LET[skew]}")[0]) * kick_factor(m, i, skew)


def clip(v, lim):
    return math.copysign(abs(lim), v) if abs(v) > abs(lim) else v


def set_kick(m, ords, setpoints, skew, method="abs"):
    ords = as_list(ords)
    for i, s in zip(ords, spread(setpoints, len(ords))):
        old = get_kick(m, i, skew)
        v = {"abs": s, "rel": old * s, "add": old + s}[method]
        if has(m, i, "CMlimit"):
            v = clip(v, R(m, i, "CMlimit")[int(skew)])
        sp = np.array(R(m, i, f"SetPoint{LET[skew]}"), dtype=float)
        sp[0] = v / kick_factor(m, i, skew)
        P(m, i, f"SetPoint{LET[skew]}", sp)
    update_magnets(m, ords)


def set_magnet(m, ords, setpoints, skew, order, method="abs", dipole_compensation=False):
    ords = as_list(ords)
    for i, s in zip(ords, spread(setpoints, len(ords))):
        cur = np.array(R(m, i, f"SetPoint{LET[skew]}"), dtype=float)
        v = {"abs": s, "rel": R(m, i, f"NomPolynom{LET[skew]}")[order] * s, "add": cur[order] + s}[method]
        if skew and order == 1 and has(m, i, "SkewQuadLimit"):
            v = clip(v, R(m, i, "SkewQuadLimit"))
        if (dipole_compensation and not skew and order == 1 and R(m, i, "BendingAngle", 0) != 0
                and i in set(int(x) for x in m[("ORD", "HCM")])):
            set_kick(m, i, (v - cur[1]) / R(m, i, "NomPolynomB")[1] * R(m, i, "BendingAngle"), False, "add")
            cur = np.array(R(m, i, f"SetPoint{LET[skew]}"), dtype=float)
        cur[order] = v
        P(m, i, f"SetPoint{LET[skew]}", cur)
    update_magnets(m, ords)


# ------------------------------------------------------------------ multipoles
def systematic(m, ords, BA, order, skew):
    BA = np.array(BA, dtype=float)
    BA[order, 1 if skew else 0] = 0
    src = LET[skew]
    for i in as_list(ords):
        for col, tgt in enumerate(("B", "A")):
            key = f"SysPol{tgt}From{src}"
            d = dict(R(m, i, key) or {})
            d[order] = BA[:, col].copy()
            P(m, i, key, d)


def random_multipoles(m, ords, BA, draw):
    BA = np.array(BA, dtype=float)
    for i in as_list(ords):
        for col, tgt in enumerate(("B", "A")):
            key = f"Polynom{tgt}Offset"
            P(m, i, key, padd(R(m, i, key), BA[:, col] * draw) if has(m, i, key) else BA[:, col] * draw)
