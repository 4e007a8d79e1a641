"""The reach of the beam at every injection is the explorer's choice: all scripts of the alphabet (levels from no beam to full transmission, kept for
short and long numbers of injections), for all corrector/BPM subsets, response and reference shapes.  Every corrector change between two injections
is checked against the reading it may depend on; outcome, rejections and untouched values are checked at the end."""
import itertools

import numpy as np
from mc import lib, env, threading as th
from mc.core import TapeJob, Skip, Violation

A = np.array
NREPRO, WIGGLE_AFTER = 5, 20


def script(segs):
    """segs: [(level, duration), ..., (level, None)]"""
    def reach(k):
        for lev, n in segs:
            if n is None or k < n:
                return lev
            k -= n
        return segs[-1][0]
    return reach


def changes(h0, h1):
    """ordinates of correctors changed between two injections"""
    return ([i for i, a, b in zip(th.HCM, h0[0], h1[0]) if abs(a - b) > 1e-15], [i for i, a, b in zip(th.VCM, h0[1], h1[1]) if abs(a - b) > 1e-15])


def kicks(cms, hlist, vlist):
    return A([cms[0][th.HCM.index(i)] for i in hlist] + [cms[1][th.VCM.index(i)] for i in vlist])


def pinv(m, opts):
    u, s, v = np.linalg.svd(m, full_matrices=False)
    n = len(s) - opts.get("num_removed", 0)
    al = opts.get("alpha", 0)
    d = np.where(np.arange(len(s)) < n, opts.get("damping", 1) * s / (s ** 2 + al ** 2), 0)
    return v.T @ np.diag(d) @ u.T


SUBSETS = {
    "all": (None, None),
    "subset": ([(1, 4, 7), (7,)], (2, 8)),
    "upstream only": ([(1, 4), (1,)], (2, 5, 8)),
    "two BPMs": ([(1, 7, 10), (1, 9)], (5, 8)),
}
OPTS = [{}, dict(alpha=2.0), dict(damping=0.5), dict(num_removed=2)]


def fewer_points(n=4):
    """a shorter grid of wiggling kicks (if the code still has that constant; otherwise the executions are only slower)"""
    from pySC.correction import orbit_trajectory as ot
    if hasattr(ot, "WIGGLE_ANGLE_STEPS"):
        ot.WIGGLE_ANGLE_STEPS = n


def setup(L, sub, turns, cols_extra=0, rows_extra=0):
    cms, bp = SUBSETS[sub]
    hl, vl = cms or (th.HCM, th.VCM)
    bp_ = bp or th.BPMS
    rm = th.matrix(2 * len(bp_) * turns + rows_extra, len(hl) + len(vl) + cols_extra)
    kw = {}
    if cms:
        kw["cm_ords"] = [A(hl), A(vl)]
    if bp:
        kw["bpm_ords"] = A(bp)
    return rm, kw, hl, vl, bp_


def reference(kind, rows):
    return {"none": None, "flat": 1e-5 * (1 + np.arange(rows)), "column": 1e-5 * (2 - np.arange(rows))[:, None]}[kind]


def last_bpm(L, k, bpms):
    """ordinate of the last requested BPM reached (or None: whole first turn passed)"""
    n = int(np.sum(L.seen(k, bpms)))
    if n == 0:
        return -1
    return bpms[n - 1] if n <= len(bpms) else None


def upstream(ch, last, what):
    for i in ch[0] + ch[1]:
        lib.need(last is None or i <= last, f"{what}: corrector {i} was changed although the beam only reached the BPM at {last}")


def listed(ch, hl, vl, what):
    lib.need(set(ch[0]) <= set(hl) and set(ch[1]) <= set(vl), f"{what}: correctors that are not listed were changed: {ch}")


def check_feedback_step(L, k, P, ref, hl, vl, bpms, what, nstitch=None):
    """change between injections k and k+1 = - pinv * deviation, as far as the beam got"""
    r = L.reading(k, bpms)
    nb = len(bpms)
    if nstitch is not None:
        d = np.zeros((2, nb))
        d[:, :nstitch] = r[:, nb:nb + nstitch] - r[:, :nstitch]
        r = np.concatenate((r[:, :nb], d), axis=1)
    dev = np.where(np.isnan(r.ravel()), 0, r.ravel()) - ref
    step = -P @ dev
    if nstitch is None:
        last = last_bpm(L, k, bpms)
        mask = A([last is None or i <= last for i in list(hl) + list(vl)])
        step = np.where(mask, step, 0)
    want = kicks(L.history[k]["cms"], hl, vl) + step
    lib.need_close(kicks(L.history[k + 1]["cms"], hl, vl), want, f"{what}: kicks after injection {k + 1}", rtol=1e-7, atol=1e-12)


def first_turn(subsets, refs, opts, durations, levels2, nseg, steps, points=4):
    def run(t):
        from pySC.correction.orbit_trajectory import first_turn as fn
        fewer_points(points)
        turns = t.choose((1, 2), "turns")
        sub = t.choose(subsets, "correctors and BPMs")
        nmax = t.choose(steps, "allowed steps")
        levels = [3, 2, 1, 0] if turns == 1 else levels2
        segs = []
        for s in range(nseg - 1):
            lev = t.choose(levels, f"reach {s + 1}")
            n = t.choose([None] + list(durations), f"injections {s + 1}")
            segs.append((lev, n))
            if n is None:
                break
        else:
            segs.append((t.choose(levels, "last reach"), None))
        if any(a[0] == b_[0] for a, b_ in zip(segs, segs[1:])):
            raise Skip()
        if nmax < 30 and any(n and n > nmax + 2 for _, n in segs):
            raise Skip()
        refk = t.choose(refs, "reference", dev=True)
        opt = t.choose(opts, "pseudo-inverse options", dev=True)
        L = th.Line(turns, script(segs))
        rm, kw, hl, vl, bpms = setup(L, sub, turns)
        ref = reference(refk, rm.shape[0])
        if ref is not None:
            kw["reference"] = ref
        out, err = L.run(fn, rm, maxsteps=nmax, **kw, **opt)
        what = f"threading, reach {segs}, {sub}, {turns} turns, {nmax} steps"
        H = L.history
        n = len(H)
        L.frame(what)
        P, r0 = pinv(rm, opt), (np.zeros(rm.shape[0]) if ref is None else ref.ravel())
        lib.need(n >= 1, "no injection at all")
        counts = [int(np.sum(L.seen(k, bpms))) for k in range(n)]
        full = len(bpms) * turns
        H2 = H + [dict(cms=L.final())]
        wig = n > WIGGLE_AFTER - 1
        for k in range(n):
            ch = changes(H2[k]["cms"], H2[k + 1]["cms"])
            listed(ch, hl, vl, what)
            if k == n - 1:
                if out is not None:
                    lib.need(not ch[0] and not ch[1], f"{what}: correctors changed after the last reading of a successful correction")
                elif err and n <= WIGGLE_AFTER - 1 and counts[k] == 0:
                    lib.need(not ch[0] and not ch[1], f"{what}: correctors changed although there is no beam")
                continue
            if k < WIGGLE_AFTER - 1:
                upstream(ch, last_bpm(L, k, bpms), what)
                check_feedback_step(L, k, P, r0, hl, vl, bpms, what)
            else:
                reached = max(counts[max(0, k - 260):k + 1])
                upstream(ch, None if reached > len(bpms) else (bpms[reached - 1] if reached else -1), what)
        if out is not None:
            lib.need(n >= NREPRO and all(c == full for c in counts[-NREPRO:]), f"{what}: success although the last readings reached {counts[-NREPRO:]} of {full}")
        else:
            lib.need(isinstance(err, RuntimeError), f"{what}: failure reported as {type(err).__name__}: {err}")
        if not wig:
            lib.need(n <= nmax + 1, f"{what}: {n} injections with {nmax} allowed steps")
            # five consecutive full readings within the allowed steps must be reported as success
            good = next((k for k in range(NREPRO - 1, nmax + 1) if all(L.reach(j) == len(th.BPMS) * turns for j in range(k - NREPRO + 1, k + 1))), None)
            dead = next((k for k in range(nmax) if k < n and counts[k] == 0), None)
            if good is not None and good <= nmax and (dead is None or dead >= good) and all(c > 0 for c in counts[:good]) and not isinstance(err, RuntimeError) is False:
                lib.need("No CM" in str(err) or out is not None, f"{what}: ended with {err} although injections {good - 4}..{good} had full transmission")
        return (sub, turns, nmax, tuple(segs), out is not None, str(err)[:40], n)
    return run


def stitch(subsets, refs, opts, durations, full_alphabet, points=4, nseg=1):
    def run(t):
        from pySC.correction.orbit_trajectory import stitch as fn
        fewer_points(points)
        sub = t.choose(subsets, "correctors and BPMs")
        nmax = t.choose((1, 5, 10), "allowed steps")
        nb = t.choose((1, 2), "BPMs to match")
        segs = []
        levels = [6, 5, 4, 3, 2, 0] if full_alphabet else [6, 4, 3, 2]
        for s in range(nseg):
            lev = t.choose(levels, f"reach {s + 1}")
            n = t.choose([None] + list(durations), f"injections {s + 1}")
            segs.append((lev, n))
            if n is None:
                break
        else:
            segs.append((t.choose(levels, "last reach"), None))
        if any(a[0] == b_[0] for a, b_ in zip(segs, segs[1:])):
            raise Skip()
        refk = t.choose(refs, "reference", dev=True)
        opt = t.choose(opts, "pseudo-inverse options", dev=True)
        L = th.Line(2, script(segs))
        rm, kw, hl, vl, bpms = setup(L, sub, 2)
        ref = reference(refk, rm.shape[0])
        if ref is not None:
            kw["reference"] = ref
        out, err = L.run(fn, rm, n_bpms=nb, maxsteps=nmax, **kw, **opt)
        what = f"stitching, reach {segs}, {sub}, {nmax} steps, {nb} BPMs"
        H = L.history
        n = len(H)
        L.frame(what)
        counts = [int(np.sum(L.seen(k, bpms))) for k in range(n)]
        full = 2 * len(bpms)
        r0 = np.zeros(rm.shape[0]) if ref is None else ref.ravel()
        r0 = r0.reshape(2, -1).copy()
        r0[:, len(bpms):] = 0
        r0 = r0.ravel()
        P = pinv(rm, opt)
        H2 = H + [dict(cms=L.final())]
        moved = [changes(H2[k]["cms"], H2[k + 1]["cms"]) for k in range(n)]
        for ch in moved:
            listed(ch, hl, vl, what)
        if counts[0] < len(bpms):
            lib.need(isinstance(err, RuntimeError) and n == 1 and not any(moved[0]), f"{what}: without full first turn {n} injections, moves {moved}, {err}")
        if counts[0] >= len(bpms) + nb:
            lib.need(n <= nmax + 1, f"{what}: {n} injections with {nmax} allowed steps")
            for k in range(n - 1):
                check_feedback_step(L, k, P, r0, hl, vl, bpms, what, nstitch=nb)
            if n == nmax + 1 or out is not None:
                lib.need(not any(moved[-1]), f"{what}: correctors moved after the last reading")
            good = next((k for k in range(NREPRO - 1, nmax + 1) if all(L.reach(j) == 6 for j in range(k - NREPRO + 1, k + 1))), None)
            if good is not None and all(L.reach(j) == 6 for j in range(nmax + 1)):
                lib.need(out is not None, f"{what}: {err}")
        if out is not None:
            lib.need(n >= NREPRO and all(c == full for c in counts[-NREPRO:]), f"{what}: success although the last readings reached {counts[-NREPRO:]} of {full}")
        else:
            lib.need(isinstance(err, RuntimeError), f"{what}: failure reported as {type(err).__name__}: {err}")
        return (sub, nmax, nb, tuple(segs), out is not None, str(err)[:40], n)
    return run


def rejected(t):
    """requests that do not fit are refused before anything moves"""
    from pySC.correction import orbit_trajectory as ot
    fn = t.choose((ot.first_turn, ot.stitch, ot.balance, ot.correct), "procedure")
    bad = t.choose(("rows", "columns", "reference", "turns", "no beam", "part of the first turn"), "what is wrong")
    sub = t.choose(tuple(SUBSETS), "subset")
    turns = 2 if fn in (ot.stitch, ot.balance) else 1
    reach = 3 * turns
    more = t.choose((-1, 1), "too few or too many")
    if bad == "no beam":
        reach = 0
    elif bad == "part of the first turn":
        reach = 1
        if fn is ot.first_turn:
            raise Skip()
    elif bad == "turns":
        turns += more
        if fn in (ot.first_turn, ot.correct):
            raise Skip()        # any number of turns is fine there, the matrix would not fit (case rows)
    if turns < 1:
        raise Skip()
    L = th.Line(turns, lambda k: reach)
    rm, kw, hl, vl, bpms = setup(L, sub, turns, cols_extra=more if bad == "columns" else 0, rows_extra=more if bad == "rows" else 0)
    if bad == "reference":
        kw["reference"] = np.zeros(rm.shape[0] + more)
    out, err = L.run(fn, rm, **kw)
    what = f"{fn.__name__} with wrong {bad} ({sub}, {more})"
    lib.need(err is not None, f"{what} was accepted")
    lib.need_state(L.sc, L.state0, what)
    return (fn.__name__, bad, sub, more, type(err).__name__)


def jobs(tier):
    q = tier == "quick"
    subs = ("all", "subset", "upstream only") if q else tuple(SUBSETS)
    refs = ("none", "flat") if q else ("none", "flat", "column")
    opts = OPTS[:2] if q else OPTS
    out = [TapeJob("threading", first_turn(subs[:2] if q else subs, refs, opts, (1, 4, 6) if q else (1, 2, 3, 4, 5, 6, 8), [6, 4, 0] if q else [6, 5, 3, 1, 0], 2 if q else 3, (4, 8) if q else (1, 4, 8)),
                   max_dev=1, shards=24, depth=4),
           TapeJob("threading with long failures", first_turn(("all", "subset"), ("none",), OPTS[:1], (21, 24) if q else (19, 20, 21, 22, 24, 60), [5, 4, 0], 2, (30,)), shards=16, depth=4),
           TapeJob("stitching", stitch(subs[:2] if q else subs, refs, opts, (1, 3, 5) if q else (1, 2, 3, 4, 5, 6, 7), not q, nseg=1 if q else 2), max_dev=1, shards=24, depth=4),
           TapeJob("rejections", rejected, shards=4)]
    if q:
        out.append(TapeJob("threading, three segments", first_turn(("all",), ("none",), OPTS[:1], (1, 4), [6, 5, 0], 3, (8,)), shards=16, depth=4))
    else:
        out.append(TapeJob("threading, full wiggling grid", first_turn(("all", "subset"), ("none",), OPTS[:1], (21, 24, 60, 100), [5, 4, 0], 2, (30,), points=32), shards=16, depth=4))
        out.append(TapeJob("stitching, full wiggling grid", stitch(("all", "subset"), ("none",), OPTS[:1], (1, 5, 40), False, points=32), shards=16, depth=4))
    return out
