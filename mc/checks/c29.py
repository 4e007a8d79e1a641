"""Exactly linear fit problems with integer Jacobians: every Jacobian over {-1, 0, 1} of the small shapes, every structured Jacobian of the larger
shapes, all selections of parameter groups, weights and starting points; both fit methods are compared with an independent weighted least-squares
solution.  Corrections are compared with the reference model of the complete machine state."""
import io
import itertools
from contextlib import redirect_stdout

import numpy as np
from mc import lib, world as w
from mc.core import TapeJob, Skip

A = np.array
GROUPS = ("quads", "cor", "bpm")
SEL = [s for n in (1, 2, 3) for s in itertools.combinations(GROUPS, n)]


def weight(name, rows):
    return {"1": 1, "4.0": 4.0, "unit": np.eye(rows), "diagonal": np.diag(A([1.0, 0.25, 4.0, 2.0, 9.0])[:rows])}[name]


def diag(wt, rows):
    return A(wt, dtype=float) * np.ones(rows) if np.ndim(wt) == 0 else np.diag(wt)


def normal(J, wt, r):
    """J^T W J and J^T W r from the flattened problem"""
    n, rows, cols = J.shape
    d = np.repeat(diag(wt, rows), cols)
    F = J.reshape(n, -1)
    return (F * d) @ F.T, (F * d) @ r.ravel()


def both(J, lengths, sel, p, guess, wt, noise, what, methods):
    """p: full parameter vector (zero outside the selection)"""
    from pySC.correction import loco
    rows, cols = J.shape[1:]
    mask = np.concatenate([np.full(n, g in sel) for g, n in zip(GROUPS, lengths)])
    model = np.arange(1.0, rows * cols + 1).reshape(rows, cols)
    meas = model + np.einsum("ijk,i->jk", J, p) + noise
    M, b = normal(J[mask], wt, meas - model)
    s = np.linalg.svd(M, compute_uv=False)
    if s[-1] < 1e-8 * s[0]:
        raise Skip()
    want = np.linalg.solve(M, b)
    if not np.any(noise):
        lib.need_close(want, p[mask], "harness", rtol=1e-7, atol=1e-8)
    n = 0
    if "lm" in methods and rows * cols >= np.sum(mask):
        with redirect_stdout(io.StringIO()):
            got = lib.call(loco.loco_correction_lm, guess, model, meas, J, lengths, list(sel), weights=wt, verbose=0)
        lib.need_close(got, want, f"{what}: least squares", rtol=1e-5, atol=1e-5)
        n += 1
    if "ng" in methods and not np.any(guess):
        got = lib.call(loco.loco_correction_ng, guess, model, meas, J, lengths, list(sel), len(mask) + 3, weights=wt)
        lib.need_close(got, want, f"{what}: Gauss-Newton", rtol=1e-7, atol=1e-7)
        for lam in (0.5, 2.0):
            got = lib.call(loco.loco_correction_ng, guess, model, meas, J, lengths, list(sel), len(want), weights=wt, LM_lambda=lam)
            lib.need_close(got, np.linalg.solve(M + lam * np.diag(np.diag(M)), b), f"{what}: Levenberg-Marquardt step {lam}", rtol=1e-7, atol=1e-7)
            n += 1
        gap = np.all(np.diff(s) < -1e-3 * s[0])
        if gap and len(want) > 1:
            u, sv, vt = np.linalg.svd(M)
            k = len(want) - 1
            got = lib.call(loco.loco_correction_ng, guess, model, meas, J, lengths, list(sel), k, weights=wt)
            lib.need_close(got, vt[:k].T @ (u[:, :k].T @ b / sv[:k]), f"{what}: step with {k} singular values", rtol=1e-6, atol=1e-7)
        n += 1
    return n


def exhaustive(shape, lengths, values):
    """all Jacobians over {-1,0,1}"""
    size = int(np.prod(shape)) * sum(lengths)

    def run(t):
        js = [t.choose((0, 1, -1), f"J{k}") for k in range(size)]
        J = A(js, dtype=float).reshape((sum(lengths),) + shape)
        n = 0
        for sel in SEL:
            if not any(g in sel and m for g, m in zip(GROUPS, lengths)):
                continue
            mask = np.concatenate([np.full(m, g in sel) for g, m in zip(GROUPS, lengths)])
            if np.linalg.matrix_rank(J[mask].reshape(np.sum(mask), -1)) < np.sum(mask):
                continue
            p = np.where(mask, A(values[:len(mask)]), 0.0)
            n += both(J, lengths, sel, p, np.zeros(len(mask)), 1, 0.0, f"Jacobian {J.tolist()}, lengths {lengths}, selected {sel}, parameters {p.tolist()}",
                      ("ng", "lm") if sum(js) % 3 == 0 else ("ng",))
        t.inner += n
        if not n:
            raise Skip()
        return (n, tuple(js))
    return run


def structured(t):
    """larger problems, two or more parameters of each group"""
    rows, cols = t.choose(((4, 3), (2, 4), (5, 2), (3, 3)), "shape")
    lengths = t.choose(([2, 3, 2], [1, 1, 1], [3, 0, 2], [0, 2, 4], [4, 1, 0], [1, 2, 3]), "lengths")
    sel = t.choose(SEL, "selected")
    order = t.choose((0, 1), "order of names")
    wt = t.choose(("1", "4.0", "unit", "diagonal"), "weights")
    start = t.choose(("zero", "small", "off"), "start")
    noise = t.choose((0, 1), "consistent data")
    seed = t.choose((0, 1, 2), "Jacobian")
    tot = sum(lengths)
    k = np.arange(tot * rows * cols)
    J = (((k * k * (3 + seed) + k * (5 + 2 * seed) + seed) % 13) - 6.0).reshape(tot, rows, cols)
    if seed == 2:       # columns sum to zero
        J[:, :, 0] -= J.sum(axis=2)
    mask = np.concatenate([np.full(m, g in sel) for g, m in zip(GROUPS, lengths)])
    if not np.any(mask):
        raise Skip()
    p = np.where(mask, (np.arange(tot) * 5 % 7) - 3.0, 0.0)
    g0 = {"zero": np.zeros(tot), "small": np.full(tot, 1e-6), "off": (np.arange(tot) % 3) * 2.0 - 1}[start]
    nz = noise * (((np.arange(rows * cols) * 7) % 5) - 2.0).reshape(rows, cols)
    names = sel[::-1] if order else sel
    if noise and np.sum(mask) == rows * cols:
        raise Skip()
    n = both(J, lengths, names, p, g0, weight(wt, rows), nz, f"shape {(rows, cols)}, lengths {lengths}, selected {names}, weights {wt}, start {start}, "
             f"inconsistent {noise}, Jacobian {seed}", ("lm", "ng"))
    if not n:
        raise Skip()
    t.inner += n
    return (rows, cols, tuple(lengths), sel, order, wt, start, noise, seed)


# ------------------------------------------------------------------ corrections
def correction(t):
    from pySC.correction.loco import set_correction
    from mc.checks import c03
    s = c03.make()
    m0 = t.choose(("design", "changed"), "machine")
    if m0 == "changed":
        for i, v in ((c03.QF, 1.31), (c03.QD, -0.9), (c03.BCF, -0.55)):
            s.both("prepare", (i, v, False, 1), {})
        s.both("prepare", (c03.SF, 5.0, False, 2), {})
        s.both("prepare", (c03.SF, 0.02, True, 1), {})
    QF, BCF, SF, QD, BM = c03.QF, c03.BCF, c03.SF, c03.QD, c03.BM
    kind = t.choose(("individuals", "families"), "addressed by")
    sets = {"individuals": ([QF], [QD, QF], [QF, BCF, QD], A([BCF, QF]), A([QF, QD, SF, BM]), [SF]),
            "families": ([[QF], [QD]], [[QD, QF], [BCF]], [A([QF, BCF]), A([QD, SF])], [A([BM, QF, QD])], [[SF], [BCF], [QD]])}[kind]
    elems = t.choose(sets, "magnets")
    skew, order = t.choose(((False, 1), (True, 1), (False, 2)), "component")
    if order == 2 and not all(int(i) in (SF,) for e in elems for i in np.ravel(e)):
        raise Skip()
    method = t.choose(("add", "default", "abs", "rel"), "method")
    comp = t.choose((True, False, None), "dipole compensation")
    vals = t.choose((A([0.01, -0.02, 0.005, 0.03]), A([1.0, 0.5, -2.0, 0.25]), A([0.0, 0.04, 0.0, -0.01])), "fitted values")
    r = vals[:len(elems)].copy()
    kw = dict(individuals=kind == "individuals")
    if kind == "individuals" and t.choose((0, 1), "defaults"):
        kw = {}
    if (skew, order) != (False, 1):
        kw.update(skewness=skew, order=order)
    if method != "default":
        kw["method"] = method
    if comp is not None:
        kw["dipole_compensation"] = comp
    what = f"{kind} {elems}, skew {skew} order {order}, method {method}, compensation {comp}, values {r.tolist()}, {m0}"
    out = lib.call(set_correction, s.sc, r, elems, **kw)
    for k, e in enumerate(elems):
        w.set_magnet(s.m, [int(i) for i in np.ravel(e)], -float(r[k]), skew, order, "add" if method == "default" else method, True if comp is None else comp)
    s.verify(what)
    lib.need(out is s.sc, f"{what}: returned {type(out)} instead of the machine")
    return (kind, str(elems), skew, order, method, comp, m0, float(r[0]))


def closing(t):
    """measure - fit - correct on the real lattice: exactly the deviating magnets are found and put back"""
    from pySC.correction import loco
    from mc.checks import c22
    from pySC.core.simulated_commissioning import SimulatedCommissioning
    c22.ring()
    r = lib._cache[("ring",)]
    sc = SimulatedCommissioning(r)
    o = lambda n: A([i for i, e in enumerate(r) if e.FamName == n])     # noqa
    sc.register_bpms(o("BPM"))
    sc.register_magnets(o("CM"), HCM=1.0, VCM=1.0)
    sc.register_magnets(o("QF"))
    sc.register_magnets(o("QD"))
    sc.register_cavities(o("CAV"))
    quads = np.sort(np.concatenate((o("QF"), o("QD"))))
    fam = t.choose((False, True), "families")
    err = t.choose(("one", "two", "all"), "deviating magnets")
    method = t.choose(("lm", "ng"), "method")
    kick = 1e-5
    cm = [o("CM")[[0, 1, 3]], o("CM")[[1, 2]]]
    bp = o("BPM")
    targets = [o("QF"), o("QD")] if fam else list(quads)
    C = c22.response(sc.RING, bp, cm, kick)
    J = np.asarray(loco.calculate_jacobian(sc, C, kick, cm, bp, targets, 1e-4, trackMode="ORB", useIdealRing=False))
    d = {"one": [2e-4, 0, 0, 0], "two": [0, -3e-4, 1e-4, 0], "all": [1e-4, -2e-4, 3e-4, -1e-4]}[err][:len(targets)]
    for tg, v in zip(targets, d):
        sc.set_magnet_setpoints(tg, v, False, 1, "add")
    lengths = [len(targets), 5, 2 * len(bp)]
    nominal = {int(i): float(r[int(i)].PolynomB[1]) for i in quads}
    for it in range(2):
        meas = loco.measure_closed_orbit_response_matrix(sc, bp, cm, kick)
        g = np.zeros(sum(lengths))
        if method == "lm":
            p = loco.loco_correction_lm(g, C, meas, J, lengths, ["quads"], verbose=0)
        else:
            p = loco.loco_correction_ng(g, C, meas, J, lengths, ["quads"], 100)
        loco.set_correction(sc, p, targets, individuals=not fam)
    res = A([float(sc.RING[i].PolynomB[1]) - v for i, v in nominal.items()])
    lib.need(np.max(np.abs(res)) < 0.02 * np.max(np.abs(d)), f"{method}, {'families' if fam else 'individuals'}, deviations {d}: left {res.tolist()} after two iterations")
    return (fam, err, method)


def jobs(tier):
    q = tier == "quick"
    return [TapeJob("all Jacobians 2x2, one quad and one corrector", exhaustive((2, 2), [1, 1, 0], (2.0, -3.0, 1.0)), shards=24, depth=4),
            TapeJob("all Jacobians 1x2, three parameters", exhaustive((1, 3) if not q else (1, 2), [1, 1, 1], (2.0, -3.0, 1.0)), shards=8, depth=3),
            TapeJob("structured problems", structured, shards=32, depth=4), TapeJob("corrections", correction, shards=16, depth=4),
            TapeJob("closed loop", closing, shards=8, depth=3)]
