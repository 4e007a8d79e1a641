"""All small data sets over a value alphabet (incl. period-wrapping, repeated and missing values) x all error patterns (absent, equal,
unequal, with zero, with missing) x axis x period, evaluated by the real statistics code and compared with definitions written
out in plain arithmetic, plus the invariances (order, common scaling, whole-period shifts, missing = absent)."""
import math
import itertools

import numpy as np
from scipy.stats import norm, t as student
from mc import lib
from mc.core import TapeJob, Skip

NAN = float("nan")
ERRPAT = ("none", "ones", "mixed", "mixed2", "zero", "nan")


def errors_for(pattern, n):
    if pattern == "none":
        return None
    base = {"ones": [1.0] * 9, "mixed": [1.0, 2.0, 0.5, 1.0, 3.0, 0.25, 1.5, 2.5, 0.75], "mixed2": [0.1, 0.1, 0.4, 0.2, 0.3, 0.1, 0.2, 0.5, 0.6],
            "zero": [1.0, 0.0, 0.5, 2.0, 1.0, 1.0, 1.0, 1.0, 1.0], "nan": [2.0, NAN, 0.5, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0]}[pattern]
    return np.array(base[:n])


# ---- definitions
def weights(errs, n):
    """None if not usable"""
    if errs is None or any(math.isnan(e) for e in errs) or any(e == 0 for e in errs):
        return None
    return [1.0 / e ** 2 for e in errs]


def mean(xs, w):
    w = w or [1.0] * len(xs)
    return sum(a * b for a, b in zip(xs, w)) / sum(w)


def neff(xs, w):
    n = len(xs) if w is None else sum(w) ** 2 / sum(x * x for x in w)
    return max(n, 2.0)


def tcorr(n):
    return student.ppf(norm.cdf(1), max(n, 2.0) - 1)


def werror(xs, w, tc):
    m = mean(xs, w)
    var = mean([abs(x - m) ** 2 for x in xs], w)
    if w is not None:
        var += 1 / sum(w)
    n = neff(xs, w)
    e = math.sqrt(var * n / (n - 1))
    return e * tcorr(n) if tc else e


def cmean(xs, w, period):
    z = mean([complex(math.cos(2 * math.pi * x / period), math.sin(2 * math.pi * x / period)) for x in xs], w)
    return math.atan2(z.imag, z.real) * period / (2 * math.pi), abs(z)


def cerror(xs, errs_w, period, tc):
    w = errs_w
    zs = [complex(math.cos(2 * math.pi * x / period), math.sin(2 * math.pi * x / period)) for x in xs]
    m = mean(zs, w)
    var = mean([abs(z - m) ** 2 for z in zs], w)
    if w is not None:
        var += 1 / sum(w)
    n = neff(xs, w)
    ph = math.sqrt(var * n / (n - 1)) / abs(m)
    if tc:
        ph *= tcorr(n)
    if abs(ph - math.pi / 2) < 1e-9:
        raise Skip()
    return 0.3 * period if ph > math.pi / 2 else ph * period / (2 * math.pi)


def close(a, b, what, tol=1e-8):
    lib.need_close(a, b, what, rtol=tol, atol=tol * 1e-2)


def same_phase(a, b, period, what):
    d = (a - b) / period
    lib.need(abs(d - round(d)) < 1e-8, f"{what}: got {a}, expected {b} (period {period})")


def one_d(values, nmax):
    def body(t):
        from pySC.utils import stats
        n = t.choose(range(1, nmax + 1), "n")
        xs = [t.choose(values, f"x{i}") for i in range(n)]
        pat = t.choose(ERRPAT, "errors")
        if pat in ("zero", "nan") and n < 2:
            raise Skip()
        errs = errors_for(pat, n)
        period = t.choose((2 * math.pi, 1.0, 360.0), "period")
        data = np.array(xs) * (period / (2 * math.pi))
        xs = data.tolist()
        w = weights(errs, n)
        # circular weights are built from the errors expressed in phase
        cw = None if w is None else [x * (period / (2 * math.pi)) ** 2 for x in w]
        close(lib.call(stats.weighted_mean, data, errors=errs), mean(xs, w), f"weighted mean of {xs}, errors {errs}")
        rms = math.sqrt(mean([x * x for x in xs], w))
        close(lib.call(stats.weighted_rms, data, errors=errs), rms, f"weighted rms of {xs}, errors {errs}")
        if pat == "none":
            close(lib.call(stats.rms, data), rms, "rms")
        for tc in (True, False):
            close(lib.call(stats.weighted_error, data, errors=errs, t_value_corr=tc), werror(xs, w, tc), f"weighted error of {xs}, errors {errs}, small-sample correction {tc}")
        cm, resultant = cmean(xs, cw, period)
        if resultant > 1e-6:
            got = float(lib.call(stats.circular_mean, data, period=period, errors=errs))
            same_phase(got, cm, period, f"circular mean of {xs}, errors {errs}")
            lib.need(abs(got) <= period / 2 * (1 + 1e-9), f"circular mean {got} outside half a period")
            for k in (1, -2):
                same_phase(float(stats.circular_mean(data + k * period, period=period, errors=errs)), cm, period, "circular mean after whole-period shift")
            shifted = data.copy()
            shifted[0] += period
            same_phase(float(stats.circular_mean(shifted, period=period, errors=errs)), cm, period, "circular mean after shifting one value by a period")
            for tc in (True, False):
                ce = cerror(xs, cw, period, tc)
                close(lib.call(stats.circular_error, data, period=period, errors=errs, t_value_corr=tc), ce, f"circular error of {xs}, errors {errs}, period {period}, correction {tc}", 1e-6)
                close(stats.circular_error(shifted, period=period, errors=errs, t_value_corr=tc), ce, "circular error after shifting one value by a period", 1e-5)
        # permutation, scaling of the weights
        if n > 1:
            p = list(range(n))[1:] + [0]
            e2 = None if errs is None else errs[p]
            close(stats.weighted_mean(data[p], errors=e2), mean(xs, w), "weighted mean after permutation")
            close(stats.weighted_rms(data[p], errors=e2), rms, "weighted rms after permutation")
        if w is not None:
            close(stats.weighted_mean(data, errors=3 * errs), mean(xs, w), "weighted mean after scaling all errors")
            close(stats.weighted_rms(data, errors=3 * errs), rms, "weighted rms after scaling all errors")
        return (tuple(xs), pat, period)
    return body


def missing(values, nmax):
    """NaN-aware variants on data with missing entries equal the plain ones on the remaining entries."""
    def body(t):
        from pySC.utils import stats
        n = t.choose(range(2, nmax + 1), "n")
        xs = np.array([t.choose(values, f"x{i}") for i in range(n)])
        miss = t.choose(range(1, 2 ** n - 1), "missing pattern")
        m = np.array([bool(miss >> i & 1) for i in range(n)])
        pat = t.choose(("none", "ones", "mixed", "mixed2"), "errors")
        errs = errors_for(pat, n)
        period = t.choose((2 * math.pi, 1.0), "period")
        data = np.where(m, NAN, xs * (period / (2 * math.pi)))
        rest = data[~m]
        re = None if errs is None else errs[~m]
        w = weights(re, len(rest))
        cw = None if w is None else [x * (period / (2 * math.pi)) ** 2 for x in w]
        r = rest.tolist()
        close(lib.call(stats.weighted_nanmean, data, errors=errs), mean(r, w), f"mean of {data.tolist()}, errors {errs}")
        close(lib.call(stats.weighted_nanrms, data, errors=errs), math.sqrt(mean([x * x for x in r], w)), f"rms of {data.tolist()}, errors {errs}")
        cm, res = cmean(r, cw, period)
        if res > 1e-6:
            same_phase(float(lib.call(stats.circular_nanmean, data, period=period, errors=errs)), cm, period, f"circular mean of {data.tolist()}, errors {errs}")
            for tc in (True, False):
                close(np.asarray(lib.call(stats.circular_nanerror, data, period=period, errors=errs, t_value_corr=tc), dtype=float), cerror(r, cw, period, tc),
                      f"circular error of {data.tolist()}, errors {errs}, period {period}, correction {tc}", 1e-6)
        return (lib.rounded(data), pat, period)
    return body


def two_d(values):
    """along an axis = row by row / column by column"""
    def body(t):
        from pySC.utils import stats
        shape = t.choose([(2, 2), (2, 3), (3, 2)], "shape")
        axis = t.choose((0, 1, -1, None), "axis")
        pat = t.choose(("none", "mixed", "mixed2", "zero", "nan"), "errors")
        a = np.array([[t.choose(values, f"x{i}{j}") for j in range(shape[1])] for i in range(shape[0])])
        errs = errors_for(pat, a.size)
        errs = None if errs is None else errs.reshape(shape)
        wfull = None if errs is None else weights(errs.ravel().tolist(), a.size)
        wf = None if wfull is None else np.array(wfull).reshape(shape)
        if axis is None:
            lines = [(a.ravel().tolist(), None if wf is None else wf.ravel().tolist())]
        else:
            b = a if axis in (1, -1) else a.T
            wb = None if wf is None else (wf if axis in (1, -1) else wf.T)
            lines = [(b[i].tolist(), None if wb is None else wb[i].tolist()) for i in range(b.shape[0])]

        def cmp(got, fn, what):
            want = [fn(*ln) for ln in lines]
            close(np.ravel(np.asarray(got, dtype=float)), np.array(want), f"{what} of {a.tolist()} along {axis}, errors {pat}", 1e-6)
        cmp(lib.call(stats.weighted_mean, a, errors=errs, axis=axis), mean, "mean")
        cmp(lib.call(stats.weighted_rms, a, errors=errs, axis=axis), lambda x, w: math.sqrt(mean([v * v for v in x], w)), "rms")
        cmp(lib.call(stats.rms, a, axis=axis), lambda x, w: math.sqrt(mean([v * v for v in x], None)), "rms")
        cmp(lib.call(stats.weighted_error, a, errors=errs, axis=axis), lambda x, w: werror(x, w, True), "error")
        cmp(lib.call(stats.weighted_error, a, errors=errs, axis=axis, t_value_corr=False), lambda x, w: werror(x, w, False), "error")
        if all(cmean(x, w, 2 * math.pi)[1] > 1e-6 for x, w in lines):
            cmp(lib.call(stats.circular_mean, a, errors=errs, axis=axis), lambda x, w: cmean(x, w, 2 * math.pi)[0], "circular mean")
            cmp(lib.call(stats.circular_error, a, errors=errs, axis=axis), lambda x, w: cerror(x, w, 2 * math.pi, True), "circular error")
        wn = None if wf is None else wf
        cmp(stats.effective_sample_size(a, wn, axis=axis), neff, "effective sample size")
        cmp(stats.unbias_variance(a, wn, axis=axis), lambda x, w: neff(x, w) / (neff(x, w) - 1), "variance correction")
        if pat == "none" and axis is not None:   # missing entries per line
            d = a.copy()
            d[0, 0] = NAN
            b = d if axis in (1, -1) else d.T
            cl = [[v for v in row if v == v] for row in b.tolist()]
            close(np.asarray(stats.weighted_nanmean(d, axis=axis), dtype=float), [mean(c, None) for c in cl], "mean with a missing entry along an axis", 1e-6)
            close(np.asarray(stats.weighted_nanrms(d, axis=axis), dtype=float), [math.sqrt(mean([v * v for v in c], None)) for c in cl], "rms with a missing entry along an axis", 1e-6)
            if all(cmean(c, None, 2 * math.pi)[1] > 1e-6 for c in cl):
                close(np.asarray(stats.circular_nanerror(d, axis=axis), dtype=float), [cerror(c, None, 2 * math.pi, True) for c in cl], "circular error with a missing entry along an axis", 1e-6)
        return (shape, axis, pat, lib.rounded(a))
    return body


def three_d(t):
    """along one or several axes, with and without missing entries = every line on its own"""
    from pySC.utils import stats
    shape = t.choose([(2, 2, 2), (2, 3, 2), (3, 2, 4)], "shape")
    axis = t.choose((0, 1, 2, -1, -2, (0, 1), (0, 2), (1, 2), (2, 0), (-1, -3), (0, 1, 2), None), "axis")
    pat = t.choose(("none", "mixed", "equal"), "errors")
    size = int(np.prod(shape))
    vals = [0.2, 1.0, -0.5, 0.7, -1.1]
    seed = t.choose(range(4), "values")
    a = np.array([vals[(k * k + seed * k + seed) % 5] + 0.01 * k for k in range(size)]).reshape(shape)
    miss = t.choose((None,) + tuple(range(0, size, 3)), "missing")
    miss2 = t.choose((None, 1, size - 1), "also missing") if miss is not None else None
    gone = np.zeros(size, dtype=bool)
    for k in (miss, miss2):
        if k is not None:
            gone[k] = True
    gone = gone.reshape(shape)
    errs = {"none": None, "mixed": (0.5 + np.arange(size) % 4 * 0.25).reshape(shape), "equal": np.full(shape, 0.3)}[pat]
    wf = None if errs is None else 1 / errs ** 2
    axes = tuple(range(3)) if axis is None else tuple(sorted(x % 3 for x in np.atleast_1d(axis)))
    rest = [x for x in range(3) if x not in axes]
    line = lambda b: np.transpose(b, rest + list(axes)).reshape(int(np.prod([shape[x] for x in rest], dtype=int)), -1)     # noqa
    la, lg, lw = line(a), line(gone), None if wf is None else line(wf)
    lines = [(la[i][~lg[i]].tolist(), None if lw is None else lw[i][~lg[i]].tolist()) for i in range(len(la))]
    if any(len(x) < 1 for x, w in lines):
        raise Skip()
    outshape = tuple(shape[x] for x in rest)

    def cmp(got, fn, what):
        want = np.array([fn(*ln) for ln in lines]).reshape(outshape)
        got = np.asarray(got, dtype=float)
        lib.need(got.shape == want.shape, f"{what} of shape {shape} along {axis}: result of shape {got.shape}")
        close(got, want, f"{what} of {a.tolist()} along {axis}, errors {pat}, missing {np.argwhere(gone).tolist()}", 1e-6)
    kw = dict(errors=errs, axis=axis)
    T = 2 * math.pi
    ok = all(cmean(x, w, T)[1] > 1e-6 for x, w in lines)
    rmsq = lambda x, w: math.sqrt(mean([v * v for v in x], w))     # noqa
    if miss is None:
        cmp(lib.call(stats.weighted_mean, a, **kw), mean, "mean")
        cmp(lib.call(stats.weighted_rms, a, **kw), rmsq, "rms")
        cmp(lib.call(stats.rms, a, axis=axis), lambda x, w: rmsq(x, None), "rms")
        for tc in (True, False):
            cmp(lib.call(stats.weighted_error, a, t_value_corr=tc, **kw), lambda x, w: werror(x, w, tc), "error")
            if ok:
                cmp(lib.call(stats.circular_error, a, t_value_corr=tc, **kw), lambda x, w: cerror(x, w, T, tc), "circular error")
        if ok:
            cmp(lib.call(stats.circular_mean, a, **kw), lambda x, w: cmean(x, w, T)[0], "circular mean")
    d = np.where(gone, NAN, a)
    cmp(lib.call(stats.weighted_nanmean, d, **kw), mean, "mean of the values present")
    cmp(lib.call(stats.weighted_nanrms, d, **kw), rmsq, "rms of the values present")
    if ok:
        cmp(lib.call(stats.circular_nanmean, d, **kw), lambda x, w: cmean(x, w, T)[0], "circular mean of the values present")
        for tc in (True, False):
            cmp(lib.call(stats.circular_nanerror, d, t_value_corr=tc, **kw), lambda x, w: cerror(x, w, T, tc), "circular error of the values present")
    return (shape, axis, pat, seed, miss, miss2)


def small_sample(t):
    from pySC.utils import stats
    ns = [t.choose((0.0, 0.5, 1.0, 1.999, 2.0, 2.001, 3.0, 5.0, 50.0), f"n{i}") for i in range(2)]
    close(stats.t_value_correction(np.array(ns)), [tcorr(n) for n in ns], f"small-sample factor for sizes {ns}")
    errs = np.array([t.choose((1.0, 0.5, 0.0, NAN), f"e{i}") for i in range(3)])
    period = t.choose((2 * math.pi, 1.0), "period")
    w = lib.call(stats.weights_from_errors, errs, period=period)
    if np.any(np.isnan(errs)) or np.any(errs == 0):
        lib.need(w is None, f"weights {w} used although errors are {errs.tolist()}")
    else:
        r = np.asarray(w) / (1 / errs ** 2)
        close(r / r[0], np.ones(3), f"weights from errors {errs.tolist()}")
    return (tuple(ns), lib.rounded(errs), period)


def jobs(tier):
    q = tier == "quick"
    v = (0.0, 1.0, -0.5, 3.0, 6.2) if q else (0.0, 1.0, -0.5, 3.0, 6.2, 0.3)
    return [TapeJob("one-dimensional", one_d(v, 3 if q else 4), shards=8, depth=3),
            TapeJob("missing values", missing((0.0, 1.0, -0.5, 6.2), 3 if q else 4), shards=8, depth=3),
            TapeJob("two-dimensional", two_d((0.2, 1.0, -0.5) if not q else (0.2, 1.0)), shards=8, depth=3),
            TapeJob("three-dimensional", three_d, shards=8, depth=3),
            TapeJob("small samples and weights", small_sample)]
