"""Every matrix of a bounded family (all small integer matrices of several shapes; every product of fixed rotations with
every singular-value tuple over a small set, incl. zeros and repeated values) x every number of removed singular values
x regularisation x damping is inverted by the real code and compared with an inverse built independently."""
import itertools

import numpy as np
from mc import lib
from mc.core import TapeJob, Skip

ALPHAS = (0, 0.5, 2.0)
DAMP = (1, 0.3)


def _pinv():
    from pySC.utils.sc_tools import pinv
    return pinv


def ref_from_svd(u, s, vt, removed, alpha, damping):
    """sum over largest kept nonzero singular values"""
    idx = sorted(range(len(s)), key=lambda i: -s[i])
    keep = idx[:max(0, len(s) - removed)]
    out = np.zeros((vt.shape[1], u.shape[0]))
    for i in keep:
        if s[i] > 0:
            f = s[i] / (s[i] ** 2 + alpha ** 2)
            out += damping * f * np.outer(vt[i], u[:, i])
    return out


def orth(n, seed):
    """fixed orthogonal matrices from plane rotations"""
    q = np.eye(n)
    for i, j in itertools.combinations(range(n), 2):
        a = 0.3 + 0.7 * i + 0.37 * j + seed
        r = np.eye(n)
        r[i, i] = r[j, j] = np.cos(a)
        r[i, j], r[j, i] = -np.sin(a), np.sin(a)
        q = q @ r
    return q


def body_svd(shapes, values):
    def body(t):
        m, n = t.choose(shapes, "shape")
        k = min(m, n)
        s = [t.choose(values, f"s{i}") for i in range(k)]
        scale = t.choose((1.0, 1e-7, 1e6), "scale")
        removed = t.choose(range(0, k + 2), "removed")
        alpha = t.choose(ALPHAS, "alpha") * scale
        damping = t.choose(DAMP, "damping")
        order = sorted(s, reverse=True)
        cut = max(0, k - removed)
        if 0 < cut < k and order[cut - 1] == order[cut] and order[cut] > 0:
            raise Skip()    # truncation inside a degenerate group: which vectors are kept is not determined
        u, vt = orth(m, 0.1)[:, :k], orth(n, 0.9)[:k]
        a = (u * (np.array(s) * scale)) @ vt
        got = lib.call(_pinv(), a, num_removed=removed, alpha=alpha, damping=damping)
        want = ref_from_svd(u, np.array(s) * scale, vt, removed, alpha, damping)
        lib.need(np.all(np.isfinite(got)), f"non-finite inverse of {a.tolist()}")
        lib.need_close(got, want, f"inverse of {a.tolist()}, removed={removed}, alpha={alpha}, damping={damping}",
                       rtol=1e-7, atol=1e-9 / scale)
        if removed == 0 and alpha == 0 and damping == 1:
            lib.need_close(lib.call(_pinv(), a), want, "default call is Moore-Penrose", rtol=1e-7, atol=1e-9 / scale)
        return (m, n, tuple(s), removed, alpha, damping)
    return body


def body_int(shapes, entries):
    def body(t):
        m, n = t.choose(shapes, "shape")
        a = np.array([[float(t.choose(entries, f"a{i}{j}")) for j in range(n)] for i in range(m)])
        removed = t.choose((0, 1), "removed")
        alpha = t.choose((0, 0.5), "alpha")
        want = None
        # independent spectral decomposition of a^T a
        w, v = np.linalg.eigh(a.T @ a)
        w = np.where(w < 1e-10, 0, w)
        k = min(m, n)
        sv = np.sqrt(w[::-1][:k])
        vec = v[:, ::-1][:, :k]
        cut = k - removed
        if 0 < cut < k and sv[cut] > 0 and abs(sv[cut - 1] - sv[cut]) < 1e-6:
            raise Skip()
        want = np.zeros((n, m))
        for i in range(cut):
            if sv[i] > 0:
                want += np.outer(vec[:, i], (a @ vec[:, i])) / (sv[i] ** 2 + alpha ** 2)
        got = lib.call(_pinv(), a, num_removed=removed, alpha=alpha)
        lib.need(np.all(np.isfinite(got)), f"non-finite inverse of {a.tolist()}")
        lib.need_close(got, want, f"inverse of {a.tolist()}, removed={removed}, alpha={alpha}", rtol=1e-6, atol=1e-8)
        if removed == 0 and alpha == 0:
            p = got
            for name, x, y in (("a p a = a", a @ p @ a, a), ("p a p = p", p @ a @ p, p), ("a p symmetric", a @ p, (a @ p).T),
                               ("p a symmetric", p @ a, (p @ a).T)):
                lib.need_close(x, y, f"Moore-Penrose condition {name} for {a.tolist()}", atol=1e-8)
        return (m, n, lib.rounded(sv), removed, alpha)
    return body


def jobs(tier):
    q = tier == "quick"
    sh = [(1, 1), (2, 2), (3, 2), (2, 4), (3, 3), (1, 3), (4, 3)] if q else \
        [(m, n) for m in range(1, 6) for n in range(1, 6)]
    vals = (2.0, 0.0, 1.0, 0.25) if q else (2.0, 0.0, 1.0, 0.25, 1e-4)
    out = [TapeJob("by singular values", body_svd(sh, vals), shards=8, depth=3),
           TapeJob("2x2 integer", body_int([(2, 2), (1, 4), (4, 1)], (0, 1, -1, 2) if q else (0, 1, -1, 2, 3, -2)), shards=8, depth=3),
           TapeJob("2x3 integer", body_int([(2, 3), (3, 2)], (0, 1) if q else (0, 1, -1)), shards=8, depth=4)]
    if not q:
        out.append(TapeJob("3x3 integer", body_int([(3, 3)], (0, 1, -1)), shards=16, depth=5))
    return out
