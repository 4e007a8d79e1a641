"""Small helpers on all small inputs: multipole tables (all positions of the nominal component, formats, orders), name patterns on all short name sequences,
equally spaced selections of all sizes, beta beat of all small gradient patterns."""
import os
import re
import shutil
import tempfile

import numpy as np
import at
from mc import lib, env  # noqa: F401
from mc.core import TapeJob, Skip

A = np.array


def tables(maxn):
    def run(t):
        from pySC.utils.sc_tools import read_multipoles
        n = t.choose(tuple(range(1, maxn + 1)), "orders")
        nom = t.choose(("none",) + tuple((i, j) for i in range(n) for j in (0, 1)) + ("two",), "nominal component")
        form = t.choose(("{:d} {:.15g} {:.15g}\n", "  {:d}\t{:.9e}   {:.9e} \n", "{:d} {:f} {:f}\n\n"), "format")
        other = t.choose((0, 1, 2, 3), "other values")
        start = t.choose((0, 1), "first order number")
        broken = t.choose((False, True), "incomplete", dev=False)
        if (nom == "two" and n < 2) or (broken and other):
            raise Skip()
        # distinct other values; never 1
        v = lambda i, j: ((0.0, 1e-4 * (1 + i) * (1 if j else -2), (-1) ** i * 0.25 * (i + 1) + 0.125 * j + 2, 1.5 if (i + j) % 2 else 0.0)[other])
        raw = A([[v(i, 0), v(i, 1)] for i in range(n)], dtype=float)
        if nom == "two":
            raw[0, 1] = raw[n - 1, 1] = 1.0
        elif nom != "none":
            raw[nom] = 1.0
        text = "".join(form.format(start + i, raw[i, 0], raw[i, 1]) for i in range(n))
        if broken:
            text += f"{n + start} 0.25\n"
        d = tempfile.mkdtemp(prefix="mc32")
        try:
            f = os.path.join(d, "table.txt")
            with open(f, "w") as h:
                h.write(text)
            got = lib.call(read_multipoles, f)
            with open(f) as h:
                lib.need(h.read() == text, "the table file was changed")
        finally:
            shutil.rmtree(d)
        what = f"multipole table {raw.tolist()} in format {form!r}"
        if broken:
            lib.need(got is None, f"incomplete {what}: returned {got}")
            return ("broken", n)
        lib.need(isinstance(got, tuple) and len(got) == 3, f"{what}: returned {got}")
        ab, order, kind = got
        lib.need_close(ab, raw[:, ::-1], what, atol=1e-15)
        if nom not in ("none", "two"):
            lib.need(order == nom[0] and kind == nom[1], f"{what}: nominal component reported as order {order} column {kind}, is {nom}")
        return (n, str(nom), other)
    return run


NAMES = ("QF", "QD", "QF1", "BPM", "bpm", "AQF")
PAT = ("QF", "^QF$", "QF|QD", "^Q", "BPM$", "B.M", "(?i)bpm", "X", "", "F1?$", "[QB]", r"\d")


def names(maxlen):
    def run(t):
        from pySC.utils.sc_tools import ords_from_regex
        n = t.choose(tuple(range(1, maxlen + 1)), "elements")
        seq = [t.choose(NAMES, f"name {i}") for i in range(n)]
        ring = lib.ring_of([at.Marker(x, PassMethod="IdentityPass") for x in seq])
        for p in PAT:
            got = ords_from_regex(ring, p)
            want = [i for i, x in enumerate(seq) if re.search(p, x)]
            lib.need(isinstance(got, np.ndarray) and got.ndim == 1 and np.issubdtype(got.dtype, np.integer), f"{p!r} in {seq}: {got!r} is no array of ordinates")
            lib.need(list(got) == want, f"{p!r} in {seq}: {got}, expected {want}")
        lib.need([e.FamName for e in ring] == seq, "the lattice was changed")
        return tuple(seq)
    return run


def spaced(maxn):
    def run(t):
        from pySC.correction.loco import select_equally_spaced_elements
        n = t.choose(tuple(range(2, maxn + 1)), "available")
        k = t.choose(tuple(range(3, maxn + 1)), "wanted")
        kind = t.choose(("array", "list"), "kind")
        if k > n:
            raise Skip()
        full = [7 * i + (i * i) % 5 for i in range(n)]
        got = list(lib.call(select_equally_spaced_elements, A(full) if kind == "array" else full, k))
        pos = [full.index(x) for x in got]
        lib.need(pos and pos[0] == 0, f"{k} of {n}: selected {pos}, without the first")
        lib.need(len(set(np.diff(pos))) <= 1 and all(d > 0 for d in np.diff(pos)), f"{k} of {n}: selected {pos}")
        if (n - 1) % (k - 1) == 0:
            lib.need(pos == list(range(0, n, (n - 1) // (k - 1))), f"{k} of {n}: selected {pos}")
        lib.need(len(pos) >= k - 1, f"{k} of {n}: selected only {pos}")
        return (n, k, kind)
    return run


def beating(nvals):
    def run(t):
        from pySC.correction.loco import model_beta_beat
        lib.fodo(2)
        ring = lib._cache[("fodo", 2)].deepcopy()
        quads = [i for i, e in enumerate(ring) if e.FamName in ("QF", "QD")]
        where = t.choose(("all", "BPM", "two", "end"), "elements")
        idx = {"all": A(range(len(ring))), "BPM": A([i for i, e in enumerate(ring) if e.FamName == "BPM"]), "two": A([3, 17]), "end": A([len(ring)])}[where]
        base = t.choose((0.0, 0.02), "reference not at design", dev=True)
        vals = (0.0, 0.02, -0.03)[:nvals]
        err = [t.choose(vals, f"quadrupole {i}") for i in quads[:3]]

        def shifted(lat, d):
            lat = lat.deepcopy()
            for i, v in zip(quads, d):
                lat[i] = lat[i].deepcopy()
                pb = lat[i].PolynomB.copy()
                pb[1] *= 1 + v
                lat[i].PolynomB = pb
            return lat
        ref, ring = shifted(ring, [base]), shifted(ring, err)
        _, _, tw = at.get_optics(ref, idx)
        _, _, te = at.get_optics(ring, idx)
        s0 = lib.snap_lattice(ring)
        b0 = tw.beta.copy()
        got = model_beta_beat(ring, tw, idx)
        lib.need(not lib.differences(lib.snap_lattice(ring), s0), "the lattice was changed")
        lib.need(np.array_equal(tw.beta, b0), "the reference optics were changed")
        want = [np.sqrt(sum((te.beta[k, j] / tw.beta[k, j] - 1) ** 2 for k in range(len(idx))) / len(idx)) for j in (0, 1)]
        lib.need_close(A(got), A(want), f"beta beat at {where} for gradient errors {err}, reference {base}", rtol=1e-6, atol=1e-9)
        return (where, tuple(err), base)
    return run


def jobs(tier):
    q = tier == "quick"
    return [TapeJob("multipole tables", tables(3 if q else 6), shards=8, depth=2), TapeJob("name patterns", names(4 if q else 5), shards=16, depth=2),
            TapeJob("equally spaced", spaced(14 if q else 40), shards=4, depth=1), TapeJob("beta beat", beating(3), max_dev=1, shards=16, depth=3)]
