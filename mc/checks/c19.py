"""The random source is an environment the explorer answers: for every requested shape and cut-off, every pattern of
(accepted, rejected-high, rejected-low) draws up to a number of rejections is fed to the real generator; every value handed
out carries a unique label so that each returned number can be traced to the draw it came from."""
import numpy as np
from mc import lib, env
from mc.core import TapeJob, Violation


def body(shapes, cuts, max_rejected_total):
    def run(t):
        from pySC.utils.sc_tools import randnc
        shape = t.choose(shapes, "shape")
        cut = t.choose(cuts, "cutoff")
        n = int(np.prod(shape)) if len(shape) else 1
        count = [0]
        budget = [max_rejected_total]
        c = abs(cut)

        def source(k):
            out = []
            for _ in range(k):
                i = count[0]
                count[0] += 1
                if i > 400:
                    raise Violation("generator does not terminate although accepted draws were offered")
                opts = ("in", "in-") + (("hi", "lo") if budget[0] else ())
                what = t.choose(opts, f"draw{i}", dev=True)
                if what in ("hi", "lo"):
                    budget[0] -= 1
                lab = 1e-3 * (i + 1)
                out.append({"in": c * (0.2 + lab), "in-": -c * (0.3 + lab), "hi": c * (1.05 + lab), "lo": -c * (1.07 + lab)}[what])
            return np.array(out)
        with env.seams(rng_source=source):
            got = randnc(cut, shape) if t.choose((0, 1), "keywords") == 0 else randnc(cut_off=cut, shape=shape)
            log = list(env.rng.log)
        lib.need(np.shape(got) == tuple(shape), f"shape {shape}: result has shape {np.shape(got)}")
        vals = np.ravel(got).tolist()
        lib.need(len(vals) == n, "number of values")
        for v in vals:
            lib.need(np.isfinite(v) and abs(v) <= c, f"value {v} beyond the cut-off {c} (shape {shape}, draws {log})")
            lib.need(v in log, f"value {v} is none of the draws {log}")
        lib.need(len(set(vals)) == len(vals), f"a draw was used twice: {vals}")
        # a first-pass accepted draw stays where the generator put it
        if len(log) >= n:
            for i, v in enumerate(log[:n]):
                if abs(v) <= c and n > 0:
                    lib.need(v in vals, f"accepted draw {v} was dropped (draws {log}, result {vals})")
        return (shape, cut, tuple("io"[abs(v) > c] for v in log))
    return run


def neg(t):
    from pySC.utils.sc_tools import randnc
    shape = t.choose([(-1,), (2, -1), (-2, 3), (-1, -1), (0, -1), (3, 0, -2)], "shape")
    with env.seams(rng_source=lambda k: np.zeros(k)):
        lib.rejects(randnc, 2, shape, what=f"negative shape {shape}")
    return shape


def default(t):
    """default arguments: cut-off two, one value"""
    from pySC.utils.sc_tools import randnc
    vals = t.choose([(2.5, -1.99), (-2.01, 1.0), (1.5, 3.0), (-1.999, 0.0)], "draws")
    it = iter(list(vals) + [0.5] * 50)
    with env.seams(rng_source=lambda k: np.array([next(it) for _ in range(k)])):
        got = randnc()
    lib.need(np.shape(got) == (1,), "default shape is one value")
    lib.need(np.ravel(got)[0] == next(v for v in vals if abs(v) <= 2), f"default cut-off: draws {vals}, got {got}")
    return vals


def jobs(tier):
    q = tier == "quick"
    shapes = [(), (1,), (2,), (3,), (2, 2), (1, 1), (0,), (0, 3), (1, 3), (4,)] + ([] if q else [(6,), (2, 1, 3), (5,)])
    return [TapeJob("draw patterns", body(shapes, (2, 1.0, -1.5, 0.5, 7), 3 if q else 5), max_dev=4 if q else 6, shards=8, depth=2),
            TapeJob("negative shapes", neg), TapeJob("defaults", default)]
