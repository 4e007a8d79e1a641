"""Injected-beam environment: answers of tracking and closed-orbit search are tables chosen by the driver; prediction of readings from the tables."""
import hashlib

import numpy as np
from mc import lib

A = np.array
NAN = float("nan")
BPMS = (3, 12, 16)


class Beam:
    """true(shot, particle, ref, turn) -> (x, y) or None when lost.  Values are added to the particle's injected coordinates."""

    def __init__(self, true, mark="Marked"):
        self.true, self.mark, self.shot, self.inputs, self.nturns = true, mark, 0, [], []

    def track(self, lattice, r_in, nturns, refs):
        lib.need(getattr(lattice[1], self.mark, False), "tracking of a lattice other than the machine")
        r_in = np.asarray(r_in, dtype=float).reshape(6, -1)
        n = r_in.shape[1]
        out = np.zeros((6, n, len(refs), nturns))
        for p in range(n):
            for k, r in enumerate(refs):
                for t in range(nturns):
                    v = self.true(self.shot, p, int(r), t)
                    if v is None:
                        out[0, p, k, t] = NAN          # AT: first coordinate NaN, others 0
                    else:
                        out[:, p, k, t] = r_in[:, p]
                        out[0, p, k, t] += v[0]
                        out[2, p, k, t] += v[1]
        self.shot += 1
        self.inputs.append(r_in)
        self.nturns.append(nturns)
        return out

    def orbit(self, ring, refs):
        lib.need(getattr(ring[1], self.mark, False), "closed orbit of a lattice other than the machine")
        o = np.zeros((len(refs), 6))
        for k, r in enumerate(refs):
            v = self.true(self.shot, 0, int(r), 0)
            o[k, 0], o[k, 2] = (NAN, NAN) if v is None else v
        self.shot += 1
        return np.zeros(6), o


def machine(bpms=BPMS, n=1, turns=1, shots=1, mode="TBT"):
    m = lib.Machine()
    sc = m.sc
    sc.register_bpms(A(bpms))
    sc.RING[1].Marked = True
    sc.INJ.trackMode = mode
    if mode != "ORB":
        sc.INJ.nParticles, sc.INJ.nTurns = n, turns
    sc.INJ.nShots = shots
    return sc


def clean(el, x, y):
    """reading without noise: rotation by the total roll, minus total offset, calibrated"""
    a = float(np.ravel(el.Roll)[0]) + float(np.ravel(el.SupportRoll)[0])
    rx, ry = np.cos(a) * x - np.sin(a) * y, np.sin(a) * x + np.cos(a) * y
    o = np.asarray(el.Offset) + np.asarray(el.SupportOffset)
    c = np.asarray(el.CalError)
    return (rx - o[0]) * (1 + c[0]), (ry - o[1]) * (1 + c[1])


def labels(n, start=0):
    """distinct values in (-1.9, 1.9), away from zero, with distinct sums"""
    f = A([int(hashlib.md5(b"%d" % k).hexdigest()[:12], 16) / 16 ** 12 for k in range(start, start + n)], dtype=float)
    return np.where(f < 0.5, -1.9 + f * 3.4, 0.2 + (f - 0.5) * 3.4)


class Labels:
    def __init__(self):
        self.n = 0

    def __call__(self, n):
        v = labels(n, self.n)
        self.n += n
        return v
