"""Vectors of many lengths and magnitudes with exactly known moments.

All values are multiples of 1/4 below 2^20 (or such values times a power of
two), so that the sums of whole numbers are exact."""
from fractions import Fraction as F
import math

import numpy as np


def lengths(tier, top=None):
    """around the powers of two and of ten, where blocks begin and end"""
    top = top or (1 << 20 if tier == 'thorough' else 131073)
    out = set()
    for k in range(3, 21):
        for d in (-1, 0, 1):
            out.add((1 << k) + d)
    for n in (100, 500, 1000, 5000, 10000, 20000, 50000, 100000, 200000,
              500000, 1000000):
        for d in (-1, 0, 1):
            out.add(n + d)
    out |= {3 << k for k in range(3, 18)} | {7001, 12289, 40961, 70001}
    return sorted(n for n in out if n <= top)


SHAPES = ('mixed', 'last', 'first', 'blocks', 'middle')


def quarters(n, shape):
    """whole numbers that stand for quarters"""
    i = np.arange(n)
    if shape == 'mixed':
        return (i * 7 + i // 3) % 19 - 6
    if shape == 'blocks':
        return (i * 8 // n) * 3 - 5
    q = np.full(n, 4)
    q[{'last': -1, 'first': 0, 'middle': n // 2}[shape]] = 400
    return q


def moments(q, den=4):
    """mean and standard deviation of q / den for whole numbers q"""
    n = len(q)
    s, s2 = int(q.sum()), int((q * q).sum())
    var = F(n * s2 - s * s, n * n)
    return s / n / den, math.sqrt(var) / den


# powers of two by which values are scaled
POWERS = tuple(range(-140, 141, 7)) + tuple(range(44, 60)) + (-54, -53, 20,
                                                              24, 31, 32)


def near(a, b, tol=1e-12):
    return abs(float(a) - b) <= tol * abs(b)
