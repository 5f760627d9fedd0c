"""Documented definitions shared by the specifications: bin edges, histograms (plain numbers, written from the documentation)."""
import math
from statistics import NormalDist

INF = float('inf')


def edges(x, y, lab, nb, strategy, rng=None):
    """cut points of one descriptor"""
    if strategy == 'equal_width':
        lo, hi = (min(x), max(x)) if rng is None else rng
        if lo == hi:
            lo, hi = lo - .5, hi + .5
        e = [lo + (hi - lo) * i / nb for i in range(nb + 1)]
    elif strategy == 'equal_count':
        s = sorted(x)
        e = [0.0] * (nb + 1)
        for i in range(1, nb):
            q = int(round(len(s) * i / nb))
            e[i] = (s[q - 1] + s[q]) / 2
    else:
        groups = [[a for a, b in zip(x, y) if b == l] for l in lab]
        if strategy == 'binormal':
            mu = sum(sum(g) / len(g) for g in groups) / 2
            sd = sum(math.sqrt(sum((a - sum(g) / len(g)) ** 2 for a in g) / len(g)) for g in groups) / 2
        else:
            # every class has the same weight
            mu = sum(sum(g) / len(g) for g in groups) / len(groups)
            sd = math.sqrt(sum(sum((a - mu) ** 2 for a in g) / len(g) for g in groups) / len(groups))
        if sd > 0:
            e = [0.0] + [mu + sd * NormalDist().inv_cdf(i / nb) for i in range(1, nb)] + [0.0]
        else:
            e = [-.5 + i / nb for i in range(nb + 1)]
    e[0], e[-1] = -INF, INF
    return e


def hist(x, e, cdf=False):
    """proportions of x in the bins [e0, e1) [e1, e2) ..."""
    h = [0] * (len(e) - 1)
    for v in x:
        for j in range(len(h)):
            if e[j] <= v < e[j + 1]:
                h[j] += 1
                break
    h = [k / len(x) for k in h]
    if cdf:
        for j in range(1, len(h)):
            h[j] += h[j - 1]
    return h


def near_edge(x, e, eps=1e-9):
    """some value lies on a cut point (up to rounding)"""
    return any(abs(v - c) <= eps for v in x for c in e)
