"""Documented definitions of the quantifiers, over plain numbers (written from the documentation and the cited papers).

documented(q, o, data) is ('value', prevalences) or ('loss', f): f gives the documented distance between the description
of the testing sample and the mixture of the class descriptions with the given prevalences; a constant or monotone change
of it defines the same estimate."""
import math
from statistics import mean

from . import spec as SP
from .valuate import NoValue, linsolve

INF = float('inf')


class D(object):
    """one training sample and one testing sample"""

    def __init__(self, X, y, P, Z, Q, lab, userfun=None, forced=()):
        rows = len(P) // len(y) if P else 1
        self.X, self.y, self.P, self.Z, self.Q, self.lab = X, y, P, Z, Q, lab
        self.ye = list(y) * rows
        self.c = len(lab)
        self.userfun = userfun
        self.forced = forced

    def of(self, k, rows=None, y=None):
        rows = self.P if rows is None else rows
        return [r for r, v in zip(rows, self.ye if y is None else y) if v == self.lab[k]]


def prop(x, lab):
    return [sum(1 for v in x if v == l) / len(x) for l in lab]


def clipped(p):
    v = [min(1, max(0, a)) for a in (1 - p, p)]
    if not sum(v):
        raise NoValue('nothing to normalise')
    return [a / sum(v) for a in v]


def cols(rows, which):
    return [[r[a] for r in rows] for a in which]


def mixture(des, p):
    return [sum(w * d[i] for w, d in zip(p, des)) for i in range(len(des[0]))]


def distance(name, d, userfun=None):
    name = {'l1': 'L1', 'l2': 'L2'}.get(getattr(name, 'target', None), name)
    if name in ('L1', 'EMD'):
        return lambda a, b: sum(abs(x - y) for x, y in zip(a, b))
    if name == 'L2':
        return lambda a, b: sum((x - y) ** 2 for x, y in zip(a, b))
    if name == 'HD':
        return lambda a, b: 1 - sum(math.sqrt(max(0.0, x * y)) for x, y in zip(a, b))
    return lambda a, b: userfun(a, b)


def loss(des, test, dist):
    return ('loss', lambda p: dist(mixture(des, p), test))


# ---------------------------------------------------------------------------------------- counting
def cc(q, o, d):
    return ('value', prop(d.Q, d.lab))


def pcc(q, o, d):
    return ('value', [mean(r[k] for r in d.Q) for k in range(d.c)])


def adjust(cm, raw, o, c, forced=(), solver=None):
    """cm[i][j]: how often class i is taken for class j"""
    if c == 2:
        gap = cm[1][1] - cm[0][1]
        if abs(abs(gap) - 0.001) < 1e-6:
            raise NoValue('threshold')
        if abs(gap) > 0.001:
            return ('value', clipped((raw[1] - cm[0][1]) / gap))
        return ('value', raw)
    if solver is None:
        x = None if 'singular' in forced else linsolve([[cm[j][i] for j in range(c)] for i in range(c)], raw)
        if x is not None:
            x = [max(0.0, v) for v in x]
            if not sum(x):
                raise NoValue('nothing to normalise')
            return ('value', [v / sum(x) for v in x])
        solver = o.get('distance')
    return loss(cm, raw, distance(solver, None))


def ac(q, o, d):
    cm = [prop(d.of(k), d.lab) for k in range(d.c)]
    return adjust(cm, prop(d.Q, d.lab), dict({'distance': 'HD'}, **o), d.c, d.forced)


def pac(q, o, d):
    cm = [[mean(r[j] for r in d.of(k)) for j in range(d.c)] for k in range(d.c)]
    return adjust(cm, [mean(r[j] for r in d.Q) for j in range(d.c)], dict({'distance': 'L2'}, **o), d.c, d.forced)


def acordinal(q, o, d):
    def cum(v):
        return [sum(v[:i + 1]) for i in range(len(v))]
    return loss([cum(prop(d.of(k), d.lab)) for k in range(d.c)], cum(prop(d.Q, d.lab)), distance('L1', d))


def pwkq(q, o, d):
    w = {l: 1 - sum(1 for v in d.y if v == l) / len(d.y) for l in d.lab}

    def label(x):
        near = sorted(range(len(d.X)), key=lambda i: (round(sum((a - b) ** 2 for a, b in zip(d.X[i], x)), 9), i))[:10]
        if len(near) < 10:
            raise NoValue('too few examples')
        s = [sum(w[d.y[i]] for i in near if d.y[i] == l) for l in d.lab]
        if sum(1 for v in s if abs(v - max(s)) < 1e-9) > 1:
            raise NoValue('tie')
        return d.lab[s.index(max(s))]
    pt = [label(x) for x in d.X]
    cm = [prop([p for p, v in zip(pt, d.y) if v == l], d.lab) for l in d.lab]
    return adjust(cm, prop([label(x) for x in d.Z], d.lab), o, d.c, solver='L1')


def debias(q, o, d):
    p1 = sum(1 for v in d.y if v == d.lab[1]) / len(d.y)
    vt = mean((r[1] - p1) ** 2 for r in d.P) / (p1 * (1 - p1))
    return ('value', clipped(p1 + (mean(r[1] for r in d.Q) - p1) / vt))


def em(q, o, d):
    pr = prop(d.y, d.lab)
    p, old, n = list(pr), [1.0] * d.c, 0
    while n < 1000 and (mean(abs(a - b) for a, b in zip(p, old)) > 1e-4 or n < 10):
        post = []
        for r in d.Q:
            v = [r[k] * p[k] / pr[k] for k in range(d.c)]
            if not sum(v):
                raise NoValue('nothing to normalise')
            post.append([a / sum(v) for a in v])
        old, p = p, [mean(r[k] for r in post) for k in range(d.c)]
        n += 1
    return ('value', p)


# ---------------------------------------------------------------------------------------- histograms
DFDEF = dict(distribution_function='PDF', n_bins=8, bin_strategy='equal_width', distance='HD')


def histograms(q, o, d):
    o = dict(DFDEF, **o)
    if q.cls.startswith('MM'):
        o.update(distribution_function='CDF', distance='L1')
    y = d.ye
    if q.cls.endswith('X'):
        which, rng, train, test, y = range(len(d.X[0])), None, d.X, d.Z, d.y
    else:
        which, rng, train, test = (range(d.c) if d.c > 2 else [0]), [0.0, 1.0], d.P, d.Q
    es = [SP.edges(v, y, d.lab, o['n_bins'], o['bin_strategy'], rng) for v in cols(train, which)]
    for v, e in zip(cols(train + test, which), es):
        if o['bin_strategy'] != 'equal_count' and SP.near_edge(v, e) and not (
                o['bin_strategy'] == 'equal_width' and rng and 8 % o['n_bins'] == 0):
            raise NoValue('a value on a cut point')

    def describe(rows):
        v = []
        for c, e in zip(cols(rows, which), es):
            h = SP.hist(c, e)
            v.append([sum(h[:i + 1]) for i in range(len(h))] if o['distribution_function'] == 'CDF' else h)
        return [a for h in v for a in h]
    if o['distance'] == 'HD' and o['distribution_function'] == 'CDF':
        raise NoValue('the Hellinger distance is one between histograms')
    des = [describe(d.of(k, train, y)) for k in range(d.c)]
    return loss(des, describe(test), distance(o['distance'], d, d.userfun))


def friedman(q, o, d):
    pr = prop(d.y, d.lab)
    if any(abs(r[k] - pr[k]) < 1e-12 and r[k] != pr[k] for r in d.P + d.Q for k in range(d.c)):
        raise NoValue('threshold')

    def describe(rows):
        return [sum(1 for r in rows if r[k] >= pr[k]) / len(rows) for k in range(d.c)]
    return loss([describe(d.of(k)) for k in range(d.c)], describe(d.Q), distance(o.get('distance', 'L2'), d, d.userfun))


def pdfordinal(q, o, d):
    o = dict(dict(n_bins=8, distance='L2', method='full_probabilistic'), **o)
    nb = o['n_bins'] * (d.c - 1)

    def score(r):
        if o['method'] == 'full_probabilistic':
            s = sum((k + 1) * v for k, v in enumerate(r))
        else:
            k = next(i for i, v in enumerate(r) if v > 0)
            k = min(k, d.c - 2) + 1
            s = k + r[k]
        f = (s - 1) * o['n_bins']
        if abs(f - round(f)) < 1e-9 and not 0 < f < 1e-9 and round(f) not in (0, nb):
            if f != round(f):
                raise NoValue('a value on a cut point')
        return s

    def describe(rows):
        h = [0.0] * nb
        for r in rows:
            f = int((score(r) - 1) * o['n_bins'] + 1e-12)
            h[min(f, nb - 1)] += 1 / len(rows)
        if o['distance'] == 'EMD':
            h = [sum(h[:i + 1]) for i in range(nb)]
        return h
    return loss([describe(d.of(k)) for k in range(d.c)], describe(d.Q), distance(o['distance'], d))


# ---------------------------------------------------------------------------------------- distances between samples
def energy(q, o, d):
    if o.get('distance'):
        raise NoValue('a distance of the user')
    train, test, y = d.P, d.Q, d.ye
    if q.cls == 'EDX':
        train, test, y = d.X, d.Z, d.y
        dist = lambda a, b: math.sqrt(sum((u - v) ** 2 for u, v in zip(a, b)))
    else:
        dist = lambda a, b: sum(abs(u - v) for u, v in zip(a, b))
    if q.cls == 'CvMy':
        n = len(train)
        both = train + test
        rk = [[0.0] * d.c for _ in both]
        for a in range(d.c):
            v = [r[a] for r in both]
            for i, u in enumerate(v):
                rk[i][a] = sum(1 for w in v if w < u - 1e-12) + (sum(1 for w in v if abs(w - u) <= 1e-12) + 1) / 2
        train, test = rk[:n], rk[n:]
    g = [d.of(k, train, y) for k in range(d.c)]

    def avg(a, b):
        return sum(dist(u, v) for u in a for v in b) / (len(a) * len(b))
    K = [[avg(a, b) for b in g] for a in g]
    t = [avg(a, test) for a in g]
    # energy distance between the mixture and the testing sample, up to a constant
    return ('loss', lambda p: 2 * sum(w * v for w, v in zip(p, t)) -
            sum(p[i] * p[j] * K[i][j] for i in range(d.c) for j in range(d.c)))


# ---------------------------------------------------------------------------------------- line searches
def sordy(q, o, d):
    neg, pos, te = ([r[1] for r in z] for z in (d.of(0), d.of(1), d.Q))

    def f(p):
        pts = sorted(set(neg + pos + te))
        tot = 0.0
        for a, b in zip(pts, pts[1:]):
            w = sum(1 for v in neg if v <= a) * p[0] / len(neg) + sum(1 for v in pos if v <= a) * p[1] / len(pos) - \
                sum(1 for v in te if v <= a) / len(te)
            tot += abs(w) * (b - a)
        return tot
    return ('loss', f)


def quanty(q, o, d):
    nq = o.get('n_quantiles', 8)
    tr = sorted([(r[1], v) for r, v in zip(d.P, d.ye)])
    if len({a for a, v in tr}) < len({t for t in tr}):
        raise NoValue('tie')

    def quantiles(items):
        """average over each of the nq parts of equal weight"""
        tot = sum(w for v, w in items)
        out, cum = [0.0] * nq, 0.0
        for v, w in items:
            lo, hi = cum / tot * nq, (cum + w) / tot * nq
            for j in range(nq):
                out[j] += v * max(0.0, min(hi, j + 1) - max(lo, j))
            cum += w
        return out

    def f(p):
        n = [sum(1 for a, v in tr if v == l) for l in d.lab]
        mix = quantiles([(a, p[d.lab.index(v)] / n[d.lab.index(v)]) for a, v in tr])
        te = quantiles([(r[1], 1.0) for r in sorted(d.Q, key=lambda r: r[1])])
        return distance('L2', d)(mix, te) if not callable(o.get('distance')) else d.userfun(mix, te)
    return ('loss', f)


SPEC = {'CC': cc, 'PCC': pcc, 'AC': ac, 'PAC': pac, 'ACOrdinal': acordinal, 'PWKQuantifier': pwkq, 'DeBias': debias, 'EM': em,
        'DFy': histograms, 'HDy': histograms, 'MMy': histograms, 'DFX': histograms, 'HDX': histograms, 'FriedmanME': friedman,
        'PDFOrdinaly': pdfordinal, 'EDy': energy, 'CvMy': energy, 'EDX': energy, 'SORDy': sordy, 'QUANTy': quanty}
