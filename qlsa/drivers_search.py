"""The searches (C40): golden_section_search and global_search, interpreted for any distance function.

The result is a term over the loss at the prevalences tried (a recurrence over the bracket, a scan of the grid).  The term
is valued for losses with one or several minima, inside the interval and at its ends, for several tolerances and intervals;
the prevalence returned has to be the one where the loss is least, within the tolerance, and the loss returned has to be
the loss there."""
import math
import random

from . import terms as T
from . import rules as R
from . import np_models as NP
from .drivers import const
from .drivers_est import array, flat
from .scen import World
from .terms import A, P, K, dimatom, ZERO, ONE
from .values import *
from . import valuate as V

FORMS = ('vector', 'column')


def prepare(base, name, form):
    W = World(base, name)
    W.res = {}
    n = dimatom('NB', 2)
    dims = (n,) if form == 'vector' else (n, ONE)
    for nm in ('T', 'POS', 'NEG'):
        setattr(W, nm, W.arr(nm, dims))
    W.num = {}
    for nm in ('TOL', 'LO', 'HI'):
        b = A('src', nm)
        T.CONTRACTS[b] = {'lo': 0, 'hi': 1}
        W.num[nm] = Num(P(A('at', b, ())), 'float')
    W.dist = W.usercall('distance', 'scalar')
    W.mix = base.fn('search', 'mixture_of_pdfs')
    W.form = form
    return W


def golden(base, form):
    W = prepare(base, 'golden_section_search/' + form, form)
    W.subject = 'search.py:golden_section_search'
    f = base.fn('search', 'golden_section_search')
    for k in ('one', 'two'):
        r = W.do(k, f, distance_func=W.dist, mixture_func=W.mix, test_distrib=W.T, tol=W.num['TOL'], a=W.num['LO'],
                 b=W.num['HI'], pos_distrib=W.POS, neg_distrib=W.NEG)
        parts(W, k, r, ('loss', 'p'))
    return W


def scan(base, form):
    W = prepare(base, 'global_search/' + form, form)
    W.subject = 'search.py:global_search'
    f = base.fn('search', 'global_search')

    def run(k, mixtures, ret):
        r = W.do(k, f, distance_func=W.dist, mixture_func=W.mix, test_distrib=W.T, tol=W.num['TOL'], mixtures=mixtures,
                 return_mixtures=const(W, ret), pos_distrib=W.POS, neg_distrib=W.NEG)
        parts(W, k, r, ('mixtures', 'p'))
        return r
    run('not kept', NONE, False)
    r = run('kept', NONE, True)
    if isinstance(r, Tup) and len(r.items) == 2 and isinstance(r.items[0], Ref):
        run('stored', r.items[0], True)
    return W


def parts(W, k, r, names):
    if not W.ok(k):
        return
    if isinstance(r, Tup) and len(r.items) == len(names):
        for nm, v in zip(names, r.items):
            W.store('%s.%s' % (k, nm), v)


# ------------------------------------------------------------------------------------------ losses
def valley(ms, power=1):
    """least of several valleys (place, height, slope to the left, slope to the right)"""
    def f(p):
        return min(h + (l if p < m else r) * abs(p - m) ** power for m, h, l, r in ms)
    f.places = ms
    f.power = power
    return f


def one_valley(a, b):
    """losses with one minimum in [a, b]: (loss, the place where it is least)"""
    rng = random.Random(17)
    h = b - a
    for u in (0.5, 0.1, 0.93, 0.3820, 0.7, 0.0, 1.0, -0.3, 1.4):
        m = a + u * h
        for power in (1, 2):
            yield valley([(m, rng.random(), 0.3 + rng.random(), 0.3 + rng.random())], power), min(max(m, a), b)
    yield valley([((a + b) / 2, 0.2, 1.0, 1.0)]), (a + b) / 2


def several():
    """losses with several minima: (loss, the place where it is least)"""
    rng = random.Random(5)
    out = []
    for k in range(1, 5):
        for places in ('inside', 'grid', 'low', 'high', 'both'):
            ms = []
            if places in ('low', 'both'):
                ms.append(0.0)
            if places in ('high', 'both'):
                ms.append(1.0)
            while len(ms) < max(k, len(ms)):
                m = round(rng.uniform(0.05, 0.95), 2 if places == 'grid' else 6)
                if all(abs(m - x) > 0.14 for x in ms):
                    ms.append(m)
            for best in range(len(ms)):
                hs = [0.1 + 0.05 * rng.randrange(1, 4) for _ in ms]
                hs[best] = 0.1
                f = valley([(m, h, 1 + rng.random(), 1 + rng.random()) for m, h in zip(ms, hs)])
                # a valley hidden by the side of a lower one is no minimum, which is as good
                out.append((f, ms[best]))
    out.append((valley([(-0.2, 0, 1, 1)]), 0.0))
    out.append((valley([(1.3, 0, 1, 1)]), 1.0))
    out.append((valley([(0.005, 0, 1, 1)]), 0.005))
    out.append((valley([(0.995, 0, 1, 1)]), 0.995))
    out.append((valley([(0.5, 0, 1, 1)], 2), 0.5))
    # two neighbours of the grid have the same loss
    out.append((valley([(0.505, 0, 1, 1)]), 0.505))
    out.append((valley([(0.3, 0.2, 1, 1), (0.705, 0.1, 1, 1)]), 0.705))
    return out


def model(W, f, tol, lo, hi):
    m = V.Model({'NB': 2}, {}, None, 1)
    m.limit = 6000000
    col = (lambda v: [[x] for x in v]) if W.form == 'column' else (lambda v: v)
    for nm, v in (('T', [0.0, 0.0]), ('POS', [1.0, 0.0]), ('NEG', [0.0, 1.0])):
        m.srcs[nm] = V.Data(col(v))
    for nm, v in (('TOL', tol), ('LO', lo), ('HI', hi)):
        m.srcs[nm] = V.Data(v)

    def user(name, t):
        a = []
        V._flat(_lst(t[0]), a)
        b = []
        V._flat(_lst(t[1]), b)
        if len(t) != 2 or len(a) != 2 or len(b) != 2:
            raise V.NoValue('user function')
        if any(b) or abs(a[0] + a[1] - 1) > 1e-6:
            m.bad = 'the loss is not taken between a mixture and the testing distribution'
        return f(a[0])
    m.userfun = user
    m.bad = None
    return m


def _lst(t):
    return [_lst(x) for x in t] if isinstance(t, (tuple, list)) else t


def slope(f):
    return max(max(l, r) for m, h, l, r in f.places)


def judge(W, rep, k, f, best, tol, lo, hi, loss):
    site = W.subject
    what = 'valleys at %s, interval [%.3g, %.3g], tolerance %g, mixtures %s' % (
        ', '.join('%.4g' % m[0] for m in f.places), lo, hi, tol, k)
    try:
        m = model(W, f, tol, lo, hi)
        p = flat(array(W.res[k + '.p'], m))
        ls = flat(array(W.res[k + '.loss'], m)) if loss else None
    except V.NoValue as e:
        rep.count('C40', 'searches undecided')
        rep.sample('C40?', '%s: %s' % (what, e))
        return
    rep.count('C40', 'searches decided')
    if m.bad:
        rep.add('C40', 'loss', site, m.bad, what)
        return
    if len(p) != 2 or abs(p[0] + p[1] - 1) > 1e-9:
        rep.add('C40', 'distribution', site, 'the result is not [1 - p, p]', '%s: %s' % (what, p))
        return
    if p[1] < lo - 1e-9 or p[1] > hi + 1e-9:
        rep.add('C40', 'interval', site, 'the prevalence lies outside the interval', '%s: %.6g' % (what, p[1]))
    elif abs(p[1] - best) > tol * (1 + 1e-6) and f(p[1]) > f(best) + slope(f) * tol ** f.power * 1.001:
        rep.add('C40', 'least-loss', site, 'the loss is not least at the prevalence returned',
                '%s: returned %.6g, least at %.6g' % (what, p[1], best))
    if loss and (len(ls) != 1 or abs(ls[0] - f(p[1])) > slope(f) * max(tol, 1e-12) * 1.001):
        rep.add('C40', 'loss-returned', site, 'the loss returned is not the loss at the prevalence returned',
                '%s: returned %s, loss there %.6g' % (what, ls, f(p[1])))
    return p[1]


INTERVALS = ((0.0, 1.0), (0.24, 0.28), (0.0, 0.02), (0.97, 1.0), (0.1, 0.7))
TOLS = (1e-2, 1e-3, 1e-5)


def golden_job(form):
    def fn(base, rep):
        W = golden(base, form)
        R.events(W, rep)
        R.outcomes(W, rep, ('one', 'two'))
        for k in ('one', 'two'):
            if k + '.p' not in W.res:
                continue
            for lo, hi in INTERVALS:
                for tol in TOLS if k == 'one' else TOLS[1:2]:
                    for f, best in one_valley(lo, hi):
                        # losses that differ by less than 1e-9 are equal to the valuation
                        if f.power == 1 or tol > 1e-4:
                            judge(W, rep, k, f, best, tol, lo, hi, True)
    return fn


def scan_job(form):
    def fn(base, rep):
        W = scan(base, form)
        ks = ('not kept', 'kept', 'stored')
        R.events(W, rep)
        R.outcomes(W, rep, ks)
        got = {}
        for k in ks:
            if k + '.p' not in W.res:
                continue
            for n, (f, best) in enumerate(several()):
                got[k, n] = judge(W, rep, k, f, best, (1e-3, 1e-4)[n % 2], 0.0, 1.0, False)
        # the first testing sample (mixtures kept) against later ones (mixtures stored)
        for n, (f, best) in enumerate(several()):
            a, b = got.get(('kept', n)), got.get(('stored', n))
            if a is None or b is None:
                continue
            rep.count('C06', 'searches with stored mixtures compared')
            if abs(a - b) > 1e-9:
                rep.add('C06', 'later-equals-first', W.subject, 'with the mixtures stored by an earlier search another prevalence is found',
                        'valleys at %s: %.6g instead of %.6g' % (', '.join('%.4g' % m[0] for m in f.places), b, a))
                break
        grid(W, rep)
    return fn


def grid(W, rep):
    """the mixtures kept for later testing samples are the mixtures at 0, 0.01 ... 1"""
    if 'kept.mixtures' not in W.res:
        return
    try:
        got = array(W.res['kept.mixtures'], model(W, lambda p: p, 1e-3, 0.0, 1.0))
    except V.NoValue as e:
        rep.count('C40', 'kept mixtures undecided')
        rep.sample('C40?', 'kept mixtures: %s' % e)
        return
    rep.count('C40', 'kept mixtures decided')
    for i, row in enumerate(got):
        row = flat(row)
        if len(got) != 101 or len(row) != 2 or abs(row[0] - i / 100.0) > 1e-9 or abs(row[1] - 1 + i / 100.0) > 1e-9:
            rep.add('C40', 'kept-mixtures', W.subject, 'a stored mixture is not the mixture of its prevalence', 'row %d of %d' % (i, len(got)))
            return


def jobs(Job):
    props = 'C07 C13 C17 C20 C40'.split()
    return [Job('golden_section_search/' + f, props, golden_job(f)) for f in FORMS] + \
           [Job('global_search/' + f, props + ['C06'], scan_job(f), cost=3) for f in FORMS]
