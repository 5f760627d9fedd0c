"""The helpers around the library: normalisation of features, the plots of prevalences and errors (C07, C17), and the
factorisation and repair of the matrices of quadratic programs (C18).

The scenarios about quantifiers take is_pd and nearest_pd for what they promise (the matrix is positive definite; the
symmetric positive semidefinite matrix next to it, up to rounding).  Here their bodies are derived, for matrices of order 2,
3 and 4, and valued on definite, singular and indefinite matrices."""
import math
import random

from . import terms as T
from . import rules as R
from .drivers import const
from .drivers_est import array, flat
from .scen import World
from .terms import A, P, K, dimatom
from .values import *
from . import valuate as V


def normalize(base, rep):
    W = World(base, 'normalize')
    W.subject = 'data_utils.py:normalize'
    f = base.fn('data_utils', 'normalize')
    X1, X2 = W.X('X1', dimatom('N1', 2)), W.X('X2', dimatom('N2', 2))
    for k in ('one', 'two'):
        W.do(k, f, X1, X2)
    R.events(W, rep)
    R.outcomes(W, rep, ('one', 'two'))


def given(W, name, items):
    """a list of the caller"""
    return W.I.alloc(ListObj([const(W, x) for x in items], origin=('param', name)))


def lines(order, colors):
    def fn(base, rep):
        W = World(base, 'plot_line_prevalences/%s/%s' % (order, colors))
        W.subject = 'plot/qlplot.py:plot_line_prevalences'
        m = W.arr('prevalences', (dimatom('R', 2), dimatom('C', 2)))
        ax = W.new('qlsa_stubs.axes', 'Axes')
        cs = given(W, 'colors', ['r', 'g', 'b']) if colors else NONE
        f = base.fn('plot.qlplot', 'plot_line_prevalences')
        for k in ('one', 'two'):
            W.do(k, f, ax, m, order=const(W, order), colors=cs)
        R.events(W, rep)
        R.outcomes(W, rep, ('one', 'two'))
    return fn


def boxes(colors):
    def fn(base, rep):
        W = World(base, 'plot_boxes/%s' % colors)
        W.subject = 'plot/qlplot.py:plot_boxes'
        m = W.arr('errors', (dimatom('R', 2), K(2)))
        ax = W.new('qlsa_stubs.axes', 'Axes')
        cs = given(W, 'colors', ['r', 'g']) if colors else NONE
        f = base.fn('plot.qlplot', 'plot_boxes')
        for k in ('one', 'two'):
            W.do(k, f, ax, m, vert=const(W, True), y_title=const(W, 'y'), x_title=const(W, 'x'),
                 labels=given(W, 'labels', ['a', 'b']), colors=cs)
        R.events(W, rep)
        R.outcomes(W, rep, ('one', 'two'))
    return fn


# ------------------------------------------------------------------------------------------ matrices of quadratic programs
def matrices(n):
    """(what, symmetric matrix, its eigenvalues)"""
    for k in range(8):
        rng = random.Random(97 * n + k)
        ev = [0.5 + rng.random() * 2 for _ in range(n)]
        what = ('definite', 'singular', 'indefinite', 'negative')[k % 4]
        if what == 'singular':
            ev[rng.randrange(n)] = 0.0
        elif what == 'indefinite':
            ev[rng.randrange(n)] = -0.3 - rng.random()
        elif what == 'negative':
            ev = [-x for x in ev]
        q = V.jacobi([[rng.random() if i <= j else 0 for j in range(n)] for i in range(n)])[1]
        q = gram(q)
        M = [[sum(q[l][i] * ev[l] * q[l][j] for l in range(n)) for j in range(n)] for i in range(n)]
        M = [[(M[i][j] + M[j][i]) / 2 for j in range(n)] for i in range(n)]
        P_ = [[sum(q[l][i] * max(ev[l], 0.0) * q[l][j] for l in range(n)) for j in range(n)] for i in range(n)]
        yield what, M, P_
    yield 'singular', [[1.0] * n for _ in range(n)], [[1.0] * n for _ in range(n)]
    yield 'definite', [[1.0 * (i == j) for j in range(n)] for i in range(n)], [[1.0 * (i == j) for j in range(n)] for i in range(n)]


def gram(q):
    out = []
    for r in q:
        r = list(r)
        for s in out:
            d = sum(a * b for a, b in zip(r, s))
            r = [a - d * b for a, b in zip(r, s)]
        z = math.sqrt(sum(a * a for a in r))
        out.append([a / z for a in r])
    return out


def first_minor(M):
    """0 for a positive definite matrix, otherwise the order of the first leading minor that is not positive"""
    for k in range(1, len(M) + 1):
        if V.det([r[:k] for r in M[:k]]) <= 1e-9:
            return k
    return 0


def qp_matrix(n):
    def fn(base, rep):
        W = World(base, 'quadratic program matrix/n=%d' % n)
        W.subject = 'optimization.py:nearest_pd'
        W.res = {}
        W.I.hooks.pop('optimization.py:is_pd', None)
        W.I.hooks.pop('optimization.py:nearest_pd', None)
        M = W.arr('M', (K(n), K(n)))
        r = W.do('dpofa', base.fn('optimization', 'dpofa'), M)
        if W.ok('dpofa') and isinstance(r, Tup) and len(r.items) == 2:
            W.store('k', r.items[0])
            W.store('factor', r.items[1])
        for k in ('is_pd', 'nearest_pd'):
            r = W.do(k, base.fn('optimization', k), M)
            if W.ok(k):
                W.store(k, r)
        R.events(W, rep)
        R.outcomes(W, rep, ('dpofa', 'is_pd', 'nearest_pd'))
        for what, mat, near in matrices(n):
            m = V.Model({}, {'M': V.Data(mat)}, None, 1)
            show = '%s matrix of order %d' % (what, n)
            minor = first_minor(mat)
            got = {}
            for k in ('k', 'factor', 'is_pd', 'nearest_pd'):
                if k not in W.res:
                    continue
                try:
                    got[k] = array(W.res[k], m)
                    rep.count('C18', 'matrices decided')
                except V.Undefined as e:
                    rep.add('C18', 'matrix-repair', 'optimization.py:' + ('dpofa' if k in ('k', 'factor') else k),
                            'the result is not defined', '%s: %s' % (show, e))
                except V.NoValue as e:
                    rep.count('C18', 'matrices undecided')
                    rep.sample('C18?', '%s %s: %s' % (k, show, e))
            # a singular matrix is decided by rounding: either answer is right
            if 'k' in got and what != 'singular' and (flat(got['k'])[0] != minor):
                rep.add('C18', 'matrix-repair', 'optimization.py:dpofa', 'the order of the minor that is not positive is wrong',
                        '%s: %s, not %d' % (show, flat(got['k'])[0], minor))
            if 'is_pd' in got and what != 'singular' and bool(flat(got['is_pd'])[0]) != (minor == 0):
                rep.add('C18', 'matrix-repair', 'optimization.py:is_pd', 'does not tell positive definite matrices from others', show)
            if 'factor' in got and what == 'definite':
                f = got['factor']
                e = max(abs(sum(f[l][i] * f[l][j] for l in range(min(i, j) + 1)) - mat[i][j]) for i in range(n) for j in range(n))
                if e > 1e-8:
                    rep.add('C18', 'matrix-repair', 'optimization.py:dpofa', 'the factor does not give the matrix back', show)
            if 'nearest_pd' in got:
                f = got['nearest_pd']
                e = max(abs(f[i][j] - near[i][j]) for i in range(n) for j in range(n))
                if not e <= 1e-6:
                    rep.add('C18', 'matrix-repair', 'optimization.py:nearest_pd',
                            'the matrix is not the positive semidefinite one next to the given one', '%s: off by %.3g' % (show, e))
                elif V.jacobi([[(f[i][j] + f[j][i]) / 2 for j in range(n)] for i in range(n)])[0][0] < -1e-12:
                    rep.add('C18', 'matrix-repair', 'optimization.py:nearest_pd', 'the matrix is not positive definite', show)
    return fn


def jobs(Job):
    p = ['C07', 'C13', 'C17']
    out = [Job('normalize', p, normalize)]
    for o in (None, 'ascending', 'descending'):
        out.append(Job('plot_line_prevalences(order=%s)' % o, p, lines(o, o is None)))
    out += [Job('plot_boxes(colors=%s)' % c, p, boxes(c)) for c in (False, True)]
    out += [Job('quadratic program matrix/n=%d' % n, ['C07', 'C17', 'C18'], qp_matrix(n)) for n in (2, 3, 4)]
    return out
