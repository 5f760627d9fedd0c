"""The error measures (C16): the value number of what each function returns, against what its documentation defines.

Each function is interpreted once per form of its arguments (scalars, vectors, columns, integer vertices, samples), for any
number of classes; its result is one normal form over the symbolic arguments.  The rules then say, for arguments inside the
simplex, on its border and equal to each other, that the normal form is defined, is the documented expression, does not
change when the arguments of a symmetric measure are exchanged, and is zero (distances) or one (scores) at equality."""
import math
import random

from . import terms as T
from . import rules as R
from .drivers import const
from .drivers_est import array, flat
from .scen import World
from .terms import A, P, K, bvar, dimatom, ZERO, ONE
from .values import *
from . import valuate as V

EPS = 1e-12


class Spec(object):
    """kind: distance / score / signed; sym: documented symmetric; f: documented expression (None where it depends on eps)"""

    def __init__(self, mod, name, form, kind, sym, f, border=True, kw=None):
        self.mod, self.name, self.form, self.kind, self.sym, self.f = mod, name, form, kind, sym, f
        self.border, self.kw = border, kw or {}


def xlog(p, q, log):
    return 0.0 if p == 0 else p * log(p / q)


def _nas(p, q):
    return 1 - abs(p - q) / max(p, 1 - p)


def _emd(p, q):
    t = c = 0.0
    for a, b in zip(p, q):
        c += a - b
        t += abs(c)
    return t


def _emds(p, q):
    one = [0.0] * (len(p) - 1)
    mx = max(_emd(p, [1.0] + one), _emd(p, one + [1.0]))
    return (mx - _emd(p, q)) / mx


def _js(p, q):
    return sum(xlog(a, (a + b) / 2, math.log) + xlog(b, (a + b) / 2, math.log) for a, b in zip(p, q)) / 2


def s(f):
    return lambda p, q: sum(f(a, b) for a, b in zip(p, q))


SPECS = [
    Spec('binary', 'binary_kld', 'b', 'distance', False,
         lambda p, q: xlog(p, q, math.log2) + xlog(1 - p, 1 - q, math.log2), border=False),
    Spec('binary', 'bias', 'b', 'signed', False, lambda p, q: q - p),
    Spec('binary', 'absolute_error', 'b', 'distance', True, lambda p, q: abs(p - q)),
    Spec('binary', 'squared_error', 'b', 'distance', True, lambda p, q: (p - q) ** 2),
    Spec('binary', 'relative_absolute_error', 'b', 'distance', False, lambda p, q: abs(p - q) / p, border=False),
    Spec('binary', 'symmetric_absolute_percentage_error', 'b', 'distance', True,
         lambda p, q: 0 if p + q == 0 else abs(p - q) / (p + q)),
    Spec('binary', 'normalized_absolute_score', 'b', 'score', False, _nas),
    Spec('binary', 'normalized_squared_score', 'b', 'score', False, lambda p, q: 1 - (1 - _nas(p, q)) ** 2),
    Spec('multiclass', 'kld', 'v', 'distance', False, s(lambda a, b: xlog(a, b, math.log2)), border=False),
    Spec('multiclass', 'mean_absolute_error', 'v', 'distance', True, lambda p, q: sum(abs(a - b) for a, b in zip(p, q)) / len(p)),
    Spec('multiclass', 'l1', 'v', 'distance', True, s(lambda a, b: abs(a - b))),
    Spec('multiclass', 'mean_squared_error', 'v', 'distance', True,
         lambda p, q: sum((a - b) ** 2 for a, b in zip(p, q)) / len(p)),
    Spec('multiclass', 'l2', 'v', 'distance', True, lambda p, q: math.sqrt(sum((a - b) ** 2 for a, b in zip(p, q)))),
    Spec('multiclass', 'hd', 'v', 'distance', True,
         lambda p, q: math.sqrt(sum((math.sqrt(a) - math.sqrt(b)) ** 2 for a, b in zip(p, q)))),
    Spec('multiclass', 'bray_curtis', 'v', 'distance', True,
         lambda p, q: sum(abs(a - b) for a, b in zip(p, q)) / sum(a + b for a, b in zip(p, q))),
    Spec('multiclass', 'topsoe', 'v', 'distance', True, lambda p, q: 2 * _js(p, q)),
    Spec('multiclass', 'jensenshannon', 'v', 'distance', True, _js),
    Spec('multiclass', 'probsymmetric', 'v', 'distance', True,
         s(lambda a, b: 0.0 if a + b == 0 else 2 * (a - b) ** 2 / (a + b))),
    Spec('ordinal', 'emd', 'v', 'distance', True, _emd),
    Spec('ordinal', 'emd_score', 'v', 'score', False, _emds),
]
FORMS = {'b': ('scalar',), 'v': ('vector', 'column', 'int', 'mixed', 'list')}


def history(base, sp, form):
    W = World(base, '%s/%s' % (sp.name, form))
    W.subject = 'metrics/%s.py:%s' % (sp.mod, sp.name)
    C = K(3) if form == 'list' else dimatom('C', 2)
    W.res = {}
    for nm in 'pq':
        b = A('src', nm)
        if form == 'scalar':
            T.CONTRACTS[b] = {'lo': 0, 'hi': 1}
            a = Num(P(A('at', b, ())), 'float')
        else:
            dims = (C, ONE) if form == 'column' or form == 'mixed' and nm == 'q' else (C,)
            T.CONTRACTS[b] = {'lo': 0, 'hi': 1, 'simplex': 0, 'dims': (C, None)[:len(dims)]}
            if form == 'int':
                T.CONTRACTS[b]['int'] = True
            a = W.arr(nm, dims, 'int' if form == 'int' else 'float')
            if form == 'list':
                a = W.I.alloc(ListObj([Num(P(A('at', b, (K(k),))), 'float') for k in range(3)], origin=('param', nm)))
        setattr(W, nm, a)
    f = base.fn('metrics.' + sp.mod, sp.name)
    for k, (x, y) in (('pq', (W.p, W.q)), ('again', (W.p, W.q))):
        r = W.do(k, f, x, y, **{a: const(W, v) for a, v in sp.kw.items()})
        if W.ok(k):
            W.store(k, r)
    return W


def point(rng, c, kind):
    if kind == 'vertex':
        v = [0.0] * c
        v[rng.randrange(c)] = 1.0
        return v
    if kind == 'edge':
        v = [rng.random() for _ in range(c)]
        v[rng.randrange(c)] = 0.0
        if sum(v) == 0:
            v[0] = 1.0
    else:
        v = [0.05 + rng.random() for _ in range(c)]
    return [x / sum(v) for x in v]


def cases(form):
    kinds = ['inside', 'edge', 'vertex']
    pairs = [(a, b) for a in kinds for b in kinds]
    if form == 'int':
        pairs = [('vertex', 'vertex')] * 4
    n = 0
    for c in (3,) if form == 'list' else (2, 3, 4):
        for a, b in pairs:
            for eq in (False, True):
                n += 1
                rng = random.Random(n * 131 + c)
                p = point(rng, c, a)
                q = list(p) if eq else point(rng, c, b)
                yield p, q, a != 'inside' or (not eq and b != 'inside')


def model(form, p, q):
    m = V.Model({'C': len(p)}, {}, None, 1)
    m.strict = True
    for nm, v in (('p', p), ('q', q)):
        if form == 'scalar':
            v = v[0]
        elif form == 'column' or form == 'mixed' and nm == 'q':
            v = [[x] for x in v]
        elif form == 'int':
            v = [int(x) for x in v]
        m.srcs[nm] = V.Data(v)
    return m


def number(res, m):
    v = flat(array(res, m))
    if len(v) != 1:
        raise V.NoValue('not a number')
    return v[0]


def vec(x):
    return '(' + ', '.join('%.4g' % v for v in x) + ')'


def check(W, rep, sp, form):
    site = W.subject
    for k in ('pq', 'again'):
        if k not in W.res:
            return
        if len(W.res[k]) == 1 and W.res[k][0][1] is None:
            v = W.res[k][0][2]
            if v is NONE or isinstance(v, Const) and v.v is None:
                rep.add('C16', 'number', site, 'returns None', W.name)
            return
    res = W.res['pq']
    if any(d is not None and any(x is not ONE for x in d) for _, d, _ in res):
        rep.add('C16', 'number', site, 'does not return a number', '%s: shape %s' % (W.name, [T.show(x) for x in res[0][1]]))
        return

    def val(p, q, k='pq'):
        return number(W.res[k], model(form, p, q))
    for p, q, border in cases(form):
        if form == 'scalar':
            dp, dq = p[0], q[0]
        else:
            dp, dq = p, q
        show = '%s(%s, %s)' % (sp.name, vec(p) if form != 'scalar' else dp, vec(q) if form != 'scalar' else dq)
        try:
            v = val(p, q)
        except V.Undefined as e:
            rep.add('C16', 'defined', site, 'the measure is not defined', '%s: %s' % (show, e))
            continue
        except V.NoValue as e:
            rep.count('C16', 'cases undecided')
            rep.sample('C16?', '%s: %s' % (show, e))
            continue
        rep.count('C16', 'cases decided')
        if v != v or v in (math.inf, -math.inf):
            rep.add('C16', 'defined', site, 'the measure is not finite', '%s = %s' % (show, v))
            continue
        if sp.kind == 'distance' and v < -1e-9:
            rep.add('C16', 'non-negative', site, 'the measure is negative', '%s = %.6g' % (show, v))
        if sp.kind == 'score' and v > 1 + 1e-9:
            rep.add('C16', 'at-most-one', site, 'the score is greater than one', '%s = %.6g' % (show, v))
        if p == q and abs(v - (1 if sp.kind == "score" else 0)) > 1e-7:
            rep.add('C16', 'identity', site, 'the measure of equal arguments is not %d' % (sp.kind == 'score'), '%s = %.6g' % (show, v))
        if sp.sym:
            rep.count('C16', 'symmetric cases')
            try:
                w = val(q, p)
                if abs(w - v) > 1e-9 * (1 + abs(v)):
                    rep.add('C16', 'symmetric', site, 'the measure depends on the order of its arguments',
                            '%s = %.6g, exchanged %.6g' % (show, v, w))
            except V.NoValue:
                pass
        if not border or sp.border:
            x = sp.f(dp, dq)
            rep.count('C16', 'documented expressions compared')
            if abs(x - v) > 1e-6 * (1 + abs(x)):
                rep.add('C16', 'as-documented', site, 'the value is not the documented expression',
                        '%s = %.6g, documented %.6g' % (show, v, x))
        try:
            w = val(p, q, 'again')
            if abs(w - v) > 1e-9 * (1 + abs(v)):
                rep.add('C16', 'no-memory', site, 'a second call gives another value', '%s: %.6g then %.6g' % (show, v, w))
        except V.NoValue:
            pass


def metric_job(sp, form):
    def fn(base, rep):
        W = history(base, sp, form)
        R.events(W, rep)
        R.outcomes(W, rep, ('pq', 'again'))
        check(W, rep, sp, form)
    return fn


# ------------------------------------------------------------------------------------------ measures of samples
def samples_history(base, name):
    W = World(base, name)
    W.res = {}
    N, C = dimatom('N1', 2), dimatom('C', 2)
    if name.startswith('emd_distances'):
        C = K(2) if name.endswith('2') else dimatom('C', 3)
        W.subject = 'metrics/ordinal.py:emd_distances'
        f = base.fn('metrics.ordinal', 'emd_distances')
        for nm, n in (('a', N), ('b', dimatom('N2', 2))):
            T.CONTRACTS[A('src', nm)] = {'lo': 0, 'hi': 1, 'simplex': 1, 'dims': (None, C)}
            setattr(W, nm, W.arr(nm, (n, C)))
        args = (W.a, W.b)
    elif name == 'brier_multi':
        W.subject = 'metrics/multiclass.py:brier_multi'
        f = base.fn('metrics.multiclass', name)
        for nm in 'ab':
            T.CONTRACTS[A('src', nm)] = {'lo': 0, 'hi': 1, 'simplex': 1, 'dims': (None, C)}
            setattr(W, nm, W.arr(nm, (N, C)))
        args = (W.a, W.b)
    else:
        W.subject = 'metrics/multiclass.py:geometric_mean'
        f = base.fn('metrics.multiclass', 'geometric_mean')
        args = (W.arr('a', (N,), 'int'), W.arr('b', (N,), 'int'))
    for k, kw in (('plain', {}), ('correction', dict(correction=0.6))):
        if kw and name != 'geometric_mean':
            continue
        r = W.do(k, f, *args, **{a: const(W, v) for a, v in kw.items()})
        if W.ok(k):
            W.store(k, r)
    return W


def gmean(a, b, corr):
    lab = sorted(set(a) | set(b))
    r = 1.0
    for l in lab:
        n = sum(1 for x in a if x == l)
        t = sum(1 for x, y in zip(a, b) if x == l and y == l)
        rec = t / n if n else 0.0
        r *= rec if rec else corr
    return r ** (1 / len(lab))


def samples_job(name):
    def fn(base, rep):
        W = samples_history(base, name)
        R.events(W, rep)
        R.outcomes(W, rep, ('plain', 'correction'))
        for sd in range(6):
            rng = random.Random(sd * 17 + 5)
            c = 2 if name.endswith('2') else 3 + sd % 3 if name == 'emd_distances' else 2 + sd % 3
            n = 5 + sd
            m = V.Model({'C': c, 'N1': n, 'N2': 4}, {}, [3, 5, 8, 9][:c], sd)
            if name == 'geometric_mean':
                lab = m.labels
                a = lab + [rng.choice(lab) for _ in range(n - c)]
                if sd > 3:
                    a = [x for x in a if x != lab[1]]
                    a += [lab[0]] * (n - len(a))
                b = list(a) if sd == 0 else [x if rng.random() < (.1 if sd == 1 else .7) else rng.choice(lab) for x in a]
                exp = {'plain': gmean(a, b, 0.0), 'correction': gmean(a, b, 0.6)}
            else:
                a, b = ([point(rng, c, ('inside', 'edge', 'vertex')[(i + sd) % 3]) for i in range(k)] for k in
                        (n, 4 if name.startswith('emd_distances') else n))
                if name.startswith('emd_distances'):
                    exp = {'plain': [[_emd(x, y) for y in b] for x in a]}
                else:
                    exp = {'plain': sum(sum((x - y) ** 2 for x, y in zip(u, w)) for u, w in zip(a, b)) / n}
            m.srcs['a'], m.srcs['b'] = V.Data(a), V.Data(b)
            for k, x in exp.items():
                if k not in W.res:
                    continue
                try:
                    v = array(W.res[k], m)
                except V.Undefined as e:
                    rep.add('C16', 'defined', W.subject, 'the measure is not defined', '%s: %s' % (k, e))
                    continue
                except V.NoValue as e:
                    rep.count('C16', 'cases undecided')
                    rep.sample('C16?', '%s: %s' % (name, e))
                    continue
                rep.count('C16', 'cases decided')
                fv, fx = flat(v), flat(x)
                if len(fv) != len(fx) or any(abs(p - q) > 1e-6 * (1 + abs(q)) for p, q in zip(fv, fx)):
                    rep.add('C16', 'as-documented', W.subject, 'the value is not the documented expression',
                            '%s %s: %s, documented %s' % (name, k, vec(fv[:6]), vec(fx[:6])))
    return fn


def jobs(Job):
    props = 'C07 C13 C16 C17'.split()
    out = [Job('metric %s/%s' % (sp.name, form), props, metric_job(sp, form)) for sp in SPECS for form in FORMS[sp.form]]
    out += [Job('metric ' + n, props, samples_job(n)) for n in ('emd_distances', 'emd_distances/C=2', 'brier_multi', 'geometric_mean')]
    return out
