"""Rules on the symbolic results of quantifiers (C01 C02 C03 C04 C05 C06 C18 C22)."""
import os
import random

from . import terms as T
from .values import Const, NONE
from .terms import A, P, K, S, Atom, bvar, ZERO, ONE
from . import valuate as V
from . import rules as R
from . import spec_quant as SQ

LABELS = [3, 5, 8, 9, 12]
TOL = 1e-6


# ------------------------------------------------------------------------------------------------ models
class Sample(object):
    """values of one training or testing sample"""

    def __init__(self, rng, n, c, labels, kind, rows=1, d=2, y=True, grid=False, kinds=''):
        if kinds == 'flat' and kind == 'crisp' and c == 2 and y:
            n = 30
        self.n, self.c = n, c
        self.y = None
        if y:
            base = list(range(c)) * 2 + [0, c - 1, 0]
            if grid:
                base = [0] * (n // 2) + [1 + i % (c - 1) for i in range(n - n // 2)]
            if n == 30:
                base = [0] * 13 + [1] * 17
            if kinds == 'single':
                base = [c - 1] + [i % (c - 1) for i in range(n - 1)]
            ys = [base[i] if i < len(base) else rng.randrange(c) for i in range(n)]
            rng.shuffle(ys)
            self.y = [labels[k] for k in ys]
        # the values of a testing sample go beyond those of the training sample
        w = 2 if y else 5
        self.X = [[float(rng.randrange(-w, w + 1)) if grid else rng.uniform(-w, w) for _ in range(d)] for _ in range(n)]
        self.P = []
        for r in range(rows):
            for i in range(n):
                k = ys[i] if y else rng.randrange(c)
                if kinds == 'one' and not y:
                    k = c - 1
                if kind == 'crisp' and kinds == 'one' and not y:
                    self.P.append(labels[k])
                elif kind == 'crisp' and kinds == 'flat' and c == 2 and y:
                    # 6 of 13 and 8 of 17
                    self.P.append(labels[int(sum(1 for v in ys[:i] if v == k) < (8 if k else 6))])
                elif kind == 'crisp' and kinds == 'flat':
                    # nearly the same answers for every class
                    m = sum(1 for v in ys[:i] if v == k) if y else i
                    self.P.append(labels[(m + (m == 0)) % c])
                elif kind == 'crisp':
                    self.P.append(labels[k] if rng.random() < .7 else labels[rng.randrange(c)])
                elif kinds == 'onehot':
                    k = k if rng.random() < .7 else rng.randrange(c)
                    self.P.append([1.0 if j == k else 0.0 for j in range(c)])
                elif kinds == 'flat':
                    v = [j + 2 + rng.uniform(-.01, .01) + (.1 if j == k else 0) for j in range(c)]
                    self.P.append([x / sum(v) for x in v])
                elif grid:
                    # few different values: zeros, ones, and the proportions of the classes
                    v = [0.0] * c
                    v[k] += 0.5
                    for _ in range(2):
                        v[rng.randrange(c)] += 0.25
                    self.P.append(v)
                else:
                    v = [rng.uniform(0.05, 1) + (0.7 if j == k else 0) for j in range(c)]
                    t = sum(v)
                    self.P.append([x / t for x in v])


WIDE = {51: (4, 3), 53: (3, 4)}      # numbers of classes of the first and the second sample


def ncls(W, d, sd=0):
    c = d.const()
    return int(c) if c is not None else WIDE.get(sd, (3, 3))[0 if d is W.C1 else 1]


def base_model(W, seed, multi=False):
    """(Model, samples) for the history W"""
    rng = random.Random(seed * 7919 + 13)
    kind = W.q.preds or 'prob'
    c1, c2 = ncls(W, W.C1, seed), ncls(W, W.C2, seed)
    rows = 2 if multi else 1
    s = {}
    kinds = KINDS.get(seed, '')
    # ten neighbours are looked for
    big = 5 if W.q.cls == 'PWKQuantifier' or kinds == 'wide' else 0
    grid = seed >= 30 and not kinds
    s['1'] = Sample(rng, (9 + seed % 2 if not grid else 8) + big, c1, LABELS, kind, rows, grid=grid, kinds=kinds)
    s['2'] = Sample(rng, (8 + seed % 3 if kinds != 'same' else 9) + big, c2, LABELS, kind, rows, grid=grid, kinds=kinds)
    for l, m in (('A', 5), ('B', 4), ('C', 6)):
        m = {'single': 1, 'long': 17, 'same': 6}.get(kinds, m + seed % 2)
        s[l] = Sample(rng, m, c1 if l != 'C' else c2, LABELS, kind, 1, y=False, grid=grid, kinds=kinds)
    return make_model(W, s, rows, seed), s


def make_model(W, s, rows=1, seed=0):
    dims, srcs = {'D': 2, 'R': rows}, {}
    for l in ('1', '2'):
        dims['N' + l] = s[l].n
        srcs['X' + l] = V.Data(s[l].X)
        srcs['y' + l] = V.Data(s[l].y)
        srcs['P' + l] = V.Data(s[l].P)
    for l in ('A', 'B', 'C'):
        dims['M' + l] = s[l].n
        srcs['T' + l] = V.Data(s[l].X)
        srcs['Q' + l] = V.Data(s[l].P)
    dims['C'], dims['C2'] = s['1'].c, s['2'].c
    m = V.Model(dims, srcs, LABELS[:s['1'].c], seed)
    m.userfun = l1_userfun
    return m


def swap(m, **kw):
    """model m with sources/dimensions renamed: swap(m, QA='QB') gives QA the value of QB"""
    m2 = m.copy()
    for a, b in kw.items():
        if b in m.srcs:
            m2.srcs[a] = m.srcs[b]
        if b in m.dims:
            m2.dims[a] = m.dims[b]
    return m2


def value(res, m):
    """values of a stored result [(condition, dims, body)] in a model"""
    for cond, dims, body in res:
        if dims is None:
            if cond is ONE or m.ev(cond):
                raise V.NoValue('not an array')
            continue
        if cond is ONE or m.ev(cond):
            if len(dims) == 0:
                return [m.ev(body)]
            if len(dims) != 1:
                raise V.NoValue('not a vector')
            n = m.nat(dims[0], {})
            return [m.ev(body, {bvar(0, dims[0]): k}) for k in range(n)]
    raise V.NoValue('no alternative')


def close(a, b, tol=TOL):
    return len(a) == len(b) and all(abs(x - y) <= tol * (1 + abs(x)) for x, y in zip(a, b))


def nf_equal(r1, r2, mp):
    """normal forms equal after renaming sources (mp: {atom: S})"""
    if len(r1) != len(r2):
        return False
    for (c1, d1, b1), (c2, d2, b2) in zip(r1, r2):
        if d1 is None or d2 is None or b1.opaque or b2.opaque:
            return False
        try:
            if T.subst(c1, mp) is not c2 or len(d1) != len(d2):
                return False
            mp2 = dict(mp)
            for k in range(len(d1)):
                if T.subst(d1[k], mp) is not d2[k]:
                    return False
                mp2[bvar(k, d1[k])] = P(bvar(k, d2[k]))
            if T.subst(b1, mp2) is not b2:
                return False
        except Exception:
            return False
    return True


DEEP = bool(os.environ.get('QLSA_DEEP'))   # set by check.py --tier thorough
SEEDS = (1, 2, 3) + ((4, 6, 7, 8, 9, 10, 13, 14, 15, 16, 17, 18) if DEEP else ())
KINDS = {41: 'onehot', 42: 'flat', 43: 'single', 44: 'long', 45: 'one', 46: 'same', 51: 'wide', 53: 'wide'}
GRID = (31, 32) + ((33, 34, 35, 36, 37, 38) if DEEP else ())        # models whose values repeat and coincide with thresholds


def compare(rep, prop, what, fa, fb, seeds=SEEDS + GRID + (41, 43, 46) + tuple(sorted(WIDE))):
    """fa(seed), fb(seed): lists of values.  'equal' / ('differs', a, b) / 'undecided'"""
    n = diff = 0
    ex = None
    for sd in seeds:
        try:
            a, b = fa(sd), fb(sd)
        except V.NoValue as e:
            rep.count(prop, 'models without value')
            rep.sample(prop + '?', '%s: %s' % (what, e))
            continue
        n += 1
        if not close(a, b):
            diff += 1
            ex = (a, b)
    if n == 0:
        return 'undecided'
    if diff == 0:
        return 'equal'
    return ('differs', ex[0], ex[1])


def fmt(v):
    return '[' + ', '.join('%.4g' % x for x in v) + ']'


def rename(W, pairs):
    mp = {}
    for a, b in pairs:
        for pre in ('src', 'dim'):
            if pre == 'src':
                mp[A('src', a)] = P(A('src', b)) if False else A('src', b)
    return mp


def solver_ops(res):
    return any(d is not None and T.has_op(b, 'cvxsol', 'qp') for c, d, b in res)


# ------------------------------------------------------------------------------------------------ rules
def quantifier_values(W, rep, props):
    """All value rules on one fit/predict history."""
    res = getattr(W, 'res', {})
    if 'pA' not in res:
        return
    variants = [{}]
    for op in ('singular', 'posdef'):
        if any(d is not None and T.has_op(b, op) or T.has_op(c, op) for c, d, b in res['pA']):
            variants.append({op: 1 if op == 'singular' else 0})
    for force in variants:
        _values(W, rep, props, res, force)


def _values(W, rep, props, res, force):
    site = R.site_of(W, 'predict')
    multi = W.mode == 'multi'
    models = {}

    def model(sd):
        if sd not in models:
            models[sd] = base_model(W, sd, multi)
            models[sd][0].force = force
        return models[sd]

    if 'C01' in props:
        simplex(W, rep, res['pA'], site, model)
    if 'C06' in props and 'pB' in res:
        r = compare(rep, 'C06', W.name, lambda sd: value(res['pB'], model(sd)[0]),
                    lambda sd: value(res['pA'], swap(model(sd)[0], QA='QB', TA='TB', MA='MB')))
        rep.count('C06', 'second predictions compared: %s' % (r if isinstance(r, str) else r[0]))
        if not isinstance(r, str):
            d = '%s: the second answer is %s, the answer of a first call %s' % (W.name, fmt(r[1]), fmt(r[2]))
            rep.add('C06', 'later-equals-first', site, 'a later prediction is not the one a first call gives', d)
            if solver_ops(res['pA']):
                rep.add('C18', 'same-problem', site, 'the problem solved by a later prediction is not the one of the first', d)
    if 'C05' in props and 'pC' in res and W.mode not in ('new', 'fitted'):
        r = compare(rep, 'C05', W.name, lambda sd: value(res['pC'], model(sd)[0]),
                    lambda sd: value(res['pA'], swap(model(sd)[0], QA='QC', TA='TC', MA='MC', X1='X2', y1='y2', P1='P2',
                                                     N1='N2', C='C2')))
        rep.count('C05', 'refitted objects compared: %s' % (r if isinstance(r, str) else r[0]))
        if not isinstance(r, str):
            rep.add('C05', 'refit-equals-fresh', site, 'after a second fit the answer is not the one of a fresh object',
                    '%s: %s instead of %s' % (W.name, fmt(r[1]), fmt(r[2])))
    if 'C02' in props:
        one_entry_per_class(W, rep, res['pA'], site)
        if W.q.equivariant(W.o, W.cvar) and W.mode == 'pred':
            equivariance(W, rep, res['pA'], site, model)
    if ('C04' in props or 'C02' in props or 'C18' in props) and W.q.recovers(W.o) and W.mode == 'pred':
        recovery(W, rep, res['pA'], site, model)
    if 'C25' in props and W.mode in ('pred', 'multi', 'new') and W.q.cls in SQ.SPEC:
        definition(W, rep, res['pA'], site, model)
    if 'C18' in props and W.mode == 'pred':
        feasible(W, rep, site, model)
    if 'C21' in props:
        histograms(W, rep, model)
    if 'C22' in props and W.mode == 'both':
        for l in ('pA', 'pB'):
            for c, d, b in res.get(l, ()):
                if d is None:
                    continue
                rep.count('C22', 'results with supplied predictions')
                if T.has_op(b, 'pred', 'plab', 'decf', 'fit', 'fit0'):
                    rep.add('C22', 'supplied-first', site, 'an estimator is used although predictions were supplied', W.name)
                elif b.srcs & {'X1', 'TA', 'TB'} and not W.q.reads_sample:
                    rep.add('C22', 'supplied-first', site, 'the sample itself is read although predictions were supplied', W.name)


def alignment(W, W0, rep):
    """C03: R predictions per training example are R * N1 labelled predictions (W0: one prediction per example)"""
    res, ref = getattr(W, 'res', {}), getattr(W0, 'res', {})
    if 'pA' not in res or 'pA' not in ref:
        return
    site = R.site_of(W, 'fit')
    for force in ({}, {'singular': 1}, {'posdef': 0}):
        if force and not any(d is not None and T.has_op(b, *force) or T.has_op(c, *force) for c, d, b in res['pA']):
            continue

        def tiled(sd):
            m = base_model(W, sd, True)[0]
            m.force = force
            m2 = m.copy()
            for l in '12':
                m2.dims['N' + l] = m.dims['N' + l] * m.dims['R']
                m2.srcs['y' + l] = V.Data(list(m.srcs['y' + l].values) * m.dims['R'])
                m2.srcs['X' + l] = V.Data(list(m.srcs['X' + l].values) * m.dims['R'])
            return m, m2
        for k in ('pA', 'pC'):
            if k not in res or k not in ref:
                continue
            r = compare(rep, 'C03', W.name, lambda sd: value(res[k], tiled(sd)[0]), lambda sd: value(ref[k], tiled(sd)[1]))
            rep.count('C03', 'several predictions per example: %s' % (r if isinstance(r, str) else r[0]))
            if not isinstance(r, str):
                rep.add('C03', 'aligned', site, 'the labels do not follow the training predictions',
                        '%s: %s, with labels repeated along %s' % (W.name, fmt(r[1]), fmt(r[2])))


def simplex(W, rep, pA, site, model, extra=()):
    for cond, dims, body in pA:
        if dims is None:
            if body is NONE or (isinstance(body, Const) and body.v is None):
                rep.add('C01', 'distribution', site, 'predict can return None', W.name)
            continue
        if len(dims) != 1:
            continue
        rep.count('C01', 'result alternatives')
        v = A('r', -9900, 0, dims[0])
        tot = None
        if not body.opaque:
            tot = T.rational(T.sum_over(v, dims[0], T.subst(body, {bvar(0, dims[0]): P(v)})))
        l, h = T.iv(body)
        if tot is ONE and l is not None and l >= 0:
            rep.count('C01', 'proved in normal form')
    bad = None
    n = 0
    for sd in SEEDS + GRID + (11, 12) + tuple(sorted(WIDE)) + extra:
        try:
            m, s = model(sd)
            x = value(pA, m)
        except V.Undefined as e:
            rep.count('C01', 'undefined values')
            continue
        except V.NoValue:
            continue
        n += 1
        if abs(sum(x) - 1) > 1e-5 or min(x) < -1e-6:
            bad = x
    rep.count('C01', 'models valued', n)
    if n == 0:
        rep.count('C01', 'undecided results')
    if bad is not None:
        rep.add('C01', 'distribution', site, 'the vector returned is not a distribution', '%s: e.g. %s' % (W.name, fmt(bad)))


def one_entry_per_class(W, rep, pA, site):
    for cond, dims, body in pA:
        if dims is None:
            continue
        rep.count('C02', 'result shapes')
        if len(dims) != 1 or (dims[0] is not W.C1 and T.sign_of(dims[0] - W.C1) in ('+', '-')):
            rep.add('C02', 'one-entry-per-class', site, 'the result does not have one entry per class',
                    '%s: shape %s' % (W.name, [T.show(d) for d in dims]))


def permuted(s, perm, labels, kind):
    """the samples with class k renamed perm[k]"""
    out = {}
    inv = {labels[k]: labels[perm[k]] for k in range(len(perm))}
    for l, a in s.items():
        b = Sample.__new__(Sample)
        b.n, b.c, b.X = a.n, a.c, a.X
        b.y = None if a.y is None else [inv.get(v, v) for v in a.y]
        if kind == 'crisp':
            b.P = [inv.get(v, v) for v in a.P]
        else:
            b.P = []
            for row in a.P:
                r = list(row)
                if len(row) == len(perm):
                    for k in range(len(perm)):
                        r[perm[k]] = row[k]
                b.P.append(r)
        out[l] = b
    return out


def equivariance(W, rep, pA, site, model):
    c = ncls(W, W.C1)
    perms = [[1, 0]] if c == 2 else [[1, 2, 0], [0, 2, 1]]
    jobs = [(p, SEEDS) for p in perms]
    if W.C1.const() is None:
        jobs.append(([2, 0, 3, 1], (51,)))
    for perm, seeds in jobs:
        c = len(perm)

        def fa(sd):
            m, s = model(sd)
            x = value(pA, m)
            if len(x) != c:
                raise V.NoValue('number of entries')
            out = [0.0] * len(x)
            for k in range(c):
                out[perm[k]] = x[k]
            return out

        def fb(sd):
            m, s = model(sd)
            m2 = make_model(W, permuted(s, perm, LABELS, W.q.preds), seed=m.seed)
            m2.force = m.force
            return value(pA, m2)
        r = compare(rep, 'C02', W.name, fa, fb, seeds)
        rep.count('C02', 'class renamings: %s' % (r if isinstance(r, str) else r[0]))
        if not isinstance(r, str):
            rep.add('C02', 'entry-belongs-to-class', site, 'renaming the classes does not rename the entries of the result',
                    '%s: %s expected, %s derived' % (W.name, fmt(r[1]), fmt(r[2])))


def problems_of(m):
    """solver problems that were consulted while valuing: [(atom)]"""
    out = []
    for key in m.memo:
        if key[0] == 'sol':
            out.append(key)
    return out


def recovery(W, rep, pA, site, model):
    """A testing sample equal to the training examples of class k (or to the whole training sample) is described by the
    stored description of class k (by the mixture with the training proportions), so that point has distance zero."""
    c = ncls(W, W.C1)
    outcome = {'ok': 0, 'bad': 0, 'other': 0, 'none': 0}
    detail = ''
    swapped = None
    for sd in SEEDS + GRID:
        m0, s = model(sd)
        lab = LABELS[:c]
        for k in list(range(c)) + ['all']:
            idx = [i for i in range(s['1'].n) if k == 'all' or s['1'].y[i] == lab[k]]
            if k == 'all':
                target = [sum(1 for v in s['1'].y if v == l) / s['1'].n for l in lab]
            else:
                target = [1.0 if j == k else 0.0 for j in range(c)]
            s2 = dict(s)
            a = Sample.__new__(Sample)
            a.n, a.c, a.y = len(idx), c, None
            a.X = [s['1'].X[i] for i in idx]
            a.P = [s['1'].P[i] for i in idx]
            s2['A'] = a
            m = make_model(W, s2, seed=m0.seed)
            m.force = m0.force
            m.watch = []
            try:
                x = value(pA, m)
            except V.NoValue as e:
                outcome['none'] += 1
                rep.sample('C04?', '%s: %s' % (W.name, e))
                continue
            if not m.watch:
                if close(x, target, 1e-5):
                    outcome['ok'] += 1
                else:
                    outcome['bad'] += 1
                    detail = 'the closed form gives %s for a testing sample with proportions %s' % (fmt(x), fmt(target))
                    for j in range(c):
                        if k != 'all' and j != k and len(x) == c and abs(x[j] - 1) < 1e-6:
                            swapped = detail
                continue
            for n, obj, sense, kind, sol in m.watch:
                t = target[:n]
                vals = []
                try:
                    best = obj(t)
                    for p in points(c, n):
                        vals.append((obj(p), p))
                except V.NoValue:
                    outcome['none'] += 1
                    continue
                sgn = -1 if sense == 'max' else 1
                lo = min(sgn * v for v, p in vals)
                span = max(sgn * v for v, p in vals) - lo
                if sgn * best <= lo + 1e-7 * (1 + abs(span)):
                    outcome['ok'] += 1
                else:
                    outcome['bad'] += 1
                    p = min(vals, key=lambda vp: sgn * vp[0])[1]
                    detail = 'testing sample with proportions %s: the objective is smaller at %s (%.6g) than there (%.6g)' % (
                        fmt(target), fmt(p), min(sgn * v for v, q in vals) * sgn, best)
                    if k != 'all' and abs(max(p) - 1) < 1e-9:
                        swapped = detail
    for k, n in outcome.items():
        if n:
            rep.count('C04', 'recovery of known proportions: %s' % k, n)
    if outcome['bad']:
        what = 'a testing sample made of training examples is not described like them'
        rep.add('C04', 'same-description', site, what, '%s: %s' % (W.name, detail))
        rep.add('C02', 'recovers-proportions', site, 'the proportions of an exact mixture are not recovered at their classes',
                '%s: %s' % (W.name, detail))
        rep.add('C18', 'minimum-at-match', site, 'the distance minimised is not zero where the descriptions match',
                '%s: %s' % (W.name, detail))


def sample_data(W, m):
    """the samples of the first fit and prediction, as numbers"""
    g = lambda n: m.srcs[n].values
    P, Q = g('P1'), g('QA')
    lab = sorted(set(g('y1')))
    if W.mode == 'new' and W.q.preds:
        from .drivers_est import Member
        te, tr = (Member(m, g('X1'), g('y1'), lab, k) for k in ('esttest', 'esttrain'))
        f = (lambda e, x: e.proba(x)) if W.q.preds == 'prob' else (lambda e, x: e.label(x))
        P, Q = [f(tr, x) for x in g('X1')], [f(te, x) for x in g('TA')]

    def user(a, b):
        return l1_userfun('', (tuple(a), tuple(b)))
    return SQ.D(g('X1'), g('y1'), P, g('TA'), Q, lab, user, [k for k in m.force if m.force[k]])


def definition(W, rep, pA, site, model):
    """C25: the estimate is the documented one; where a solver or a search finds it, the quantity minimised orders the
    prevalences as the documented distance does, and the answer is the solution"""
    rep.count('C25', 'estimates with a definition')
    done, bad = 0, None
    for sd in SEEDS + GRID + tuple(sorted(KINDS)):
        c = ncls(W, W.C1, sd)
        if sd in WIDE and W.C1.const() is not None:
            continue
        m = model(sd)[0].copy()
        m.userfun = l1_userfun
        m.watch = []
        m.memo = {}
        try:
            try:
                kind, want = SQ.SPEC[W.q.cls](W.q, W.o, sample_data(W, m))
                if kind == 'loss':
                    pts = points(c, c) + random_points(c, sd)
                    want = [(want(p), p) for p in pts]
            except (ZeroDivisionError, IndexError, StopIteration, KeyError):
                raise V.NoValue('no definition')
            x = value(pA, m)
        except V.NoValue as e:
            rep.count('C25', 'models without value')
            rep.sample('C25?', '%s: %s' % (W.name, e))
            continue
        except V.Undefined:
            continue
        if kind == 'value':
            if m.watch:
                continue
            done += 1
            if not close(x, want, 1e-6):
                bad = 'model %s: ' % sd + 'answers %s where the definition gives %s' % (fmt(x), fmt(want))
            continue
        if not m.watch:
            rep.sample('C25?', '%s: no problem is solved' % W.name)
            continue
        for n, obj, sense, flag, sol in list(m.watch):
            try:
                b = order_differs(want, [obj(p[:n]) for v, p in want], -1 if sense == 'max' else 1)
            except V.NoValue as e:
                rep.sample('C25?', '%s: %s' % (W.name, e))
                continue
            done += 1
            if b:
                bad = 'model %s: %s' % (sd, b)
            elif sol is not None and len(m.watch) == 1:
                full = list(sol) + ([1 - sum(sol)] if n == c - 1 else [])
                if not close(x, full, 1e-6):
                    bad = 'answers %s where the solution of the problem is %s' % (fmt(x), fmt(full))
    rep.count('C25', 'estimates compared with their definition' if done else 'estimates undecided')
    if bad:
        rep.add('C25', 'as-documented', site, 'the estimate is not the one the method defines', '%s: %s' % (W.name, bad))
        if kind == 'loss':
            rep.add('C18', 'documented-distance', site, 'the quantity minimised is not the documented distance between the mixture '
                    'of the class descriptions and the testing description', '%s: %s' % (W.name, bad))


def random_points(c, sd):
    rng = random.Random(sd)
    out = []
    for _ in range(10):
        v = [rng.random() ** 2 for _ in range(c)]
        out.append([a / sum(v) for a in v])
    return out


def order_differs(want, got, sgn):
    span = max(v for v, p in want) - min(v for v, p in want)
    gspan = max(got) - min(got)
    if span < 1e-7:
        return None             # every mixture is as good
    for i in range(len(got)):
        for j in range(i):
            d, g = (want[i][0] - want[j][0]) / span, sgn * (got[i] - got[j])
            if d > 1e-5 and g < 1e-9 * gspan or d < -1e-5 and g > -1e-9 * gspan:
                a, b = (i, j) if d > 0 else (j, i)
                return 'the quantity minimised prefers %s to %s, the documented distance does not' % (fmt(want[a][1]), fmt(want[b][1]))
    return None


def points(c, n):
    """points of the simplex of c classes, first n coordinates"""
    out = []
    for k in range(c):
        e = [1.0 if j == k else 0.0 for j in range(c)]
        out.append(e[:n])
        for q in range(c):
            if q != k:
                out.append([(0.8 if j == k else 0.2 if j == q else 0.0) for j in range(c)][:n])
    out.append([1.0 / c] * n)
    out.append([(j + 1.0) / (c * (c + 1) / 2.0) for j in range(c)][:n])
    return out


def l1_userfun(name, t):
    if len(t) == 2:
        a, b = [], []
        V._flat(_lst(t[0]), a)
        V._flat(_lst(t[1]), b)
        if len(a) == len(b):
            return sum(abs(x - y) for x, y in zip(a, b))
    raise V.NoValue('user function')


def _lst(t):
    return [_lst(x) for x in t] if isinstance(t, (tuple, list)) else t


def feasible(W, rep, site, model):
    """the constraints handed to the solvers describe the simplex"""
    for e in W.I.events:
        if e.kind == 'solve_qp':
            rep.count('C18', 'quadratic programs')
            if e.data.get('feasible') in ('simplex', 'subsimplex'):
                rep.count('C18', 'quadratic programs with simplex constraints')
                continue
            bad = qp_constraints(W, e, model)
            if bad:
                rep.ev('C18', 'simplex-constraints', e, 'the constraints do not describe the simplex (%s)' % bad)
        elif e.kind == 'cvx_solve':
            rep.count('C18', 'convex problems')
            if e.data['sense'] != 'min' and not concave(e):
                rep.ev('C18', 'minimises', e, 'the distance is maximised')
            for base, dims, one, nn in e.data['vars']:
                if one is False or nn is False:
                    rep.ev('C18', 'simplex-constraints', e, 'the prevalences are not constrained to be %s' %
                           ('non-negative' if nn is False else 'a distribution'))


def concave(e):
    return False


def qp_constraints(W, e, model):
    C, b, meq, n = e.data['C'], e.data['b'], e.data['meq'], e.data['n']
    if C is None or meq is None:
        return 'there are none' if C is None else None
    m, s = model(1)
    try:
        nn = m.nat(n, {})
        k = m.nat(C.dims[1], {})
        Cm = [[m.ev(C.body, {bvar(0, C.dims[0]): i, bvar(1, C.dims[1]): j}) for j in range(k)] for i in range(nn)]
        bv = [m.ev(b.body, {bvar(0, b.dims[0]): j}) for j in range(k)]
    except (V.NoValue, KeyError):
        return None

    def ok(x):
        for j in range(k):
            v = sum(Cm[i][j] * x[i] for i in range(nn)) - bv[j]
            if v < -1e-9 or (j < meq and abs(v) > 1e-9):
                return False
        return True
    c = ncls(W, W.C1)
    for p in points(c, nn):
        if not ok(p):
            return 'the distribution %s is excluded' % fmt(p)
    neg = [0.0] * nn
    neg[0] = -0.25
    neg[-1] += 1.25
    big = [1.0 / nn] * nn
    big[0] += 0.4
    if nn > 1 and ok(neg):
        return 'negative entries are allowed'
    if ok(big):
        return 'the entries may add up to more than one'
    if nn == c and ok([0.5 / nn] * nn):
        return 'the entries may add up to less than one'
    return None


def histograms(W, rep, model):
    """C21: every value of the sample lies between the first and the last edge"""
    for e in W.I.events:
        if e.kind != 'hist' or not e.data.get('facts') and e.data.get('facts') != ():
            continue
        cov = e.data['cover']
        if cov[0] is True and cov[1] is True:
            continue
        x = e.data['x']
        n = bad = 0
        for sd in SEEDS + GRID:
            try:
                m, s = model(sd)
                for env in index_envs(m, [e.data['first'], e.data['last'], x.body] + [c for c, v in e.data['facts']]):
                    if any(bool(m.ev(c, env)) != bool(v) for c, v in e.data['facts']):
                        continue
                    lo, hi = m.ev(e.data['first'], env), m.ev(e.data['last'], env)
                    vs = [m.ev(x.body, _with(env, bvar(0, x.dims[0]), k))
                          for k in range(m.nat(x.dims[0], env))]
                    n += 1
                    if vs and (min(vs) < lo - 1e-9 or max(vs) > hi + 1e-9):
                        bad += 1
            except (V.NoValue, KeyError):
                continue
        rep.count('C21', 'histograms valued' if n else 'histograms without value')
        if bad:
            rep.ev('C21', 'edges-cover-everything', e, 'a value of the sample lies outside the bin edges')


def _with(env, v, k):
    e = dict(env)
    e[v] = k
    return e


def index_envs(m, terms, limit=40):
    """values of the loop indices that occur free in the terms"""
    ixs = sorted({v for t in terms for v in t.vars if v.op == 'ix'}, key=lambda v: v.id)
    out = [{}]
    for ix in ixs:
        new = []
        for e in out:
            lo, n = m.nat(ix.args[1], e), m.nat(ix.args[2], e)
            for k in range(n):
                new.append(_with(e, ix, lo + k))
        out = new[:limit]
    return out


def fit_data(W, rep):
    """C09: what a supplied estimator is fitted with is the training sample of the caller"""
    from .drivers_est import array, flat
    want = [W.cells(W.X1), W.cells(W.y1)]
    for e in W.events('fit1'):
        if e.kind != 'est_fit' or not R.par_origin(e.data.get('origin')):
            continue
        for name, got, w in zip(('examples', 'labels'), e.data.get('cells') or (), want):
            if got is None or w is None:
                rep.count('C09', 'fits with other data: undecided')
                continue
            if tuple(got[0]) == tuple(w[0]) and got[1] is w[1]:
                rep.count('C09', 'fits with the data of the caller')
                continue
            r = compare(rep, 'C09', W.name, lambda sd: flat(array([(ONE, got[0], got[1])], base_model(W, sd)[0])),
                        lambda sd: flat(array([(ONE, w[0], w[1])], base_model(W, sd)[0])))
            rep.count('C09', 'fits with other terms: ' + (r if isinstance(r, str) else 'differs'))
            if not isinstance(r, str):
                rep.ev('C09', 'fit-data', e, '%s is fitted with other %s than those given to fit' % (e.data['origin'][1], name),
                       'e.g. %s instead of %s' % (fmt(r[1]), fmt(r[2])))
