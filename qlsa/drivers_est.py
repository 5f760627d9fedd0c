"""Histories of the library's classifiers, and the rules on them (C03 C05 C06 C12 C19 C23 C24)."""
import random

from . import terms as T
from . import rules as R
from . import ext_models as EX
from . import rules_quant as RQ
from .drivers import const, cdim, optname
from .scen import World
from .terms import A, P, K, bvar, dimatom, ZERO, ONE
from .values import *
from . import valuate as V

E = 'estimators.'


class Spec(object):
    """one classifier class under one choice of options"""

    def __init__(self, dotted, cls, classes, opts, member='estimator', expect=None, rows=True, fit='Xy'):
        self.dotted, self.cls, self.classes, self.opts = dotted, cls, classes, opts
        self.member, self.expect, self.rows, self.fit = member, expect, rows, fit


def rkf(W):
    """a repeated splitter that deals the examples anew every time it is asked"""
    return EX.mk_splitter(W.I, 'repeated', seeded=False, origin=('param', 'cv'), k=K(6), reps=2)


def groups(W):
    return W.arr('G', (W.N1,), 'int')


def loo(W):
    """a fold for every example"""
    return EX.mk_splitter(W.I, 'loo', origin=('param', 'cv'))


def shuffled(W):
    return EX.mk_splitter(W.I, 'shuffled', seeded=False, origin=('param', 'cv'), k=K(4))


def depths(W):
    """a list of parameters, one dictionary for each binary classifier"""
    ds = [W.I.alloc(DictObj({Const('depth'): Num(K(k + 2), 'int')}, origin=('param', 'params_fit')))
          for k in range(RQ.ncls(W, W.C1) - 1)]
    return W.I.alloc(ListObj(ds, origin=('param', 'params_fit')))


SPECS = [
    Spec(E + 'cross_validation', 'CV_estimator', '2n',
         [{}, dict(voting='soft'), dict(averaged_predictions=False), dict(cv=rkf), dict(cv=rkf, voting='soft'),
          dict(cv=rkf, averaged_predictions=False), dict(cv=shuffled), dict(cv=3), dict(cv=loo),
          dict(cv=shuffled, groups=groups)], expect='cv'),
    Spec(E + 'ensembles', 'EnsembleOfClassifiers', '2n', [{}], 'base_estimator', fit='Xyi', expect='ens'),
    Spec(E + 'frank_and_hall', 'FrankAndHallClassifier', '345n', [{}], expect='fh'),
    Spec(E + 'frank_and_hall', 'FrankAndHallMonotoneClassifier', '3456', [{}], expect='fhm'),
    Spec(E + 'frank_and_hall', 'FrankAndHallTreeClassifier', '34', [dict(scores='312'), dict(scores='231'),
                                                                    dict(scores='123')], expect='tree'),
    Spec(E + 'frank_and_hall', 'FrankAndHallTreeClassifier', '5', [dict(scores='4213'), dict(scores='1423')], expect='tree'),
    Spec(E + 'frank_and_hall', 'FrankAndHallTreeClassifier', '3', [dict(performance_measure=lambda W: W.usercall('measure'))],
         expect='tree'),
    Spec(E + 'frank_and_hall', 'FrankAndHallClassifier', '4', [dict(params_fit=depths)], expect='fh'),
    Spec(E + 'frank_and_hall', 'FrankAndHallMonotoneClassifier', '3', [dict(params_fit=depths)], expect='fhm'),
    Spec(E + 'frank_and_hall', 'FrankAndHallTreeClassifier', '3', [dict(scores='21', params_fit=depths)], expect='tree'),
    Spec(E + 'ordinal_ddag', 'DDAGClassifier', '2345', [{}, dict(predict_method='winner_node')], expect='ddag'),
    Spec(E + 'weighted_knn', 'PWK', '2n', [{}, dict(n_neighbors=3)], member=None, expect='pwk'),
]


def history(base, sp, o, c, name):
    W = World(base, name)
    I = W.I
    W.sp, W.o = sp, o
    W.C1 = cdim(c, 'C')
    W.N1, W.N2 = dimatom('N1', 2), dimatom('N2', 2)
    W.X1, W.y1 = W.X('X1', W.N1), W.y('y1', W.N1, W.C1, 'L')
    # the second fit is on other classes
    W.X2, W.y2 = W.X('X2', W.N2), W.y('y2', W.N2, W.C1, 'L2')
    W.T = {l: W.X('T' + l, dimatom('M' + l)) for l in 'ABC'}
    W.ctor = {k: const(W, v) for k, v in o.items() if k != 'scores'}
    if 'scores' in o:
        # the shape of the tree is chosen by a performance measure that answers these numbers
        W.ctor['performance_measure'] = W.I.call(W.base.cls('qlsa_stubs.measures', 'Script'),
                                                 [const(W, tuple(int(x) for x in o['scores'][:RQ.ncls(W, W.C1) - 1]))], {})
    if sp.member:
        W.ctor[sp.member] = W.est('member', False, W.C1, 'L')
    W.obj = W.do('new', W.base.cls(sp.dotted, sp.cls), **W.ctor)
    W.res = {}
    if W.obj is None:
        return W
    # a second object that is asked before it is fitted
    for m in ('predict', 'predict_proba'):
        if W.I.obj(W.obj).cls.find(m)[0] is not None:
            W.call('early.' + m, W.obj, m, W.T['A'])

    def fit(label, X, y, ix, n):
        if sp.fit == 'Xyi':
            i = W.arr(ix, (n, dimatom('NE' if ix == 'I1' else 'NE2', 2)), 'int')
            T.CONTRACTS[A('src', ix)] = {'lo': 0, 'int': True}
            return W.call(label, W.obj, 'fit', X, y, i)
        return W.call(label, W.obj, 'fit', X, y)

    def ask(l, X):
        for m in ('predict_proba', 'predict'):
            r = W.call('%s.%s' % (m, l), W.obj, m, X)
            if W.ok('%s.%s' % (m, l)):
                W.store('%s.%s' % (m, l), r)
    W.fit1 = fit('fit1', W.X1, W.y1, 'I1', W.N1)
    if not W.ok('fit1'):
        return W
    ask('A', W.T['A'])
    ask('B', W.T['B'])
    if sp.cls == 'CV_estimator':
        ask('T', W.X1)
    fit('fit2', W.X2, W.y2, 'I2', W.N2)
    if W.ok('fit2'):
        ask('C', W.T['C'])
    return W


PHASES = ('new', 'fit1', 'predict_proba.A', 'predict.A', 'predict_proba.B', 'predict.B', 'predict_proba.T', 'predict.T',
          'fit2', 'predict_proba.C', 'predict.C')
EARLY = ('early.predict', 'early.predict_proba')


def early(W, rep):
    """C23"""
    for l in EARLY:
        o = W.outcome.get(l)
        if o is None:
            continue
        rep.count('C23', 'uses before fit')
        m = l.split('.')[1]
        if o[0] == 'ok':
            rep.add('C23', 'not-fitted-error', R.site_of(W, m), '%s answers before fit' % m, W.name)
        elif getattr(o[1], 'name', '?') != 'NotFittedError':
            rep.add('C23', 'not-fitted-error', R.site_of(W, m), '%s before fit ends in %s' % (m, R.clean(o[1])), W.name)


TWINS = (48, 49)
MORE = (47,) + TWINS


def model(W, sd):
    rng = random.Random(sd * 131 + 7)
    c = RQ.ncls(W, W.C1, sd)
    n1, n2 = 9 + sd % 2 + 3, (8 + sd % 3 + 4 if sd != 46 else 12)
    lab = [3, 5, 8, 9, 12, 14][:c]
    s1, s2 = RQ.Sample(rng, n1, c, lab, 'prob'), RQ.Sample(rng, n2, c, [1, 3, 6, 8, 11, 15][:c], 'prob')
    dims = {'D': 2, 'N1': n1, 'N2': n2, 'C': c, 'NE': 3, 'NE2': 2 + sd % 3, 'MA': 4, 'MB': 3 if sd != 46 else 4, 'MC': 4}
    if sd in TWINS:
        dims['MA'] = dims['MB'] = n1
        dims['MC'] = n2
    srcs = {'X1': V.Data(s1.X), 'y1': V.Data(s1.y), 'X2': V.Data(s2.X), 'y2': V.Data(s2.y)}
    for l in 'ABC':
        srcs['T' + l] = V.Data([[rng.uniform(-3, 3) for _ in range(2)] for _ in range(dims['M' + l])])
    if sd in TWINS:
        # a testing sample that is like the training sample but for one value
        for l, x in (('A', s1.X), ('B', s1.X), ('C', s2.X)):
            rows = [list(r) for r in x]
            rows[-1 if sd == 48 else 0][1] += 1
            srcs['T' + l] = V.Data(rows)
    for k, n in (('I1', n1), ('I2', n2)):
        # bootstrap bags that contain every class
        yy = srcs['y1' if k == 'I1' else 'y2'].values
        one = [yy.index(v) for v in sorted(set(yy))]
        cols = []
        for _ in range(dims['NE' if k == 'I1' else 'NE2']):
            col = one + [rng.randrange(n) for _ in range(n - len(one))]
            rng.shuffle(col)
            cols.append(col)
        srcs[k] = V.Data([[col[i] for col in cols] for i in range(n)])
    m = V.Model(dims, srcs, lab, sd)
    # the performance measure of a tree
    m.userfun = lambda name, t: abs(float(t[0]) - float(t[1]))
    return m


def array(res, m):
    """nested lists of the value of a stored result"""
    for cond, dims, body in res:
        if cond is ONE or m.ev(cond):
            if dims is None:
                raise V.NoValue('not an array')
            ns = [m.nat(d, {}) for d in dims]

            def rec(k, env):
                if k == len(ns):
                    return m.ev(body, env)
                return [rec(k + 1, dict(env, **{}) if False else _with(env, bvar(k, dims[k]), i)) for i in range(ns[k])]
            return rec(0, {})
    raise V.NoValue('no alternative')


def _with(env, v, k):
    e = dict(env)
    e[v] = k
    return e


def flat(x):
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [x]


def check(W, rep, props):
    res = W.res
    site = R.site_of(W, 'predict_proba')
    c = RQ.ncls(W, W.C1)
    for l in 'ABCT':
        k = 'predict_proba.' + l
        if k in res:
            rep.count('C19', 'probability arrays')
            n = bad = 0
            for sd in RQ.SEEDS:
                try:
                    x = array(res[k], model(W, sd))
                except V.NoValue as e:
                    rep.count('C19', 'models without value')
                    rep.sample('C19?', '%s %s: %s' % (W.name, k, e))
                    continue
                n += 1
                rows = x
                while rows and isinstance(rows[0], list) and rows[0] and isinstance(rows[0][0], list):
                    rows = [r for q in rows for r in q]
                if W.sp.cls != 'FrankAndHallClassifier' and \
                        any(len(r) != c or min(r) < -1e-9 or abs(sum(r) - 1) > 1e-6 for r in rows):
                    bad += 1
                    ex = [r for r in rows if len(r) != c or min(r) < -1e-9 or abs(sum(r) - 1) > 1e-6][0]
            rep.count('C19', 'probability arrays valued' if n else 'probability arrays undecided')
            if bad:
                rep.add('C19', 'rows-are-distributions', site, 'a row of class probabilities is not a distribution',
                        '%s: %s' % (W.name, RQ.fmt(ex)))
    for meth in ('predict_proba', 'predict'):
        a, b, cc = (res.get('%s.%s' % (meth, l)) for l in 'ABC')
        if a and b:
            r = RQ.compare(rep, 'C06', W.name, lambda sd: flat(array(b, model(W, sd))),
                           lambda sd: flat(array(a, RQ.swap(model(W, sd), TA='TB', MA='MB'))), RQ.SEEDS)
            rep.count('C06', 'second predictions compared: %s' % (r if isinstance(r, str) else r[0]))
            if not isinstance(r, str):
                rep.add('C06', 'later-equals-first', R.site_of(W, meth), 'a later %s is not what a first call gives' % meth, W.name)
        if a and cc and not any(v in (rkf, shuffled) for v in W.o.values() if callable(v)):
            r = RQ.compare(rep, 'C05', W.name, lambda sd: flat(array(cc, model(W, sd))),
                           lambda sd: flat(array(a, RQ.swap(model(W, sd), TA='TC', MA='MC', X1='X2', y1='y2', N1='N2', I1='I2',
                                                            NE='NE2'))), RQ.SEEDS)
            rep.count('C05', 'refitted objects compared: %s' % (r if isinstance(r, str) else r[0]))
            if not isinstance(r, str):
                rep.add('C05', 'refit-equals-fresh', R.site_of(W, meth), 'after a second fit %s is not the one of a fresh object' % meth,
                        W.name)


# ------------------------------------------------------------------------------------ what the classifiers should answer
class Member(object):
    """the classifier 'member' after fit(X, y)"""

    def __init__(self, m, X, y, classes, ctor='member', params=()):
        self.m, self.cls = m, classes
        self.tok = V.rnd(['fit', ctor, V._tup(X), tuple(y), tuple(params)])

    def proba(self, x):
        return V.pred_value(self.tok, x, len(self.cls), self.m.seed)

    def label(self, x):
        return self.cls[int(V.h01('plab', self.tok, x, self.m.seed) * len(self.cls))]


def argmax(v):
    return max(range(len(v)), key=lambda k: (v[k], -k))


def tops(v):
    b = max(v)
    return [k for k in range(len(v)) if abs(v[k] - b) < 1e-10]


def mean(rows):
    return [sum(r[k] for r in rows) / len(rows) for k in range(len(rows[0]))]


def draws_of(W, key):
    out = []
    for cond, dims, body in W.res.get(key, ()):
        if dims is not None:
            out += [a for a in T.walk(body) if a.op == 'split' and a not in out]
    return out


def binary_members(m, X, y, lab, o=None):
    """member k of an ordinal decomposition: is the class one of the first k + 1"""
    out = []
    par = list(range(2, len(lab) + 1)) if (o or {}).get('params_fit') else []
    for k in range(len(lab) - 1):
        out.append(Member(m, X, [1 if v in lab[:k + 1] else 0 for v in y], [0, 1], params=par[k:k + 1]))
    return out


def spec_cv(W, m, X, y, lab, Z, train, draw):
    o = W.o
    fs = V.folds(m, draw, {})
    n = len(X)
    est = []
    for te in fs:
        tr = [i for i in range(n) if i not in set(te)]
        est.append(Member(m, [X[i] for i in tr], [y[i] for i in tr], lab))
    if train:
        reps = draw.args[4]
        q = len(fs) // reps
        layers = []
        for r in range(reps):
            rows = [None] * n
            for f in range(q):
                for i in fs[r * q + f]:
                    rows[i] = est[r * q + f].proba(Z[i])
            layers.append(rows)
    else:
        layers = [[e.proba(x) for x in Z] for e in est]
    if not o.get('averaged_predictions', True):
        rows = [r for la in layers for r in la]
        return rows, [[lab[k] for k in tops(r)] for r in rows]
    rows = [mean([la[i] for la in layers]) for i in range(len(Z))]
    if o.get('voting') == 'soft':
        return rows, [[lab[k] for k in tops(r)] for r in rows]
    votes = []
    for i in range(len(Z)):
        v = [0] * len(lab)
        for la in layers:
            v[argmax(la[i])] += 1
        votes.append([lab[k] for k in tops(v)])
    return rows, votes


def spec_ens(W, m, X, y, lab, Z, ix):
    est = []
    for e in range(len(ix[0])):
        pos = [r[e] for r in ix]
        ye = [y[i] for i in pos]
        if sorted(set(ye)) != list(lab):
            raise V.NoValue('a class is missing')
        est.append(Member(m, [X[i] for i in pos], ye, lab))
    return [[e.proba(x) for e in est] for x in Z], [[[e.label(x)] for e in est] for x in Z]


def spec_fh(W, m, X, y, lab, Z):
    est = binary_members(m, X, y, lab, W.o)
    rows = []
    for x in Z:
        p = [e.proba(x)[1] for e in est]
        rows.append([p[0]] + [(1 - p[k - 1]) * p[k] for k in range(1, len(p))] + [1 - p[-1]])
    return rows, [[lab[k] for k in tops(r)] for r in rows]


def spec_fhm(W, m, X, y, lab, Z):
    est = binary_members(m, X, y, lab, W.o)
    rows = []
    for x in Z:
        p = [e.proba(x)[1] for e in est]
        up, dn = list(p), list(p)
        for k in range(1, len(p)):
            up[k] = max(up[k], up[k - 1])
        for k in range(len(p) - 2, -1, -1):
            dn[k] = min(dn[k], dn[k + 1])
        q = [0.0] + [(a + b) / 2 for a, b in zip(up, dn)] + [1.0]
        rows.append([b - a for a, b in zip(q, q[1:])])
    return rows, [[lab[k] for k in tops(r)] for r in rows]


def spec_tree(W, m, X, y, lab, Z):
    est = binary_members(m, X, y, lab, W.o)
    n = len(est)
    if 'scores' in W.o:
        sc = [int(v) for v in W.o['scores'][:n]]
    else:
        sc = [abs(sum(1 for v in y if v in lab[:k + 1]) / len(y) - sum(e.proba(x)[1] for x in X) / len(X))
              for k, e in enumerate(est)]
    rows = []
    for x in Z:
        p = [1.0] * (n + 1)

        def go(a, b):
            # classes a .. b
            if a == b:
                return
            k = min(range(a, b), key=lambda j: sc[j])
            q = est[k].proba(x)
            for j in range(a, b + 1):
                p[j] *= q[1] if j <= k else q[0]
            go(a, k)
            go(k + 1, b)
        go(0, n)
        rows.append(p)
    return rows, [[lab[k] for k in tops(r)] for r in rows]


def spec_ddag(W, m, X, y, lab, Z):
    est = {}
    for i in range(len(lab)):
        for j in range(i + 1, len(lab)):
            pos = [k for k, v in enumerate(y) if v in (lab[i], lab[j])]
            est[i, j] = Member(m, [X[k] for k in pos], [int(y[k] == lab[j]) for k in pos], [0, 1])
    rows = []
    for x in Z:
        p = [0.0] * len(lab)

        def go(a, b, w):
            if a == b:
                p[a] += w
                return
            left, right = est[a, b].proba(x)
            if W.o.get('predict_method') == 'winner_node' and b - a > 1:
                left, right = (1, 0) if left >= 0.5 else (0, 1)
            go(a, b - 1, w * left)
            go(a + 1, b, w * right)
        go(0, len(lab) - 1, 1.0)
        rows.append(p)
    return rows, [[lab[k] for k in tops(r)] for r in rows]


def spec_pwk(W, m, X, y, lab, Z):
    w = {c: 1 - sum(1 for v in y if v == c) / len(y) for c in lab}
    rows = []
    for x in Z:
        o = sorted(range(len(X)), key=lambda i: (round(sum((a - b) ** 2 for a, b in zip(X[i], x)), 9), i))
        p = [0.0] * len(lab)
        for i in o[:W.o.get('n_neighbors', 10)]:
            p[lab.index(y[i])] += w[y[i]]
        rows.append([v / sum(p) for v in p])
    return rows, [[lab[k] for k in tops(r)] for r in rows]


SPEC = {'cv': spec_cv, 'ens': spec_ens, 'fh': spec_fh, 'fhm': spec_fhm, 'tree': spec_tree, 'ddag': spec_ddag, 'pwk': spec_pwk}
OWNERS = {'cv': ('C12', 'C19'), 'ens': ('C24', 'C19'), 'fh': ('C24', 'C19'), 'fhm': ('C24', 'C19'), 'tree': ('C24', 'C19'),
          'ddag': ('C24', 'C19'), 'pwk': ('C19',)}


def expected(W, m, l, draw=None):
    """what predict_proba and predict (alternatives, for ties) answer for the sample l"""
    X, y = m.srcs['X2' if l == 'C' else 'X1'].values, m.srcs['y2' if l == 'C' else 'y1'].values
    Z = X if l == 'T' else m.srcs['T' + l].values
    lab = sorted(set(y))
    f = SPEC[W.sp.expect]
    if W.sp.expect == 'cv':
        return f(W, m, X, y, lab, Z, l == 'T', draw)
    if W.sp.expect == 'ens':
        return f(W, m, X, y, lab, Z, m.srcs['I2' if l == 'C' else 'I1'].values)
    return f(W, m, X, y, lab, Z)


def agrees(x, e):
    """x equals the expected value; a list of scalars stands for the alternatives of one entry"""
    if isinstance(x, list):
        return isinstance(e, list) and len(x) == len(e) and all(agrees(p, q) for p, q in zip(x, e))
    if isinstance(e, list):
        return any(agrees(x, q) for q in e)
    return abs(x - e) < 1e-7


def same_rows(x, e):
    """the same rows, in any order"""
    def rows(v):
        while v and isinstance(v[0], list) and v[0] and isinstance(v[0][0], list):
            v = [r for q in v for r in q]
        return sorted([round(float(z), 7) for z in r] for r in v)
    return agrees(rows(x), rows(e))


def by_specification(W, rep):
    if W.sp.expect is None:
        return
    if 'groups' in W.o:
        for key in sorted(W.res):
            for d in draws_of(W, key):
                rep.count('C12', 'grouped splits')
                if 'G' not in d.args[6]:
                    rep.add('C12', 'groups-reach-the-splitter', R.site_of(W, 'fit'), 'the folds are made without the groups', W.name)
    for l in 'ABCT':
        for k, meth in enumerate(('predict_proba', 'predict')):
            key = '%s.%s' % (meth, l)
            if key not in W.res:
                continue
            n, bad = 0, None
            owners = [p for p in OWNERS[W.sp.expect] if p != 'C19' or meth == 'predict_proba']
            rowbad = None
            for p in owners:
                rep.count(p, 'answers with a specification')
            for sd in RQ.SEEDS + (51,) + MORE:
                try:
                    m = model(W, sd)
                    got = array(W.res[key], m)
                    if W.sp.expect == 'cv':
                        ds = draws_of(W, key)
                        exps = [expected(W, m, l, d)[k] for d in ds]
                        if not exps:
                            raise V.NoValue('no folds')
                        exp = [e for e in exps if agrees(got, e)] or exps
                        exp = exp[0]
                    else:
                        exp = expected(W, m, l)[k]
                except V.NoValue as e:
                    for p in owners:
                        rep.count(p, 'models without value')
                        rep.sample(p + '?', '%s %s: %s' % (W.name, key, e))
                    continue
                n += 1
                if not agrees(got, exp):
                    bad = (got, exp)
                    if k == 0 and not same_rows(got, exp):
                        rowbad = bad
            for p in owners:
                rep.count(p, 'answers compared with their specification' if n else 'answers undecided')
                b = rowbad if p == 'C19' else bad
                if b:
                    rep.add(p, 'as-specified', R.site_of(W, meth), '%s is not the combination of its members that is documented' % meth,
                            '%s %s: %s, expected %s' % (W.name, key, str(b[0])[:120], str(b[1])[:120]))


def job_fn(sp, o, c, name, props):
    def fn(base, rep):
        W = history(base, sp, o, c, name)
        early(W, rep)
        ev = W.I.events
        R.events(W, rep)
        R.outcomes(W, rep, PHASES)
        if W.obj is not None:
            R.ctor_params(W, rep, W.obj, W.ctor, 'fit' if W.ok('fit1') else '')
        for l in ('fit1', 'fit2'):
            if W.ok(l):
                rep.count('C14', 'fit results checked')
                if R.same_value(W.I, W.obj, W.outcome[l][1]) is False:
                    rep.add('C14', 'fit-returns-self', R.site_of(W, 'fit'), 'fit does not return the object')
        R.members(W, rep, W.ctor.get(sp.member))
        check(W, rep, props)
        by_specification(W, rep)
    return fn


def jobs(Job):
    out = []
    for sp in SPECS:
        for o in sp.opts:
            for c in sp.classes:
                name = '%s(%s)/C=%s' % (sp.cls, optname(o), c)
                props = 'C05 C06 C07 C08 C10 C13 C14 C17 C19 C20 C23 C24'.split()
                if sp.cls == 'CV_estimator':
                    props.append('C12')
                out.append(Job(name, props, job_fn(sp, o, c, name, props)))
    return out


# ------------------------------------------------------------------------------------------------ the quantification tree
def oqt_job(c, scores, name):
    """OrdinalQuantificationTree is PCC with a tree: its answer is the mean of the rows of the tree"""
    def fn(base, rep):
        W = World(base, name)
        W.sp = Spec(E + 'frank_and_hall', 'FrankAndHallTreeClassifier', c, [], expect='tree')
        W.o = dict(scores=scores) if scores else dict(scores='1') if c == '2' else {}
        W.C1 = cdim(c, 'C')
        W.N1, W.N2 = dimatom('N1', 2), dimatom('N2', 2)
        W.X1, W.y1 = W.X('X1', W.N1), W.y('y1', W.N1, W.C1, 'L')
        W.X2, W.y2 = W.X('X2', W.N2), W.y('y2', W.N2, W.C1, 'L2')
        W.T = {l: W.X('T' + l, dimatom('M' + l)) for l in 'ABC'}
        est = W.est('member', False, W.C1, 'L')
        if scores:
            script = W.I.call(W.base.cls('qlsa_stubs.measures', 'Script'),
                              [const(W, tuple(int(x) for x in scores[:RQ.ncls(W, W.C1) - 1]))], {})
            est = W.I.call(W.base.cls(W.sp.dotted, W.sp.cls), [est], {'performance_measure': script})
        W.ctor = {'estimator_test': est}
        W.res = {}
        W.obj = W.do('new', W.base.cls('ordinal.trees', 'OrdinalQuantificationTree'), **W.ctor)
        if W.obj is None:
            return
        R.ctor_params(W, rep, W.obj, W.ctor, '')
        fits = [('fit1', W.X1, W.y1, 'AB')]
        if not scores:
            fits.append(('fit2', W.X2, W.y2, 'C'))
        for l, X, y, asks in fits:
            r = W.call(l, W.obj, 'fit', X, y)
            if not W.ok(l):
                break
            rep.count('C14', 'fit results checked')
            if R.same_value(W.I, W.obj, r) is False:
                rep.add('C14', 'fit-returns-self', R.site_of(W, 'fit'), 'fit does not return the object')
            for k in asks:
                r = W.call('pred' + k, W.obj, 'predict', W.T[k])
                if W.ok('pred' + k):
                    W.store('p' + k, r)
            R.ctor_params(W, rep, W.obj, W.ctor, l)
        R.events(W, rep)
        R.outcomes(W, rep, ('new', 'fit1', 'predA', 'predB', 'fit2', 'predC'))
        for l in 'AB':
            if 'p' + l not in W.res or not W.o:
                continue
            rep.count('C25', 'estimates with a definition')
            r = RQ.compare(rep, 'C25', W.name, lambda sd: flat(array(W.res['p' + l], model(W, sd))),
                           lambda sd: mean(expected(W, model(W, sd), l)[0]), RQ.SEEDS)
            if r == 'equal':
                rep.count('C25', 'estimates compared with their definition')
            elif not isinstance(r, str):
                rep.add('C25', 'documented-estimate', R.site_of(W, 'predict'),
                        'the estimate is not the mean of the probabilities given by the tree', W.name)
        for k in ('pA', 'pB', 'pC'):
            if k in W.res:
                rep.count('C01', 'result alternatives')
                for sd in RQ.SEEDS:
                    try:
                        x = flat(array(W.res[k], model(W, sd)))
                    except V.NoValue:
                        continue
                    rep.count('C01', 'models valued')
                    if min(x) < -1e-9 or abs(sum(x) - 1) > 1e-6:
                        rep.add('C01', 'distribution', R.site_of(W, 'predict'), 'the vector returned is not a distribution',
                                '%s: %s' % (W.name, RQ.fmt(x)))
                        break
    return fn


def oqt_jobs(Job):
    out = []
    for c, s in (('2', None), ('3', '312'), ('3', '231'), ('4', '123'), ('3', None)):
        name = 'OrdinalQuantificationTree(%s)/C=%s' % ('scores=' + s if s else 'estimator', c)
        out.append(Job(name, 'C01 C07 C13 C14 C17 C20 C25'.split(), oqt_job(c, s, name)))
    return out
