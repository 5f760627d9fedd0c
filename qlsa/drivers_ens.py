"""Histories of the quantifiers made of other quantifiers (EoQ and the decompositions) and the rules on them.

The base quantifier is one of qlsa/stubs/quantifiers.py: what it learns and answers is an unknown function of exactly the
data it is given, so the value of the composite tells which data reached which member and how the answers were combined."""
import random
import statistics

from . import terms as T
from . import rules as R
from . import rules_quant as RQ
from .drivers import const, cdim, optname, snapshot
from .drivers_est import Member, array, flat, agrees, argmax
from .scen import World
from .terms import A, P, K, bvar, dimatom, ZERO, ONE
from .values import *
from . import valuate as V

STUB = 'qlsa_stubs.quantifiers'
LABELS = [3, 5, 8, 9, 12]


class Spec(object):
    def __init__(self, kind, dotted, cls, param, classes, opts, modes):
        self.kind, self.dotted, self.cls, self.param = kind, dotted, cls, param
        self.classes, self.opts, self.modes = classes, opts, modes


SPECS = [
    Spec('ovr', 'decomposition.multiclass', 'OneVsRestQuantifier', 'base_quantifier', '3n', [{}],
         ('X', 'pred', 'multi', 'notrain', 'new', 'both')),
    Spec('fh', 'decomposition.ordinal', 'FrankAndHallQuantifier', 'quantifier', '345n', [{}],
         ('X', 'pred', 'multi', 'notrain', 'new', 'both')),
    Spec('eoq', 'ensembles.eoq', 'EoQ', 'base_quantifier', '2n', [{}],
         ('X', 'pred', 'crisp', 'cube', 'multi', 'new', 'newens', 'both', 'gen', 'genX', 'spare')),
    Spec('eoq', 'ensembles.eoq', 'EoQ', 'base_quantifier', '2', [dict(combination_strategy='median')], ('X', 'pred')),
    Spec('eoq', 'ensembles.eoq', 'EoQ', 'base_quantifier', '3', [dict(combination_strategy='prevalence_similarity')],
         ('X', 'pred', 'crisp')),
    Spec('eoq', 'ensembles.eoq', 'EoQ', 'base_quantifier', '23',
         [dict(combination_strategy='distribution_similarity', n_bins=4, distribution_function='PDF'),
          dict(combination_strategy='distribution_similarity', n_bins=3, distribution_function='CDF',
               bin_strategy='equal_count', percentage_of_selected_models=0.67)], ('X', 'pred', 'cube', 'multi')),
    Spec('eoq', 'ensembles.eoq', 'EoQ', 'base_quantifier', '3',
         [dict(combination_strategy='all', n_bins=4, percentage_of_selected_models=0.1)], ('X', 'pred')),
]


def history(base, sp, o, c, mode, name):
    W = World(base, name)
    I = W.I
    W.sp, W.o, W.mode = sp, o, mode
    fitted = mode in ('new', 'newens')
    W.C1 = cdim(c, 'C')
    W.C2 = W.C1
    W.N1, W.N2 = dimatom('N1', 2), dimatom('N2', 2)
    W.NE = K(3)
    W.NI = K(4) if mode == 'spare' else W.NE    # bags supplied: as many as members, or one more
    R_ = dimatom('R', 2) if mode == 'multi' else ONE
    W.X1, W.y1 = W.X('X1', W.N1), W.y('y1', W.N1, W.C1, 'L')
    W.X2, W.y2 = W.X('X2', W.N2), W.y('y2', W.N2, W.C1, 'L')
    W.T, W.Q, W.res = {}, {}, {}
    needs = mode not in ('X', 'genX')
    cc = W.C1 - 1 if sp.kind == 'fh' else W.C1

    def preds(nm, n):
        if mode == 'crisp':
            return W.crisp(nm, n)
        if mode == 'cube':
            b = A('src', nm)
            T.CONTRACTS[b] = {'lo': 0, 'hi': 1, 'simplex': 2, 'dims': (None, None, cc)}
            return W.arr(nm, (n, W.NE, cc))
        if sp.kind == 'fh':
            b = A('src', nm)
            T.CONTRACTS[b] = {'lo': 0, 'hi': 1}
            return W.arr(nm, (n, cc))
        return W.probs(nm, n, cc)
    for l in 'ABC':
        W.T[l] = W.X('T' + l, dimatom('M' + l))
        W.Q[l] = preds('Q' + l, dimatom('M' + l)) if needs and not fitted else None
    W.P1 = preds('P1', R_ * W.N1) if needs and not fitted else None
    W.P2 = preds('P2', R_ * W.N2) if needs and not fitted else None
    # the base quantifier
    if needs:
        W.template = I.call(W.base.cls(STUB, 'StubY'), [], {
            'probabilistic_predictions': Const(mode != 'crisp') if False else Num(K(int(mode != 'crisp')), 'bool'),
            'needs_predictions_train': Num(K(int(mode != 'notrain')), 'bool')})
    else:
        W.template = I.call(W.base.cls(STUB, 'StubX'), [], {})
    W.ctor = {k: const(W, v) for k, v in o.items()}
    W.ctor[sp.param] = W.template
    W.members = []
    pre = 'ensemble_' if sp.kind == 'eoq' else ''
    if mode in ('new', 'both', 'newens'):
        for k in ('train', 'test'):
            e = W.est('est' + k, False, W.C1, 'L')
            if sp.kind == 'ovr':
                e = I.call(W.base.cls('qlsa_stubs.sklearn_multiclass', 'OneVsRestClassifier'), [e], {})
            elif sp.kind == 'fh':
                e = I.call(W.base.cls('estimators.frank_and_hall', 'FrankAndHallClassifier'), [e], {})
            elif mode == 'newens':
                e = I.call(W.base.cls('estimators.ensembles', 'EnsembleOfClassifiers'), [e], {})
            W.ctor[pre + 'estimator_' + k] = e
    if sp.kind == 'eoq':
        W.ctor['n_quantifiers'] = Num(W.NE, 'int')
        if mode in ('gen', 'genX'):
            W.gen = I.call(W.base.cls('bag_generator', 'PriorShift_BagGenerator'), [],
                           {'random_state': Num(dimatom('SEED', 0), 'int'), 'bag_size': Num(dimatom('NB'), 'int')})
            W.ctor['bag_generator'] = W.gen
            W.gen_before = snapshot(W, W.gen)
    W.before = snapshot(W, W.template)
    W.obj = W.do('new', W.base.cls(sp.dotted, sp.cls), **W.ctor)
    if W.obj is None:
        return W

    def fit(label, k, X, y, p):
        kw = {}
        if p is not None and mode != 'notrain':
            kw['predictions_train'] = p
        if sp.kind == 'eoq' and mode not in ('gen', 'genX'):
            T.CONTRACTS[A('src', 'I' + k)] = {'lo': 0, 'int': True}
            kw['indexes'] = W.arr('I' + k, (dimatom('NB'), W.NI), 'int')
            kw['prevalences'] = W.arr('V' + k, (W.C1, W.NI))
        r = W.call(label, W.obj, 'fit', X, y, **kw)
        if W.ok(label) and 'indexes_' in I.obj(W.obj).attrs:
            W.store('ix' + k, I.obj(W.obj).attrs['indexes_'])
        return r

    def ask(l):
        r = W.call('pred' + l, W.obj, 'predict', W.T[l], **({'predictions_test': W.Q[l]} if W.Q[l] is not None else {}))
        if W.ok('pred' + l):
            if isinstance(r, Ref) and isinstance(I.obj(r), DictObj):
                for k, v in I.obj(r).items.items():
                    W.store('p%s.%s' % (l, k.v), v)
            else:
                W.store('p' + l, r)
    W.fit1 = fit('fit1', '1', W.X1, W.y1, W.P1)
    if not W.ok('fit1'):
        return W
    W.after = snapshot(W, W.template)
    ask('A')
    ask('B')
    fit('fit2', '2', W.X2, W.y2, W.P2)
    if W.ok('fit2'):
        ask('C')
    return W


PHASES = ('new', 'fit1', 'predA', 'predB', 'fit2', 'predC')


def model(W, sd):
    rng = random.Random(sd * 977 + 3)
    c = RQ.ncls(W, W.C1, sd)
    fh = W.sp.kind == 'fh'
    rows = 2 if W.mode == 'multi' else 1
    n1, n2, nb = 9 + sd % 2, (8 + sd % 3 if sd != 46 else 9), 7
    lab = LABELS[:c]
    kind = 'crisp' if W.mode == 'crisp' else 'prob'
    s1, s2 = (RQ.Sample(rng, n, c, lab, kind, rows) for n in (n1, n2))
    dims = {'D': 2, 'N1': n1, 'N2': n2, 'C': c, 'NB': nb, 'R': rows, 'SEED': 40 + sd, 'MA': 5, 'MB': 4 if sd != 46 else 5, 'MC': 6 if sd != 46 else 5}

    def pr(n, s=None):
        if fh:
            return [[rng.random() for _ in range(c - 1)] for _ in range(n)]
        if W.mode == 'cube':
            return [[RQ.Sample(rng, 1, c, lab, 'prob', 1, y=False).P[0] for _ in range(3)] for _ in range(n)]
        return s.P if s is not None else RQ.Sample(rng, n, c, lab, kind, 1, y=False).P
    srcs = {'X1': V.Data(s1.X), 'y1': V.Data(s1.y), 'X2': V.Data(s2.X), 'y2': V.Data(s2.y),
            'P1': V.Data(pr(n1 * rows, s1)), 'P2': V.Data(pr(n2 * rows, s2))}
    for l in 'ABC':
        m = dims['M' + l]
        srcs['T' + l] = V.Data([[rng.uniform(-3, 3) for _ in range(2)] for _ in range(m)])
        srcs['Q' + l] = V.Data(pr(m))
    for k, n in (('1', n1), ('2', n2)):
        yy = srcs['y' + k].values
        cols = []
        for _ in range(4 if W.mode == 'spare' else 3):
            col = [rng.choice([i for i in range(n) if yy[i] == v]) for v in lab]
            col += [rng.randrange(n) for _ in range(nb - len(col))]
            rng.shuffle(col)
            cols.append(col)
        srcs['I' + k] = V.Data([[col[i] for col in cols] for i in range(nb)])
        srcs['V' + k] = V.Data([[sum(1 for i in col if yy[i] == v) / nb for col in cols] for v in lab])
    m = V.Model(dims, srcs, lab, sd)
    return m


# ---------------------------------------------------------------------------------------- what they should answer
NONE_TOK = ('cst', 'none')


class Quant(object):
    """a base quantifier after it learned from (X, y, P)"""

    def __init__(self, m, X, y, p, n):
        def tok(v):
            return NONE_TOK if v is None else V._tup(v)
        self.m, self.n, self.tok = m, n, tok
        self.model = ('learned', V.rnd(['fit', 'quantifier', tok(X), tok(y), (tok(p),)]))

    def answer(self, X, p):
        t = (self.model, self.tok(X), self.tok(p))
        return V.userq_value(t, self.n, self.m.seed)


def normal(v):
    if not sum(v):
        raise V.NoValue('nothing to normalise')
    return [x / sum(v) for x in v]


def expected(W, m, l):
    """{result key: value}"""
    k = '2' if l == 'C' else '1'
    X, y, p = (m.srcs[s + k].values for s in 'XyP')
    Z, q = m.srcs['T' + l].values, m.srcs['Q' + l].values
    lab = sorted(set(y))
    kind, mode = W.sp.kind, W.mode
    if kind == 'eoq':
        return spec_eoq(W, m, k, l, X, y, p, Z, q, lab)
    c = len(lab)
    bins = [[int(v == lab[j]) for v in y] for j in range(c)] if kind == 'ovr' else \
        [[int(v <= lab[j]) for v in y] for j in range(c - 1)]
    ans = []
    for j, yb in enumerate(bins):
        if mode == 'X':
            ans.append(Quant(m, X, yb, None, 2).answer(Z, None)[1])
            continue
        if mode == 'new':
            # the binary classifiers that are already there
            # (fitted with the first sample)
            X0, y0 = m.srcs['X1'].values, m.srcs['y1'].values
            lab0 = sorted(set(y0))
            y0 = [int(v == lab0[j]) if kind == 'ovr' else int(v <= lab0[j]) for v in y0]
            tr, te = (Member(m, X0, y0, [0, 1], ctor) for ctor in ('esttrain', 'esttest'))
            pt, qt = [tr.proba(x) for x in X], [te.proba(x) for x in Z]
        else:
            pt = None if mode == 'notrain' else [[1 - r[j], r[j]] for r in p]
            qt = [[1 - r[j], r[j]] for r in q]
        ye = yb * (len(pt) // len(yb)) if pt is not None else yb
        ans.append(Quant(m, None, ye, pt, 2).answer(None, qt)[1])
    if kind == 'ovr':
        return {'': normal(ans) if any(ans) else [1 / c] * c}
    up, dn = list(ans), list(ans)
    for j in range(1, c - 1):
        up[j] = max(up[j], up[j - 1])
    for j in range(c - 3, -1, -1):
        dn[j] = min(dn[j], dn[j + 1])
    cum = [0.0] + [(a + b) / 2 for a, b in zip(up, dn)] + [1.0]
    return {'': [b - a for a, b in zip(cum, cum[1:])]}


def edges(W, vals, y, lab):
    nb = W.o.get('n_bins', 100)
    if W.o.get('bin_strategy', 'equal_width') == 'equal_width':
        e = [j / nb * (max(vals) - min(vals)) + min(vals) for j in range(nb + 1)]
    else:
        s = sorted(vals)
        e = [0.0]
        for j in range(1, nb):
            q = int(round(len(s) * j / nb))
            e.append((s[q - 1] + s[q]) / 2)
        e.append(1.0)
    e[0], e[-1] = float('-inf'), float('inf')
    return e


def hist(W, vals, e):
    h = [0] * (len(e) - 1)
    for v in vals:
        for j in range(len(h)):
            if e[j] <= v < e[j + 1]:
                h[j] += 1
    h = [x / len(vals) for x in h]
    if W.o.get('distribution_function') == 'CDF':
        for j in range(1, len(h)):
            h[j] += h[j - 1]
    return h


def spec_eoq(W, m, k, l, X, y, p, Z, q, lab):
    mode = W.mode
    c = len(lab)
    ix = array(W.res['ix' + k], m)
    bags = [[int(r[e]) for r in ix] for e in range(3)]
    n = len(y)
    if mode in ('new', 'newens'):
        # estimators are fitted once, with the first sample
        X0, y0 = m.srcs['X1'].values, m.srcs['y1'].values
        ix0 = array(W.res['ix1'], m)
        bags0 = [[int(r[e]) for r in ix0] for e in range(3)]
        if mode == 'new':
            tr, te = (Member(m, X0, y0, lab, ctor) for ctor in ('esttrain', 'esttest'))
            p, q = [tr.proba(x) for x in X], [te.proba(x) for x in Z]
        else:
            tr, te = ([Member(m, [X0[i] for i in b], [y0[i] for i in b], sorted({y0[i] for i in b}), ctor) for b in bags0]
                      for ctor in ('esttrain', 'esttest'))
            if any(len(t.cls) != c for t in tr):
                raise V.NoValue('a class is missing')
            p, q = [[t.proba(x) for t in tr] for x in X], [[t.proba(x) for t in te] for x in Z]
    rows = len(p) // n
    cube = mode in ('cube', 'newens')
    ans = []
    for e, b in enumerate(bags):
        nc = len({y[i] for i in b})
        if mode in ('X', 'genX'):
            ans.append(Quant(m, [X[i] for i in b], [y[i] for i in b], None, nc).answer(Z, None))
            continue
        pos = [i + r * n for r in range(rows) for i in b]
        yb, pb = [y[i % n] for i in pos], [p[i] for i in pos]
        qb = q
        if cube:
            pb, qb = [r[e] for r in pb], [r[e] for r in q]
        ans.append(Quant(m, None, yb, pb, nc).answer(None, qb))
    if any(len(a) != c for a in ans):
        raise V.NoValue('a class is missing')
    avg = [statistics.mean(a[j] for a in ans) for j in range(c)]
    med = [statistics.median(a[j] for a in ans) for j in range(c)]
    if not any(med):
        med = avg
    keep = max(1, round(3 * W.o.get('percentage_of_selected_models', 0.5)))

    def best(crit):
        o = sorted(range(3), key=lambda e: (crit[e], e))[:keep]
        return normal([sum(ans[e][j] for e in o) for j in range(c)])
    st = W.o.get('combination_strategy', 'mean')
    out = {'mean': normal(avg), 'median': normal(med),
           'prevalence_similarity': best([sum(abs(a - b) for a, b in zip(avg, r)) / c for r in ans])}
    if st in ('distribution_similarity', 'all'):
        if mode in ('X', 'genX'):
            cols = [([r[a] for r in X], [[X[i][a] for i in b] for b in bags], [r[a] for r in Z]) for a in range(2)]
        else:
            cols = []
            for a in range(1 if c == 2 else c):
                f = (lambda r: sum(z[a] for z in r) / len(r)) if cube else (lambda r: r[a])
                cols.append(([f(r) for r in p], [[f(p[i + g * n]) for g in range(rows) for i in b] for b in bags], [f(r) for r in q]))
        ds = [0.0] * 3
        for tr, bs, te in cols:
            e = edges(W, tr, y, lab)
            h = hist(W, te, e)
            for i in range(3):
                ds[i] += sum((a - b) ** 2 for a, b in zip(h, hist(W, bs[i], e)))
        if len({round(d, 9) for d in ds}) < 3:
            raise V.NoValue('tie')
        out['distribution_similarity'] = best(ds)
    if st != 'all':
        return {'': out[st]}
    out['all'] = [sum(out[s][j] for s in ('mean', 'median', 'prevalence_similarity', 'distribution_similarity')) / 4
                  for j in range(c)]
    return {'.' + s: v for s, v in out.items()}


# ---------------------------------------------------------------------------------------- rules
def keys(W, l):
    return sorted(k for k in W.res if k == 'p' + l or k.startswith('p%s.' % l))


def check(W, rep, props):
    res = W.res
    site = R.site_of(W, 'predict')
    c = RQ.ncls(W, W.C1)
    for l in 'ABC':
        for k in keys(W, l):
            suffix = k[2:]
            if l == 'A':
                if any(d is not None for _, d, _ in res[k]):
                    RQ.one_entry_per_class(W, rep, res[k], site)
                if 'C01' in props:
                    RQ.simplex(W, rep, res[k], site, lambda sd: (model(W, sd), None), V.VERTEX)
            rep.count('C24', 'answers with a specification')
            n, bad = 0, None
            for sd in RQ.SEEDS + (51,) + V.VERTEX:
                try:
                    m = model(W, sd)
                    try:
                        exp = expected(W, m, l)[suffix]
                    except (IndexError, KeyError, ZeroDivisionError, statistics.StatisticsError):
                        raise V.NoValue('no expected value')
                    try:
                        got = array(res[k], m)
                    except V.Undefined as e:
                        got = 'undefined: %s' % e
                except V.NoValue as e:
                    rep.count('C24', 'models without value')
                    rep.sample('C24?', '%s %s: %s' % (W.name, k, e))
                    continue
                n += 1
                if isinstance(got, str):
                    rep.add('C01', 'defined', site, 'the answer is undefined', '%s %s: %s' % (W.name, k, got))
                if isinstance(got, str) or not agrees(got, exp):
                    bad = (got, exp)
            rep.count('C24', 'answers compared with their specification' if n else 'answers undecided')
            if bad:
                d = '%s %s: %s, expected %s' % (W.name, k, str(bad[0])[:120], str(bad[1])[:120])
                rep.add('C24', 'as-specified', site, 'the answer is not the documented combination of the members, each fitted '
                        'on its own part', d)
                if W.mode == 'multi':
                    rep.add('C03', 'aligned', R.site_of(W, 'fit'), 'the labels do not follow the training predictions', d)
                if isinstance(bad[0], list) and agrees(sorted(bad[0]), sorted(bad[1])):
                    rep.add('C02', 'entry-belongs-to-class', site, 'the entries of the result are not those of their classes', d)
    for k in keys(W, 'A'):
        a, b, cc = res[k], res.get('pB' + k[2:]), res.get('pC' + k[2:])
        if b:
            r = RQ.compare(rep, 'C06', W.name, lambda sd: flat(array(b, model(W, sd))),
                           lambda sd: flat(array(a, RQ.swap(model(W, sd), TA='TB', QA='QB', MA='MB'))), RQ.SEEDS)
            rep.count('C06', 'second predictions compared: %s' % (r if isinstance(r, str) else r[0]))
            if not isinstance(r, str):
                rep.add('C06', 'later-equals-first', site, 'a later prediction is not the one a first call gives', W.name)
        if cc and W.mode not in ('new', 'newens', 'gen', 'genX'):
            r = RQ.compare(rep, 'C05', W.name, lambda sd: flat(array(cc, model(W, sd))),
                           lambda sd: flat(array(a, RQ.swap(model(W, sd), TA='TC', QA='QC', MA='MC', X1='X2', y1='y2', P1='P2',
                                                            N1='N2', I1='I2', V1='V2'))), RQ.SEEDS)
            rep.count('C05', 'refitted objects compared: %s' % (r if isinstance(r, str) else r[0]))
            if not isinstance(r, str):
                rep.add('C05', 'refit-equals-fresh', site, 'after a second fit the answer is not the one of a fresh object', W.name)
    # the objects of the caller are templates
    for what, ref, before in (('base quantifier', W.template, W.before), ('bag generator', getattr(W, 'gen', None),
                                                                         getattr(W, 'gen_before', None))):
        if ref is None or not W.ok('fit1'):
            continue
        now = snapshot(W, ref)
        rep.count('C08', 'templates compared')
        for a in sorted(set(now) | set(before)):
            if a not in now or a not in before or R.same_value(W.I, now[a], before[a]) is False:
                rep.add('C08', 'template-unchanged', R.site_of(W, 'fit'), 'attribute %s of the %s given by the caller changes' % (a, what),
                        W.name)
    if W.mode == 'both':
        for l in 'ABC':
            for k in keys(W, l):
                for cnd, d, b in res[k]:
                    if d is None:
                        continue
                    rep.count('C22', 'results with supplied predictions')
                    if T.has_op(b, 'pred', 'plab', 'fit0'):
                        rep.add('C22', 'supplied-first', site, 'an estimator is used although predictions were supplied', W.name)


def job_fn(sp, o, c, mode, name, props):
    def fn(base, rep):
        W = history(base, sp, o, c, mode, name)
        R.events(W, rep)
        for st in sorted({k[2:] for k in W.res if k[0] == 'p' and k[1] in 'ABC'}):
            R.history_taint(W, rep, st)
        if 'ix2' in W.res:
            rep.count('C05', 'regenerated bags analysed')
            for x in sorted(R.body_srcs(W.res['ix2'])[0] & {'X1', 'y1', 'P1', 'N1', 'I1', 'V1'}):
                rep.add('C05', 'refit-replaces', R.site_of(W, 'fit'), 'after a second fit the bags still depend on %s' % R.SRC.get(x, x), W.name)
        R.outcomes(W, rep, PHASES)
        if W.obj is not None:
            R.ctor_params(W, rep, W.obj, W.ctor, 'fit' if W.ok('fit1') else '')
        for l in ('fit1', 'fit2'):
            if W.ok(l):
                rep.count('C14', 'fit results checked')
                if R.same_value(W.I, W.obj, W.outcome[l][1]) is False:
                    rep.add('C14', 'fit-returns-self', R.site_of(W, 'fit'), 'fit does not return the object')
        R.estimators(W, rep)
        R.members(W, rep, W.template)
        check(W, rep, props)
    return fn


def jobs(Job):
    out = []
    for sp in SPECS:
        for o in sp.opts:
            for c in sp.classes:
                for mode in sp.modes:
                    name = '%s(%s)/C=%s/%s' % (sp.cls, optname(o), c, mode)
                    props = 'C01 C02 C05 C06 C07 C08 C10 C13 C14 C17 C20 C21 C24'.split()
                    props += {'multi': ['C03'], 'new': ['C09'], 'newens': ['C09'], 'both': ['C09', 'C22']}.get(mode, [])
                    out.append(Job(name, props, job_fn(sp, o, c, mode, name, props)))
    return out
