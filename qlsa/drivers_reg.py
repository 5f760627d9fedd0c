"""Histories of the regression quantifiers REGX and REGy, and the rules on them.

The bags come from a generator that gives named bags, the regressors are unknown functions of what they are fitted with."""
import random

from . import terms as T
from . import rules as R
from . import rules_quant as RQ
from . import spec as SP
from .drivers import const, cdim, optname, snapshot
from .drivers_est import Member, array, flat, agrees
from .scen import World
from .terms import A, P, K, bvar, dimatom, ZERO, ONE
from .values import *
from . import valuate as V

LABELS = [3, 5, 8, 9, 12]


def history(base, cls, o, c, mode, name):
    W = World(base, name)
    I = W.I
    W.cls, W.o, W.mode = cls, o, mode
    W.C1 = W.C2 = cdim(c, 'C')
    W.N1, W.N2 = dimatom('N1', 2), dimatom('N2', 2)
    W.X1, W.y1 = W.X('X1', W.N1), W.y('y1', W.N1, W.C1, 'L')
    W.X2, W.y2 = W.X('X2', W.N2), W.y('y2', W.N2, W.C1, 'L')
    W.NE = dimatom('NE', 2)
    R_ = dimatom('R', 2) if mode == 'multi' else ONE
    W.T = {l: W.X('T' + l, dimatom('M' + l)) for l in 'ABC'}
    W.Q, W.res = {}, {}
    preds = cls == 'REGy' and mode in ('pred', 'multi', 'both', 'glm', 'gen', 'default')
    if preds:
        W.P1, W.P2 = W.probs('P1', R_ * W.N1, W.C1), W.probs('P2', R_ * W.N2, W.C1)
        W.Q = {l: W.probs('Q' + l, dimatom('M' + l), W.C1) for l in 'ABC'}
    W.ctor = {k: const(W, v) for k, v in o.items()}
    W.gen = None
    if mode == 'default':
        pass
    elif mode != 'gen':
        W.gen = I.call(W.base.cls('qlsa_stubs.bags', 'FixedBags'), [Num(W.NE, 'int')], {})
    else:
        W.gen = I.call(W.base.cls('bag_generator', 'PriorShift_BagGenerator'), [],
                       {'n_bags': Num(K(3), 'int'), 'bag_size': Num(dimatom('NB'), 'int'),
                        'random_state': Num(dimatom('SEED', 0), 'int')})
        W.gen_before = snapshot(W, W.gen)
    if W.gen is not None:
        W.ctor['bag_generator'] = W.gen
    W.reg = None
    if mode not in ('glm', 'default'):
        W.reg = W.ctor['regression_estimator'] = W.est('reg', False, kind='reg')
    if cls == 'REGy' and mode in ('new', 'both'):
        for k in ('train', 'test'):
            W.ctor['estimator_' + k] = W.est('est' + k, False, W.C1, 'L')
    W.obj = W.do('new', W.base.cls('multiclass.regression', cls), **W.ctor)
    if W.obj is None:
        return W

    def fit(k, X, y, p):
        if mode not in ('gen', 'default'):
            T.CONTRACTS[A('src', 'I' + k)] = {'lo': 0, 'int': True}
            T.CONTRACTS[A('src', 'V' + k)] = {'lo': 0, 'hi': 1}
            I.setattr(W.gen, 'indexes_', W.arr('I' + k, (dimatom('NB'), W.NE), 'int'))
            I.setattr(W.gen, 'prevalences_', W.arr('V' + k, (W.C1, W.NE)))
        return W.call('fit' + k, W.obj, 'fit', X, y, **({'predictions_train': p} if preds else {}))

    def ask(l):
        r = W.call('pred' + l, W.obj, 'predict', W.T[l], **({'predictions_test': W.Q[l]} if preds else {}))
        if W.ok('pred' + l):
            W.store('p' + l, r)
    W.fit1 = fit('1', W.X1, W.y1, W.P1 if preds else None)
    if not W.ok('fit1'):
        return W
    ask('A')
    ask('B')
    fit('2', W.X2, W.y2, W.P2 if preds else None)
    if W.ok('fit2'):
        ask('C')
    return W


PHASES = ('new', 'fit1', 'predA', 'predB', 'fit2', 'predC')


def model(W, sd):
    rng = random.Random(sd * 977 + 3)
    c = RQ.ncls(W, W.C1, sd)
    rows = 2 if W.mode == 'multi' else 1
    n1, n2, nb, ne = 9 + sd % 2, (8 + sd % 3 if sd != 46 else 9), 7, 3
    lab = LABELS[:c]
    grid = sd in RQ.GRID
    s1, s2 = (RQ.Sample(rng, n, c, lab, 'prob', rows, grid=grid) for n in (n1, n2))
    dims = {'D': 2, 'N1': n1, 'N2': n2, 'C': c, 'NB': nb, 'NE': ne, 'R': rows, 'SEED': 40 + sd, 'MA': 5, 'MB': 4 if sd != 46 else 5, 'MC': 6 if sd != 46 else 5}
    srcs = {'X1': V.Data(s1.X), 'y1': V.Data(s1.y), 'X2': V.Data(s2.X), 'y2': V.Data(s2.y),
            'P1': V.Data(s1.P), 'P2': V.Data(s2.P)}
    for l in 'ABC':
        s = RQ.Sample(rng, dims['M' + l], c, lab, 'prob', 1, y=False, grid=grid)
        srcs['T' + l], srcs['Q' + l] = V.Data(s.X), V.Data(s.P)
    for k, n in (('1', n1), ('2', n2)):
        srcs['I' + k] = V.Data([[rng.randrange(n * rows) for _ in range(ne)] for i in range(nb)])
        v = [[rng.random() for _ in range(c)] for _ in range(ne)]
        srcs['V' + k] = V.Data([[v[e][j] / sum(v[e]) for e in range(ne)] for j in range(c)])
    return V.Model(dims, srcs, lab, sd)


def expected(W, m, l):
    k = '2' if l == 'C' else '1'
    X, y, p, ix, prev = (m.srcs[s + k].values for s in 'XyPIV')
    Z, q = m.srcs['T' + l].values, m.srcs['Q' + l].values
    lab = sorted(set(y))
    c = len(lab)
    rng = None
    if W.cls == 'REGy':
        if W.mode == 'new':
            X0, y0 = m.srcs['X1'].values, m.srcs['y1'].values
            tr, te = (Member(m, X0, y0, lab, ctor) for ctor in ('esttrain', 'esttest'))
            p, q = [tr.proba(x) for x in X], [te.proba(x) for x in Z]
        cols = range(c) if c > 2 else [0]
        train, test = ([[r[a] for r in z] for a in cols] for z in (p, q))
        y = y * (len(p) // len(y))
        rng = [0.0, 1.0]
    else:
        train, test = ([[r[a] for r in z] for a in range(2)] for z in (X, Z))
    es = [SP.edges(v, y, lab, W.o.get('n_bins', 8), W.o.get('bin_strategy', 'normal' if W.cls == 'REGX' else 'equal_width'), rng)
          for v in train]
    if any(SP.near_edge(v, e) for z in (train, test) for v, e in zip(z, es)) and W.o.get('bin_strategy') not in ('equal_count',):
        raise V.NoValue('a value on a cut point')
    rows = []
    for e in range(len(ix[0])):
        rows.append([h for v, ed in zip(train, es) for h in SP.hist([v[ix[i][e]] for i in range(len(ix))], ed)])
    bag = [h for v, ed in zip(test, es) for h in SP.hist(v, ed)]

    def answer(j):
        if W.mode == 'glm':
            return V.h01('glmpred', V.rnd(['fit', 'GLM', V._tup(rows), tuple(prev[j]), ()]), V._tup(bag), m.seed)
        t = V.rnd(['fit', 'reg', V._tup(rows), tuple(prev[j]), ()])
        return V.reg_value(t, V._tup(bag), (), m.seed)
    if c == 2:
        a = answer(1)
        r = [1 - a, a]
    else:
        r = [answer(j) for j in range(c)]
    r = [min(1, max(0, a)) for a in r]
    if not sum(r):
        raise V.NoValue('nothing to normalise')
    return [a / sum(r) for a in r]


def against_spec(W, l, rep=None):
    """(number of models compared, (answer, expected) where they differ)"""
    n, bad = 0, None
    for sd in RQ.SEEDS + (51,) + (4, 5) + RQ.GRID:
        try:
            m = model(W, sd)
            exp = expected(W, m, l)
            try:
                got = array(W.res['p' + l], m)
            except V.Undefined as e:
                got = 'undefined: %s' % e
        except V.NoValue as e:
            if rep is not None:
                rep.count('C25', 'models without value')
                rep.sample('C25?', '%s p%s: %s' % (W.name, l, e))
            continue
        n += 1
        if isinstance(got, str) or not agrees(got, exp):
            bad = (got, exp)
    return n, bad


def check(W, rep, props, plain=None):
    res, site = W.res, R.site_of(W, 'predict')
    for l in 'ABC':
        k = 'p' + l
        if k not in res:
            continue
        if l == 'A':
            if any(d is not None for _, d, _ in res[k]):
                RQ.one_entry_per_class(W, rep, res[k], site)
            RQ.simplex(W, rep, res[k], site, lambda sd: (model(W, sd), None))
        if W.mode in ('gen', 'default'):
            continue
        rep.count('C25', 'answers with a specification')
        n, bad = against_spec(W, l, rep)
        rep.count('C25', 'answers compared with their specification' if n else 'answers undecided')
        if bad:
            d = '%s %s: %s, expected %s' % (W.name, k, str(bad[0])[:120], str(bad[1])[:120])
            if isinstance(bad[0], str):
                rep.add('C01', 'defined', site, 'the answer is undefined', d)
            rep.add('C25', 'as-documented', site, 'the answer is not the one of regressors trained with the bags', d)
            if plain is not None and not against_spec(plain(), l)[1]:
                rep.add('C03', 'aligned', R.site_of(W, 'fit'), 'the labels do not follow the training predictions', d)
            if isinstance(bad[0], list) and agrees(sorted(bad[0]), sorted(bad[1])):
                rep.add('C02', 'entry-belongs-to-class', site, 'the entries of the result are not those of their classes', d)
    a, b, cc = res.get('pA'), res.get('pB'), res.get('pC')
    if a and b:
        r = RQ.compare(rep, 'C06', W.name, lambda sd: flat(array(b, model(W, sd))),
                       lambda sd: flat(array(a, RQ.swap(model(W, sd), TA='TB', QA='QB', MA='MB'))), RQ.SEEDS)
        rep.count('C06', 'second predictions compared: %s' % (r if isinstance(r, str) else r[0]))
        if not isinstance(r, str):
            rep.add('C06', 'later-equals-first', site, 'a later prediction is not the one a first call gives', W.name)
    if a and cc and W.mode not in ('new', 'gen', 'default'):
        r = RQ.compare(rep, 'C05', W.name, lambda sd: flat(array(cc, model(W, sd))),
                       lambda sd: flat(array(a, RQ.swap(model(W, sd), TA='TC', QA='QC', MA='MC', X1='X2', y1='y2', P1='P2',
                                                        N1='N2', I1='I2', V1='V2'))), RQ.SEEDS)
        rep.count('C05', 'refitted objects compared: %s' % (r if isinstance(r, str) else r[0]))
        if not isinstance(r, str):
            rep.add('C05', 'refit-equals-fresh', site, 'after a second fit the answer is not the one of a fresh object', W.name)
    if W.mode == 'both' and a:
        for cnd, d, bd in a:
            if d is not None:
                rep.count('C22', 'results with supplied predictions')
                if T.has_op(bd, 'pred', 'plab', 'fit0'):
                    rep.add('C22', 'supplied-first', site, 'an estimator is used although predictions were supplied', W.name)
    # the regressor of the caller is a template
    if W.reg is not None and W.ok('fit1'):
        rep.count('C08', 'templates compared')
        f = W.I.obj(W.reg).attrs.get('fitted')
        if f is ONE:
            rep.add('C08', 'template-unfitted', R.site_of(W, 'fit'), 'the regressor given by the caller is fitted itself', W.name)


def job_fn(cls, o, c, mode, name, props):
    def fn(base, rep):
        W = history(base, cls, o, c, mode, name)
        R.events(W, rep)
        R.history_taint(W, rep)
        R.outcomes(W, rep, PHASES)
        if W.obj is not None:
            R.ctor_params(W, rep, W.obj, W.ctor, 'fit' if W.ok('fit1') else '')
        for l in ('fit1', 'fit2'):
            if W.ok(l):
                rep.count('C14', 'fit results checked')
                if R.same_value(W.I, W.obj, W.outcome[l][1]) is False:
                    rep.add('C14', 'fit-returns-self', R.site_of(W, 'fit'), 'fit does not return the object')
        if cls == 'REGy':
            R.estimators(W, rep)
        if mode == 'default':
            return      # 1000 bags: who owns what, not the numbers
        check(W, rep, props, (lambda: history(base, cls, o, c, 'pred', name)) if mode == 'multi' else None)
    return fn


def jobs(Job):
    out = []
    for cls, modes in (('REGX', ('X', 'glm', 'gen', 'default')), ('REGy', ('pred', 'multi', 'new', 'both', 'glm', 'gen', 'default'))):
        for mode in modes:
            opts = [dict(n_bins=4, bin_strategy=s) for s in ('equal_width', 'equal_count', 'normal', 'binormal')]
            if mode not in ('X', 'pred'):
                opts = [dict(n_bins=3, bin_strategy='normal')] if mode == 'multi' else [dict(n_bins=3)]
            for o in opts:
                for c in '2n':
                    if c == 'n' and o.get('bin_strategy') == 'binormal':
                        continue
                    name = '%s(%s)/C=%s/%s' % (cls, optname(o), c, mode)
                    props = 'C01 C02 C05 C06 C07 C08 C10 C13 C14 C17 C20 C21 C25'.split()
                    if mode == 'default':
                        props = 'C05 C06 C07 C08 C10 C13 C14 C17 C20 C21'.split()
                    props += {'multi': ['C03'], 'new': ['C09'], 'both': ['C09', 'C22']}.get(mode, [])
                    out.append(Job(name, props, job_fn(cls, o, c, mode, name, props)))
    return out
