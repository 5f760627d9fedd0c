"""Requests the library does not implement (C15) and requests without anything to predict with (C22).

The history of such a request is interpreted like any other; the rule is that some operation of it, the prediction at the
latest, ends in an exception on every path.  A result that is an array, a number or None is a silent answer."""
from . import terms as T
from . import rules as R
from . import drivers as D
from . import drivers_ens as DN
from .drivers import Q, const, cdim, optname
from .scen import World
from .terms import A, P, K, bvar, dimatom, ZERO, ONE
from .values import *

BAD = 'no-such-option'
VALUE_ERRORS = ('ValueError', 'NotFittedError', 'InvalidParameterError', 'UnicodeError', 'LinAlgError')


def quantifier(dotted, cls, preds, opts, classes, train=True):
    for o in opts:
        for c in classes:
            q = Q(dotted, cls, preds, train=train)
            yield ('%s(%s)/C=%s' % (cls, optname(o), c),
                   lambda base, q=q, o=o, c=c: (D.history(base, q, o, c, 'pred'), ('new', 'fit1', 'predA')))


def bad(*names):
    return [{n: BAD} for n in names]


def ens(cls, o, c, mode):
    def f(base):
        sp = [s for s in DN.SPECS if s.cls == cls][0]
        W = DN.history(base, sp, o, c, mode, '')
        return W, ('new', 'fit1', 'predA')
    return '%s(%s)/C=%s/%s' % (cls, optname(o), c, mode), f


def made(name, fn):
    """fn(W): runs phases on W and returns their labels"""
    def f(base):
        W = World(base, name)
        W.N1 = dimatom('N1', 2)
        W.res = {}
        return W, fn(W)
    return name, f


def run_fit(W, obj, c, preds=None, **kw):
    W.obj = obj
    if obj is None:
        return ('new',)
    X, y = W.X('X1', W.N1), W.y('y1', W.N1, cdim(c), 'L')
    if preds:
        kw['predictions_train'] = W.probs('P1', W.N1, cdim(c))
    W.call('fit1', obj, 'fit', X, y, **kw)
    if W.ok('fit1'):
        t = W.X('TA', dimatom('MA'))
        r = W.call('predA', obj, 'predict', t, **({'predictions_test': W.probs('QA', dimatom('MA'), cdim(c))} if preds else {}))
        if W.ok('predA'):
            W.store('pA', r)
    return ('new', 'fit1', 'predA')


def make(W, dotted, cls, *a, **kw):
    return W.do('new', W.base.cls(dotted, cls), *a, **kw)


def stub(W, k='Y'):
    return W.I.call(W.base.cls('qlsa_stubs.quantifiers', 'Stub' + k), [], {})


def wrong_estimator(dotted, cls, par, which):
    def fn(W):
        kw = {par: stub(W), which: W.est('est', False, cdim(3), 'L')}
        return run_fit(W, make(W, dotted, cls, **kw), 3, True)
    return made('%s(%s=not a %s)' % (cls, which, 'OneVsRest' if 'multiclass' in dotted else 'FrankAndHall'), fn)


def not_a_quantifier(dotted, cls, par):
    def fn(W):
        return run_fit(W, make(W, dotted, cls, **{par: W.est('est', False, cdim(3), 'L')}), 3, True)
    return made('%s(%s=an estimator)' % (cls, par), fn)


def no_estimator(dotted, cls, par, c=3):
    def fn(W):
        kw = {}
        if cls == 'EnsembleOfClassifiers':
            kw['indexes'] = W.arr('I1', (dimatom('NB'), K(3)), 'int')
        return run_fit(W, make(W, dotted, cls, **{par: NONE}), c, **kw)
    return made('%s(%s=None)' % (cls, par), fn)


def estimator_option(dotted, cls, par, o, c=3):
    def fn(W):
        kw = {par: W.est('est', False, cdim(c), 'L')} if par else {}
        kw.update({k: const(W, v) for k, v in o.items()})
        if cls == 'CV_estimator':
            kw['cv'] = Num(K(3), 'int')
        return run_fit(W, make(W, dotted, cls, **kw), c)
    return made('%s(%s)' % (cls, optname(o)), fn)


def bags(cls, o, c):
    def fn(W):
        kw = {k: W.I.alloc(ListObj([const(W, z) for z in v])) if isinstance(v, list) else const(W, v)
              for k, v in o.items()}
        kw.setdefault('random_state', Num(K(1), 'int'))
        W.obj = make(W, 'bag_generator', cls, n_bags=Num(dimatom('NB', 2), 'int'), **kw)
        if W.obj is None:
            return ('new',)
        r = W.call('gen', W.obj, 'generate_bags', W.X('X1', W.N1), W.y('y1', W.N1, cdim(c), 'L'))
        if W.ok('gen') and isinstance(r, Tup):
            W.store('pA', r.items[0])
        return ('new', 'gen')
    return made('%s(%s)/C=%s' % (cls, ','.join('%s=%s' % z for z in sorted(o.items())), c), fn)


def bins(strategy, c):
    def fn(W):
        W.subject = 'multiclass/df.py:compute_bincuts'
        n = W.N1
        r = W.do('cut', W.base.fn('multiclass.df', 'compute_bincuts'), W.arr('x', (n,)), W.y('y1', n, cdim(c), 'L'),
                 W.labels('cls', cdim(c), 'L'), Num(K(4), 'int'), Const(strategy))
        if W.ok('cut'):
            W.store('pA', r)
        return ('cut',)
    return made('compute_bincuts(%s)/C=%s' % (strategy, c), fn)


def metric(mod, name, p, q):
    def fn(W):
        W.subject = 'metrics/%s.py:%s' % (mod, name)
        r = W.do('call', W.base.fn('metrics.' + mod, name), *[W.arr(n, d) for n, d in (('p', p), ('q', q))])
        if W.ok('call'):
            W.store('pA', r)
        return ('call',)
    return made('%s(%s, %s)' % (name, [T.show(x) for x in p], [T.show(x) for x in q]), fn)


def nothing(q, o, c, what):
    """C22: predictions and estimator missing for fit or for predict"""
    def f(base):
        W = World(base, '%s(%s)/C=%s/%s' % (q.cls, optname(o), c, what))
        C = cdim(c)
        N = dimatom('N1', 2)
        W.res = {}
        kw = {k: const(W, v) for k, v in o.items()}
        W.obj = W.do('new', W.base.cls(q.dotted, q.cls), **kw)
        if W.obj is None:
            return W, ('new',)
        fit = {}
        if q.train and what == 'predict':
            fit['predictions_train'] = D.preds(W, 'P1', N, C, q.preds)
        W.call('fit1', W.obj, 'fit', W.X('X1', N), W.y('y1', N, C, 'L'), **fit)
        if W.ok('fit1') and what == 'predict':
            W.store('pA', W.call('predA', W.obj, 'predict', W.X('TA', dimatom('MA'))))
        return W, (('new', 'fit1') if what == 'fit' else ('predA',))
    return '%s(%s)/C=%s/nothing to %s with' % (q.cls, optname(o), c, what), f


def nothing_ens(cls, what):
    sp = [s for s in DN.SPECS if s.cls == cls][0]

    def f(base):
        W = World(base, cls)
        W.res = {}
        C, N = K(3), dimatom('N1', 2)
        W.obj = W.do('new', W.base.cls(sp.dotted, sp.cls), **{sp.param: stub(W)})
        if W.obj is None:
            return W, ('new',)
        kw = {}
        if sp.kind == 'eoq':
            # any bags
            I = W.I
            ref = W.obj
            kw['indexes'] = W.arr('I1', (dimatom('NB'), K(100)), 'int')
            kw['prevalences'] = W.arr('V1', (C, K(100)))
        if what == 'predict':
            kw['predictions_train'] = W.probs('P1', N, C) if sp.kind != 'fh' else W.arr('P1', (N, C - 1))
        W.call('fit1', W.obj, 'fit', W.X('X1', N), W.y('y1', N, C, 'L'), **kw)
        if W.ok('fit1') and what == 'predict':
            W.store('pA', W.call('predA', W.obj, 'predict', W.X('TA', dimatom('MA'))))
        return W, (('new', 'fit1') if what == 'fit' else ('predA',))
    return '%s/nothing to %s with' % (cls, what), f


LOWS = {'2': [-0.2, 0.5], '3': [0.1, -0.2, 0.3]}


def cases():
    """(property, name, function)"""
    out = []

    def add(it):
        out.extend(('C15', n, f) for n, f in it)
    add(quantifier('baselines.ac', 'AC', 'crisp', bad('distance'), 'n'))
    add(quantifier('baselines.ac', 'PAC', 'prob', bad('distance'), 'n'))
    add(quantifier('multiclass.df', 'DFy', 'prob', bad('distance', 'distribution_function', 'bin_strategy'), '2n'))
    add(quantifier('multiclass.df', 'DFX', None, bad('distance', 'distribution_function', 'bin_strategy'), '2n'))
    add(quantifier('multiclass.df', 'HDy', 'prob', bad('bin_strategy'), '2n'))
    add(quantifier('multiclass.df', 'MMy', 'prob', bad('bin_strategy'), '2n'))
    add(quantifier('multiclass.df', 'HDX', None, bad('bin_strategy'), '2n'))
    for cls, p in (('DFy', 'prob'), ('DFX', None)):
        add(quantifier('multiclass.df', cls, p, [dict(bin_strategy='binormal')], 'n'))
        add(quantifier('multiclass.df', cls, p, [dict(distance=D.user_metric())], 'n'))
    add(quantifier('multiclass.energy', 'EDy', 'prob', bad('distance'), '2n'))
    add(quantifier('multiclass.energy', 'EDX', None, bad('distance'), '2n'))
    add(quantifier('multiclass.friedman', 'FriedmanME', 'prob', bad('distance') + [dict(distance=D.user_metric())], 'n'))
    add(quantifier('multiclass.friedman', 'FriedmanME', 'prob', bad('distance'), '2'))
    add(quantifier('ordinal.pdf', 'PDFOrdinaly', 'prob', bad('distance', 'method'), 'n'))
    add(quantifier('ordinal.pdf', 'PDFOrdinaly', 'prob', [{}], '2'))
    for d, cls in (('debias', 'DeBias'), ('emd', 'SORDy'), ('quantiles', 'QUANTy')):
        add(quantifier('binary.' + d, cls, 'prob', [{}], '3n'))
    for c in '23':
        for m in ('X', 'pred'):
            for o in bad('combination_strategy', 'distribution_function', 'bin_strategy'):
                add([ens('EoQ', o, c, m)])
            add([ens('EoQ', dict(combination_strategy='distribution_similarity', distance_bags=BAD), c, m)])
    add([ens('EoQ', dict(combination_strategy='distribution_similarity'), '3', 'crisp')])
    add([made('EoQ(bag_generator=3)', lambda W: run_fit(W, make(W, 'ensembles.eoq', 'EoQ', base_quantifier=stub(W),
                                                              bag_generator=Num(K(3), 'int')), 3, True))])
    add([not_a_quantifier('ensembles.eoq', 'EoQ', 'base_quantifier'),
         not_a_quantifier('decomposition.multiclass', 'OneVsRestQuantifier', 'base_quantifier'),
         not_a_quantifier('decomposition.ordinal', 'FrankAndHallQuantifier', 'quantifier')])
    for w in ('estimator_train', 'estimator_test'):
        add([wrong_estimator('decomposition.multiclass', 'OneVsRestQuantifier', 'base_quantifier', w),
             wrong_estimator('decomposition.ordinal', 'FrankAndHallQuantifier', 'quantifier', w)])
    add([estimator_option('estimators.cross_validation', 'CV_estimator', 'estimator', dict(voting=BAD)),
         estimator_option('estimators.ordinal_ddag', 'DDAGClassifier', 'estimator', dict(predict_method=BAD)),
         no_estimator('estimators.frank_and_hall', 'FrankAndHallClassifier', 'estimator'),
         no_estimator('estimators.frank_and_hall', 'FrankAndHallMonotoneClassifier', 'estimator'),
         no_estimator('estimators.frank_and_hall', 'FrankAndHallTreeClassifier', 'estimator'),
         no_estimator('estimators.ensembles', 'EnsembleOfClassifiers', 'base_estimator')])
    for cls in ('PriorShift_BagGenerator', 'PriorAndCovariateShift_BagGenerator'):
        for c in '23':
            add([bags(cls, dict(method=BAD), c), bags(cls, dict(random_state=BAD), c),
                 bags(cls, dict(min_prevalence=2.0), c), bags(cls, dict(min_prevalence=-0.1), c),
                 bags(cls, dict(min_prevalence=LOWS[c]), c),
                 bags(cls, dict(method='Dirichlet', alphas=[1, 2, 3, 4]), c)])
    add([bags('CovariateShift_BagGenerator', dict(random_state=BAD), '2')])
    add([bins(BAD, '2'), bins(BAD, '3'), bins('binormal', '3'), bins('binormal', 'n')])
    for n in ('kld', 'mean_absolute_error', 'l1', 'mean_squared_error', 'l2', 'hd', 'bray_curtis', 'topsoe', 'jensenshannon',
              'probsymmetric'):
        add([metric('multiclass', n, (K(3),), (K(4),)), metric('multiclass', n, (K(3),), (K(3), K(2)))])
    for n in ('emd', 'emd_score'):
        add([metric('ordinal', n, (K(3),), (K(4),)), metric('ordinal', n, (K(3),), (K(3), K(2)))])
    seen = set()
    for q in D.QUANT:
        if not q.preds:
            continue
        for w in ('fit', 'predict'):
            if w == 'fit' and not q.train:
                continue
            o = q.opts[0]
            n, f = nothing(q, o, q.classes[-1], w)
            if n not in seen:
                seen.add(n)
                out.append(('C22', n, f))
    for cls in ('EoQ', 'OneVsRestQuantifier', 'FrankAndHallQuantifier'):
        for w in ('fit', 'predict'):
            out.append(('C22',) + nothing_ens(cls, w))
    return out


def site(W):
    if hasattr(W, 'subject'):
        return W.subject
    for m in ('predict', 'generate_bags'):
        try:
            return R.site_of(W, m)
        except Exception:
            pass
    return R.owner(W)


def job_fn(prop, name, f):
    def fn(base, rep):
        W, phases = f(base)
        W.name = name
        rep.count(prop, 'requests')
        rep.functions |= {str(x) for x in W.I.analysed}
        rep.callsites += W.I.callsites if isinstance(W.I.callsites, int) else len(W.I.callsites)
        raised = [W.outcome[l][1] for l in phases if l in W.outcome and W.outcome[l][0] == 'raise']
        if raised:
            rep.count(prop, 'requests rejected')
            nm = getattr(raised[0], 'name', '?')
            if prop == 'C22' and nm != '?' and nm not in VALUE_ERRORS and nm != 'UserError':
                rep.add('C22', 'value-error', site(W), 'with neither predictions nor an estimator it ends in %s, not in a ValueError' % nm, name)
            return
        if phases[-1] not in W.outcome:
            rep.count(prop, 'requests undecided')
            return
        r = getattr(W, 'res', {}).get('pA')
        # an array of known shape is an answer, whatever its values
        unknown = r is None or all(d is None for _, d, b in r) and any(isinstance(b, Top) for _, d, b in r)
        if unknown and phases[-1] not in ('fit1', 'new'):
            rep.count(prop, 'requests undecided')
            rep.sample(prop + '?', name)
            return
        what = 'does not reject' if phases[-1] in ('fit1', 'new') else 'answers'
        if prop == 'C15':
            rep.add('C15', 'rejected', site(W), '%s an unsupported request' % what, name)
        else:
            rep.add('C22', 'nothing-to-predict-with', site(W), 'accepts a call with neither predictions nor an estimator', name)
    return fn


def jobs(Job):
    return [Job('reject ' + n, [p], job_fn(p, n, f)) for p, n, f in cases()]
