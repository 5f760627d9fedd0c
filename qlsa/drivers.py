"""Abstract histories of the public operations of the library.

Every driver builds a World, runs a history (construct, fit, predict, predict, refit, predict ...) with named
abstract data, and leaves in World.info what the rules need.  Names of sources:
  X1 y1 P1   first training sample          X2 y2 P2   second training sample
  TA QA      first testing sample           TB QB, TC QC   later ones
"""
from . import terms as T
from .terms import A, P, K, S, bvar, dimatom, ZERO, ONE
from .values import *
from .scen import World
from . import contracts


def const(W, v):
    """python option value -> abstract value"""
    if callable(v):
        return v(W)
    if v is None or isinstance(v, (bool, str)):
        return Const(v)
    if isinstance(v, int):
        return Num(K(v), 'int')
    if isinstance(v, float):
        from fractions import Fraction
        return Num(P(A('cst', repr(v))) if False else K(Fraction(v).limit_denominator(10 ** 12)), 'float')
    if isinstance(v, (list, tuple)):
        return Tup([const(W, x) for x in v])
    return v


def cdim(cvar, name='C'):
    if cvar == 'n':
        return dimatom(name, 3)
    return K(int(cvar))


def lib(dotted, name):
    """a function or class of the library given as option value"""
    def f(W):
        try:
            return W.base.fn(dotted, name)
        except Exception:
            return W.base.cls(dotted, name)
    f.target = name
    return f


def ext(name):
    return lambda W: Ext(name)


def user_metric(name='distance', ret='scalar'):
    return lambda W: W.usercall(name, ret)


class Q(object):
    """How one public quantifier is used."""

    def __init__(self, dotted, cls, preds='prob', train=True, classes='2n', opts=(), data='est', unfit=True, min_c=2, cross=(), full=()):
        self.dotted = dotted
        self.cls = cls
        self.preds = preds          # 'prob' / 'crisp' predictions; None: no classifiers
        self.train = train          # needs training predictions
        self.classes = classes      # '2' binary only, '2n' any, 'n' three or more
        self.opts = list(opts) or [{}]
        self.cross = list(cross)    # more combinations of options, with supplied predictions only
        self.full = list(full)      # ... the remaining ones, thorough tier
        self.verbose = cls != 'HDX'     # has a verbose parameter
        self.reads_sample = False

    def recovers(self, o):
        """finds exact mixtures of training examples"""
        if self.cls in ('CC', 'PCC', 'EM', 'PWKQuantifier', 'DeBias'):
            return False
        if o.get('distance') == 'HD' and (o.get('distribution_function') == 'CDF' or self.cls == 'FriedmanME'):
            return False        # the Hellinger distance is one between histograms only
        return True

    def equivariant(self, o, c):
        """the order of the classes does not matter"""
        if self.dotted.startswith('ordinal'):
            return False
        if self.cls in ('DFy',) and o.get('bin_strategy') == 'equal_count' and c == '2':
            return False        # the cut points are quantiles of the probability of the second class
        if self.cls == 'DFy' and o.get('distance') == 'HD' and o.get('distribution_function') == 'CDF':
            return False        # cumulated in another order the histograms have another Hellinger distance
        return True

    def searched(self, o):
        """the prevalence is found by one of the procedures of search.py"""
        return self.cls in ('SORDy', 'QUANTy') or callable(o.get('distance')) and self.cls in ('DFy', 'DFX', 'FriedmanME')


def L2f(W):
    return W.base.fn('metrics.multiclass', 'l2')


DIST = ['HD', 'L1', 'L2']
BINS = ['equal_width', 'equal_count', 'normal']


def hists(combos):
    return [dict(distance=d, bin_strategy=b, distribution_function=f) for d, b, f in combos]


# every pair of two options occurs in HIST or PAIRS; the thorough tier analyses all combinations
HIST = [('HD', 'equal_width', 'PDF'), ('L2', 'equal_count', 'CDF'), ('L1', 'normal', 'PDF'), ('HD', 'normal', 'CDF'),
        ('L2', 'equal_width', 'PDF')]
PAIRS = [('L1', 'equal_width', 'CDF'), ('HD', 'equal_count', 'PDF'), ('L2', 'normal', 'CDF'), ('L1', 'equal_count', 'PDF')]
REST = [(d, b, f) for d in DIST for b in BINS for f in ('PDF', 'CDF') if (d, b, f) not in HIST + PAIRS]

QUANT = [
    Q('baselines.cc', 'CC', 'crisp', train=False),
    Q('baselines.cc', 'PCC', 'prob', train=False),
    Q('baselines.ac', 'AC', 'crisp', opts=[dict(distance=d) for d in DIST]),
    Q('baselines.ac', 'PAC', 'prob', opts=[dict(distance=d) for d in DIST]),
    Q('binary.debias', 'DeBias', 'prob', classes='2'),
    Q('binary.emd', 'SORDy', 'prob', classes='2'),
    Q('binary.quantiles', 'QUANTy', 'prob', classes='2', opts=[{}, dict(distance=user_metric())]),
    Q('multiclass.df', 'DFy', 'prob', opts=hists(HIST), cross=hists(PAIRS), full=hists(REST)),
    Q('multiclass.df', 'DFy', 'prob', classes='2', opts=
        [dict(distance=user_metric(), bin_strategy='equal_width', distribution_function='PDF'),
         dict(distance=lib('metrics.multiclass', 'l2'), bin_strategy='equal_width', distribution_function='CDF'),
         dict(distance='HD', bin_strategy='binormal', distribution_function='PDF')]),
    Q('multiclass.df', 'HDy', 'prob'),
    Q('multiclass.df', 'MMy', 'prob'),
    Q('multiclass.df', 'DFX', None, opts=hists(HIST), cross=hists(PAIRS), full=hists(REST)),
    Q('multiclass.df', 'DFX', None, classes='2', opts=
        [dict(distance=user_metric(), bin_strategy='equal_width', distribution_function='PDF'),
         dict(distance='HD', bin_strategy='binormal', distribution_function='PDF')]),
    Q('multiclass.df', 'HDX', None),
    Q('multiclass.em', 'EM', 'prob'),
    Q('multiclass.energy', 'EDy', 'prob', opts=[{}, dict(distance=user_metric('pairdist', 'matrix'))]),
    Q('multiclass.energy', 'CvMy', 'prob'),
    Q('multiclass.energy', 'EDX', None),
    Q('multiclass.friedman', 'FriedmanME', 'prob', opts=[dict(distance=d) for d in DIST]),
    Q('multiclass.friedman', 'FriedmanME', 'prob', classes='2', opts=[dict(distance=user_metric())]),
    Q('multiclass.knn', 'PWKQuantifier', None),
    Q('ordinal.ac_ordinal', 'ACOrdinal', 'crisp', classes='n'),
    Q('ordinal.pdf', 'PDFOrdinaly', 'prob', classes='n', opts=
        [dict(distance=d, method=m) for d, m in [('L2', 'full_probabilistic'), ('HD', 'winner_node'),
                                                 ('EMD', 'full_probabilistic'), ('EMD', 'winner_node')]],
      cross=[dict(distance='L2', method='winner_node'), dict(distance='HD', method='full_probabilistic')]),
]


def quant_specs():
    """(name, Q, option dict, class variant)"""
    for q in QUANT:
        for o in q.opts:
            for c in q.classes:
                yield q, o, c


def optname(o):
    r = []
    for k in sorted(o):
        v = o[k]
        r.append('%s=%s' % (k, v if isinstance(v, (str, int, float)) else getattr(v, '__name__', 'callable').replace('<lambda>', 'callable')))
    return ','.join(r)


def build(W, q, o, extra=None):
    kw = {k: const(W, v) for k, v in o.items()}
    kw.update(extra or {})
    return W.do('new', W.base.cls(q.dotted, q.cls), **kw)


def preds(W, name, n, c, kind, fam='L'):
    return W.probs(name, n, c) if kind == 'prob' else W.crisp(name, n, fam)


def history(base, q, o, c, mode, verbose=None, contract=False):
    """fit(1) predict(A) predict(B) fit(2) predict(C) for one quantifier.

    mode: 'pred'   predictions are passed to every call
          'multi'  training predictions with R rows per training example
          'fitted' estimators that are already fitted
          'new'    estimators that are not fitted yet
      'testnew', 'trainnew'   only one of the two estimators is not fitted yet
      'shared' one unfitted estimator for the training and the testing sample
          'both'   predictions are passed and estimators (not fitted) are there as well
          'none'   neither predictions nor estimators
    """
    W = World(base, '%s(%s)/C=%s/%s' % (q.cls, optname(o), c, mode))
    W.contract = contract
    if contract:
        contracts.install(W)
    W.q, W.o, W.cvar, W.mode = q, o, c, mode
    C1 = cdim(c, 'C')
    own = mode in ('fitted', 'new', 'testnew', 'trainnew', 'shared')     # the estimators of the object predict
    C2 = C1 if own or c != 'n' else dimatom('C2', 3)
    N1, N2 = dimatom('N1', 2), dimatom('N2', 2)
    D1 = dimatom('D')
    fam2 = 'L' if own else 'L2'
    R = dimatom('R', 2) if mode == 'multi' else ONE
    W.C1, W.C2, W.N1, W.N2, W.R = C1, C2, N1, N2, R
    W.X1, W.y1 = W.X('X1', N1), W.y('y1', N1, C1, 'L')
    W.X2, W.y2 = W.X('X2', N2), W.y('y2', N2, C2, fam2)
    W.T = {}
    W.Q = {}
    W.M = {}
    for l, cc, fam in (('A', C1, 'L'), ('B', C1, 'L'), ('C', C2, fam2)):
        W.M[l] = dimatom('M' + l)
        W.T[l] = W.X('T' + l, W.M[l])
        W.Q[l] = preds(W, 'Q' + l, W.M[l], cc, q.preds, fam) if q.preds else None
    extra = {}
    if verbose is not None:
        extra['verbose'] = Num(K(verbose), 'int')
    W.est_train = W.est_test = None
    if q.preds and own:
        W.est_test = W.est('esttest', mode in ('fitted', 'trainnew'), C1, 'L')
        extra['estimator_test'] = W.est_test
        if q.train:
            W.est_train = W.est_test if mode == 'shared' else W.est('esttrain', mode in ('fitted', 'testnew'), C1, 'L')
            extra['estimator_train'] = W.est_train
    if q.preds and mode == 'both':
        # predictions are supplied and estimators are there as well
        W.est_test = W.est('esttest', False, C1, 'L')
        extra['estimator_test'] = W.est_test
        if q.train:
            W.est_train = W.est('esttrain', False, C1, 'L')
            extra['estimator_train'] = W.est_train
    W.ctor = {k: const(W, v) for k, v in o.items()}
    W.ctor.update(extra)
    W.obj = W.do('new', W.base.cls(q.dotted, q.cls), **W.ctor)
    if W.obj is None:
        return W
    fit1, fit2 = {}, {}
    if q.preds and mode in ('pred', 'multi', 'both'):
        W.P1 = preds(W, 'P1', R * N1, C1, q.preds, 'L')
        W.P2 = preds(W, 'P2', R * N2, C2, q.preds, fam2)
        if q.train:
            fit1['predictions_train'] = W.P1
            fit2['predictions_train'] = W.P2

    def pk(l):
        return {'predictions_test': W.Q[l]} if q.preds and mode in ('pred', 'multi', 'both') else {}
    W.fit1 = W.call('fit1', W.obj, 'fit', W.X1, W.y1, **fit1)
    if not W.ok('fit1'):
        return W
    W.state_fit1 = snapshot(W, W.obj)
    W.est_fit1 = []
    if W.est_test is not None:
        W.est_fit1.append(('esttest', mode not in ('fitted', 'trainnew'), snapshot(W, W.est_test)))
    if W.est_train is not None and W.est_train is not W.est_test:
        W.est_fit1.append(('esttrain', mode not in ('fitted', 'testnew'), snapshot(W, W.est_train)))
    W.pA = W.call('predA', W.obj, 'predict', W.T['A'], **pk('A'))
    W.store('pA', W.pA)
    if not W.ok('predA'):
        return W
    W.pB = W.call('predB', W.obj, 'predict', W.T['B'], **pk('B'))
    W.store('pB', W.pB)
    W.fit2 = W.call('fit2', W.obj, 'fit', W.X2, W.y2, **fit2)
    if not W.ok('fit2'):
        return W
    W.pC = W.call('predC', W.obj, 'predict', W.T['C'], **pk('C'))
    W.store('pC', W.pC)
    return W


def snapshot(W, obj):
    """attribute -> value of an instance now"""
    return dict(W.I.obj(obj).attrs)
