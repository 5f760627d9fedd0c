"""Models of the third-party libraries used by the repository (scikit-learn, scipy, joblib, cvxpy, quadprog, ...)
and of the components a user supplies (classifiers, regressors, splitters, callables)."""
import ast
from fractions import Fraction

from . import terms as T
from . import arrays as AR
from . import models as M
from . import np_models as NP
from .arrays import Ar, UnkShape, as_ar, err, new, result, bvar
from .models import ext, method, bind, is_none, const_bool, const_str, scalar, EXT, EXT_ATTR, METHODS
from .terms import S, A, K, P, ZERO, ONE, where, mk, eq, lt, le, not_
from .values import *
from .interp import RaiseSignal

EXT_ATTR.update({'six.PY2': Num(ZERO, 'bool'), 'six.PY3': Num(ONE, 'bool')})


def default_ext(I, name, args, kw):
    srcs = []
    for v in list(args) + list(kw.values()):
        srcs += I.src_terms(v)
    return Top(T.fresh(name.split('.')[-1], *srcs))


def call_partial(I, p, args, kw):
    if p.kind == 'delayed':
        return I.call(p.fn, args, kw)
    if p.kind == 'parallel':
        return NP.to_list(I, args[0])
    if p.kind == 'partial':
        pk = p.args[1] if len(p.args) > 1 else {}
        return I.call(p.fn, list(p.args[0].items) + list(args), dict(pk, **kw))
    if p.kind == 'vectorize':
        try:
            x = as_ar(I, args[0])
            r = I.call(p.fn, [Num(x.body, x.dtype)] + list(args[1:]), kw)
            return result(I, Ar(x.dims, scalar(I, r), 'any'))
        except UnkShape:
            return default_ext(I, 'vectorize', args, kw)
    if p.kind == 'const':
        return p.fn
    return Top(T.fresh('partial'))


@ext('functools.partial')
def _partial(I, a, kw):
    return Partial('partial', a[0], (Tup(a[1:]), dict(kw)))


@ext('six.with_metaclass', 'future.utils.with_metaclass')
def _with_meta(I, a, kw):
    return Tup(a[1:])


@ext('warnings.warn')
def _warn(I, a, kw):
    # shown on standard error unless the caller hides warnings
    I.event('print', what='warnings.warn', args=tuple(a))
    return NONE


@ext('logging.warning', 'logging.error', 'logging.critical', 'logging.exception')
def _log(I, a, kw):
    I.event('print', what='logging', args=tuple(a))
    return NONE


@ext('logging.debug', 'logging.info')
def _quiet_log(I, a, kw):
    return NONE


@ext('logging.getLogger')
def _logger(I, a, kw):
    return I.alloc(ExtObj('logger', {}))


@method('logger', 'warning', 'error', 'critical', 'exception', 'warn')
def _logm(I, self, a, kw):
    I.event('print', what='logging', args=tuple(a))
    return NONE


@method('logger', 'debug', 'info')
def _logq(I, self, a, kw):
    return NONE


@ext('warnings.simplefilter', 'warnings.filterwarnings', 'warnings.resetwarnings')
def _wfilter(I, a, kw):
    return NONE


@ext('warnings.catch_warnings')
def _wcatch(I, a, kw):
    return I.alloc(ExtObj('errstate', {}))


@ext('sys.stdout.write', 'sys.stderr.write')
def _stdout(I, a, kw):
    I.event('print', what='sys.stdout.write', args=tuple(a))
    return NONE


@ext('math.fsum')
def _fsum(I, a, kw):
    return EXT['builtins.sum'](I, a, kw)


@ext('math.erf', 'math.gamma', 'math.pow')
def _merf(I, a, kw):
    return Num(T.opq('erf', scalar(I, a[0])), 'float')


@ext('math.isclose')
def _mclose(I, a, kw):
    x, y = scalar(I, a[0]), scalar(I, a[1])
    return Num(ONE if x is y else P(A('bool', T.opq('isclose', x, y))), 'bool')


@ext('os.path.join', 'os.getcwd', 'time.time', 'time.perf_counter')
def _os(I, a, kw):
    return Top(T.fresh('os'))


# ----------------------------------------------------------------------
# copies
def deep(I, v, memo):
    if isinstance(v, Ref):
        key = (v.oid, v.sub)
        if key in memo:
            return memo[key]
        o = I.obj(v)
        if isinstance(o, ArrObj):
            if o.dims is None:
                n = o.with_(origin='alloc')
            else:
                n = ArrObj(o.dims, I.obj_body(o), o.dtype, 'alloc', None, I.site())
            r = I.alloc(n)
            memo[key] = r
            return r
        if isinstance(o, FrameObj):
            return v
        r = I.alloc(o.with_(origin='alloc'))
        memo[key] = r
        ren = lambda x: deep(I, x, memo)
        if isinstance(o, ListObj):
            if o.items is not None:
                n = ListObj([ren(x) for x in o.items], site=I.site())
            elif o.comp[0] == 'phi':
                n = ListObj(None, comp=o.comp, site=I.site())
            else:
                ix, e, t = o.comp[:3]
                I.loop_ixs.append(ix)
                try:
                    t = ren(t)
                finally:
                    I.loop_ixs.pop()
                n = ListObj(None, comp=(ix, e, t), site=I.site())
        elif isinstance(o, DictObj):
            n = DictObj({k: ren(x) for k, x in o.items.items()}, site=I.site(), unknown=o.unknown)
        elif isinstance(o, InstObj):
            n = InstObj(o.cls, {k: ren(x) for k, x in o.attrs.items()}, 'alloc', I.site())
        else:
            n = ExtObj(o.kind, {k: ren(x) if isinstance(x, V) else x for k, x in o.attrs.items() if k != 'shallow'}, 'alloc',
                       I.site())
        n.ixs = I.st.heap[r.oid].ixs
        I.st.heap[r.oid] = n
        return r
    if isinstance(v, Tup):
        return Tup([deep(I, x, memo) for x in v.items])
    if isinstance(v, Alt):
        return Alt([(c, deep(I, x, memo)) for c, x in v.alts])
    if isinstance(v, Bound) and isinstance(v.self_, Ref):
        return Bound(deep(I, v.self_, memo), v.fn)
    return v


@ext('copy.deepcopy')
def _deepcopy(I, a, kw):
    return deep(I, a[0], {})


@ext('copy.copy')
def _copycopy(I, a, kw):
    def f(v):
        if isinstance(v, Ref):
            o = I.obj(v)
            if isinstance(o, ArrObj):
                return deep(I, v, {})
            if isinstance(o, FrameObj):
                return v
            if isinstance(o, ExtObj) and o.kind in EST_KINDS:
                # its nested parts are still those of the original
                return I.alloc(o.with_(origin='alloc', attrs=dict(o.attrs, shallow=True)))
            return I.alloc(o.with_(origin='alloc'))
        return v
    return I.on_alt(a[0], f)


def ctor_params(ci):
    init, owner = ci.find('__init__')
    if init is None:
        return []
    a = init.node.args
    return [x.arg for x in (a.posonlyargs + a.args)[1:] + a.kwonlyargs]


@ext('sklearn.base.clone')
def _clone(I, a, kw):
    safe = const_bool(kw.get('safe', a[1] if len(a) > 1 else NONE), True)

    def f(v):
        if isinstance(v, Tup):
            return Tup([f(x) for x in v.items])
        if isinstance(v, Ref):
            o = I.obj(v)
            if isinstance(o, InstObj):
                if I.models.ext_inst_attr(I, v, o, 'get_params') is None and o.cls.find('get_params')[0] is None:
                    if safe:
                        err(I, 'TypeError', 'Cannot clone object of class %s' % o.cls.name)
                    return deep(I, v, {})
                params = {}
                for p in ctor_params(o.cls):
                    x = I.inst_getattr(v, p)
                    params[p] = clone_param(I, x)
                return I.instantiate(o.cls, [], params)
            if isinstance(o, ExtObj):
                if o.kind in EST_KINDS:
                    at = dict(o.attrs)
                    at['fitted'] = ZERO
                    at.pop('fit', None)
                    at.pop('classes', None)
                    at.pop('shallow', None)
                    at['clone'] = True
                    return I.alloc(ExtObj(o.kind, at, 'alloc', I.site()))
                if safe:
                    return deep(I, v, {})
                return deep(I, v, {})
            if isinstance(o, ListObj) and o.items is not None:
                return I.alloc(ListObj([f(x) for x in o.items], site=I.site()))
            if safe:
                err(I, 'TypeError', 'Cannot clone object')
            return deep(I, v, {})
        if isinstance(v, Const) and v.v is None and safe:
            err(I, 'TypeError', "Cannot clone object 'None'")
        if isinstance(v, Top):
            return Top(T.opq('clone', v.s))
        if safe:
            err(I, 'TypeError', 'Cannot clone object')
        return v
    return I.on_alt(a[0], f)


def clone_param(I, x):
    if isinstance(x, Ref):
        o = I.obj(x)
        if isinstance(o, ExtObj) and o.kind in EST_KINDS or isinstance(o, InstObj):
            return EXT['sklearn.base.clone'](I, [x], {'safe': Num(ZERO, 'bool')})
        if isinstance(o, ListObj) and o.items is not None:
            return I.alloc(ListObj([clone_param(I, y) for y in o.items], site=I.site()))
    return deep(I, x, {})


# ----------------------------------------------------------------------
# joblib
@ext('joblib.Parallel', 'sklearn.utils.parallel.Parallel')
def _parallel(I, a, kw):
    vb = kw.get('verbose')
    if isinstance(vb, Num):
        c = not_(eq(vb.s, ZERO))
        if I.truth_of(c) is not False:
            I.event('print', what='joblib.Parallel(verbose=%s)' % vb.s, args=())
    return Partial('parallel', NONE, ())


@ext('joblib.delayed', 'sklearn.utils.parallel.delayed', 'sklearn.utils.fixes.delayed')
def _delayed(I, a, kw):
    return Partial('delayed', a[0], ())


# ----------------------------------------------------------------------
# scikit-learn: validation
def checked(I, v, nd2=True, what='X'):
    if is_none(v):
        err(I, 'ValueError', 'Expected %s array-like, got None' % what)
    if isinstance(v, Top):
        return v
    if I.is_arr(v):
        o = I.obj(v)
        if nd2 and o.dims is not None and len(o.dims) != 2:
            err(I, 'ValueError', 'Expected 2D array, got %dD array' % len(o.dims))
        return v
    return new(I, as_ar(I, v))


def same_len(I, *vs):
    prev = None
    for v in vs:
        if is_none(v) or isinstance(v, Top):
            continue
        n = as_ar(I, v).dims
        if not n:
            continue
        if prev is not None:
            AR.check_dim(I, prev, n[0], 'consistent length')
        prev = n[0]


@ext('sklearn.utils.check_X_y', 'sklearn.utils.validation.check_X_y')
def _check_X_y(I, a, kw):
    X = checked(I, a[0])
    y = checked(I, a[1], False, 'y')
    same_len(I, X, y)
    I.event('validate', what='check_X_y')
    return Tup([X, y])


@ext('sklearn.utils.check_array', 'sklearn.utils.validation.check_array')
def _check_array(I, a, kw):
    e2 = const_bool(kw.get('ensure_2d', NONE), True)
    v = checked(I, a[0], e2)
    I.event('validate', what='check_array')
    if const_bool(kw.get('copy', NONE), False):
        return AR.copy(I, v)
    return v


@ext('sklearn.utils.check_consistent_length')
def _ccl(I, a, kw):
    same_len(I, *a)
    return NONE


@ext('sklearn.utils.validation.column_or_1d', 'sklearn.utils.column_or_1d')
def _col1d(I, a, kw):
    x = as_ar(I, a[0])
    if len(x.dims) == 1:
        return a[0]
    if len(x.dims) != 2 or T.sign_of(x.dims[1] - 1) == '+':
        err(I, 'ValueError', 'an array of dimension %d given as a vector' % len(x.dims))
    return AR.reshape(I, a[0], [K(-1)])


@ext('sklearn.utils.check_random_state', 'sklearn.utils.validation.check_random_state')
def _crs(I, a, kw):
    def f(v):
        if isinstance(v, Ref) and isinstance(I.obj(v), ExtObj) and I.obj(v).kind == 'rng':
            return v
        if is_none(v):
            I.event('rng', what='unseeded', how='check_random_state(None)')
        return I.alloc(ExtObj('rng', {'seed': v}, site=I.site()))
    return I.on_alt(a[0], f)


@ext('sklearn.utils.validation.check_is_fitted', 'sklearn.utils.check_is_fitted')
def _cif(I, a, kw):
    v = a[0]
    if isinstance(v, Ref):
        o = I.obj(v)
        if isinstance(o, ExtObj) and 'fitted' in o.attrs:
            unfit = not_(o.attrs['fitted'])
            t = I.truth_of(unfit)
            if t is True:
                raise RaiseSignal(Exc('NotFittedError'))
            if t is None:
                I.may_raise(Exc('NotFittedError'), unfit)
            return NONE
        if isinstance(o, InstObj):
            at = a[1] if len(a) > 1 else kw.get('attributes', NONE)
            names = [at.v] if isinstance(at, Const) and isinstance(at.v, str) else \
                [x.v for x in (M.concrete_items(I, at) or []) if isinstance(x, Const)]
            if not names:
                ok = [k for k in o.attrs if k.endswith('_') and not k.startswith('__')]
                if not ok:
                    raise RaiseSignal(Exc('NotFittedError'))
                return NONE
            for n in names:
                c = NP.has_attr(I, v, n)
                if I.truth_of(c) is False:
                    raise RaiseSignal(Exc('NotFittedError'))
                if I.truth_of(c) is None:
                    I.may_raise(Exc('NotFittedError'), not_(c))
    return NONE


@ext('sklearn.utils.multiclass.unique_labels')
def _unique_labels(I, a, kw):
    if len(a) == 1:
        return EXT['numpy.unique'](I, [a[0]], {})
    return EXT['numpy.unique'](I, [EXT['numpy.concatenate'](I, [Tup(list(a))], {})], {})


@ext('sklearn.utils.multiclass.check_classification_targets', 'sklearn.utils.multiclass.type_of_target')
def _cct(I, a, kw):
    return Top(T.fresh('target'))


@ext('sklearn.metrics.pairwise.check_pairwise_arrays')
def _cpa(I, a, kw):
    X, Y = a[0], (a[1] if len(a) > 1 else kw.get('Y', NONE))
    X = checked(I, X)
    Y = X if is_none(Y) else checked(I, Y)
    return Tup([X, Y])


def pairdist(name):
    def f(I, a, kw):
        X = a[0]
        Y = a[1] if len(a) > 1 else kw.get('Y', NONE)
        x = as_ar(I, X)
        y = x if is_none(Y) else as_ar(I, Y)
        for z in (x, y):
            if len(z.dims) != 2:
                err(I, 'ValueError', 'Expected 2D array, got %dD array instead' % len(z.dims))
        AR.check_dim(I, x.dims[1], y.dims[1], 'pairwise distance')
        nm = name
        mt = kw.get('metric', a[2] if len(a) > 2 and name == 'cdist' else NONE)
        if const_str(mt):
            if mt.v.lower() not in CDIST:
                raise RaiseSignal(Exc('ValueError', tag='Unknown Distance Metric: ' + mt.v))
            nm = 'cdist:' + mt.v
        g = kw.get('gamma', a[2] if len(a) > 2 and name == 'rbf_kernel' else NONE)
        more = () if name != 'rbf_kernel' or is_none(g) else (NP.scalar(I, g),)
        base = A('pairdist', nm, NP.ar_atom(x), NP.ar_atom(y), x.dims[0], y.dims[0], *more)
        return NP.named_arr(I, (x.dims[0], y.dims[0]), base)
    return f


for _n in ('euclidean_distances', 'manhattan_distances', 'rbf_kernel', 'pairwise_distances', 'cosine_distances',
           'linear_kernel', 'cosine_similarity'):
    EXT['sklearn.metrics.pairwise.' + _n] = pairdist(_n)
CDIST = set('''braycurtis canberra chebychev chebyshev cheby cheb ch cityblock cblock cb c correlation co cosine cos dice
euclidean euclid eu e hamming hamm ha h jaccard jacc ja j jensenshannon js kulczynski1 mahalanobis mahal mah matching
minkowski mi m pnorm rogerstanimoto russellrao seuclidean se s sokalmichener sokalsneath sqeuclidean sqe sqeuclid
yule wminkowski wmi wm wpnorm'''.split())
EXT['scipy.spatial.distance.cdist'] = pairdist('cdist')
T.CONTRACT_OPS['pairdist'] = lambda b: {'lo': Fraction(0), 'hi': Fraction(1) if b.args[0] == 'rbf_kernel' else None}


@ext('sklearn.base.is_classifier')
def _is_classifier(I, a, kw):
    v = a[0]
    if isinstance(v, Ref):
        o = I.obj(v)
        if isinstance(o, ExtObj):
            return Num(ONE if o.kind == 'est' else ZERO, 'bool')
        if isinstance(o, InstObj):
            return Num(ONE if any(b.endswith('ClassifierMixin') for b in o.cls.ext_bases()) else ZERO, 'bool')
    return Num(P(A('bool', T.fresh('is_classifier'))), 'bool')


@ext('sklearn.utils.extmath.weighted_mode')
def _wmode(I, a, kw):
    x = as_ar(I, a[0])
    ax = kw.get('axis', NONE)
    k = 0 if is_none(ax) else AR.axis_of(I, ax, len(x.dims))[0]
    d = list(x.dims)
    d[k] = ONE
    w = as_ar(I, a[1])
    base = A('wmode', NP.ar_atom(x), NP.ar_atom(w) if w.dims else A('num', w.body), k)
    xa = x.body.atom()
    c = T.contract(xa) if xa is not None and xa.op == 'at' else None
    if c and (c.get('label_of') or c.get('labels')):
        T.CONTRACTS[base] = {'label_of': c.get('label_of') or c.get('labels')}
    return Tup([NP.named_arr(I, tuple(d), base, x.dtype), NP.opaque_arr(I, d, 'wmodecount', a[0], a[1])])


@ext('scipy.stats.mode')
def _smode(I, a, kw):
    x = as_ar(I, a[0])
    ax = kw.get('axis', NONE)
    k = 0 if is_none(ax) else AR.axis_of(I, ax, len(x.dims))[0]
    keep = const_bool(kw.get('keepdims', NONE), False)
    d = list(x.dims)
    if keep:
        d[k] = ONE
    else:
        del d[k]
    return Tup([NP.opaque_arr(I, d, 'mode', a[0]), NP.opaque_arr(I, d, 'modecount', a[0])])


def cm_labels(I, yt, yp, labels):
    if not is_none(labels):
        return as_ar(I, labels)
    x, y = as_ar(I, yt), as_ar(I, yp)
    return NP.uniq_arr(I, x)


@ext('sklearn.metrics.confusion_matrix')
def _cm(I, a, kw):
    yt, yp, labels, sw, nrm = bind(a, kw, 'y_true', 'y_pred', 'labels', 'sample_weight', 'normalize')
    x, y = as_ar(I, yt), as_ar(I, yp)
    same_len(I, yt, yp)
    u = cm_labels(I, yt, yp, labels)
    c = u.dims[0]
    n = x.dims[0]
    r = A('r', -8900, 0, n)
    ut = u.body
    up = T.subst(u.body, {bvar(0, c): P(bvar(1, c))})
    term = eq(T.subst(x.body, {bvar(0, n): P(r)}), ut)
    if y.dims and y.dims[0] is not n:
        yb = T.subst(y.body, {bvar(0, y.dims[0]): P(r)})
    else:
        yb = T.subst(y.body, {bvar(0, n): P(r)})
    w = ONE
    if not is_none(sw):
        w = T.subst(as_ar(I, sw).body, {bvar(0, n): P(r)})
    body = T.sum_over(r, n, term * eq(yb, up) * w)
    dt = 'int' if is_none(sw) else 'float'
    nm = const_str(nrm)
    if nm == 'true':
        q = A('r', -8910, 0, c)
        tot = T.sum_over(q, c, T.subst(body, {bvar(1, c): P(q)}))
        body, dt = T.div(body, tot), 'float'
    elif nm == 'pred':
        q = A('r', -8910, 0, c)
        tot = T.sum_over(q, c, T.subst(body, {bvar(0, c): P(q)}))
        body, dt = T.div(body, tot), 'float'
    elif nm == 'all':
        body, dt = T.div(body, n), 'float'
    return I.new_arr((c, c), body, dt)


@ext('sklearn.metrics.accuracy_score')
def _acc(I, a, kw):
    return Num(T.fresh('acc', *NP.arr_srcs(I, *a)), 'float')


# encoders ----------------------------------------------------------------------------
@ext('sklearn.preprocessing.LabelEncoder')
def _le(I, a, kw):
    return I.alloc(ExtObj('LabelEncoder', {}, site=I.site()))


@method('LabelEncoder', 'fit')
def _le_fit(I, o, a, kw):
    ob = I.obj(o)
    at = dict(ob.attrs)
    u = NP.uniq_arr(I, as_ar(I, a[0]))
    at['classes_'] = new(I, u)
    I.store_obj(o, ob.with_(attrs=at))
    return o


def le_encode(I, o, v):
    u = as_ar(I, I.obj(o).attrs['classes_'])
    x = as_ar(I, EXT['sklearn.utils.column_or_1d'](I, [v], {}))
    r = A('r', -8920, 0, u.dims[0])
    lam = T.lam_vars([r], [u.dims[0]], eq(x.body, T.subst(u.body, {bvar(0, u.dims[0]): P(r)})))
    return result(I, Ar(x.dims, mk('nth', lam, ZERO), 'int'))


@method('LabelEncoder', 'transform')
def _le_tr(I, o, a, kw):
    if 'classes_' not in I.obj(o).attrs:
        raise RaiseSignal(Exc('NotFittedError'))
    return le_encode(I, o, a[0])


@method('LabelEncoder', 'fit_transform')
def _le_ft(I, o, a, kw):
    _le_fit(I, o, a, kw)
    return le_encode(I, o, a[0])


@method('LabelEncoder', 'inverse_transform')
def _le_inv(I, o, a, kw):
    at = I.obj(o).attrs
    if 'classes_' not in at:
        raise RaiseSignal(Exc('NotFittedError'))
    u = as_ar(I, at['classes_'])
    x = as_ar(I, EXT['sklearn.utils.column_or_1d'](I, [a[0]], {}))
    return result(I, Ar(x.dims, u.at(x.body), u.dtype))


@ext('sklearn.preprocessing.LabelBinarizer')
def _lb(I, a, kw):
    return I.alloc(ExtObj('LabelBinarizer', dict({'neg': kw.get('neg_label', Num(ZERO, 'int')),
                                                  'pos': kw.get('pos_label', Num(ONE, 'int')),
                                                  'sparse_output': kw.get('sparse_output', Num(ZERO, 'bool'))}),
                          site=I.site()))


def lb_transform(I, o, v):
    """Dense indicator matrix; a single column when there are two classes."""
    u = as_ar(I, I.obj(o).attrs['classes_'])
    x = as_ar(I, v)
    n, c = x.dims[0], u.dims[0]
    xb = x.body
    sp = const_bool(I.obj(o).attrs['sparse_output'])
    if c.const() == 2:
        r = I.new_arr((n, ONE), eq(xb, u.at(ONE)), 'int')
    else:
        r = I.new_arr((n, c), eq(xb, T.subst(u.body, {bvar(0, c): P(bvar(1, c))})), 'int')
    if sp:
        return I.alloc(ExtObj('sparse', {'val': r}, site=I.site()))
    return r


@method('LabelBinarizer', 'fit')
def _lb_fit(I, o, a, kw):
    return _le_fit(I, o, a, kw)


@method('LabelBinarizer', 'transform')
def _lb_tr(I, o, a, kw):
    if 'classes_' not in I.obj(o).attrs:
        raise RaiseSignal(Exc('NotFittedError'))
    return lb_transform(I, o, a[0])


@method('LabelBinarizer', 'fit_transform')
def _lb_ft(I, o, a, kw):
    _le_fit(I, o, a, kw)
    return lb_transform(I, o, a[0])


@method('LabelBinarizer', '.y_type_')
def _lb_ytype(I, o, ob):
    return Const('multiclass')


@method('LabelBinarizer', 'inverse_transform')
def _lb_inv(I, o, a, kw):
    u = as_ar(I, I.obj(o).attrs['classes_'])
    x = as_ar(I, a[0])
    return NP.opaque_arr(I, (x.dims[0],), 'lbinv', a[0], o)


@ext('sklearn.preprocessing.label_binarize')
def _label_binarize(I, a, kw):
    y, cl = bind(a, kw, 'y', 'classes')
    x, u = as_ar(I, y), as_ar(I, cl)
    n, c = x.dims[0], u.dims[0]
    if c.const() == 2:
        return I.new_arr((n, ONE), eq(x.body, u.at(ONE)), 'int')
    return I.new_arr((n, c), eq(x.body, T.subst(u.body, {bvar(0, c): P(bvar(1, c))})), 'int')


@method('sparse', 'toarray', 'todense')
def _sp_dense(I, o, a, kw):
    return I.obj(o).attrs['val']


@method('sparse', 'tocsc', 'tocsr', 'tocoo')
def _sp_self(I, o, a, kw):
    return o


@method('sparse', '.T')
def _sp_T(I, o, ob):
    return I.alloc(ExtObj('sparse', {'val': AR.transpose(I, ob.attrs['val'])}))


@method('sparse', '.shape')
def _sp_shape(I, o, ob):
    return I.getattr(ob.attrs['val'], 'shape')


@method('sparse', '__iter__')
def _sp_iter(I, v, o):
    arr = o.attrs['val']
    k = M.iterate(I, arr, None)

    def wrap(x):
        return I.alloc(ExtObj('sparse', {'val': x}))
    if k[0] == 'items':
        return 'items', [wrap(x) for x in k[1]]
    return 'sym', k[1], k[2], lambda ix: wrap(k[3](ix))


@ext('sklearn.preprocessing.StandardScaler', 'sklearn.preprocessing.MinMaxScaler', 'sklearn.preprocessing.RobustScaler')
def _scaler(I, a, kw):
    keep = kw.get('copy', Const(True))
    return I.alloc(ExtObj('scaler', {} if isinstance(keep, Const) and keep.v is True else {'inplace': ONE}, site=I.site()))


@method('scaler', 'fit')
def _sc_fit(I, o, a, kw):
    ob = I.obj(o)
    at = dict(ob.attrs)
    x = as_ar(I, a[0])
    T._fresh[0] += 1
    at['fit'] = P(A('scalefit', NP.ar_atom(x)))
    I.store_obj(o, ob.with_(attrs=at))
    return o


@method('scaler', 'transform', 'inverse_transform')
def _sc_tr(I, o, a, kw):
    at = I.obj(o).attrs
    if 'fit' not in at:
        raise RaiseSignal(Exc('NotFittedError'))
    x = as_ar(I, a[0])
    r = I.new_arr(x.dims, P(A('scaled', at['fit'], x.body)), 'float')
    if 'inplace' in at and I.is_arr(a[0]):      # copy=False: works on the array it is given
        AR.assign_all(I, a[0], r)
        return a[0]
    return r


@method('scaler', 'fit_transform')
def _sc_ft(I, o, a, kw):
    _sc_fit(I, o, a, kw)
    return _sc_tr(I, o, a, kw)


# classifiers / regressors ----------------------------------------------------------------
EST_KINDS = {'est', 'reg'}


def mk_est(I, name, fitted=ZERO, kind='est', origin='alloc', **kw):
    at = {'name': name, 'fitted': fitted}
    at.update(kw)
    return I.alloc(ExtObj(kind, at, origin, I.site()))


def est_attr(o, k, d=None):
    return o.attrs.get(k, d)


def est_classes(I, ref, o):
    c = o.attrs.get('classes')
    return c


@method('est', 'fit')
def _est_fit(I, o, a, kw):
    return est_fit(I, o, a, kw)


@method('reg', 'fit')
def _reg_fit(I, o, a, kw):
    return est_fit(I, o, a, kw)


def cells_of(I, v):
    """(dims, body) of an array now"""
    try:
        x = as_ar(I, v) if v is not None and not isinstance(v, (Top, Alt)) and not is_none(v) else None
        return None if x is None else (tuple(x.dims), x.body)
    except RaiseSignal:
        raise
    except Exception:
        return None


def est_fit(I, o, a, kw):
    ob = I.obj(o)
    X, y = bind(a, {k: v for k, v in kw.items() if k in ('X', 'y', 'sample_weight')}, 'X', 'y')[:2]
    I.event('est_fit', oid=o.oid, name=ob.attrs.get('name'), origin=ob.origin, X=X, y=y, sub=o.sub,
            fitted=ob.attrs.get('fitted'), internal=ob.attrs.get('internal', False), okind=ob.kind,
            shallow=ob.attrs.get('shallow', False), cells=[cells_of(I, v) for v in (X, y)])
    if not ob.attrs.get('internal'):
        I.user_raises(P(A('bool', T.fresh('fitfails'))))
    same_len(I, X, y)
    at = dict(ob.attrs)
    at['fitted'] = ONE
    xs = as_ar(I, X) if not isinstance(X, Top) else None
    ys = as_ar(I, y) if not is_none(y) and not isinstance(y, Top) else None
    xt = NP.ar_atom(xs) if xs is not None else A('top', X.s)
    yt = NP.ar_atom(ys) if ys is not None else A('top', T.fresh('y'))
    sw = kw.get('sample_weight', a[2] if len(a) > 2 else None)
    extra = tuple(I.src_terms(sw)) if sw is not None else ()
    extra += tuple(v for _, v in at.get('params', ()))
    at['fit'] = P(A('fit', at.get('name'), xt, yt, extra))
    at['nfeat'] = xs.dims[1] if xs is not None and len(xs.dims) == 2 else T.fresh('nf')
    if ob.kind == 'est' and ys is not None:
        at['classes'] = new(I, NP.uniq_arr(I, ys))
    if ob.kind == 'reg':
        at['ydims'] = Tup([Num(d) for d in ys.dims[1:]]) if ys is not None else Tup([])
    I.store_obj(o, ob.with_(attrs=at))
    return o


def est_ready(I, o, what, X):
    ob = I.obj(o)
    f = ob.attrs.get('fitted', ZERO)
    t = I.truth_of(f)
    I.event('est_use', oid=o.oid, name=ob.attrs.get('name'), fitted=f, what=what, X=X, sub=o.sub,
            internal=ob.attrs.get('internal', False), okind=ob.kind, fit=ob.attrs.get('fit'))
    if t is False:
        I.event('error', err='NotFittedError', msg='%s of an estimator that was not fitted' % what)
        raise RaiseSignal(Exc('NotFittedError', tag=what))
    if t is None:
        I.may_raise(Exc('NotFittedError'), not_(f))
    if not ob.attrs.get('internal'):
        I.user_raises(P(A('bool', T.fresh('predictfails'))))
    x = checked(I, X)
    xa = as_ar(I, x) if not isinstance(x, Top) else None
    nf = ob.attrs.get('nfeat')
    if nf is not None and xa is not None and nf.atom() is not None and nf.atom().op == 'dim':
        AR.check_dim(I, nf, xa.dims[1], 'features seen by the estimator')
    return ob, xa


def fit_term(ob):
    f = ob.attrs.get('fit')
    if f is None:
        f = P(A('fit0', ob.attrs.get('name')))
    return f


T.CONTRACT_OPS['pred'] = lambda b: {'lo': Fraction(0), 'hi': Fraction(1), 'simplex': 1, 'dims': (None, b.args[2])}
T.CONTRACT_OPS['plab'] = lambda b: {'label_of': b.args[2]}


def lab_name(I, u):
    a = u.body.atom()
    if a is not None and a.op == 'at':
        c = T.contract(a)
        if c and c.get('labels'):
            return c['labels']
    return ''


def est_u(I, ob):
    c = ob.attrs.get('classes')
    if c is None:
        return None
    return as_ar(I, c)


@method('est', 'predict_proba')
def _est_pp(I, o, a, kw):
    ob, xa = est_ready(I, o, 'predict_proba', a[0] if a else kw['X'])
    if xa is None:
        raise UnkShape()
    u = est_u(I, ob)
    c = u.dims[0] if u is not None else P(A('opq', 'ncls', (fit_term(ob),)))
    base = A('pred', fit_term(ob), NP.ar_atom(xa), c)
    return NP.named_arr(I, (xa.dims[0], c), base)


@method('est', 'predict_log_proba')
def _est_plp(I, o, a, kw):
    return EXT['numpy.log'](I, [_est_pp(I, o, a, kw)], {})


@method('est', 'predict')
def _est_p(I, o, a, kw):
    ob, xa = est_ready(I, o, 'predict', a[0] if a else kw['X'])
    if xa is None:
        raise UnkShape()
    u = est_u(I, ob)
    if u is not None and u.body.const() is None and lab_name(I, u) == '':
        # labels given by a known finite set (0/1 re-labelled problems)
        cs = NP.leaf_consts(u.body) if u.dims[0].const() is not None else None
        s = T.P(A('plabc', fit_term(ob), NP.ar_atom(xa), P(bvar(0, xa.dims[0]))))
        if u.dims[0].const() is not None:
            c = u.dims[0].const()
            if c == 2 and u.at(ZERO).const() == 0 and u.at(ONE).const() == 1:
                return I.new_arr((xa.dims[0],), P(A('bool', s)), u.dtype)
            return I.new_arr((xa.dims[0],), u.at(P(A('rndint', 0, ZERO, u.dims[0], (s,)))), u.dtype)
    base = A('plab', fit_term(ob), NP.ar_atom(xa), lab_name(I, u) if u is not None else '')
    return NP.named_arr(I, (xa.dims[0],), base, u.dtype if u is not None else 'any')


@method('est', 'decision_function')
def _est_df(I, o, a, kw):
    ob, xa = est_ready(I, o, 'decision_function', a[0])
    base = A('decf', fit_term(ob), NP.ar_atom(xa))
    return NP.named_arr(I, (xa.dims[0],), base)


@method('reg', 'predict')
def _reg_p(I, o, a, kw):
    ob, xa = est_ready(I, o, 'predict', a[0])
    yd = ob.attrs.get('ydims')
    dims = (xa.dims[0],) + tuple(x.s for x in (yd.items if yd is not None else ()))
    base = A('rpred', fit_term(ob), NP.ar_atom(xa))
    return NP.named_arr(I, dims, base)


@method('est', 'fit_predict', 'score')
def _est_score(I, o, a, kw):
    ob, xa = est_ready(I, o, 'score', a[0])
    return Num(T.fresh('score', *NP.arr_srcs(I, *a)), 'float')


@method('est', 'get_params')
def _est_gp(I, o, a, kw):
    return I.alloc(DictObj({}, unknown=T.fresh('params')))


@method('est', 'set_params')
def _est_sp(I, o, a, kw):
    ob = I.obj(o)
    I.event('ext_setattr', oid=o.oid, okind=ob.kind, name='set_params', origin=ob.origin)
    at = dict(ob.attrs)
    vals = dict(at.get('params', ()))
    for k, v in kw.items():
        if k == '**' or not isinstance(v, Num):
            return o
        vals[k] = v.s
    at['params'] = tuple(sorted(vals.items()))
    I.store_obj(o, ob.with_(attrs=at))
    return o


METHODS[('reg', 'get_params')] = _est_gp
METHODS[('reg', 'set_params')] = _est_sp
METHODS[('reg', 'score')] = _est_score


@method('est', '.classes_')
def _est_cls(I, o, ob):
    if I.truth_of(ob.attrs.get('fitted', ZERO)) is False:
        err(I, 'AttributeError', 'classes_ of an estimator that was not fitted')
    c = ob.attrs.get('classes')
    if c is None:
        return Top(T.fresh('classes'))
    return c


@method('est', '.n_features_in_')
def _est_nf(I, o, ob):
    return Num(ob.attrs.get('nfeat', T.fresh('nf')), 'int')


@method('est', '.=*')
def _est_set(I, o, ob, name, v):
    at = dict(ob.attrs)
    at[name] = v
    I.store_obj(o, ob.with_(attrs=at))


@method('est', '.*')
def _est_any(I, o, ob, name):
    if name in ob.attrs and isinstance(ob.attrs[name], V):
        return ob.attrs[name]
    if name.startswith('__'):
        return None
    if name.endswith('_'):
        return Top(T.opq('estattr:' + name, *([ob.attrs['fit']] if 'fit' in ob.attrs else [])))
    return Top(T.opq('estattr:' + name))


@method('est', '?hasattr')
def _est_has(I, o, ob, n):
    if ob.attrs.get('crisp') and n == 'predict_proba':
        return ZERO
    if n in ('classes_', 'n_features_in_'):
        return ob.attrs.get('fitted', ZERO)
    if n in ('random_state', 'n_jobs', 'estimator', 'estimators_', 'verbose'):
        return P(A('bool', T.opq('hasattr:' + n + str(ob.attrs.get('name')))))
    return None


def sk_est(kind):
    def f(I, a, kw):
        args = tuple(a) + tuple(kw.values())
        vb = kw.get('verbose')
        return mk_est(I, kind + ':' + str(I.line), ZERO, 'est' if not kind.startswith('reg') else 'reg', internal=True,
                      args=Tup([v for v in args if isinstance(v, V)]), kwargs=dict(kw))
    return f


@method('est', 'kneighbors')
def _est_kn(I, o, a, kw):
    ob, xa = est_ready(I, o, 'kneighbors', a[0] if a else kw.get('X', NONE))
    if xa is None:
        raise UnkShape()
    k = kw.get('n_neighbors', a[1] if len(a) > 1 else NONE)
    if is_none(k):
        k = ob.attrs.get('kwargs', {}).get('n_neighbors', NONE)
    k = k.s if isinstance(k, Num) else (K(5) if is_none(k) else P(A('dim', 'NK', 1)))
    ib = A('neigh', fit_term(ob), NP.ar_atom(xa), k)
    db = A('neighdist', fit_term(ob), NP.ar_atom(xa), k)
    T.CONTRACTS[ib] = {'lo': 0, 'int': True}
    T.CONTRACTS[db] = {'lo': 0}
    ind = NP.named_arr(I, (xa.dims[0], k), ib, 'int')
    if const_bool(kw.get('return_distance', NONE), True):
        return Tup([NP.named_arr(I, (xa.dims[0], k), db), ind])
    return ind


for _n in ('sklearn.neighbors.KNeighborsClassifier', 'sklearn.linear_model.LogisticRegression',
           'sklearn.ensemble.RandomForestClassifier', 'sklearn.svm.SVC', 'sklearn.tree.DecisionTreeClassifier',
           'sklearn.naive_bayes.GaussianNB'):
    EXT[_n] = sk_est(_n.split('.')[-1])
for _n in ('sklearn.linear_model.LinearRegression', 'sklearn.linear_model.Ridge',
           'sklearn.ensemble.RandomForestRegressor'):
    EXT[_n] = sk_est('reg' + _n.split('.')[-1])


def sk_meta(name):
    def f(I, a, kw):
        est = a[0] if a else kw.get('estimator', NONE)
        nm = name
        if isinstance(est, Ref) and isinstance(I.obj(est), ExtObj):
            nm = name + '(' + str(I.obj(est).attrs.get('name')) + ')'
        # sklearn clones the wrapped estimator before fitting
        r = mk_est(I, nm, ZERO, 'est', internal=False, args=Tup([est]), meta=True)
        return r
    return f


for _n in ('OutputCodeClassifier',):
    EXT['sklearn.multiclass.' + _n] = sk_meta(_n)
EXT['sklearn.calibration.CalibratedClassifierCV'] = sk_meta('CalibratedClassifierCV')


# splitters / cross validation -----------------------------------------------------------
def mk_splitter(I, name, seeded=True, origin='alloc', user=True, k=None, reps=1):
    return I.alloc(ExtObj('splitter', {'name': name, 'k': k or P(A('dim', 'folds_' + name, 2)), 'seeded': seeded,
                                       'user': user, 'reps': reps}, origin, I.site()))


@ext('sklearn.model_selection._split.check_cv', 'sklearn.model_selection.check_cv')
def _check_cv(I, a, kw):
    cv = a[0] if a else kw.get('cv', NONE)

    def f(v):
        if isinstance(v, Const) and isinstance(v.v, str):
            err(I, 'ValueError', 'Expected cv as an integer, cross-validation object or an iterable. Got %r' % v.v)
        if is_none(v) or isinstance(v, Num):
            k = K(5) if is_none(v) else v.s
            return I.alloc(ExtObj('splitter', {'name': 'kfold', 'k': k, 'seeded': True, 'user': False}, site=I.site()))
        if isinstance(v, Ref) and isinstance(I.obj(v), ExtObj) and I.obj(v).kind == 'splitter':
            return v
        return I.alloc(ExtObj('splitter', {'name': 'iterable', 'k': T.fresh('k'), 'seeded': True, 'user': False},
                              site=I.site()))
    return I.on_alt(cv, f)


for _n in ('KFold', 'StratifiedKFold', 'RepeatedKFold', 'RepeatedStratifiedKFold', 'GroupKFold', 'LeaveOneOut',
           'ShuffleSplit', 'StratifiedShuffleSplit'):
    def _kf(I, a, kw, _n=_n):
        k = kw.get('n_splits', a[0] if a and isinstance(a[0], Num) else Num(K(5), 'int'))
        rs = kw.get('random_state', NONE)
        sh = const_bool(kw.get('shuffle', NONE), False)
        s = k.s if isinstance(k, Num) else T.fresh('k')
        return I.alloc(ExtObj('splitter', {'name': _n, 'k': s, 'seeded': not sh or not is_none(rs), 'user': False},
                              site=I.site()))
    EXT['sklearn.model_selection.' + _n] = _kf


@ext('sklearn.model_selection.train_test_split')
def _tts(I, a, kw):
    if 'random_state' not in kw or is_none(kw['random_state']):
        I.event('rng', what='unseeded', how='train_test_split without random_state')
    out = []
    for v in a:
        x = as_ar(I, v)
        for _ in range(2):
            out.append(NP.opaque_arr(I, (T.fresh('len'),) + x.dims[1:], 'tts', v, dtype=x.dtype))
    return I.alloc(ListObj(out, site=I.site()))


def split_folds(I, o, X, y, groups):
    """(k, draw id, function fold -> (train array, test array))."""
    ob = I.obj(o)
    n = as_ar(I, X).dims[0]
    k = n if ob.attrs['name'] == 'loo' else ob.attrs['k']
    T._fresh[0] += 1
    ytag = I.src_terms(y) if not is_none(y) else []
    gtag = tuple(sorted(I.srcs(groups))) if not is_none(groups) else ()
    draw = A('split', ob.attrs['name'], 0 if ob.attrs.get('seeded') else T._fresh[0], n, k, ob.attrs.get('reps', 1),
             tuple(I.src_terms(X) + ytag), gtag)

    def fold(f):
        nt = P(A('dimx', 'ntest', draw, f))
        ntr = n - nt
        te = I.new_arr((nt,), P(A('fold', 'test', draw, f, P(bvar(0, nt)))), 'int')
        tr = I.new_arr((ntr,), P(A('fold', 'train', draw, f, P(bvar(0, ntr)))), 'int')
        return tr, te
    return k, draw, fold


T.IV_OPS['fold'] = lambda a: (Fraction(0), None)
T.INT_OPS.update({'fold', 'dimx', 'nuniq'})
T.IV_OPS['nuniq'] = lambda a: (Fraction(1), None)


@method('splitter', 'split')
def _split(I, o, a, kw):
    X, y, g = bind(a, kw, 'X', 'y', 'groups')
    k, draw, fold = split_folds(I, o, X, y, g)
    I.event('split', oid=o.oid, draw=draw, groups=not is_none(g))
    ix = I.new_ix(ZERO, k)
    I.loop_ixs.append(ix)
    try:
        tr, te = fold(P(ix))
    finally:
        I.loop_ixs.pop()
    if k.const() is not None and k.const() <= 6:
        return I.alloc(ListObj([Tup([I.sub_val(tr, {ix: K(j)}), I.sub_val(te, {ix: K(j)})])
                                for j in range(int(k.const()))], site=I.site()))
    return I.alloc(ListObj(None, comp=(ix, k, Tup([tr, te])), site=I.site()))


@method('splitter', 'get_n_splits')
def _nsplits(I, o, a, kw):
    ob = I.obj(o)
    if ob.attrs['name'] == 'loo':
        X = bind(a, kw, 'X', 'y', 'groups')[0]
        return Num(as_ar(I, X).dims[0], 'int')
    return Num(ob.attrs['k'], 'int')


@method('splitter', '.n_repeats')
def _nrepeats(I, o, ob):
    return Num(K(ob.attrs.get('reps', 1)), 'int')


@method('splitter', '.n_splits')
def _nsplits2(I, o, ob):
    return Num(T.scale(ob.attrs['k'], Fraction(1, ob.attrs.get('reps', 1))), 'int')


@ext('sklearn.model_selection.cross_validate')
def _cross_validate(I, a, kw):
    names = ('estimator', 'X', 'y', 'groups', 'scoring', 'cv', 'n_jobs', 'verbose', 'fit_params', 'pre_dispatch')
    est, X, y, groups = bind(a, {k: v for k, v in kw.items() if k in names[:4]}, *names[:4])
    cv = kw.get('cv', NONE)
    if not (isinstance(cv, Ref) and isinstance(I.obj(cv), ExtObj) and I.obj(cv).kind == 'splitter'):
        if isinstance(cv, Ref) and isinstance(I.obj(cv), ListObj):
            return cv_over_list(I, est, X, y, cv, kw)
        cv = EXT['sklearn.model_selection.check_cv'](I, [cv], {})
    vb = kw.get('verbose')
    if isinstance(vb, Num) and I.truth_of(not_(eq(vb.s, ZERO))) is not False:
        I.event('print', what='cross_validate(verbose=%s)' % vb.s, args=())
    k, draw, fold = split_folds(I, cv, X, y, groups)
    return cv_fit(I, est, X, y, k, fold, kw)


def cv_over_list(I, est, X, y, cv, kw):
    kd = M.iterate(I, cv, None)
    if kd[0] == 'items':
        fs = kd[1]
        return cv_fit(I, est, X, y, K(len(fs)), lambda f: tuple(fs[int(f.const())].items), kw)
    _, e, lo, fn = kd
    return cv_fit(I, est, X, y, e, lambda f: tuple(fn(lo + f).items), kw)


def cv_fit(I, est, X, y, k, fold, kw):
    res = {Const('test_score'): Top(T.fresh('scores'))}

    def one(f):
        tr, te = fold(f)
        m = EXT['sklearn.base.clone'](I, [est], {})
        I.call(I.getattr(m, 'fit'), [M.getitem(I, X, tr), M.getitem(I, y, tr)], {})
        return m
    if k.const() is not None and k.const() <= 6:
        lst = I.alloc(ListObj([one(K(j)) for j in range(int(k.const()))], site=I.site()))
    else:
        ix = I.new_ix(ZERO, k)
        I.loop_ixs.append(ix)
        try:
            m = one(P(ix))
        finally:
            I.loop_ixs.pop()
        lst = I.alloc(ListObj(None, comp=(ix, k, m), site=I.site()))
    if const_bool(kw.get('return_estimator', NONE), False):
        res[Const('estimator')] = lst
    if const_bool(kw.get('return_indices', NONE), False):
        pass
    return I.alloc(DictObj(res, site=I.site()))


@ext('sklearn.model_selection.cross_val_predict')
def _cvp(I, a, kw):
    est, X, y = a[:3]
    x = as_ar(I, X)
    m = const_str(kw.get('method', NONE)) or 'predict'
    if m == 'predict':
        return NP.opaque_arr(I, (x.dims[0],), 'cvp', X, y)
    u = NP.uniq_arr(I, as_ar(I, y))
    return NP.opaque_arr(I, (x.dims[0], u.dims[0]), 'cvp', X, y)


# user-supplied callables / opaque user objects --------------------------------------------
@method('usercall', '__call__')
def _uc(I, o, a, kw):
    ob = I.obj(o)
    I.event('usercall', name=ob.attrs.get('name'), args=a, ret=ob.attrs.get('ret'))
    I.user_raises(P(A('bool', T.fresh('userfails'))))
    h = ob.attrs.get('ret')
    if h == 'matrix':
        x, y = as_ar(I, a[0]), as_ar(I, a[1] if len(a) > 1 else a[0])
        base = A('pairdist', 'user:' + ob.attrs['name'], NP.ar_atom(x), NP.ar_atom(y), x.dims[0], y.dims[0])
        return NP.named_arr(I, (x.dims[0], y.dims[0]), base)
    srcs = []
    for v in list(a) + list(kw.values()):
        try:
            x = as_ar(I, v)
            srcs.append(P(NP.ar_atom(x)) if x.dims else x.body)
        except UnkShape:
            srcs += I.src_terms(v)
    if h == 'scalar':
        return Num(P(A('userfun', ob.attrs['name'], tuple(srcs))), 'float')
    return Top(T.fresh('user', *srcs))


# scipy ----------------------------------------------------------------------------------
def dist_fun(name):
    def f(I, a, kw):
        xs = [as_ar(I, v) for v in a]
        ks = sorted(kw)
        xs += [as_ar(I, kw[k]) for k in ks]
        tag = name + ':' + ','.join(ks)
        rng = (Fraction(0), Fraction(1)) if name.endswith('cdf') else None
        if name == 'norm.ppf':
            # (norm.ppf(q, loc, scale) = loc + scale * norm.ppf(q))
            q, loc, scale = bind(a, kw, 'q', 'loc', 'scale')
            xs = [as_ar(I, q)] + [Ar((), dflt) if is_none(v) else as_ar(I, v) for v, dflt in ((loc, ZERO), (scale, ONE))]
            return result(I, AR.ew(I, lambda p, l, c: l + c * P(A('dfun', 'norm.ppf:', (p,))), xs, 'float'))
        return result(I, AR.ew(I, lambda *ps: P(A('cdf' if rng else 'dfun', tag, tuple(ps))), xs, 'float'))
    return f


T.IV_OPS['cdf'] = lambda a: (Fraction(0), Fraction(1))
for _n in ('norm.ppf', 'norm.cdf', 'norm.pdf', 'norm.sf', 'norm.isf'):
    EXT['scipy.stats.' + _n] = dist_fun(_n)


@ext('scipy.stats.norm')
def _norm_frozen(I, a, kw):
    xs = [as_ar(I, v).body for v in a] + [as_ar(I, kw[k]).body for k in sorted(kw)]
    return I.alloc(ExtObj('frozen_norm', {'p': Tup([Num(x) for x in xs])}))


def frozen(name):
    def f(I, o, a, kw):
        p = I.obj(o).attrs['p']
        return dist_fun('norm.' + name)(I, [a[0]] + list(p.items), {})
    return f


for _n in ('ppf', 'cdf', 'pdf'):
    METHODS[('frozen_norm', _n)] = frozen(_n)


@ext('scipy.stats.rankdata')
def _rankdata(I, a, kw):
    x = as_ar(I, a[0])
    d = x.dims
    ax = kw.get('axis', NONE)
    if len(d) > 1 and is_none(ax):
        d = (AR.total_size(d),)
    elif len(d) == 1 and not (set(kw) - {'axis', 'method'}):
        m = a[1] if len(a) > 1 else kw.get('method', Const('average'))
        m = m.v if isinstance(m, Const) else None
        # average rank: those below, and the mean position among the equal ones
        v = A('r', -9950, 0, d[0])
        e = T.subst(x.body, {bvar(0, d[0]): P(v)})
        less, same = T.sum_over(v, d[0], T.lt(e, x.body)), T.sum_over(v, d[0], T.eq(e, x.body))
        body = {'average': less + T.scale(same + 1, Fraction(1, 2)), 'min': less + 1, 'max': less + same}.get(m)
        if body is None:
            return NP.opaque_arr(I, d, 'rankdata', a[0])
        return I.new_arr(d, body, 'float')
    return NP.opaque_arr(I, d, 'rankdata', a[0])


@ext('scipy.stats.gmean', 'scipy.stats.mstats.gmean')
def _gmean(I, a, kw):
    ax = kw.get('axis', a[1] if len(a) > 1 else Num(ZERO, 'int'))
    return AR.reduce_(I, a[0], ax, AR.f_red('gmean'), dtype='float')


@ext('scipy.stats.iqr', 'scipy.stats.entropy', 'scipy.stats.wasserstein_distance', 'scipy.stats.ks_2samp')
def _sstat(I, a, kw):
    return Num(T.fresh('stat', *NP.arr_srcs(I, *a)), 'float')


@ext('scipy.spatial.distance.pdist')
def _pdist(I, a, kw):
    return NP.opaque_arr(I, (T.fresh('len'),), 'pdist', a[0])


@ext('scipy.optimize.minimize', 'scipy.optimize.minimize_scalar')
def _minimize(I, a, kw):
    return Top(T.fresh('optres', *NP.arr_srcs(I, *a)))


# statsmodels ----------------------------------------------------------------------------
@ext('statsmodels.api.GLM', 'statsmodels.genmod.generalized_linear_model.GLM')
def _glm(I, a, kw):
    endog, exog, fam = bind(a, {k: v for k, v in kw.items() if k in ('endog', 'exog', 'family')},
                            'endog', 'exog', 'family')
    same_len(I, endog, exog)
    return I.alloc(ExtObj('statsmodels.GLM', {'endog': endog, 'exog': exog, 'name': 'GLM', 'fitted': ZERO},
                          site=I.site()))


@ext('statsmodels.api.families.Binomial', 'statsmodels.api.families.links.Logit')
def _binom(I, a, kw):
    return Top(T.fresh('family'))


@ext('statsmodels.api.add_constant')
def _addconst(I, a, kw):
    x = as_ar(I, a[0])
    return NP.opaque_arr(I, (x.dims[0], x.dims[1] + 1), 'addconst', a[0])


def glm_fitterm(I, ob):
    e, x = as_ar(I, ob.attrs['endog']), as_ar(I, ob.attrs['exog'])
    return P(A('fit', 'GLM', NP.ar_atom(x), NP.ar_atom(e), ()))


@method('statsmodels.GLM', 'fit')
def _glm_fit(I, o, a, kw):
    ob = I.obj(o)
    e, x = ob.attrs['endog'], ob.attrs['exog']
    I.event('est_fit', oid=o.oid, name='GLM', origin=ob.origin, X=x, y=e, sub=o.sub, fitted=ZERO, internal=True, okind='glm')
    return I.alloc(ExtObj('statsmodels.GLMResults', {'fit': glm_fitterm(I, ob),
                                                     'nfeat': as_ar(I, x).dims[1]}, site=I.site()))


@method('statsmodels.GLMResults', 'predict')
def _glm_pred(I, o, a, kw):
    ob = I.obj(o)
    X = a[0] if a else kw.get('exog', NONE)
    x = as_ar(I, X)
    if len(x.dims) == 2:
        AR.check_dim(I, ob.attrs['nfeat'], x.dims[1], 'GLM predict')
        n = x.dims[0]
    else:
        # a one-dimensional sample is one observation
        n = ONE
    base = A('glmpred', ob.attrs['fit'], NP.ar_atom(x))
    return NP.named_arr(I, (n,), base)


@method('statsmodels.GLM', 'predict')
def _glm_pred0(I, o, a, kw):
    ob = I.obj(o)
    p, X = bind(a, kw, 'params', 'exog')
    x = as_ar(I, X if not is_none(X) else ob.attrs['exog'])
    AR.check_dim(I, as_ar(I, ob.attrs['exog']).dims[1], x.dims[-1], 'GLM predict')
    pa = as_ar(I, p)
    b = pa.body.atom() if len(pa.dims) == 1 else None
    if b is None or b.op != 'at' or b.args[0].op != 'glmparams':
        return NP.opaque_arr(I, x.dims[:-1], 'glmp', *(v for v in a))
    base = A('glmpred', b.args[0].args[0], NP.ar_atom(x))
    if len(x.dims) == 1:
        return Num(T.at(base), 'float')
    return NP.named_arr(I, (x.dims[0],), base)


@method('statsmodels.GLMResults', '.params')
def _glm_params(I, o, ob):
    d = ob.attrs['nfeat']
    return NP.named_arr(I, (d,), A('glmparams', ob.attrs['fit']))


T.CONTRACT_OPS['glmpred'] = lambda b: {'lo': Fraction(0), 'hi': Fraction(1)}


# quadprog -------------------------------------------------------------------------------
@ext('quadprog.solve_qp')
def _solve_qp(I, a, kw):
    G, av, C, b, meq = bind(a, kw, 'G', 'a', 'C', 'b', 'meq')
    Ga, aa = as_ar(I, G), as_ar(I, av)
    if len(Ga.dims) != 2:
        err(I, 'ValueError', 'solve_qp: G must be a matrix')
    AR.check_dim(I, Ga.dims[0], Ga.dims[1], 'solve_qp G')
    n = Ga.dims[0]
    if len(aa.dims) != 1:
        err(I, 'ValueError', 'solve_qp: a must be a vector (got dimension %d)' % len(aa.dims))
    AR.check_dim(I, n, aa.dims[0], 'solve_qp a')
    kind = None
    Ca = ba = None
    m = 0
    if not is_none(meq):
        m = scalar(I, meq).const()
        m = int(m) if m is not None else None
    if not is_none(C):
        Ca, ba = as_ar(I, C), as_ar(I, b)
        AR.check_dim(I, n, Ca.dims[0], 'solve_qp C')
        AR.check_dim(I, Ca.dims[1], ba.dims[0], 'solve_qp b')
        kind = feasible_set(n, Ca, ba, m)
    I.event('solve_qp', G=Ga, a=aa, C=Ca, b=ba, meq=m, n=n, feasible=kind)
    I.may_raise(Exc('ValueError'), P(A('bool', T.fresh('qpfails'))))
    base = A('qp', NP.ar_atom(Ga), NP.ar_atom(aa), NP.ar_atom(Ca) if Ca else 0, NP.ar_atom(ba) if ba else 0, m, n, kind)
    x = NP.named_arr(I, (n,), base)
    return Tup([x] + [Top(T.fresh('qp', *NP.arr_srcs(I, G, av))) for _ in range(5)])


def feasible_set(n, C, b, meq):
    """'simplex' : sum x = 1, x >= 0 ; 'subsimplex' : sum x <= 1, x >= 0 (C^T x >= b)."""
    m = C.dims[1]
    if m is not n + 1:
        return None
    i = P(A('r', -7700, 0, n))
    j = A('r', -7701, 0, n)
    c0 = C.at(i, ZERO)
    b0 = b.at(ZERO)
    ck = C.at(i, P(j) + 1)
    bk = b.at(P(j) + 1)
    ident = eq(i, P(j))
    if ck is not ident or bk.const() != 0:
        # the constraint that closes the sum may come last
        c0, b0 = C.at(i, n), b.at(n)
        ck, bk = C.at(i, P(j)), b.at(P(j))
        if ck is not ident or bk.const() != 0:
            return None
        if meq == 0 and c0.const() == -1 and b0.const() == -1:
            return 'subsimplex'
        return None
    if meq == 1 and c0.const() is not None and c0.const() == b0.const() and c0.const() != 0:
        return 'simplex'
    if meq == 0 and c0.const() == -1 and b0.const() == -1:
        return 'subsimplex'
    return None


def qp_contract(b):
    kind, n = b.args[6], b.args[5]
    if kind == 'simplex':
        return {'lo': Fraction(0), 'hi': Fraction(1), 'simplex': 0, 'dims': (n,)}
    if kind == 'subsimplex':
        return {'lo': Fraction(0), 'hi': Fraction(1), 'sumle1': n}
    return {'lo': None, 'hi': None}


T.CONTRACT_OPS['qp'] = qp_contract


# cvxpy ----------------------------------------------------------------------------------
def cvx_val(I, v):
    if M.is_cvx(I, v):
        o = I.obj(v)
        if 'val' not in o.attrs:
            raise UnkShape()
        return o.attrs['val']
    return v


def cvx_expr(I, val):
    return I.alloc(ExtObj('cvxpy.Expr', {'val': val}, site=I.site()))


def cvx_binop(I, name, a, b):
    return cvx_expr(I, M.binop(I, name, cvx_val(I, a), cvx_val(I, b)))


CMP = {ast.Eq: '==', ast.LtE: '<=', ast.GtE: '>=', ast.Lt: '<=', ast.Gt: '>='}


def cvx_compare(I, op, a, b):
    return I.alloc(ExtObj('cvxpy.Constraint', {'op': CMP.get(type(op), '?'), 'lhs': cvx_val(I, a), 'rhs': cvx_val(I, b)},
                          site=I.site()))


def cvx_fun(I, name, a, kw=None):
    f = EXT['numpy.' + name]
    return cvx_expr(I, f(I, [cvx_val(I, x) for x in a], kw or {}))


for _n in ('sum', 'abs', 'sqrt', 'multiply', 'exp', 'log', 'square', 'max', 'min', 'maximum', 'minimum', 'matmul',
           'reshape', 'hstack', 'vstack', 'trace', 'diag'):
    def _cv(I, a, kw, _n=_n):
        return cvx_fun(I, _n, a, {k: v for k, v in kw.items() if k in ('axis', 'keepdims')})
    EXT['cvxpy.' + _n] = _cv


@ext('cvxpy.sum_squares')
def _cvx_ss(I, a, kw):
    return cvx_expr(I, EXT['numpy.sum'](I, [EXT['numpy.square'](I, [cvx_val(I, a[0])], {})], {}))


def cvx_norm(p):
    def f(I, a, kw):
        q = p
        if q is None:
            o = a[1] if len(a) > 1 else kw.get('p', NONE)
            q = const_str(o) or (int(o.s.const()) if isinstance(o, Num) and o.s.const() is not None else 2)
        v = cvx_val(I, a[0])
        if q == 1:
            return cvx_expr(I, EXT['numpy.sum'](I, [EXT['numpy.abs'](I, [v], {})], {}))
        if q == 2:
            return cvx_expr(I, EXT['numpy.sqrt'](I, [EXT['numpy.sum'](I, [EXT['numpy.square'](I, [v], {})], {})], {}))
        return cvx_expr(I, Num(T.fresh('norm', *NP.arr_srcs(I, v)), 'float'))
    return f


EXT['cvxpy.norm'] = cvx_norm(None)
EXT['cvxpy.norm1'] = cvx_norm(1)
EXT['cvxpy.norm2'] = cvx_norm(2)
EXT['cvxpy.pnorm'] = cvx_norm(None)


def cvx_leaf(kind):
    def f(I, a, kw):
        sh = a[0] if a else kw.get('shape', Tup([]))
        dims = NP.shape_of(I, sh)
        T._fresh[0] += 1
        base = A('cvxleaf', kind, T._fresh[0])
        nn = const_bool(kw.get('nonneg', kw.get('pos', NONE)), False)
        T.CONTRACTS[base] = {'lo': Fraction(0) if nn else None, 'hi': None}
        val = NP.named_arr(I, dims, base) if dims else Num(T.at(base), 'float')
        return I.alloc(ExtObj('cvxpy.' + kind, {'val': val, 'base': base, 'nonneg': nn, 'value': NONE}, site=I.site()))
    return f


EXT['cvxpy.Variable'] = cvx_leaf('Variable')
EXT['cvxpy.Parameter'] = cvx_leaf('Parameter')


def cvx_obj(sense):
    def f(I, a, kw):
        return I.alloc(ExtObj('cvxpy.Objective', {'sense': sense, 'val': cvx_val(I, a[0])}, site=I.site()))
    return f


EXT['cvxpy.Minimize'] = cvx_obj('min')
EXT['cvxpy.Maximize'] = cvx_obj('max')


@ext('cvxpy.Problem')
def _cvx_problem(I, a, kw):
    obj, cons = bind(a, kw, 'objective', 'constraints')
    if is_none(cons):
        cons = I.alloc(ListObj([]))
    T._fresh[0] += 1
    return I.alloc(ExtObj('cvxpy.Problem', {'objective': obj, 'constraints': cons, 'pid': T._fresh[0], 'solved': ZERO,
                                            }, site=I.site()))


def cvx_leaves(I, prob):
    """Variables and parameters reachable from a problem."""
    o = I.obj(prob)
    bodies = []

    def add(v):
        if isinstance(v, Num):
            bodies.append(v.s)
        elif isinstance(v, Ref) and I.is_arr(v):
            bodies.append(I.body(v))
    add(I.obj(o.attrs['objective']).attrs['val'])
    for c in M.concrete_items(I, o.attrs['constraints']) or []:
        if isinstance(c, Ref):
            co = I.obj(c)
            if isinstance(co, ExtObj) and co.kind == 'cvxpy.Constraint':
                add(co.attrs['lhs'])
                add(co.attrs['rhs'])
    bases = []
    for b in bodies:
        for at in T.walk(b):
            if at.op == 'cvxleaf' and at not in bases:
                bases.append(at)
    out = {'Variable': [], 'Parameter': []}
    for oid, ob in I.st.heap.items():
        if isinstance(ob, ExtObj) and ob.kind in ('cvxpy.Variable', 'cvxpy.Parameter') and ob.attrs.get('base') in bases:
            out[ob.kind[6:]].append(Ref(oid))
    for k in out:
        out[k].sort(key=lambda r: I.st.heap[r.oid].attrs['base'].args[1])
    return out


@method('cvxpy.Problem', 'variables')
def _cp_vars(I, o, a, kw):
    return I.alloc(ListObj(cvx_leaves(I, o)['Variable'], site=I.site()))


@method('cvxpy.Problem', 'parameters')
def _cp_params(I, o, a, kw):
    v = I.obj(I.obj(o).attrs['objective']).attrs['val']
    leaves = cvx_leaves(I, o)['Parameter']
    if not leaves and (isinstance(v, Top) or (isinstance(v, Num) and v.s.opaque)):
        return Top(T.fresh('params'))
    return I.alloc(ListObj(leaves, site=I.site()))


def sum_is_one(I, prob, var):
    """Constraints contain sum(var) == 1."""
    o = I.obj(prob)
    vo = I.obj(var)
    val = as_ar(I, vo.attrs['val'])
    if len(val.dims) != 1:
        return False
    r = A('r', -7800, 0, val.dims[0])
    want = T.sum_over(r, val.dims[0], val.at(P(r)))
    for c in M.concrete_items(I, o.attrs['constraints']) or []:
        co = I.obj(c) if isinstance(c, Ref) else None
        if not isinstance(co, ExtObj) or co.kind != 'cvxpy.Constraint' or co.attrs['op'] != '==':
            continue
        try:
            d = scalar(I, co.attrs['lhs']) - scalar(I, co.attrs['rhs'])
        except UnkShape:
            continue
        k = (want - 1)
        if d is k or d is -k:
            return True
        # k * (sum - 1)
        c0 = d.const()
        cst = sum((cc for m, cc in d.terms if not m), Fraction(0))
        if cst != 0 and d is T.scale(k, -cst):
            return True
    return False


def nonneg_var(I, prob, var):
    vo = I.obj(var)
    if vo.attrs.get('nonneg'):
        return True
    o = I.obj(prob)
    val = as_ar(I, vo.attrs['val'])
    for c in M.concrete_items(I, o.attrs['constraints']) or []:
        co = I.obj(c) if isinstance(c, Ref) else None
        if not isinstance(co, ExtObj) or co.kind != 'cvxpy.Constraint':
            continue
        try:
            l, r = as_ar(I, co.attrs['lhs']), as_ar(I, co.attrs['rhs'])
        except UnkShape:
            continue
        if co.attrs['op'] == '>=' and l.body is val.body and r.body.const() is not None and r.body.const() >= 0:
            return True
        if co.attrs['op'] == '<=' and r.body is val.body and l.body.const() is not None and l.body.const() >= 0:
            return True
    return False


@method('cvxpy.Problem', 'solve')
def _cp_solve(I, o, a, kw):
    ob = I.obj(o)
    lv = cvx_leaves(I, o)
    obj = I.obj(ob.attrs['objective'])
    pvals = {}
    for p in lv['Parameter']:
        po = I.obj(p)
        v = po.attrs['value']
        if is_none(v):
            I.event('error', err='ParameterError', msg='a cvxpy parameter has no value when the problem is solved')
            raise RaiseSignal(Exc('AnyError', tag='parameter without value'))
        try:
            val, pv = as_ar(I, po.attrs['val']), as_ar(I, v)
            if len(val.dims) != len(pv.dims):
                err(I, 'ValueError', 'Invalid dimensions %s for Parameter value of dimension %d' % (pv.dims, len(val.dims)))
            for p1, q1 in zip(val.dims, pv.dims):
                AR.check_dim(I, p1, q1, 'cvxpy parameter value')
            pvals[po.attrs['base']] = NP.ar_atom(pv) if pv.dims else A('arr', (), pv.body)
        except UnkShape:
            pvals[po.attrs['base']] = A('top', T.fresh('p', *I.src_terms(v)))
    try:
        ov = scalar(I, obj.attrs['val'])
    except UnkShape:
        ov = T.fresh('objective', *I.src_terms(obj.attrs['val']))
    full = T.subst(ov, pvals) if pvals else ov
    info = []
    for v in lv['Variable']:
        one, nn = sum_is_one(I, o, v), nonneg_var(I, o, v)
        info.append((v, one, nn))
    I.event('cvx_solve', sense=obj.attrs['sense'], objective=ov, full=full, pvals=pvals,
            vars=[(I.obj(v).attrs['base'], as_ar(I, I.obj(v).attrs['val']).dims, one, nn) for v, one, nn in info],
            kw={k: v for k, v in kw.items()}, pid=ob.attrs['pid'])
    I.may_raise(Exc('SolverError'), P(A('bool', T.fresh('solverfails'))))
    deps = tuple(P(A('src', s)) for s in sorted(full.srcs))
    canon = {I.obj(v).attrs['base']: A('cvxvar', k) for k, (v, one, nn) in enumerate(info)}
    for c in canon.values():
        T.CONTRACTS[c] = {'lo': None, 'hi': None}
    cfull = T.subst(full, canon)
    for k, (v, one, nn) in enumerate(info):
        vo = I.obj(v)
        dims = as_ar(I, vo.attrs['val']).dims
        base = A('cvxsol', obj.attrs['sense'], cfull, k, dims, bool(one and nn))
        at = dict(vo.attrs)
        at['value'] = NP.named_arr(I, dims, base) if dims else Num(T.at(base), 'float')
        I.store_obj(v, vo.with_(attrs=at))
    at = dict(I.obj(o).attrs)
    at['solved'] = ONE
    I.store_obj(o, I.obj(o).with_(attrs=at))
    return Num(T.opq('optval', full), 'float')


T.CONTRACT_OPS['cvxsol'] = lambda b: {'lo': Fraction(0), 'hi': Fraction(1), 'simplex': 0, 'dims': b.args[3]} \
    if b.args[4] else {'lo': None, 'hi': None}


@method('cvxpy.Problem', '.value', '.status')
def _cp_value(I, o, ob):
    return Top(T.fresh('status'))


@method('cvxpy.Problem', '.solution')
def _cp_solution(I, o, ob):
    d = {}
    for k, v in enumerate(cvx_leaves(I, o)['Variable']):
        d[Num(K(k), 'int')] = I.obj(v).attrs['value']
    return I.alloc(ExtObj('cvxpy.Solution', {'primal_vars': I.alloc(DictObj(d))}))


@method('cvxpy.Parameter', '.=value')
def _cpar_set(I, o, ob, name, v):
    at = dict(ob.attrs)
    at['value'] = v
    I.store_obj(o, ob.with_(attrs=at))


@method('cvxpy.Variable', '.=value')
def _cvar_set(I, o, ob, name, v):
    return


@method('cvxpy.Variable', '.value')
def _cvar_val(I, o, ob):
    return ob.attrs['value']


@method('cvxpy.Parameter', '.value')
def _cpar_val(I, o, ob):
    return ob.attrs['value']


def cvx_value_of(I, o, ob):
    """Numeric value of an expression: variables replaced by their solutions."""
    val = ob.attrs['val']
    mp = {}
    for oid, x in list(I.st.heap.items()):
        if isinstance(x, ExtObj) and x.kind in ('cvxpy.Variable', 'cvxpy.Parameter'):
            v = x.attrs.get('value')
            if v is not None and not is_none(v):
                try:
                    y = as_ar(I, v)
                    mp[x.attrs['base']] = NP.ar_atom(y) if y.dims else A('arr', (), y.body)
                except UnkShape:
                    pass
    x = as_ar(I, val)
    body = T.subst(x.body, mp)
    if T.has_op(body, 'cvxleaf'):
        return NONE
    return result(I, Ar(x.dims, body, 'float'))


METHODS[('cvxpy.Expr', '.value')] = cvx_value_of


@method('cvxpy.Variable', '__getitem__')
def _cvar_item(I, o, a, kw):
    return cvx_expr(I, M.getitem(I, cvx_val(I, o), a[0]))


METHODS[('cvxpy.Expr', '__getitem__')] = _cvar_item
METHODS[('cvxpy.Parameter', '__getitem__')] = _cvar_item


def _cvx_T(I, o, ob):
    return cvx_expr(I, AR.transpose(I, ob.attrs['val']))


def _cvx_shape(I, o, ob):
    return I.getattr(ob.attrs['val'], 'shape')


for _k in ('Variable', 'Parameter', 'Expr'):
    METHODS[('cvxpy.' + _k, '.T')] = _cvx_T
    METHODS[('cvxpy.' + _k, '.shape')] = _cvx_shape


@ext('cvxpy.installed_solvers')
def _cvx_installed(I, a, kw):
    return Top(T.fresh('solvers'))


# repository classes: inherited external methods ---------------------------------------------
def inst_ext_method(I, obj, name, args, kw):
    o = I.obj(obj)
    if name.endswith('get_params'):
        d = {}
        for p in ctor_params(o.cls):
            d[Const(p)] = I.inst_getattr(obj, p)
        return I.alloc(DictObj(d, site=I.site()))
    if name.endswith('set_params'):
        for k, v in kw.items():
            I.setattr(obj, k, v)
        return obj
    if name.endswith('__repr__'):
        for p in ctor_params(o.cls):
            I.inst_getattr(obj, p)
        return Const('<repr>')
    if name.endswith('.score'):
        I.call(I.getattr(obj, 'predict'), [args[0]], {})
        return Num(T.fresh('score'), 'float')
    if name.endswith('_get_param_names'):
        return I.alloc(ListObj([Const(p) for p in sorted(ctor_params(o.cls))]))
    return Top(T.fresh(name.split('.')[-1], *NP.arr_srcs(I, *args)))


# base quantifiers nothing is known about (qlsa/stubs/quantifiers.py) --------------------------------
def learn_src(I, v):
    if is_none(v):
        return P(A('cst', 'none'))
    return P(NP.ar_atom(as_ar(I, v)))


@ext('qlsa_ext.sparse')
def _mk_sparse(I, a, kw):
    return I.alloc(ExtObj('sparse', {'val': a[0]}, site=I.site()))


@ext('qlsa_ext.learn')
def _learn(I, a, kw):
    X, y, p = a
    I.event('learn', X=X, y=y, P=p)
    t = P(A('fit', 'quantifier', learn_src(I, X), learn_src(I, y), (learn_src(I, p),)))
    return Num(P(A('learned', t)), 'float')


@ext('qlsa_ext.answer')
def _answer(I, a, kw):
    m, X, p, c = a
    I.event('answer', X=X, P=p, model=m)
    base = A('userq', m.s, learn_src(I, X), learn_src(I, p), c.s)
    return NP.named_arr(I, (c.s,), base)


T.CONTRACT_OPS['userq'] = lambda b: {'lo': Fraction(0), 'hi': Fraction(1), 'simplex': 0, 'dims': (b.args[3],)}


# positive definiteness of a symmetric matrix (the repair itself is analysed on its own) -------
def hook_is_pd(I, fv, args, kw):
    v = args[0] if args else list(kw.values())[0]
    try:
        x = as_ar(I, v)
    except UnkShape:
        return None
    if len(x.dims) != 2:
        return None
    AR.check_dim(I, x.dims[0], x.dims[1], 'square matrix')
    return Num(P(A('bool', P(A('posdef', NP.ar_atom(x))))), 'bool')


def hook_nearest_pd(I, fv, args, kw):
    v = args[0] if args else list(kw.values())[0]
    try:
        x = as_ar(I, v)
    except UnkShape:
        return None
    if len(x.dims) != 2:
        return None
    base = A('nearpd', NP.ar_atom(x))
    T.CONTRACTS[base] = {'lo': None, 'hi': None}
    return NP.named_arr(I, x.dims, base)


def install_hooks(I):
    I.hooks['optimization.py:is_pd'] = hook_is_pd
    I.hooks['optimization.py:nearest_pd'] = hook_nearest_pd
