"""Models of Python builtins used by the repository and of numpy."""
import ast
from fractions import Fraction

from . import terms as T
from . import arrays as AR
from . import models as M
from .arrays import Ar, UnkShape, as_ar, err, new, result, bvar
from .models import ext, method, bind, is_none, const_bool, const_str, dtype_of, scalar, EXT, EXT_ATTR, METHODS
from .terms import Atom, S, A, K, P, ZERO, ONE, where, mk, eq, lt, le, not_
from .values import *
from .interp import RaiseSignal

PINF = P(A('inf'))
EXT_ATTR.update({
    'numpy.inf': Num(PINF, 'float'), 'numpy.Inf': Num(PINF, 'float'), 'numpy.infty': Num(PINF, 'float'),
    'numpy.newaxis': NONE, 'numpy.pi': Num(P(A('pi')), 'float'), 'numpy.e': Num(P(A('e')), 'float'),
    'numpy.nan': Num(P(A('nan')), 'float'), 'numpy.NaN': Num(P(A('nan')), 'float'),
    'math.inf': Num(PINF, 'float'), 'math.nan': Num(P(A('nan')), 'float'), 'math.pi': Num(P(A('pi')), 'float'),
})
T.IV_OPS['spacing'] = lambda a: (Fraction(1, 10 ** 30), Fraction(1, 10 ** 6))
T.IV_OPS['pi'] = lambda a: (Fraction(3), Fraction(4))
T.IV_OPS['e'] = lambda a: (Fraction(2), Fraction(3))


def arr_srcs(I, *vs):
    out = []
    for v in vs:
        out += I.src_terms(v)
    return out


def opaque_arr(I, dims, tag, *vs, **kw):
    dims = tuple(dims)
    bs = [P(bvar(k, d)) for k, d in enumerate(dims)]
    return I.new_arr(dims, T.fresh(tag, *(arr_srcs(I, *vs) + bs)), kw.get('dtype', 'float'))


def named_arr(I, dims, base, dtype='float'):
    dims = tuple(dims)
    return I.new_arr(dims, T.at(base, *[P(bvar(k, d)) for k, d in enumerate(dims)]), dtype)


def shape_of(I, v):
    """Shape argument -> tuple of S."""
    if isinstance(v, Num):
        return (v.s,)
    its = M.concrete_items(I, v)
    if its is None:
        raise UnkShape()
    out = []
    for x in its:
        if is_none(x):
            err(I, 'TypeError', 'None used as a dimension')
        out.append(scalar(I, x))
    return tuple(out)


def int_shape(I, dims, v):
    its = [v] if isinstance(v, Num) else (M.concrete_items(I, v) or [])
    for x in its:
        if isinstance(x, Num) and x.typ == 'float' and not T.is_int(x.s):
            err(I, 'TypeError', 'a float used as a dimension')


# ----------------------------------------------------------------------
# builtins
@ext('builtins.len')
def _len(I, a, kw):
    v = a[0]
    if isinstance(v, Tup):
        return Num(K(len(v.items)), 'int')
    if isinstance(v, Ref):
        o = I.obj(v)
        if isinstance(o, ListObj):
            return Num(I.list_len(o), 'int')
        if isinstance(o, ArrObj):
            if o.dims is None:
                return Num(T.opq('len', *I.src_terms(v)), 'int')
            if not o.dims:
                err(I, 'TypeError', 'len() of unsized object')
            return Num(o.dims[0], 'int')
        if isinstance(o, DictObj) and o.unknown is None and not any(isinstance(k, Tup) for k in o.items):
            return Num(K(len(o.items)), 'int')
        if isinstance(o, InstObj):
            m, owner = o.cls.find('__len__')
            if m is None:
                err(I, 'TypeError', 'object of type %s has no len()' % o.cls.name)
            return I.call_fn(Fn(m, owner.module.globals), [v], {})
        return Num(T.opq('len', *I.src_terms(v)), 'int')
    if isinstance(v, RangeV):
        n = AR.range_len(v)
        return Num(T.fresh('len') if n is None else n, 'int')
    if isinstance(v, Const):
        if isinstance(v.v, str):
            return Num(K(len(v.v)), 'int')
        err(I, 'TypeError', 'object of type %s has no len()' % type(v.v).__name__)
    if isinstance(v, Num):
        err(I, 'TypeError', 'object of type scalar has no len()')
    if isinstance(v, (ZipV, EnumV, MapV)):
        err(I, 'TypeError', 'object of type iterator has no len()')
    return Num(T.opq('len', *I.src_terms(v)), 'int')


@ext('builtins.range')
def _range(I, a, kw):
    ss = []
    for x in a:
        if isinstance(x, Num) and x.typ == 'float' and not T.is_int(x.s):
            err(I, 'TypeError', "'float' object cannot be interpreted as an integer")
        if is_none(x):
            err(I, 'TypeError', "'NoneType' object cannot be interpreted as an integer")
        if isinstance(x, Num):
            ss.append(x.s)
        elif isinstance(x, Ref) and I.is_arr(x):
            ss.append(scalar(I, x))
        else:
            ss.append(T.opq('int', *I.src_terms(x)))
    if len(ss) == 1:
        return RangeV(ZERO, ss[0], ONE)
    if len(ss) == 2:
        return RangeV(ss[0], ss[1], ONE)
    return RangeV(*ss)


@ext('builtins.enumerate')
def _enumerate(I, a, kw):
    it, st = bind(a, kw, 'iterable', 'start')
    return EnumV(it, st.s if isinstance(st, Num) else ZERO)


@ext('builtins.zip')
def _zip(I, a, kw):
    return ZipV(a)


@ext('builtins.map')
def _map(I, a, kw):
    return MapV(a[0], a[1:])


@ext('builtins.reversed')
def _reversed(I, a, kw):
    its = M.concrete_items(I, a[0])
    if its is not None:
        return Tup(its[::-1])
    k = M.iterate(I, a[0], None)
    _, ext_, lo, f = k
    ix = I.new_ix(ZERO, ext_)
    return I.alloc(ListObj(None, comp=(ix, ext_, f(lo + ext_ - 1 - P(ix))), site=I.site()))


@ext('builtins.print')
def _print(I, a, kw):
    I.event('print', what='print', args=tuple(a))
    return NONE


def to_list(I, v):
    its = M.concrete_items(I, v)
    if its is not None:
        return I.alloc(ListObj(its, site=I.site()))
    if isinstance(v, Ref) and isinstance(I.obj(v), ListObj):
        o = I.obj(v)
        return I.alloc(ListObj(o.items, comp=o.comp, site=I.site()))
    k = M.iterate(I, v, None)
    if k[0] == 'items':
        return I.alloc(ListObj(k[1], site=I.site()))
    _, ext_, lo, f = k
    ix = I.new_ix(ZERO, ext_)
    I.loop_ixs.append(ix)
    try:
        x = f(lo + P(ix))
    finally:
        I.loop_ixs.pop()
    return I.alloc(ListObj(None, comp=(ix, ext_, x), site=I.site()))


@ext('builtins.list')
def _list(I, a, kw):
    if not a:
        return I.alloc(ListObj([], site=I.site()))
    if isinstance(a[0], Alt):
        return I.on_alt(a[0], lambda x: to_list(I, x))
    return to_list(I, a[0])


@ext('builtins.tuple')
def _tuple(I, a, kw):
    if not a:
        return Tup([])
    its = M.concrete_items(I, a[0])
    if its is not None:
        return Tup(its)
    return to_list(I, a[0])


@ext('builtins.set', 'builtins.frozenset')
def _set(I, a, kw):
    if not a:
        return I.alloc(ListObj([], site=I.site()))
    n = T.fresh('len', *I.src_terms(a[0]))
    ix = I.new_ix(ZERO, n)
    return I.alloc(ListObj(None, comp=(ix, n, Top(T.fresh('elem', *I.src_terms(a[0])))), site=I.site()))


@ext('builtins.dict')
def _dict(I, a, kw):
    d = {}
    unknown = None
    if a:
        if isinstance(a[0], Ref) and isinstance(I.obj(a[0]), DictObj):
            d.update(I.obj(a[0]).items)
            unknown = I.obj(a[0]).unknown
        else:
            r = M.dict_from_pairs(I, a[0])
            if not kw:
                return r
            d.update(I.obj(r).items)
            unknown = I.obj(r).unknown
    for k, v in kw.items():
        d[Const(k)] = v
    return I.alloc(DictObj(d, site=I.site(), unknown=unknown))


@ext('builtins.str', 'builtins.repr', 'builtins.format')
def _str(I, a, kw):
    if a and isinstance(a[0], Const) and isinstance(a[0].v, str):
        return a[0]
    return Const('<str>')


@ext('builtins.int')
def _int(I, a, kw):
    if not a:
        return Num(ZERO, 'int')
    if is_none(a[0]):
        err(I, 'TypeError', 'int() argument None')
    if isinstance(a[0], Const):
        return Num(T.fresh('int'), 'int')
    return Num(T.fun('int', scalar(I, a[0])), 'int')


@ext('builtins.float')
def _float(I, a, kw):
    if is_none(a[0]):
        err(I, 'TypeError', 'float() argument None')
    if isinstance(a[0], Const):
        if isinstance(a[0].v, str):
            if a[0].v in ('inf', 'Infinity'):
                return Num(PINF, 'float')
            if a[0].v == '-inf':
                return Num(-PINF, 'float')
        return Num(T.fresh('float'), 'float')
    return Num(scalar(I, a[0]), 'float')


@ext('builtins.bool', 'numpy.bool_')
def _bool(I, a, kw):
    return Num(I.truth(a[0]) if a else ZERO, 'bool')


@ext('builtins.abs', 'numpy.abs', 'numpy.absolute', 'numpy.fabs', 'math.fabs')
def _abs(I, a, kw):
    if M.is_cvx(I, a[0]):
        from . import ext_models
        return ext_models.cvx_fun(I, 'abs', a)
    if is_none(a[0]):
        err(I, 'TypeError', 'bad operand type for abs(): None')
    x = as_ar(I, a[0])
    return result(I, Ar(x.dims, T.fun('abs', x.body), x.dtype if x.dtype != 'bool' else 'int'))


@ext('builtins.round')
def _round(I, a, kw):
    s = scalar(I, a[0])
    nd = a[1] if len(a) > 1 else kw.get('ndigits', NONE)
    if is_none(nd):
        return Num(T.fun('round', s), 'int')
    return Num(T.fun('round', s, scalar(I, nd)), 'float')


@ext('builtins.divmod')
def _divmod(I, a, kw):
    return Tup([M.binop(I, 'fdiv', a[0], a[1]), M.binop(I, 'mod', a[0], a[1])])


@ext('builtins.pow')
def _pow(I, a, kw):
    return M.binop(I, 'pow', a[0], a[1])


@ext('builtins.sum')
def _bsum(I, a, kw):
    v = a[0]
    start = a[1] if len(a) > 1 else kw.get('start')
    its = M.concrete_items(I, v)
    if its is not None and not I.is_arr(v):
        acc = start if start is not None else Num(ZERO, 'int')
        for x in its:
            acc = M.binop(I, 'add', acc, x)
        return acc
    if isinstance(v, Ref) and isinstance(I.obj(v), ListObj):
        pass
    r = AR.reduce_(I, v, Num(ZERO, 'int'), AR.f_sum, dtype=sum_dtype(I, v))
    if start is not None:
        r = M.binop(I, 'add', start, r)
    return r


def sum_dtype(I, v):
    dt = as_ar(I, v).dtype
    return 'int' if dt == 'bool' else dt


def minmax(name):
    np_name = 'max' if name == 'max' else 'min'

    def f(I, a, kw):
        if len(a) == 1:
            v = a[0]
            its = M.concrete_items(I, v)
            if its is not None and not I.is_arr(v) and all(isinstance(x, Num) for x in its) and its and 'key' not in kw:
                r = its[0].s
                for x in its[1:]:
                    r = T.fun(np_name + '2', r, x.s)
                return Num(r, its[0].typ)
            if 'key' in kw:
                return Top(T.fresh(name, *I.src_terms(v)))
            x = as_ar(I, v)
            if len(x.dims) != 1:
                raise UnkShape()
            return AR.reduce_(I, v, Num(ZERO, 'int'), AR.f_red(np_name))
        if all(isinstance(x, Num) for x in a):
            r = a[0].s
            for x in a[1:]:
                r = T.fun(np_name + '2', r, x.s)
            ty = {x.typ for x in a}
            return Num(r, ty.pop() if len(ty) == 1 else 'any')
        if any(is_none(x) for x in a):
            err(I, 'TypeError', 'ordering comparison with None')
        ss = [scalar(I, x) for x in a]
        r = ss[0]
        for x in ss[1:]:
            r = T.fun(np_name + '2', r, x)
        return Num(r, 'any')
    return f


EXT['builtins.max'] = minmax('max')
EXT['builtins.min'] = minmax('min')


@ext('builtins.sorted')
def _sorted(I, a, kw):
    v = a[0]
    its = M.concrete_items(I, v)
    if its is not None and all(isinstance(x, Num) and x.s.const() is not None for x in its) and not kw:
        return I.alloc(ListObj(sorted(its, key=lambda x: x.s.const()), site=I.site()))
    if its is not None and all(isinstance(x, Const) for x in its) and not kw:
        return I.alloc(ListObj(sorted(its, key=lambda x: str(x.v)), site=I.site()))
    n = K(len(its)) if its is not None else None
    if n is None:
        k = M.iterate(I, v, None)
        n = k[1] if k[0] == 'sym' else K(len(k[1]))
    try:
        x = as_ar(I, v)
        if len(x.dims) == 1 and not kw:
            lam = AR.lam_axis(x, 0)
            ix = I.new_ix(ZERO, n)
            return I.alloc(ListObj(None, comp=(ix, n, Num(T.lam_apply(lam, mk('argsort', lam, P(ix))), x.dtype)),
                                   site=I.site()))
    except UnkShape:
        pass
    ix = I.new_ix(ZERO, n)
    return I.alloc(ListObj(None, comp=(ix, n, Top(T.fresh('sorted', *(I.src_terms(v) + [P(ix)])))), site=I.site()))


@ext('builtins.any', 'builtins.all')
def _any(I, a, kw):
    return anyall(I, 'any', a[0])


@ext('builtins.all')
def _all(I, a, kw):
    return anyall(I, 'all', a[0])


def anyall(I, name, v):
    its = M.concrete_items(I, v)
    if its is not None and not I.is_arr(v):
        r = ZERO if name == 'any' else ONE
        for x in its:
            r = mk('or' if name == 'any' else 'and', r, I.truth(x))
        return Num(r, 'bool')
    if isinstance(v, Ref) and isinstance(I.obj(v), ListObj) and I.obj(v).comp is not None and \
            I.obj(v).comp[0] != 'phi':
        ix, e, t = I.obj(v).comp[:3]
        b = I.truth(t)
        lam = T.lam_vars([ix], [e], b)
        return Num(mk('red', name, lam), 'bool')
    return Num(P(A('bool', T.fresh(name, *I.src_terms(v)))), 'bool')


@ext('builtins.callable')
def _callable(I, a, kw):
    def f(v):
        if isinstance(v, (Fn, Bound, Cls, Ext, ExtBound, Partial)):
            return ONE
        if isinstance(v, Ref):
            o = I.obj(v)
            if isinstance(o, InstObj):
                return ONE if o.cls.find('__call__')[0] is not None else ZERO
            if isinstance(o, ExtObj):
                return ONE if (o.kind, '__call__') in METHODS else ZERO
            return ZERO
        if isinstance(v, Top):
            return P(A('bool', T.opq('callable', v.s)))
        return ZERO
    if isinstance(a[0], Alt):
        return M.alt_bool(I, a[0], f, ast.Is())
    return Num(f(a[0]), 'bool')


INT_TYPES = {'builtins.int', 'numpy.integer', 'numbers.Integral', 'numpy.int64', 'numpy.int32', 'numpy.int_'}
FLOAT_TYPES = {'builtins.float', 'numpy.floating', 'numpy.float64', 'numpy.float32', 'numpy.float_'}
NUM_TYPES = {'numbers.Number', 'numbers.Real', 'numpy.number', 'numbers.Complex'}


def isinst(I, v, t):
    if isinstance(t, Tup):
        r = ZERO
        for x in t.items:
            r = mk('or', r, isinst(I, v, x))
        return r
    if isinstance(v, Top):
        return P(A('bool', T.opq('isinstance:%r' % (t,), v.s)))
    if isinstance(v, Exc) and v.name != 'AnyError' and isinstance(t, (Ext, Cls)):
        from .interp import exc_supers
        return ONE if M.exc_name(I, t) in exc_supers(v.name) + ['object'] else ZERO
    if isinstance(t, Cls):
        if isinstance(v, Ref):
            o = I.obj(v)
            if isinstance(o, InstObj):
                return ONE if o.cls.is_subclass_of(t.ci) else ZERO
            if isinstance(o, ExtObj):
                f = o.attrs.get('isinstance')
                if isinstance(f, dict):
                    pass
                return ZERO
        return ZERO
    if isinstance(t, Ext):
        n = t.name
        s = n.split('.')[-1]
        if isinstance(v, Num):
            if n in NUM_TYPES:
                return ONE
            if v.typ in ('any', 'npfloat'):
                if n in INT_TYPES | FLOAT_TYPES:
                    return P(A('bool', T.opq('isinstance:' + s, v.s)))
                return ZERO
            if n in INT_TYPES:
                return ONE if v.typ in ('int', 'bool') else ZERO
            if n in FLOAT_TYPES:
                return ONE if v.typ == 'float' else ZERO
            if s in ('bool', 'bool_'):
                return ONE if v.typ == 'bool' else ZERO
            if s == 'str':
                return ONE if v.typ == 'str' else ZERO
            return ZERO
        if isinstance(v, Const):
            return ONE if n == 'builtins.str' and isinstance(v.v, str) else (
                ONE if s == 'NoneType' and v.v is None else ZERO)
        if isinstance(v, Tup):
            return ONE if s in ('tuple', 'Sequence', 'Iterable') else ZERO
        if isinstance(v, (Fn, Bound, Partial)):
            return ONE if s in ('FunctionType', 'Callable', 'LambdaType', 'MethodType') else ZERO
        if isinstance(v, Ext):
            if s in ('FunctionType', 'Callable'):
                return P(A('bool', T.fresh('isinstance')))
            return ZERO
        if isinstance(v, Ref):
            o = I.obj(v)
            if isinstance(o, ListObj):
                return ONE if s in ('list', 'Sequence', 'Iterable', 'MutableSequence') else ZERO
            if isinstance(o, DictObj):
                return ONE if s in ('dict', 'Mapping', 'Iterable') else ZERO
            if isinstance(o, ArrObj):
                return ONE if s in ('ndarray', 'Iterable') else ZERO
            if isinstance(o, InstObj):
                bs = {b.split('.')[-1] for b in o.cls.ext_bases()}
                return ONE if s in bs or s == 'object' else ZERO
            if isinstance(o, ExtObj):
                k = o.kind.split('.')[-1]
                if k == s or s == 'object':
                    return ONE
                if o.kind in ('est', 'reg') and s in ('BaseEstimator',):
                    return ONE
                if o.kind == 'rng' and s == 'RandomState':
                    return ONE
                return ZERO
        if isinstance(v, Cls):
            return ONE if s == 'type' else ZERO
    return P(A('bool', T.fresh('isinstance', *I.src_terms(v))))


@ext('builtins.isinstance')
def _isinstance(I, a, kw):
    v, t = a
    if isinstance(v, Alt):
        return M.alt_bool(I, v, lambda x: isinst(I, x, t), ast.Is())
    return Num(isinst(I, v, t), 'bool')


@ext('numpy.issubdtype')
def _issubdtype(I, a, kw):
    d, t = a[0], a[1]
    n = d.name[12:] if isinstance(d, Ext) and d.name.startswith('numpy.dtype:') else None
    t = t.name.split('.')[-1] if isinstance(t, Ext) else None
    known = {'float': ('float', 'floating', 'number', 'inexact', 'float64', 'generic'),
             'npfloat': ('float', 'floating', 'number', 'inexact', 'float64', 'generic'),
             'int': ('int', 'integer', 'number', 'signedinteger', 'int64', 'generic'),
             'bool': ('bool', 'bool_', 'generic'), 'str': ('str', 'str_', 'character', 'flexible', 'generic')}
    if n in known and t is not None:
        return Num(ONE if t in known[n] else ZERO, 'bool')
    return Num(P(A('bool', T.fresh('issubdtype'))), 'bool')


@ext('builtins.issubclass')
def _issubclass(I, a, kw):
    v, t = a
    if isinstance(v, Cls) and isinstance(t, Cls):
        return Num(ONE if v.ci.is_subclass_of(t.ci) else ZERO, 'bool')
    return Num(P(A('bool', T.fresh('issubclass'))), 'bool')


@ext('numbers.Number', 'numbers.Integral')
def _never(I, a, kw):
    return Top(T.fresh('number'))


def has_attr(I, v, n):
    if isinstance(v, Top):
        return P(A('bool', T.opq('hasattr:' + n, v.s)))
    if isinstance(v, Ref):
        o = I.obj(v)
        if isinstance(o, InstObj):
            x = o.attrs.get(n)
            if x is not None:
                if isinstance(x, Undef):
                    return ZERO
                if isinstance(x, Alt):
                    r = ZERO
                    for c, y in reversed(x.alts):
                        r = M.bwhere(I, c, ZERO if isinstance(y, Undef) else ONE, r)
                    return r
                return ONE
            if o.cls.find(n)[0] is not None:
                return ONE
            x = M.ext_inst_attr(I, v, o, n)
            if x is None:
                return ZERO
            return P(A('bool', x.s)) if isinstance(x, Top) else ONE
        if isinstance(o, ExtObj):
            f = METHODS.get((o.kind, '?hasattr'))
            if f is not None:
                r = f(I, v, o, n)
                if r is not None:
                    return r
            if (o.kind, n) in METHODS or (o.kind, '.' + n) in METHODS or n in o.attrs:
                return ONE
            return ZERO
        if isinstance(o, ArrObj):
            return ONE if n in M.ARR_METHODS or n in ('shape', 'ndim', 'size', 'T', 'dtype', '__len__', '__array__',
                                                     '__iter__', 'real') else ZERO
        if isinstance(o, ListObj):
            return ONE if hasattr([], n) else ZERO
        if isinstance(o, DictObj):
            return ONE if hasattr({}, n) else ZERO
    if isinstance(v, Const):
        return ONE if hasattr(v.v, n) else ZERO
    if isinstance(v, Num):
        return ONE if hasattr(1.0, n) else ZERO
    if isinstance(v, Tup):
        return ONE if hasattr((), n) else ZERO
    if isinstance(v, Cls):
        return ONE if v.ci.find(n)[0] is not None else ZERO
    return P(A('bool', T.fresh('hasattr')))


@ext('builtins.hasattr')
def _hasattr(I, a, kw):
    n = const_str(a[1])
    if n is None:
        return Num(P(A('bool', T.fresh('hasattr'))), 'bool')
    if isinstance(a[0], Alt):
        return M.alt_bool(I, a[0], lambda x: has_attr(I, x, n), ast.Is())
    return Num(has_attr(I, a[0], n), 'bool')


@ext('builtins.getattr')
def _getattr(I, a, kw):
    n = const_str(a[1])
    if n is None:
        return Top(T.fresh('getattr', *I.src_terms(a[0])))

    def f(v):
        if len(a) > 2:
            c = has_attr(I, v, n)
            return I.branch([(c, lambda: I.getattr(v, n)), (not_(c), lambda: a[2])])
        return I.getattr(v, n)
    return I.on_alt(a[0], f)


@ext('builtins.setattr')
def _setattr(I, a, kw):
    n = const_str(a[1])
    if n is None:
        I.event('unsupported', what='setattr with computed name')
        return NONE
    I.setattr(a[0], n, a[2])
    return NONE


@ext('builtins.type')
def _type(I, a, kw):
    v = a[0]
    if isinstance(v, Ref):
        o = I.obj(v)
        if isinstance(o, InstObj):
            return Cls(o.cls)
        n = {ArrObj: 'numpy.ndarray', ListObj: 'builtins.list', DictObj: 'builtins.dict'}.get(type(o))
        if n:
            return Ext(n)
    if isinstance(v, Num):
        if v.typ in ('int', 'float', 'bool', 'str'):
            return Ext('builtins.' + v.typ)
    if isinstance(v, Const):
        return Ext('builtins.' + type(v.v).__name__)
    if isinstance(v, Tup):
        return Ext('builtins.tuple')
    if isinstance(v, Exc) and v.name != 'AnyError':
        return Ext({'NotFittedError': 'sklearn.exceptions.', 'LinAlgError': 'numpy.linalg.'}.get(
            v.name, 'user.' if v.name.startswith('User') else 'builtins.') + v.name)
    return Top(T.fresh('type', *I.src_terms(v)))


@ext('builtins.id', 'builtins.hash')
def _id(I, a, kw):
    return Num(T.opq('id', *I.src_terms(a[0])), 'int')


@ext('builtins.object')
def _object(I, a, kw):
    return Top(T.fresh('object'))


@ext('builtins.iter')
def _iter(I, a, kw):
    return a[0]


@ext('builtins.next')
def _next(I, a, kw):
    k = M.iterate(I, a[0], None)
    if k[0] == 'items':
        if k[1]:
            return k[1][0]
        err(I, 'StopIteration', 'next()')
    return k[3](k[2])


@ext('builtins.vars')
def _vars(I, a, kw):
    return I.getattr(a[0], '__dict__')


@ext('builtins.slice')
def _slice(I, a, kw):
    if len(a) == 1:
        return SliceV(NONE, a[0], NONE)
    a = list(a) + [NONE] * (3 - len(a))
    return SliceV(*a)


@ext('builtins.filter')
def _filter(I, a, kw):
    return Top(T.fresh('filter', *I.src_terms(a[1])))


# list methods ---------------------------------------------------------
@method('list', 'append', 'add')
def _l_append(I, o, a, kw):
    M.list_append(I, o, a[0])
    return NONE


@method('list', 'extend', 'update')
def _l_extend(I, o, a, kw):
    M.list_extend(I, o, a[0])
    return NONE


@method('list', 'copy')
def _l_copy(I, o, a, kw):
    return to_list(I, o)


def list_clobber(I, o, what):
    ob = I.obj(o)
    I.event('write', oid=o.oid, origin=ob.origin, what='list ' + what)
    return ob


@method('list', 'reverse')
def _l_reverse(I, o, a, kw):
    ob = list_clobber(I, o, 'reverse')
    if ob.items is not None:
        I.store_obj(o, ob.with_(items=ob.items[::-1]))
    elif ob.comp[0] != 'phi':
        ix, e, t = ob.comp[:3]
        n = I.new_ix(ZERO, e)
        I.store_obj(o, ob.with_(comp=(n, e, I.sub_val(t, {ix: e - 1 - P(n) + ix.args[1]}))))
    return NONE


@method('list', 'sort')
def _l_sort(I, o, a, kw):
    ob = list_clobber(I, o, 'sort')
    n = I.list_len(ob)
    r = EXT['builtins.sorted'](I, [o], kw)
    rb = I.obj(r)
    I.store_obj(o, ob.with_(items=rb.items, comp=rb.comp))
    return NONE


@method('list', 'insert')
def _l_insert(I, o, a, kw):
    ob = list_clobber(I, o, 'insert')
    if ob.items is not None and isinstance(a[0], Num) and a[0].s.const() is not None:
        its = list(ob.items)
        its.insert(int(a[0].s.const()), a[1])
        I.store_obj(o, ob.with_(items=tuple(its)))
    else:
        n = I.list_len(ob) + 1
        I.store_obj(o, ob.with_(items=None, comp=(I.new_ix(ZERO, n), n, Top(T.fresh('elem', *I.src_terms(o))))))
    return NONE


@method('list', 'pop')
def _l_pop(I, o, a, kw):
    ob = list_clobber(I, o, 'pop')
    if ob.items is not None and (not a or (isinstance(a[0], Num) and a[0].s.const() is not None)):
        its = list(ob.items)
        if not its:
            err(I, 'IndexError', 'pop from empty list')
        r = its.pop(int(a[0].s.const()) if a else -1)
        I.store_obj(o, ob.with_(items=tuple(its)))
        return r
    n = I.list_len(ob) - 1
    I.store_obj(o, ob.with_(items=None, comp=(I.new_ix(ZERO, n), n, Top(T.fresh('elem', *I.src_terms(o))))))
    return Top(T.fresh('elem', *I.src_terms(o)))


@method('list', 'remove', 'discard', 'clear')
def _l_remove(I, o, a, kw):
    ob = list_clobber(I, o, 'remove')
    n = T.fresh('len')
    I.store_obj(o, ob.with_(items=None, comp=(I.new_ix(ZERO, n), n, Top(T.fresh('elem', *I.src_terms(o))))))
    return NONE


@method('list', 'index', 'count')
def _l_index(I, o, a, kw, _what=None):
    return Num(T.fresh('index', *(I.src_terms(o) + I.src_terms(a[0]))), 'int')


@method('list', 'index')
def _l_index1(I, o, a, kw):
    ob = I.obj(o)
    if ob.items is not None and len(a) == 1 and isinstance(a[0], Num) and all(isinstance(x, Num) for x in ob.items):
        cs = [eq(a[0].s, x.s) for x in ob.items]
        if not cs or all(c is ZERO for c in cs):
            err(I, 'ValueError', 'is not in list')
        r = K(len(cs) - 1)
        for k in range(len(cs) - 2, -1, -1):
            r = where(cs[k], K(k), r)
        return Num(r, 'int')
    return _l_index(I, o, a, kw)
    return Num(T.fresh('index', *(I.src_terms(o) + I.src_terms(a[0]))), 'int')


@ext('builtins.dict.fromkeys')
def _fromkeys(I, a, kw):
    return M.dict_from_pairs(I, a[0], a[1] if len(a) > 1 else NONE)


# dict methods -----------------------------------------------------------
@method('dict', 'get')
def _d_get(I, o, a, kw):
    ob = I.obj(o)
    dflt = a[1] if len(a) > 1 else NONE
    if a[0] in ob.items:
        return ob.items[a[0]]
    if isinstance(a[0], Const) and ob.unknown is None and all(isinstance(k, Const) for k in ob.items):
        return dflt
    try:
        return M.dict_getitem(I, o, ob, a[0])
    except RaiseSignal:
        return dflt


@method('dict', 'items')
def _d_items(I, o, a, kw):
    ob = I.obj(o)
    if ob.unknown is None and not any(isinstance(k, Tup) for k in ob.items):
        return Tup([Tup([k, v]) for k, v in ob.items.items()])
    for k, v in ob.items.items():
        if isinstance(k, Tup) and len(ob.items) == 1 and len(k.items) == 3:
            ix = k.items[1].s.atom()
            return I.alloc(ListObj(None, comp=(ix, ix.args[2], Tup([k.items[2], v])), site=I.site()))
    return Top(T.fresh('items', *I.src_terms(o)))


@method('dict', 'keys')
def _d_keys(I, o, a, kw):
    ob = I.obj(o)
    if ob.unknown is None and not any(isinstance(k, Tup) for k in ob.items):
        return Tup(list(ob.items))
    dp = M.dict_pairs(I, ob)
    if dp is not None and dp[0] == 'fam':
        return I.alloc(ListObj(None, comp=(dp[1], dp[1].args[2], dp[2]), site=I.site()))
    return Top(T.fresh('keys', *I.src_terms(o)))


@method('dict', 'values')
def _d_values(I, o, a, kw):
    ob = I.obj(o)
    if ob.unknown is None and not any(isinstance(k, Tup) for k in ob.items):
        return Tup(list(ob.items.values()))
    for k, v in ob.items.items():
        if isinstance(k, Tup) and len(ob.items) == 1 and len(k.items) == 3:
            ix = k.items[1].s.atom()
            return I.alloc(ListObj(None, comp=(ix, ix.args[2], v), site=I.site()))
    return Top(T.fresh('values', *I.src_terms(o)))


@method('dict', 'update')
def _d_update(I, o, a, kw):
    ob = I.obj(o)
    I.event('write', oid=o.oid, origin=ob.origin, what='dict update')
    its = dict(ob.items)
    unk = ob.unknown
    if a:
        if isinstance(a[0], Ref) and isinstance(I.obj(a[0]), DictObj):
            its.update(I.obj(a[0]).items)
        else:
            unk = T.fresh('dict', *I.src_terms(a[0]))
    for k, v in kw.items():
        its[Const(k)] = v
    I.store_obj(o, ob.with_(items=its, unknown=unk))
    return NONE


@method('dict', 'copy')
def _d_copy(I, o, a, kw):
    ob = I.obj(o)
    return I.alloc(DictObj(ob.items, site=I.site(), unknown=ob.unknown))


@method('dict', 'pop', 'setdefault')
def _d_pop(I, o, a, kw):
    ob = I.obj(o)
    I.event('write', oid=o.oid, origin=ob.origin, what='dict pop')
    its = dict(ob.items)
    if a[0] in its:
        v = its.pop(a[0])
        I.store_obj(o, ob.with_(items=its))
        return v
    return a[1] if len(a) > 1 else Top(T.fresh('pop', *I.src_terms(o)))


# ----------------------------------------------------------------------
# numpy: construction
def objects(I, n, v):
    """a one-dimensional array of objects"""
    c = n.const()
    if c is not None:
        return I.alloc(ListObj([v] * int(c), nd=True, site=I.site()))
    return I.alloc(ListObj(None, (I.new_ix(ZERO, n), n, v), nd=True, site=I.site()))


def dtype_name(v):
    if isinstance(v, Ext):
        return v.name.split('.')[-1].rstrip('_')
    if isinstance(v, Const) and isinstance(v.v, str):
        return {'O': 'object'}.get(v.v, v.v)
    return None


def const_arr(val):
    def f(I, a, kw):
        sh, dt = bind(a, kw, 'shape', 'dtype')
        if is_none(sh):
            err(I, 'TypeError', 'None used as a shape')
        int_shape(I, None, sh)
        dims = shape_of(I, sh)
        if dtype_name(dt) == 'object' and len(dims) == 1:
            return objects(I, dims[0], NONE if callable(val) else Num(val, 'int'))
        return I.new_arr(dims, val() if callable(val) else val, dtype_of(dt) or 'float')
    return f


EXT['numpy.zeros'] = const_arr(ZERO)
EXT['numpy.ones'] = const_arr(ONE)
EXT['numpy.empty'] = const_arr(lambda: T.fresh('uninit'))


@ext('numpy.full')
def _full(I, a, kw):
    sh, fv, dt = bind(a, kw, 'shape', 'fill_value', 'dtype')
    dims = shape_of(I, sh)
    if is_none(fv):
        return I.new_arr(dims, T.fresh('none'), 'any')
    x = as_ar(I, fv)
    d2, (b, _) = AR.broadcast(I, [x, Ar(dims, ZERO)], 'full')
    return I.new_arr(dims, b, dtype_of(dt) or x.dtype)


def like(val):
    def f(I, a, kw):
        x = as_ar(I, a[0])
        dt = dtype_of(kw.get('dtype', a[1] if len(a) > 1 and val is not None else NONE))
        if val is None:
            fv = as_ar(I, a[1] if len(a) > 1 else kw['fill_value'])
            b = fv.body
            if dt is None and x.dtype == 'int' and fv.dtype == 'float':
                b = T.fun('int', b)
            return I.new_arr(x.dims, b, dt or x.dtype)
        return I.new_arr(x.dims, val, dt or x.dtype)
    return f


EXT['numpy.zeros_like'] = like(ZERO)
EXT['numpy.ones_like'] = like(ONE)
EXT['numpy.full_like'] = like(None)
EXT['numpy.empty_like'] = like(ZERO)


@ext('numpy.eye', 'numpy.identity')
def _eye(I, a, kw):
    n = scalar(I, a[0])
    m = a[1] if len(a) > 1 else kw.get('M', NONE)
    m = n if is_none(m) else scalar(I, m)
    k = kw.get('k', a[2] if len(a) > 2 else NONE)
    k = ZERO if is_none(k) else scalar(I, k)
    return I.new_arr((n, m), eq(P(bvar(0, n)) + k, P(bvar(1, m))), 'float')


@ext('numpy.tri')
def _tri(I, a, kw):
    n, m, k, dt = bind(a, kw, 'N', 'M', 'k', 'dtype')
    n = scalar(I, n)
    m = n if is_none(m) else scalar(I, m)
    k = ZERO if is_none(k) else scalar(I, k)
    return I.new_arr((n, m), le(P(bvar(1, m)), P(bvar(0, n)) + k), dtype_of(dt) or 'float')


def trimat(lower):
    def f(I, a, kw):
        x = as_ar(I, a[0])
        k = kw.get('k', a[1] if len(a) > 1 else NONE)
        k = ZERO if is_none(k) else scalar(I, k)
        if len(x.dims) != 2:
            raise UnkShape()
        i, j = P(bvar(0, x.dims[0])), P(bvar(1, x.dims[1]))
        c = le(j, i + k) if lower else le(i + k, j)
        return I.new_arr(x.dims, where(c, x.body, ZERO), x.dtype)
    return f


EXT['numpy.tril'] = trimat(True)
EXT['numpy.triu'] = trimat(False)


@ext('numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray', 'numpy.asfarray')
def _array(I, a, kw):
    return mk_array(I, a, kw, True)


@ext('numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray')
def _asarray(I, a, kw):
    v = a[0]
    dt = dtype_of(kw.get('dtype', a[1] if len(a) > 1 else NONE))
    if I.is_arr(v) and I.obj(v).dims is not None and (dt is None or dt == I.obj(v).dtype):
        return v
    return mk_array(I, a, kw, True)


def mk_array(I, a, kw, cp):
    v, dt = bind(a, {k: x for k, x in kw.items() if k in ('object', 'dtype')}, 'object', 'dtype')
    dt = dtype_of(dt)
    if isinstance(v, (ZipV, EnumV, MapV, RangeV)) and not isinstance(v, RangeV):
        v = to_list(I, v)
    if is_none(v):
        return I.new_arr((), T.fresh('none'), 'any')
    nd = kw.get('ndmin')
    return AR.copy(I, v, dt)


@ext('numpy.copy')
def _copy(I, a, kw):
    return AR.copy(I, a[0])


@ext('numpy.arange')
def _arange(I, a, kw):
    dt = dtype_of(kw.pop('dtype', NONE)) if 'dtype' in kw else None
    ss = [scalar(I, x) for x in a]
    if len(ss) == 1:
        lo, hi, st = ZERO, ss[0], ONE
    elif len(ss) == 2:
        lo, hi, st = ss[0], ss[1], ONE
    else:
        lo, hi, st = ss[:3]
    if 'stop' in kw:
        hi = scalar(I, kw['stop'])
    ty = 'int' if all(isinstance(x, Num) and x.typ == 'int' for x in a) else 'float'
    n = hi - lo if st is ONE else None
    if n is None:
        if st.const() is not None and lo.const() is not None and hi.const() is not None and st.const() != 0:
            import math
            n = K(max(0, math.ceil((hi.const() - lo.const()) / st.const())))
        else:
            n = T.fdiv(hi - lo + (st - 1), st)
    return I.new_arr((n,), lo + P(bvar(0, n)) * st, dt or ty)


@ext('numpy.linspace')
def _linspace(I, a, kw):
    lo, hi, n = bind(a, {k: v for k, v in kw.items() if k in ('start', 'stop', 'num')}, 'start', 'stop', 'num')
    n = K(50) if is_none(n) else scalar(I, n)
    lo, hi = scalar(I, lo), scalar(I, hi)
    end = const_bool(kw.get('endpoint', NONE), True)
    den = n - 1 if end else n
    return I.new_arr((n,), lo + (hi - lo) * T.div(P(bvar(0, n)), den), 'float')


@ext('numpy.diag')
def _diag(I, a, kw):
    x = as_ar(I, a[0])
    if len(x.dims) == 1:
        n = x.dims[0]
        i, j = P(bvar(0, n)), P(bvar(1, n))
        return I.new_arr((n, n), eq(i, j) * x.body, x.dtype)
    n = x.dims[0]
    return I.new_arr((n,), x.at(P(bvar(0, n)), P(bvar(0, n))), x.dtype)


@ext('numpy.tile')
def _tile(I, a, kw):
    v, reps = bind(a, kw, 'A', 'reps')
    x = as_ar(I, v)
    rs = list(shape_of(I, reps))
    dims = list(x.dims)
    body = x.body
    while len(rs) < len(dims):
        rs.insert(0, ONE)
    if len(dims) < len(rs):
        k = len(rs) - len(dims)
        body = T.subst(body, {bvar(i, d): P(bvar(i + k, d)) for i, d in enumerate(dims)})
        dims = [ONE] * k + dims
    nd = tuple(d * r for d, r in zip(dims, rs))
    mp = {}
    for k, (d, n) in enumerate(zip(dims, nd)):
        if d is n:
            continue
        mp[bvar(k, d)] = ZERO if d is ONE else T.mod(P(bvar(k, n)), d)
    return I.new_arr(nd, T.subst(body, mp), x.dtype)


@ext('numpy.repeat')
def _repeat(I, a, kw):
    v, reps, ax = bind(a, kw, 'a', 'repeats', 'axis')
    x = as_ar(I, v)
    if I.is_arr(reps) or not isinstance(reps, Num):
        its = M.concrete_items(I, reps)
        if not x.dims or is_none(ax) and len(x.dims) == 1 or True:
            n = T.fresh('len')
            dims = list(x.dims) or [n]
            dims[0] = n
            return opaque_arr(I, dims, 'repeat', v, reps, dtype=x.dtype)
    r = scalar(I, reps)
    if not x.dims:
        return I.new_arr((r,), x.body, x.dtype)
    if is_none(ax):
        if len(x.dims) > 1:
            v = AR.reshape(I, v, [AR.total_size(x.dims)])
            x = as_ar(I, v)
        k = 0
    else:
        k = AR.axis_of(I, ax, len(x.dims))[0]
    d = x.dims[k]
    n = d * r
    nd = list(x.dims)
    nd[k] = n
    return I.new_arr(nd, T.subst(x.body, {bvar(k, d): T.fdiv(P(bvar(k, n)), r) if d is not ONE else ZERO}), x.dtype)


def concat(I, arrs, axis):
    n = len(arrs)
    rank = len(arrs[0].dims)
    if rank == 0:
        err(I, 'ValueError', 'zero-dimensional arrays cannot be concatenated')
    if axis < -rank or axis >= rank:
        err(I, 'AxisError', 'axis %d is out of bounds for array of dimension %d' % (axis, rank))
    axis %= rank
    for x in arrs[1:]:
        if len(x.dims) != rank:
            err(I, 'ValueError', 'all the input array dimensions except for the concatenation axis must match exactly')
        for k in range(rank):
            if k != axis:
                AR.check_dim(I, arrs[0].dims[k], x.dims[k], 'concatenation')
    tot = ZERO
    offs = []
    for x in arrs:
        offs.append(tot)
        tot = tot + x.dims[axis]
    nd = list(arrs[0].dims)
    nd[axis] = tot
    b = P(bvar(axis, tot))
    body = None
    for x, o in reversed(list(zip(arrs, offs))):
        mp = {bvar(axis, x.dims[axis]): b - o}
        for k in range(rank):
            if k != axis and x.dims[k] is not nd[k]:
                mp[bvar(k, x.dims[k])] = P(bvar(k, nd[k]))
        xb = T.subst(x.body, mp)
        body = xb if body is None else where(lt(b, o + x.dims[axis]), xb, body)
    dts = {x.dtype for x in arrs}
    return Ar(nd, body, dts.pop() if len(dts) == 1 else ('float' if dts <= {'int', 'float', 'bool'} else 'any'))


def seq_items(I, v):
    its = M.concrete_items(I, v)
    return its


@ext('numpy.concatenate')
def _concatenate(I, a, kw):
    its = seq_items(I, a[0])
    ax = kw.get('axis', a[1] if len(a) > 1 else NONE)
    axis = 0 if is_none(ax) and 'axis' not in kw else (int(scalar(I, ax).const()) if not is_none(ax) else None)
    if its is None:
        return concat_family(I, a[0], axis)
    if axis is None:
        arrs = [as_ar(I, AR.reshape(I, x, [K(-1)])) for x in its]
        axis = 0
    else:
        arrs = [as_ar(I, x) for x in its]
    return new(I, concat(I, arrs, axis))


def concat_family(I, v, axis):
    """np.concatenate of a list whose length is not known: rows of equal blocks."""
    if isinstance(v, Ref) and isinstance(I.obj(v), ListObj):
        o = I.obj(v)
        if o.comp is not None and o.comp[0] != 'phi':
            ix, e, t = o.comp[:3]
            x = as_ar(I, t)
            if axis == 0 and x.dims and ix not in x.dims[0].vars:
                d = x.dims[0]
                n = d * e
                b = P(bvar(0, n))
                mp = {bvar(0, d): T.mod(b, d), ix: T.fdiv(b, d) + ix.args[1]}
                return I.new_arr((n,) + x.dims[1:], T.subst(x.body, mp), x.dtype)
            dims = list(x.dims)
            dims[axis or 0] = T.fresh('len')
            return opaque_arr(I, dims, 'concat', v, dtype=x.dtype)
    raise UnkShape()


@ext('numpy.hstack')
def _hstack(I, a, kw):
    its = seq_items(I, a[0])
    if its is None:
        x = as_ar(I, a[0])
        if len(x.dims) == 1:
            return new(I, x)
        if len(x.dims) == 2:
            return AR.reshape(I, new(I, x), [K(-1)])
        raise UnkShape()
    arrs = [as_ar(I, x) for x in its]
    arrs = [Ar((ONE,), x.body, x.dtype) if not x.dims else x for x in arrs]
    return new(I, concat(I, arrs, 0 if len(arrs[0].dims) == 1 else 1))


@ext('numpy.vstack', 'numpy.row_stack')
def _vstack(I, a, kw):
    its = seq_items(I, a[0])
    if its is None:
        x = as_ar(I, a[0])
        if len(x.dims) == 2:
            return new(I, x)
        return concat_family(I, a[0], 0)
    arrs = []
    for x in its:
        y = as_ar(I, x)
        if len(y.dims) == 1:
            y = Ar((ONE,) + y.dims, T.subst(y.body, {bvar(0, y.dims[0]): P(bvar(1, y.dims[0]))}), y.dtype)
        elif not y.dims:
            y = Ar((ONE, ONE), y.body, y.dtype)
        arrs.append(y)
    return new(I, concat(I, arrs, 0))


@ext('numpy.column_stack')
def _column_stack(I, a, kw):
    its = seq_items(I, a[0])
    if its is None:
        x = as_ar(I, a[0])
        if len(x.dims) == 2:
            return AR.transpose(I, new(I, x))
        raise UnkShape()
    arrs = []
    for x in its:
        y = as_ar(I, x)
        if len(y.dims) == 1:
            y = Ar(y.dims + (ONE,), y.body, y.dtype)
        arrs.append(y)
    return new(I, concat(I, arrs, 1))


@ext('numpy.stack')
def _stack(I, a, kw):
    ax = kw.get('axis', a[1] if len(a) > 1 else NONE)
    x = as_ar(I, a[0])
    k = 0 if is_none(ax) else int(scalar(I, ax).const())
    k %= len(x.dims)
    if k == 0:
        return new(I, x)
    return np_moveaxis(I, new(I, x), 0, k)


def np_moveaxis(I, v, s, d):
    n = len(I.obj(v).dims)
    order = [k for k in range(n) if k != s]
    order.insert(d, s)
    return AR.transpose(I, v, order)


@ext('numpy.append')
def _append(I, a, kw):
    v, w, ax = bind(a, kw, 'arr', 'values', 'axis')
    x, y = as_ar(I, v), as_ar(I, w)
    if is_none(ax):
        xs = []
        for z, q in ((x, v), (y, w)):
            if len(z.dims) == 0:
                z = Ar((ONE,), z.body, z.dtype)
            elif len(z.dims) > 1:
                z = as_ar(I, AR.reshape(I, q, [K(-1)]))
            xs.append(z)
        return new(I, concat(I, xs, 0))
    return new(I, concat(I, [x, y], int(scalar(I, ax).const())))


@ext('numpy.insert')
def _insert(I, a, kw):
    x = as_ar(I, a[0])
    if len(x.dims) != 1:
        raise UnkShape()
    p = scalar(I, a[1])
    v = as_ar(I, a[2])
    if v.dims:
        raise UnkShape()
    n = x.dims[0] + 1
    if p.const() is not None and p.const() < 0:
        p = p + x.dims[0]
    b = P(bvar(0, n))
    body = where(lt(b, p), T.subst(x.body, {bvar(0, x.dims[0]): b}),
                 where(eq(b, p), v.body, T.subst(x.body, {bvar(0, x.dims[0]): b - 1})))
    return I.new_arr((n,), body, x.dtype)


# shapes -----------------------------------------------------------------
@ext('numpy.transpose')
def _transpose(I, a, kw):
    ax = kw.get('axes', a[1] if len(a) > 1 else NONE)
    axes = None
    if not is_none(ax):
        axes = [int(s.const()) for s in shape_of(I, ax)]
    return AR.transpose(I, a[0], axes)


@method('array', 'transpose')
def _m_transpose(I, o, a, kw):
    axes = None
    if a:
        axes = [int(s.const()) for s in shape_of(I, a[0] if len(a) == 1 else Tup(a))]
    return AR.transpose(I, o, axes)


@ext('numpy.squeeze')
def _squeeze(I, a, kw):
    v, ax = bind(a, kw, 'a', 'axis')
    return AR.squeeze(I, v, None if is_none(ax) else int(scalar(I, ax).const()))


@ext('numpy.reshape')
def _reshape(I, a, kw):
    v, sh = bind(a, {k: x for k, x in kw.items() if k in ('a', 'newshape')}, 'a', 'newshape')
    return AR.reshape(I, v, list(shape_of(I, sh)))


@method('array', 'reshape')
def _m_reshape(I, o, a, kw):
    sh = a[0] if len(a) == 1 else Tup(a)
    return AR.reshape(I, o, list(shape_of(I, sh)))


@ext('numpy.ravel')
def _ravel(I, a, kw):
    return AR.reshape(I, a[0], [K(-1)])


@method('array', 'flatten')
def _flatten(I, o, a, kw):
    return AR.copy(I, AR.reshape(I, o, [K(-1)]))


@ext('numpy.expand_dims')
def _expand(I, a, kw):
    x = as_ar(I, a[0])
    k = int(scalar(I, kw.get('axis', a[1] if len(a) > 1 else NONE)).const())
    n = len(x.dims) + 1
    k %= n
    sl = SliceV(NONE, NONE, NONE)
    idx = [sl] * (n - 1)
    idx.insert(k, NONE)
    return M.getitem(I, a[0], Tup(idx))


@ext('numpy.atleast_1d')
def _atleast1(I, a, kw):
    x = as_ar(I, a[0])
    if x.dims:
        return a[0] if I.is_arr(a[0]) else new(I, x)
    return I.new_arr((ONE,), x.body, x.dtype)


@ext('numpy.atleast_2d')
def _atleast2(I, a, kw):
    x = as_ar(I, a[0])
    if len(x.dims) >= 2:
        return a[0] if I.is_arr(a[0]) else new(I, x)
    if len(x.dims) == 1:
        return M.getitem(I, a[0] if I.is_arr(a[0]) else new(I, x), Tup([NONE, SliceV(NONE, NONE, NONE)]))
    return I.new_arr((ONE, ONE), x.body, x.dtype)


@ext('numpy.swapaxes')
def _swapaxes(I, a, kw):
    n = len(as_ar(I, a[0]).dims)
    i, j = [int(scalar(I, x).const()) % n for x in a[1:3]]
    ax = list(range(n))
    ax[i], ax[j] = ax[j], ax[i]
    return AR.transpose(I, a[0], ax)


@ext('numpy.moveaxis')
def _moveaxis(I, a, kw):
    n = len(as_ar(I, a[0]).dims)
    i, j = [int(scalar(I, x).const()) % n for x in a[1:3]]
    return np_moveaxis(I, a[0], i, j)


@ext('numpy.flip', 'numpy.flipud')
def _flip(I, a, kw):
    v = a[0] if I.is_arr(a[0]) else new(I, as_ar(I, a[0]))
    x = as_ar(I, v)
    ax = kw.get('axis', a[1] if len(a) > 1 else NONE)
    axs = range(len(x.dims)) if is_none(ax) else AR.axis_of(I, ax, len(x.dims))
    rev = SliceV(NONE, NONE, Num(K(-1), 'int'))
    sl = SliceV(NONE, NONE, NONE)
    return M.getitem(I, v, Tup([rev if k in axs else sl for k in range(len(x.dims))]))


@ext('numpy.fliplr')
def _fliplr(I, a, kw):
    return _flip(I, a[:1], {'axis': Num(ONE, 'int')})


@ext('numpy.broadcast_to')
def _broadcast_to(I, a, kw):
    x = as_ar(I, a[0])
    dims = shape_of(I, a[1])
    d, (b, _) = AR.broadcast(I, [x, Ar(dims, ZERO)], 'broadcast_to')
    return I.new_arr(d, b, x.dtype)


@ext('numpy.shape')
def _shape(I, a, kw):
    return Tup([Num(d, 'int') for d in as_ar(I, a[0]).dims])


@ext('numpy.ndim')
def _ndim(I, a, kw):
    return Num(K(len(as_ar(I, a[0]).dims)), 'int')


@ext('numpy.size')
def _size(I, a, kw):
    x = as_ar(I, a[0])
    ax = kw.get('axis', a[1] if len(a) > 1 else NONE)
    if is_none(ax):
        return Num(AR.total_size(x.dims), 'int')
    return Num(x.dims[AR.axis_of(I, ax, len(x.dims))[0]], 'int')


# methods of arrays --------------------------------------------------------
@method('array', 'copy')
def _m_copy(I, o, a, kw):
    return AR.copy(I, o)


@method('array', 'astype')
def _m_astype(I, o, a, kw):
    return AR.copy(I, o, dtype_of(a[0] if a else kw.get('dtype', NONE)))


@method('array', 'tolist')
def _m_tolist(I, o, a, kw):
    x = as_ar(I, o)
    if not x.dims:
        return Num(x.body, x.dtype)
    if len(x.dims) == 1:
        return to_list(I, o)
    return to_list(I, o)


@method('array', 'item')
def _m_item(I, o, a, kw):
    if a:
        return M.getitem(I, o, a[0])
    x = as_ar(I, o)
    n = AR.total_size(x.dims)
    if AR.definitely_different(n, ONE):
        err(I, 'ValueError', 'can only convert an array of size 1 to a Python scalar')
    return Num(x.at(*[ZERO] * len(x.dims)), x.dtype)


@method('array', 'fill')
def _m_fill(I, o, a, kw):
    AR.assign_all(I, o, a[0])
    return NONE


@method('array', 'sort')
def _m_sort(I, o, a, kw):
    r = EXT['numpy.sort'](I, [o] + list(a), kw)
    AR.assign_all(I, o, r)
    return NONE


@method('array', 'dot')
def _m_dot(I, o, a, kw):
    return dot(I, o, a[0])


@method('array', 'view')
def _m_view(I, o, a, kw):
    return o


@method('array', 'resize', 'put', 'itemset', 'partition', 'setflags')
def _m_resize(I, o, a, kw):
    AR.write_event(I, o, 'array method')
    return NONE


# elementwise ---------------------------------------------------------------
def ufunc2(op, dtype=None):
    def f(I, a, kw):
        x, y = a[0], a[1]
        out = kw.get('out', a[2] if len(a) > 2 else NONE)
        w = kw.get('where', NONE)
        if M.is_cvx(I, x) or M.is_cvx(I, y):
            return M.binop(I, op, x, y)
        xa, ya = as_ar(I, x), as_ar(I, y)
        if op == 'div':
            dims, (p, q) = AR.broadcast(I, [xa, ya], 'division')
            g = None
            if not is_none(w):
                g = as_ar(I, w)
                _, (g, _) = AR.broadcast(I, [g, Ar(dims, ZERO)], 'where')
                I.event('div', num=p, den=q, dims=dims, scalar=False, guard=g)
            else:
                I.event('div', num=p, den=q, dims=dims, scalar=False)
            r = Ar(dims, T.div(p, q), 'float')
        else:
            r = M.ew_bin(I, op, xa, ya)
        if isinstance(out, Tup):
            out = out.items[0]
        if not is_none(w):
            wa = as_ar(I, w)
            if is_none(out):
                oa = Ar((), T.fresh('uninit'), 'float')
            else:
                oa = as_ar(I, out)
            r = AR.ew(I, where, [wa, r, oa], r.dtype)
        if not is_none(out):
            AR.assign_all(I, out, result(I, r))
            return out
        return result(I, r)
    return f


for _n, _op in (('add', 'add'), ('subtract', 'sub'), ('multiply', 'mul'), ('divide', 'div'), ('true_divide', 'div'),
                ('floor_divide', 'fdiv'), ('mod', 'mod'), ('remainder', 'mod'), ('power', 'pow'), ('float_power', 'pow')):
    EXT['numpy.' + _n] = ufunc2(_op)


def cmpfunc(fn):
    def f(I, a, kw):
        xs = []
        for v in a[:2]:
            if isinstance(v, Const) and isinstance(v.v, str):
                raise UnkShape()
            xs.append(as_ar(I, v))
        return result(I, AR.ew(I, fn, xs, 'bool', 'comparison'))
    return f


EXT['numpy.equal'] = cmpfunc(eq)
EXT['numpy.not_equal'] = cmpfunc(lambda p, q: not_(eq(p, q)))
EXT['numpy.less'] = cmpfunc(lt)
EXT['numpy.less_equal'] = cmpfunc(le)
EXT['numpy.greater'] = cmpfunc(lambda p, q: lt(q, p))
EXT['numpy.greater_equal'] = cmpfunc(lambda p, q: le(q, p))


def tobool(x):
    if x.dtype == 'bool':
        return x
    return Ar(x.dims, not_(eq(x.body, ZERO)), 'bool')


@ext('numpy.logical_and')
def _land(I, a, kw):
    return result(I, AR.ew(I, lambda p, q: mk('and', p, q), [tobool(as_ar(I, x)) for x in a[:2]], 'bool'))


@ext('numpy.logical_or')
def _lor(I, a, kw):
    return result(I, AR.ew(I, lambda p, q: mk('or', p, q), [tobool(as_ar(I, x)) for x in a[:2]], 'bool'))


@ext('numpy.logical_not')
def _lnot(I, a, kw):
    x = tobool(as_ar(I, a[0]))
    return result(I, Ar(x.dims, not_(x.body), 'bool'))


@ext('numpy.maximum', 'numpy.fmax')
def _maximum(I, a, kw):
    return AR.elementwise(I, lambda p, q: T.fun('max2', p, q), a[0], a[1])


@ext('numpy.minimum', 'numpy.fmin')
def _minimum(I, a, kw):
    return AR.elementwise(I, lambda p, q: T.fun('min2', p, q), a[0], a[1])


def unary(name, dtype=None, cvx=None):
    def f(I, a, kw):
        x = as_ar(I, a[0])
        r = Ar(x.dims, T.fun(name, x.body), dtype or x.dtype)
        out = kw.get('out', NONE)
        if not is_none(out):
            AR.assign_all(I, out, result(I, r))
            return out
        return result(I, r)
    return f


for _n in ('sqrt', 'exp', 'log', 'log2', 'log10', 'log1p', 'expm1', 'sin', 'cos', 'tanh'):
    EXT['numpy.' + _n] = unary(_n, 'float')
    EXT['math.' + _n] = unary(_n, 'float')
for _n in ('floor', 'ceil', 'sign', 'trunc', 'rint'):
    EXT['numpy.' + _n] = unary({'rint': 'round'}.get(_n, _n))
for _n in ('floor', 'ceil', 'trunc'):
    EXT['math.' + _n] = unary(_n, 'int')


@ext('numpy.square')
def _square(I, a, kw):
    x = as_ar(I, a[0])
    return result(I, Ar(x.dims, x.body * x.body, x.dtype))


@ext('numpy.negative')
def _negative(I, a, kw):
    x = as_ar(I, a[0])
    return result(I, Ar(x.dims, -x.body, x.dtype))


@ext('numpy.reciprocal')
def _reciprocal(I, a, kw):
    return M.binop(I, 'div', Num(ONE, 'float'), a[0])


@ext('numpy.round', 'numpy.around', 'numpy.round_')
def _np_round(I, a, kw):
    v, d = bind(a, {k: x for k, x in kw.items() if k in ('a', 'decimals')}, 'a', 'decimals')
    x = as_ar(I, v)
    dt = x.dtype
    if is_none(d) or (isinstance(d, Num) and d.s.const() == 0):
        return result(I, Ar(x.dims, T.fun('round', x.body), dt))
    ds = scalar(I, d)
    return result(I, Ar(x.dims, T.fun('round', x.body, ds), dt))


@method('array', 'round')
def _m_round(I, o, a, kw):
    return _np_round(I, [o] + list(a), kw)


@ext('numpy.clip')
def _clip(I, a, kw):
    v, lo, hi = bind(a, {{'min': 'a_min', 'max': 'a_max'}.get(k, k): x for k, x in kw.items()
                         if k in ('a', 'a_min', 'a_max', 'min', 'max')}, 'a', 'a_min', 'a_max')
    out = kw.get('out', a[3] if len(a) > 3 else NONE)
    xs = [as_ar(I, v)]
    if is_none(lo) and is_none(hi):
        err(I, 'ValueError', 'One of max or min must be given')
    if is_none(lo):
        r = AR.ew(I, lambda p, q: T.fun('min2', p, q), [xs[0], as_ar(I, hi)])
    elif is_none(hi):
        r = AR.ew(I, lambda p, q: T.fun('max2', p, q), [xs[0], as_ar(I, lo)])
    else:
        r = AR.ew(I, lambda p, q, s: T.fun('clip', p, q, s), [xs[0], as_ar(I, lo), as_ar(I, hi)])
    r = Ar(r.dims, r.body, 'float' if xs[0].dtype == 'float' else r.dtype)
    if not is_none(out):
        AR.assign_all(I, out, result(I, r))
        return out
    return result(I, r)


@ext('numpy.where')
def _where(I, a, kw):
    if len(a) == 1:
        return EXT['numpy.nonzero'](I, a, kw)
    c, x, y = [as_ar(I, v) for v in a[:3]]
    c = tobool(c)
    dts = {x.dtype, y.dtype}
    dt = dts.pop() if len(dts) == 1 else ('float' if dts <= {'int', 'float', 'bool'} else 'any')
    return result(I, AR.ew(I, where, [c, x, y], dt, 'where'))


@ext('numpy.nonzero', 'numpy.argwhere')
def _nonzero(I, a, kw):
    x = tobool(as_ar(I, a[0]))
    if len(x.dims) != 1:
        raise UnkShape()
    lam = AR.lam_axis(x, 0)
    n = AR.mask_count(lam)
    return Tup([I.new_arr((n,), mk('nth', lam, P(bvar(0, n))), 'int')])


@ext('numpy.flatnonzero')
def _flatnonzero(I, a, kw):
    return _nonzero(I, a, kw).items[0]


@ext('numpy.argwhere')
def _argwhere(I, a, kw):
    r = _nonzero(I, a, kw).items[0]
    x = as_ar(I, r)
    return I.new_arr(x.dims + (ONE,), x.body, 'int')


@ext('numpy.isnan', 'math.isnan')
def _isnan(I, a, kw):
    x = as_ar(I, a[0])
    return result(I, Ar(x.dims, P(A('isnan', x.body)) if x.body.const() is None else ZERO, 'bool'))


@ext('numpy.isinf', 'math.isinf')
def _isinf(I, a, kw):
    x = as_ar(I, a[0])
    return result(I, Ar(x.dims, P(A('bool', T.opq('isinf', x.body))), 'bool'))


@ext('numpy.isfinite', 'math.isfinite')
def _isfinite(I, a, kw):
    x = as_ar(I, a[0])
    return result(I, Ar(x.dims, P(A('bool', T.opq('isfinite', x.body))), 'bool'))


@ext('numpy.isclose')
def _isclose(I, a, kw):
    xs = [as_ar(I, v) for v in a[:2]]
    return result(I, AR.ew(I, lambda p, q: ONE if p is q else P(A('bool', T.opq('isclose', p, q))), xs, 'bool'))


@ext('numpy.allclose')
def _allclose(I, a, kw):
    xs = [as_ar(I, v) for v in a[:2]]
    r = AR.ew(I, lambda p, q: ONE if p is q else P(A('bool', T.opq('isclose', p, q))), xs, 'bool')
    return AR.reduce_(I, result(I, r), NONE, AR.f_red('all'), dtype='bool')


@ext('numpy.nan_to_num')
def _nan_to_num(I, a, kw):
    x = as_ar(I, a[0])
    return result(I, Ar(x.dims, where(P(A('isnan', x.body)), ZERO, x.body) if x.body.const() is None else x.body,
                        x.dtype))


@ext('numpy.real')
def _real(I, a, kw):
    return a[0]


@ext('numpy.nextafter')
def _nextafter(I, a, kw):
    x, y = as_ar(I, a[0]), as_ar(I, a[1])
    dims, (xb, yb) = x.dims or y.dims, (x.body, y.body)
    return result(I, Ar(dims, xb + P(A('spacing', xb)) * (T.lt(xb, yb) - T.lt(yb, xb)), 'float'))


@ext('numpy.spacing')
def _spacing(I, a, kw):
    x = as_ar(I, a[0])
    return result(I, Ar(x.dims, P(A('spacing', x.body)), 'float'))


@ext('numpy.isscalar')
def _isscalar(I, a, kw):
    v = a[0]
    if isinstance(v, Num) or (isinstance(v, Const) and isinstance(v.v, str)):
        return Num(ONE, 'bool')
    if isinstance(v, Top):
        return Num(P(A('bool', T.opq('isscalar', v.s))), 'bool')
    return Num(ZERO, 'bool')


@ext('numpy.iterable')
def _iterable(I, a, kw):
    v = a[0]
    if isinstance(v, Top):
        return Num(P(A('bool', T.opq('iterable', v.s))), 'bool')
    return Num(ONE if isinstance(v, (Ref, Tup, RangeV)) else ZERO, 'bool')


@ext('numpy.isin', 'numpy.in1d')
def _isin(I, a, kw):
    x = as_ar(I, a[0])
    y = as_ar(I, a[1])
    if len(y.dims) != 1:
        raise UnkShape()
    r = A('r', -8200, 0, y.dims[0])
    yb = T.subst(y.body, {bvar(0, y.dims[0]): P(r)})
    b = mk('red', 'any', T.lam_vars([r], [y.dims[0]], eq(x.body, yb)))
    return result(I, Ar(x.dims, b, 'bool'))


# scalar conversions
for _n, _t in (('float64', 'float'), ('float32', 'float'), ('float_', 'float'), ('int64', 'int'), ('int32', 'int'),
               ('int_', 'int'), ('uint32', 'int'), ('uint8', 'int'), ('uint64', 'int'), ('int8', 'int'), ('double', 'float')):
    def _conv(I, a, kw, _t=_t):
        x = as_ar(I, a[0])
        b = x.body
        if _t == 'int':
            b = T.fun('int', b)
        return result(I, Ar(x.dims, b, _t))
    EXT['numpy.' + _n] = _conv


# reductions ------------------------------------------------------------------
def reduction(f, dt=None):
    def g(I, a, kw):
        v = a[0]
        if M.is_cvx(I, v):
            from . import ext_models
            return ext_models.cvx_fun(I, 'sum', a)
        ax = kw.get('axis', a[1] if len(a) > 1 else NONE)
        if isinstance(v, (ZipV, EnumV, MapV)):
            v = to_list(I, v)
        kd = const_bool(kw.get('keepdims', NONE), False)
        d = dt
        if d == 'sum':
            d = sum_dtype(I, v)
        if dtype_of(kw.get('dtype', NONE)):
            d = dtype_of(kw['dtype'])
        out = kw.get('out', NONE)
        r = AR.reduce_(I, v, ax, f, kd, d)
        if not is_none(out):
            AR.assign_all(I, out, r)
            return out
        return r
    return g


def f_std(rv, dims, body):
    lam = T.lam_vars(rv, dims, body)
    return mk('red', 'std', lam)


def f_count(rv, dims, body):
    return AR.f_sum(rv, dims, body)


EXT['numpy.sum'] = reduction(AR.f_sum, 'sum')
EXT['numpy.nansum'] = reduction(AR.f_sum, 'sum')
EXT['numpy.mean'] = reduction(AR.f_mean, 'float')
EXT['numpy.nanmean'] = reduction(AR.f_red('nanmean'), 'float')
EXT['numpy.max'] = EXT['numpy.amax'] = EXT['numpy.nanmax'] = reduction(AR.f_red('max'))
EXT['numpy.min'] = EXT['numpy.amin'] = EXT['numpy.nanmin'] = reduction(AR.f_red('min'))
EXT['numpy.median'] = reduction(AR.f_red('median'), 'float')
EXT['numpy.nanmedian'] = reduction(AR.f_red('median'), 'float')
EXT['numpy.std'] = reduction(AR.f_red('std'), 'float')
EXT['numpy.var'] = reduction(AR.f_red('var'), 'float')
EXT['numpy.prod'] = reduction(AR.f_red('prod'))
EXT['numpy.ptp'] = reduction(lambda rv, d, b: AR.f_red('max')(rv, d, b) - AR.f_red('min')(rv, d, b))
EXT['numpy.argmax'] = reduction(AR.f_arg('argmax'), 'int')
EXT['numpy.argmin'] = reduction(AR.f_arg('argmin'), 'int')


@ext('numpy.any')
def _np_any(I, a, kw):
    x = tobool(as_ar(I, a[0]))
    return AR.reduce_(I, result(I, x), kw.get('axis', a[1] if len(a) > 1 else NONE), AR.f_red('any'), dtype='bool')


@ext('numpy.all')
def _np_all(I, a, kw):
    x = tobool(as_ar(I, a[0]))
    return AR.reduce_(I, result(I, x), kw.get('axis', a[1] if len(a) > 1 else NONE), AR.f_red('all'), dtype='bool')


@ext('numpy.count_nonzero')
def _count_nonzero(I, a, kw):
    x = tobool(as_ar(I, a[0]))
    return AR.reduce_(I, result(I, x), kw.get('axis', a[1] if len(a) > 1 else NONE), AR.f_sum, dtype='int')


@ext('numpy.average')
def _average(I, a, kw):
    v, ax, w = bind(a, {k: x for k, x in kw.items() if k in ('a', 'axis', 'weights')}, 'a', 'axis', 'weights')
    if is_none(w):
        return EXT['numpy.mean'](I, [v, ax], {})
    x, y = as_ar(I, v), as_ar(I, w)
    if len(x.dims) == len(y.dims):
        num = AR.reduce_(I, M.binop(I, 'mul', v, w), ax, AR.f_sum, dtype='float')
        den = AR.reduce_(I, w, ax, AR.f_sum, dtype='float')
    elif len(y.dims) == 1 and not is_none(ax):
        k = AR.axis_of(I, ax, len(x.dims))[0]
        AR.check_dim(I, x.dims[k], y.dims[0], 'average weights')
        wb = T.subst(y.body, {bvar(0, y.dims[0]): P(bvar(k, x.dims[k]))})
        num = AR.reduce_(I, new(I, Ar(x.dims, x.body * wb, 'float')), ax, AR.f_sum, dtype='float')
        den = AR.reduce_(I, w, NONE, AR.f_sum, dtype='float')
    else:
        err(I, 'TypeError', 'Axis must be specified when shapes of a and weights differ.')
    return M.binop(I, 'div', num, den)


@ext('numpy.percentile', 'numpy.quantile', 'numpy.nanpercentile')
def _percentile(I, a, kw):
    v, q, ax = bind(a, {k: x for k, x in kw.items() if k in ('a', 'q', 'axis')}, 'a', 'q', 'axis')
    x = as_ar(I, v)
    y = as_ar(I, q)
    axs = AR.axis_of(I, ax, len(x.dims))
    keep = [d for k, d in enumerate(x.dims) if axs is not None and k not in axs]
    if not y.dims and not keep:
        return Num(T.fresh('pct', *arr_srcs(I, v, q)), 'float')
    return opaque_arr(I, list(y.dims) + keep, 'pct', v, q)


def cum(name):
    def f(I, a, kw):
        v = a[0]
        ax = kw.get('axis', a[1] if len(a) > 1 else NONE)
        x = as_ar(I, v)
        axs = AR.axis_of(I, ax, len(x.dims))
        if axs is None:
            if len(x.dims) != 1:
                v = AR.reshape(I, v, [K(-1)])
                x = as_ar(I, v)
            k = 0
        else:
            k = axs[0]
        lam = AR.lam_axis(x, k)
        body = mk('csum', lam, P(bvar(k, x.dims[k]))) if name == 'sum' else \
            T.opq('cumprod', P(A('red', 'prod', lam)), P(bvar(k, x.dims[k])))
        return I.new_arr(x.dims, body, x.dtype if x.dtype != 'bool' else 'int')
    return f


EXT['numpy.cumsum'] = cum('sum')
EXT['numpy.cumprod'] = cum('prod')


@ext('numpy.diff')
def _diff(I, a, kw):
    x = as_ar(I, a[0])
    ax = kw.get('axis', NONE)
    k = len(x.dims) - 1 if is_none(ax) else AR.axis_of(I, ax, len(x.dims))[0]
    d = x.dims[k]
    n = d - 1
    nd = list(x.dims)
    nd[k] = n
    b = P(bvar(k, n))
    return I.new_arr(nd, T.subst(x.body, {bvar(k, d): b + 1}) - T.subst(x.body, {bvar(k, d): b}), x.dtype)


@ext('numpy.sort')
def _sort(I, a, kw):
    x = as_ar(I, a[0])
    ax = kw.get('axis', a[1] if len(a) > 1 else NONE)
    k = len(x.dims) - 1 if is_none(ax) else AR.axis_of(I, ax, len(x.dims))[0]
    lam = AR.lam_axis(x, k)
    return I.new_arr(x.dims, T.lam_apply(lam, mk('argsort', lam, P(bvar(k, x.dims[k])))), x.dtype)


@ext('numpy.argsort')
def _argsort(I, a, kw):
    x = as_ar(I, a[0])
    ax = kw.get('axis', a[1] if len(a) > 1 else NONE)
    k = len(x.dims) - 1 if is_none(ax) else AR.axis_of(I, ax, len(x.dims))[0]
    lam = AR.lam_axis(x, k)
    return I.new_arr(x.dims, mk('argsort', lam, P(bvar(k, x.dims[k]))), 'int')


@ext('numpy.lexsort')
def _lexsort(I, a, kw):
    its = M.concrete_items(I, a[0])
    x = as_ar(I, its[-1] if its else a[0])
    d = x.dims[-1]
    return opaque_arr(I, [d], 'lexsort', a[0], dtype='int')


@ext('numpy.argpartition')
def _argpartition(I, a, kw):
    x = as_ar(I, a[0])
    return opaque_arr(I, x.dims, 'argpartition', a[0], dtype='int')


# unique -------------------------------------------------------------------------
def leaf_consts(s, seen=None):
    """Constant values of a term that takes finitely many constant values, or None."""
    c = s.const()
    if c is not None:
        return {c}
    a = s.atom()
    if a is not None and a.op == 'where':
        x, y = leaf_consts(a.args[1]), leaf_consts(a.args[2])
        return None if x is None or y is None else x | y
    if a is not None and a.op in T.BOOLOPS:
        return {Fraction(0), Fraction(1)}
    r = exclusive_values(s)
    if r is not None:
        return r
    if len(s.terms) <= 2:
        # k + c*bool
        r = {Fraction(0)}
        for m, c in s.terms:
            if not m:
                r = {v + c for v in r}
            elif len(m) == 1 and m[0][1] == 1 and m[0][0].op in T.BOOLOPS:
                r = r | {v + c for v in r}
            else:
                return None
        return r
    return None


def full_cover_base(x):
    """Base array atom when the 1-D array x runs over every element of it (possibly repeated)."""
    a = x.body.atom()
    if a is None or a.op != 'at' or len(a.args[1]) != 1:
        return None
    b = P(bvar(0, x.dims[0]))
    i = a.args[1][0]
    if i is b:
        return a.args[0]
    ia = i.atom()
    if ia is not None and ia.op in ('mod', 'fdiv') and ia.args[0] is b:
        return a.args[0]
    return None


def uniq_base(I, x):
    fb = full_cover_base(x)
    if fb is not None:
        return fb
    return A('arr', x.dims, x.body)


def uniq_arr(I, x):
    """(dims, body, dtype) of the sorted distinct values."""
    cs = leaf_consts(x.body)
    if cs is not None and (len(cs) == 2 or x.body.const() is None):
        vals = sorted(cs)
        n = K(len(vals))
        b = P(bvar(0, n))
        body = K(vals[-1])
        for k in range(len(vals) - 2, -1, -1):
            body = where(eq(b, K(k)), K(vals[k]), body)
        if vals == [0, 1]:
            body = b
        return Ar((n,), body, 'int' if x.dtype == 'bool' else x.dtype)
    base = uniq_base(I, x)
    ua = A('uniq', base)
    c = T.CONTRACTS.get(ua)
    if c is None:
        f = getattr(I, 'uniq_dims', {}).get(base)
        if f is None:
            lab = label_family(x.body)
            name = 'uniq(%s)' % (ua.id,)
            srcs = sorted(x.body.srcs)
            dim = P(A('nuniq', ua))
            T.CONTRACTS[ua] = c = {'labels': lab, 'dims': None, 'ndim': dim}
        else:
            T.CONTRACTS[ua] = c = {'labels': f[0], 'dims': (f[1],), 'ndim': f[1]}
    d = c.get('ndim') or c['dims'][0]
    return Ar((d,), T.at(ua, P(bvar(0, d))), x.dtype)


def label_family(body):
    a = body.atom()
    if a is not None and a.op == 'at':
        c = T.contract(a)
        if c:
            return c.get('label_of')
    return None


def label_eq(a):
    """(subject, label array, position) when the atom says that something equals one of several distinct labels"""
    if a.op != 'eq':
        return None
    for x, y in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
        x = x.atom() if isinstance(x, S) else x
        if x is not None and x.op == 'at' and isinstance(x.args[0], Atom) and len(x.args[1]) == 1 and \
                (x.args[0].op == 'uniq' or (T.contract(x) or {}).get('labels')):
            return y, x.args[0], x.args[1][0]
    return None


def exclusive_values(s):
    """values of k + sum of c_i [x is label i], for distinct labels (also summed over a range of labels)"""
    k, out, seen, subj = Fraction(0), set(), set(), None
    for m, c in s.terms:
        if not m:
            k = c
            continue
        if len(m) != 1 or m[0][1] != 1:
            return None
        a = m[0][0]
        if a.op == 'sum':
            lam = a.args[0].atom() if isinstance(a.args[0], S) else a.args[0]
            if lam is None or lam.op != 'lam' or len(s.terms) > 2:
                return None
            b = lam.args[2].atom() if isinstance(lam.args[2], S) else None
            e = label_eq(b) if b is not None else None
            if e is None:
                return None
            p = e[2].atom() if isinstance(e[2], S) else None
            if p is None or p.op != 'r' or p in e[0].vars:
                return None
            out.add(c)
            continue
        e = label_eq(a)
        if e is None or subj is not None and (e[0], e[1]) != subj or e[2].const() is None or e[2] in seen:
            return None
        subj = (e[0], e[1])
        seen.add(e[2])
        out.add(c)
    if not out:
        return None
    return {k} | {k + c for c in out}


@ext('numpy.unique')
def _unique(I, a, kw):
    v = a[0]
    x = as_ar(I, v)
    if len(x.dims) != 1:
        if x.dims:
            v = AR.reshape(I, v, [K(-1)])
            x = as_ar(I, v)
        else:
            x = Ar((ONE,), x.body, x.dtype)
    u = uniq_arr(I, x)
    out = [new(I, u)]
    names = ['return_index', 'return_inverse', 'return_counts']
    flags = [const_bool(kw.get(n, a[k + 1] if len(a) > k + 1 else NONE), False) for k, n in enumerate(names)]
    n = x.dims[0]
    if flags[0]:
        out.append(opaque_arr(I, u.dims, 'uidx', v, dtype='int'))
    if flags[1]:
        r = A('r', -8300, 0, u.dims[0])
        ub = T.subst(u.body, {bvar(0, u.dims[0]): P(r)})
        lam = T.lam_vars([r], [u.dims[0]], eq(x.body, ub))
        out.append(I.new_arr((n,), mk('nth', lam, ZERO), 'int'))
    if flags[2]:
        r = A('r', -8400, 0, n)
        xb = T.subst(x.body, {bvar(0, n): P(r)})
        # result index is b0 over the classes
        ub = u.body
        cnt = T.sum_over(r, n, eq(xb, ub))
        out.append(I.new_arr(u.dims, cnt, 'int'))
    if len(out) == 1:
        return out[0]
    return Tup(out)


@ext('numpy.setdiff1d', 'numpy.intersect1d', 'numpy.union1d')
def _setops(I, a, kw):
    x, y = as_ar(I, a[0]), as_ar(I, a[1])
    n = T.fresh('len', *arr_srcs(I, a[0], a[1]))
    return opaque_arr(I, [n], 'setop', a[0], a[1], dtype=x.dtype)


def small_elems(x):
    if len(x.dims) > 1:
        return None
    if not x.dims:
        return [x.body]
    n = x.dims[0].const()
    if n is None or n > 8:
        return None
    return [T.subst(x.body, {bvar(0, x.dims[0]): K(j)}) for j in range(int(n))]


def label_pos(s):
    """sort key of a constant or of a label at a constant position"""
    c = s.const()
    if c is not None:
        return ('', c)
    a = s.atom()
    if a is not None and a.op == 'at' and isinstance(a.args[0], Atom) and len(a.args[1]) == 1 and \
            a.args[1][0].const() is not None and (a.args[0].op == 'uniq' or (T.contract(a) or {}).get('labels')):
        return (a.args[0].id, a.args[1][0].const())
    return None


def small_setdiff(I, x, y):
    """difference of short arrays of constants or of labels at constant positions"""
    p, q = small_elems(x), small_elems(y)
    if p is None or q is None:
        return None
    kp, kq = [label_pos(v) for v in p], [label_pos(v) for v in q]
    if None in kp or None in kq or len({k[0] for k in kp + kq}) > 1:
        return None
    keep = {k: v for k, v in zip(kp, p) if k not in kq}
    if not keep:
        return I.new_arr((ZERO,), ZERO, x.dtype)
    return result(I, AR.stack(I, [Ar((), keep[k], x.dtype) for k in sorted(keep)]))


@ext('numpy.setdiff1d')
def _setdiff(I, a, kw):
    x, y = as_ar(I, a[0]), as_ar(I, a[1])
    r = small_setdiff(I, x, y)
    if r is not None:
        return r
    # all labels but one
    n = T.fresh('len', *arr_srcs(I, a[0], a[1]))
    if len(x.dims) == 1 and not y.dims:
        n = x.dims[0] - 1
    if len(x.dims) == 1 and len(y.dims) <= 1:
        if y.dims:
            r = A('r', -8500, 0, y.dims[0])
            yb = T.subst(y.body, {bvar(0, y.dims[0]): P(r)})
            c = mk('red', 'any', T.lam_vars([r], [y.dims[0]], eq(x.body, yb)))
        else:
            c = eq(x.body, y.body)
        lam = AR.lam_axis(Ar(x.dims, not_(c), 'bool'), 0)
        if y.dims or True:
            m = AR.mask_count(lam)
            return I.new_arr((m,), T.subst(x.body, {bvar(0, x.dims[0]): mk('nth', lam, P(bvar(0, m)))}), x.dtype)
    return opaque_arr(I, [n], 'setdiff', a[0], a[1], dtype=x.dtype)


# histograms ------------------------------------------------------------------------
def hist_contract(base):
    xa, ea, nb = base.args[:3]
    c = {'lo': Fraction(0), 'hi': None, 'int': True}
    return c


T.CONTRACT_OPS['hist'] = hist_contract
T.CONTRACT_OPS['uniq'] = lambda base: None


def edge_leaves(s, depth=0):
    """Alternatives of an edge value (a term that is a tree of cases at top level)."""
    a = s.atom()
    if a is not None and a.op == 'where' and depth < 8:
        return edge_leaves(a.args[1], depth + 1) + edge_leaves(a.args[2], depth + 1)
    for m, c in s.terms:
        for b, e in m:
            if b.op == 'where' and depth < 3 and len(s.terms) < 4:
                return edge_leaves(T.subst(s, {b: b.args[1]}), depth + 1) + edge_leaves(T.subst(s, {b: b.args[2]}), depth + 1)
    return [s]


def edge_status(edge, x, lower):
    """True: the edge lies beyond every value of x.  False: some admissible value of x lies beyond it.  None: unknown."""
    xl, xh = T.iv(x)
    bound = xl if lower else xh
    xa = x.atom()
    raw = xa is not None and xa.op == 'at' and xa.args[0].op == 'src'      # an input, of any value in its range
    out = True
    for leaf in edge_leaves(edge):
        leaf = quantile_ends(leaf)
        if ((-leaf) if lower else leaf).atom() is A('inf') or infinite(leaf, lower):
            continue
        el, eh = T.iv(leaf)
        if bound is not None and ((eh is not None and eh <= bound) if lower else (el is not None and el >= bound)):
            continue
        if leaf.opaque or not raw or T.has_op(leaf, 'inf', 'dfun', 'fun', 'userfun', 'cdf', 'where', 'hist', 'ext'):
            r = None
        elif leaf.const() is not None:
            # (a finite constant strictly inside the range of the values)
            r = False
        elif not (names_of(leaf) & names_of(x)):
            r = False       # computed from another sample
        else:
            r = None
        if r is False:
            return False
        if r is None:
            out = None
    return out


def quantile_ends(s):
    """s with the quantiles of the normal distribution at 0 and 1 written as infinities."""
    m = {}
    for a in T.walk(s):
        if a.op == 'dfun' and a.args[0] == 'norm.ppf:' and a.args[1][0].const() in (0, 1):
            m[a] = P(A('inf')) * (1 if a.args[1][0].const() == 1 else -1)
    return T.subst(s, m) if m else s


def infinite(s, lower):
    """Is s plus (minus, if lower) infinity, all the multiples of infinity in it having one sign?"""
    inf, n = A('inf'), 0
    for m, c in s.terms:
        k = dict(m)
        if inf in k:
            if k[inf] != 1:
                return False
            co = K(c)
            for a, e in m:
                if a is not inf:
                    co = co * T.power(P(a), e) if e > 0 else T.div(co, T.power(P(a), -e))
            if lower:
                co = -co
            lo = T.iv(co)[0]
            if lo is None or lo < 0:
                return False
            n += 1
    return n > 0


def names_of(s):
    return {n for n in s.srcs if n[:1] in 'XPTQ'}


def edges_cover(first, last, xbody):
    return edge_status(first, xbody, True), edge_status(last, xbody, False)


def _hist_sum_rule(var, dim, a):
    if a.op == 'at' and a.args[0].op == 'hist' and len(a.args[1]) == 1 and a.args[1][0].atom() is var:
        h = a.args[0]
        xa, n, ea, nb, cover = h.args[0], h.args[1], h.args[2], h.args[3], h.args[4]
        if nb is dim and cover == 'all':
            return n
    return None


T.SUM_RULES.append(_hist_sum_rule)


def ar_atom(x):
    """Canonical atom of an array value."""
    a = x.body.atom()
    if a is not None and a.op == 'at' and len(a.args[1]) == len(x.dims) and \
            all(i.atom() is bvar(k, d) for k, (i, d) in enumerate(zip(a.args[1], x.dims))):
        return a.args[0]
    return A('arr', x.dims, x.body)


@ext('numpy.histogram')
def _histogram(I, a, kw):
    v, bins, rng, dens, w = bind(a, kw, 'a', 'bins', 'range', 'density', 'weights')
    x = as_ar(I, v)
    if len(x.dims) != 1:
        if not x.dims:
            x = Ar((ONE,), x.body, x.dtype)
        else:
            v = AR.reshape(I, v, [K(-1)])
            x = as_ar(I, v)
    n = x.dims[0]
    if isinstance(bins, Const) and isinstance(bins.v, str):
        k = T.fresh('nbins', *arr_srcs(I, v))
        return Tup([opaque_arr(I, [k], 'hist', v, dtype='int'), opaque_arr(I, [k + 1], 'edges', v)])
    if is_none(bins):
        bins = Num(K(10), 'int')
    if isinstance(bins, Num):
        nb = bins.s
        edges = hist_edges(I, v, x, nb, rng)
    else:
        edges = as_ar(I, bins)
        if len(edges.dims) != 1:
            err(I, 'ValueError', 'bins must be 1d, when an array')
        nb = edges.dims[0] - 1
    first, last = edges.at(ZERO), edges.at(edges.dims[0] - 1)
    okl, okh = edges_cover(first, last, x.body)
    I.event('hist', x=x, edges=edges, cover=(okl, okh), first=first, last=last, facts=tuple(I.st.facts.items()))
    cover = 'all' if okl and okh else 'part'
    if not is_none(w):
        h = opaque_arr(I, [nb], 'hist', v, w, bins)
    else:
        base = A('hist', ar_atom(x), n, ar_atom(edges), nb, cover)
        body = T.at(base, P(bvar(0, nb)))
        if const_bool(dens, False):
            h = I.new_arr((nb,), T.fresh('density', body, P(bvar(0, nb))), 'float')
        else:
            h = I.new_arr((nb,), body, 'int')
    return Tup([h, new(I, edges)])


def hist_edges(I, v, x, nb, rng):
    ne = nb + 1
    b = P(bvar(0, ne))
    if not is_none(rng):
        its = M.concrete_items(I, rng)
        if its and len(its) == 2:
            lo, hi = scalar(I, its[0]), scalar(I, its[1])
            return Ar((ne,), lo + (hi - lo) * T.div(b, nb), 'float')
        raise UnkShape()
    lo, hi = AR.f_red('min'), AR.f_red('max')
    lo = scalar(I, AR.reduce_(I, v if I.is_arr(v) else new(I, x), NONE, lo))
    hi = scalar(I, AR.reduce_(I, v if I.is_arr(v) else new(I, x), NONE, hi))
    return Ar((ne,), lo + (hi - lo) * T.div(b, nb), 'float')


@ext('numpy.histogram_bin_edges')
def _hbe(I, a, kw):
    v, bins, rng, w = bind(a, kw, 'a', 'bins', 'range', 'weights')
    x = as_ar(I, v)
    if isinstance(bins, Num):
        return new(I, hist_edges(I, v, x, bins.s, rng))
    if is_none(bins):
        return new(I, hist_edges(I, v, x, K(10), rng))
    if isinstance(bins, Const):
        if rng is not NONE and not is_none(rng):
            pass
        k = T.fresh('nbins', *arr_srcs(I, v))
        return opaque_arr(I, [k + 1], 'edges', v)
    return new(I, as_ar(I, bins))


@ext('numpy.bincount')
def _bincount(I, a, kw):
    v, w, ml = bind(a, kw, 'x', 'weights', 'minlength')
    x = as_ar(I, v)
    n = x.dims[0]
    d = scalar(I, ml) if not is_none(ml) else T.fresh('maxlabel', *arr_srcs(I, v))
    r = A('r', -8600, 0, n)
    xb = T.subst(x.body, {bvar(0, n): P(r)})
    e = eq(xb, P(bvar(0, d)))
    if not is_none(w):
        wa = as_ar(I, w)
        e = e * T.subst(wa.body, {bvar(0, wa.dims[0]): P(r)})
    return I.new_arr((d,), T.sum_over(r, n, e), 'int' if is_none(w) else 'float')


def count_below(I, x, q, strict):
    """how many elements of the sorted vector x are below (strict) or not above q"""
    x, q = as_ar(I, x), as_ar(I, q)
    if len(x.dims) != 1:
        return result(I, Ar(q.dims, T.opq('searchsorted', x.body, q.body), 'int'))
    d = x.dims[0]
    at = q.body.atom()
    xa = x.body.atom()
    if strict and at is not None and xa is not None and at.op == 'at' and xa.op == 'at' and at.args[0] is xa.args[0] and \
            len(at.args[1]) == 1 and xa.args[1] == (P(bvar(0, d)),) and getattr(at.args[0], 'op', '') == 'uniq':
        return result(I, Ar(q.dims, at.args[1][0], 'int'))
    r = A('r', -8940, 0, d)
    e = T.subst(x.body, {bvar(0, d): P(r)})
    return result(I, Ar(q.dims, T.sum_over(r, d, T.lt(e, q.body) if strict else T.le(e, q.body)), 'int'))


@ext('numpy.searchsorted')
def _searchsorted(I, a, kw):
    x, q, side, sorter = bind(a, kw, 'a', 'v', 'side', 'sorter')
    if not is_none(sorter) or not (is_none(side) or isinstance(side, Const)):
        return result(I, Ar(as_ar(I, q).dims, T.opq('searchsorted', *arr_srcs(I, x, q)), 'int'))
    return count_below(I, x, q, is_none(side) or side.v == 'left')


@ext('numpy.digitize')
def _digitize(I, a, kw):
    x, bins, right = bind(a, kw, 'x', 'bins', 'right')
    rt = M.const_bool(right, False)
    return count_below(I, bins, x, rt)


@ext('numpy.interp')
def _interp(I, a, kw):
    x = as_ar(I, a[0])
    return result(I, Ar(x.dims, T.opq('interp', *([x.body] + arr_srcs(I, *a[1:]))), 'float'))


# linear algebra ------------------------------------------------------------------------
def dot(I, a, b):
    if M.is_cvx(I, a) or M.is_cvx(I, b):
        from . import ext_models
        return ext_models.cvx_binop(I, 'matmul', a, b)
    x, y = as_ar(I, a), as_ar(I, b)
    if not x.dims or not y.dims:
        return M.binop(I, 'mul', a, b)
    k1 = len(x.dims) - 1
    k2 = 0 if len(y.dims) == 1 else len(y.dims) - 2
    d1, d2 = x.dims[k1], y.dims[k2]
    if d1 is not d2:
        if d1 is ONE or d2 is ONE:
            if AR.definitely_different(d1, d2):
                err(I, 'ValueError', 'shapes not aligned: %s and %s' % (d1, d2), dims=(d1, d2))
        AR.check_dim(I, d1, d2, 'matrix product')
    r = A('r', -8700, 0, d1)
    xk = [k for k in range(len(x.dims)) if k != k1]
    yk = [k for k in range(len(y.dims)) if k != k2]
    dims = tuple([x.dims[k] for k in xk] + [y.dims[k] for k in yk])
    mpx = {bvar(k1, d1): P(r)}
    for j, k in enumerate(xk):
        mpx[bvar(k, x.dims[k])] = P(bvar(j, x.dims[k]))
    mpy = {bvar(k2, d2): P(r)}
    for j, k in enumerate(yk):
        mpy[bvar(k, y.dims[k])] = P(bvar(j + len(xk), y.dims[k]))
    body = T.sum_over(r, d1, T.subst(x.body, mpx) * T.subst(y.body, mpy))
    dt = 'int' if x.dtype == 'int' and y.dtype == 'int' else 'float'
    return result(I, Ar(dims, body, dt))


@ext('numpy.dot', 'numpy.matmul')
def _dot(I, a, kw):
    return dot(I, a[0], a[1])


@ext('numpy.inner', 'numpy.vdot')
def _inner(I, a, kw):
    x = as_ar(I, a[0])
    if len(x.dims) > 1:
        raise UnkShape()
    return dot(I, a[0], a[1])


@ext('numpy.outer')
def _outer(I, a, kw):
    x, y = as_ar(I, a[0]), as_ar(I, a[1])
    if len(x.dims) != 1 or len(y.dims) != 1:
        raise UnkShape()
    return I.new_arr((x.dims[0], y.dims[0]), x.body * T.subst(y.body, {bvar(0, y.dims[0]): P(bvar(1, y.dims[0]))}),
                     'float')


@ext('numpy.trace')
def _trace(I, a, kw):
    x = as_ar(I, a[0])
    r = A('r', -8800, 0, x.dims[0])
    return Num(T.sum_over(r, x.dims[0], x.at(P(r), P(r))), x.dtype)


@ext('numpy.linalg.norm')
def _norm(I, a, kw):
    v, o, ax = bind(a, {k: x for k, x in kw.items() if k in ('x', 'ord', 'axis')}, 'x', 'ord', 'axis')
    x = as_ar(I, v)

    if isinstance(o, Num) and o.s.const() == 1 and (len(x.dims) == 1 or not is_none(ax)):
        return AR.reduce_(I, result(I, Ar(x.dims, T.fun('abs', x.body), 'float')), ax, AR.f_sum, dtype='float')
    if is_none(o) or (isinstance(o, Num) and o.s.const() == 2) or (isinstance(o, Const) and o.v == 'fro'):
        if len(x.dims) == 1 or not is_none(ax) or is_none(o):
            return AR.reduce_(I, result(I, Ar(x.dims, x.body * x.body, 'float')), ax,
                              lambda rv, d, b: T.fun('sqrt', AR.f_sum(rv, d, b)), dtype='float')
    return AR.reduce_(I, v, ax, AR.f_red('norm'), dtype='float')


@ext('numpy.linalg.inv', 'scipy.linalg.inv', 'scipy.linalg.pinv', 'numpy.linalg.pinv')
def _inv(I, a, kw):
    x = as_ar(I, a[0])
    if len(x.dims) != 2:
        err(I, 'ValueError', 'inverse of an array of dimension %d' % len(x.dims))
    AR.check_dim(I, x.dims[0], x.dims[1], 'matrix inverse')
    base = A('inv', ar_atom(x))
    sing = P(A('bool', P(A('singular', ar_atom(x)))))
    I.event('inv', mat=x)
    I.may_raise(Exc('LinAlgError'), sing)
    return named_arr(I, (x.dims[1], x.dims[0]), base)


@ext('numpy.linalg.pinv', 'scipy.linalg.pinv')
def _pinv(I, a, kw):
    x = as_ar(I, a[0])
    return named_arr(I, (x.dims[1], x.dims[0]), A('inv', ar_atom(x)))


@ext('numpy.linalg.solve', 'scipy.linalg.solve')
def _solve(I, a, kw):
    x, y = as_ar(I, a[0]), as_ar(I, a[1])
    AR.check_dim(I, x.dims[0], y.dims[0], 'linear solve')
    I.may_raise(Exc('LinAlgError'), P(A('bool', P(A('singular', ar_atom(x))))))
    inv = named_arr(I, (x.dims[1], x.dims[0]), A('inv', ar_atom(x)))
    return dot(I, inv, a[1])


@ext('numpy.linalg.lstsq')
def _lstsq(I, a, kw):
    x, y = as_ar(I, a[0]), as_ar(I, a[1])
    return Tup([opaque_arr(I, (x.dims[1],) + y.dims[1:], 'lstsq', a[0], a[1]), Top(T.fresh('res')),
                Top(T.fresh('rank')), Top(T.fresh('sv'))])


@ext('numpy.linalg.svd', 'scipy.linalg.svd')
def _svd(I, a, kw):
    x = as_ar(I, a[0])
    if len(x.dims) != 2:
        err(I, 'LinAlgError', 'singular values of an array of dimension %d' % len(x.dims))
    n, m = x.dims
    k = n if n is m else T.fun('min2', n, m)
    return Tup([named_arr(I, d, A(op, ar_atom(x))) for op, d in (('svdU', (n, n)), ('svdS', (k,)), ('svdV', (m, m)))])


@ext('numpy.linalg.eigvals', 'numpy.linalg.eigvalsh', 'scipy.linalg.eigvals')
def _eigvals(I, a, kw):
    x = as_ar(I, a[0])
    if len(x.dims) != 2:
        err(I, 'LinAlgError', 'eigenvalues of an array of dimension %d' % len(x.dims))
    AR.check_dim(I, x.dims[0], x.dims[1], 'eigenvalues')
    return named_arr(I, (x.dims[0],), A('eig', ar_atom(x)))


@ext('numpy.linalg.det', 'numpy.linalg.cond', 'numpy.linalg.matrix_rank')
def _det(I, a, kw):
    return Num(T.fresh('det', *arr_srcs(I, a[0])), 'float')


@ext('numpy.linalg.cholesky')
def _chol(I, a, kw):
    I.may_raise(Exc('LinAlgError'), P(A('bool', T.fresh('notpd'))))
    x = as_ar(I, a[0])
    return opaque_arr(I, x.dims, 'chol', a[0])


@ext('numpy.linalg.LinAlgError')
def _lae(I, a, kw):
    return Exc('LinAlgError', tuple(a))


# misc ------------------------------------------------------------------------------
@ext('numpy.take')
def _take(I, a, kw):
    v, i, ax = bind(a, {k: x for k, x in kw.items() if k in ('a', 'indices', 'axis')}, 'a', 'indices', 'axis')
    if not I.is_arr(v):
        v = new(I, as_ar(I, v))
    if is_none(ax):
        return M.getitem(I, v, i)
    k = AR.axis_of(I, ax, len(I.obj(v).dims))[0]
    sl = SliceV(NONE, NONE, NONE)
    return M.getitem(I, v, Tup([sl] * k + [i]))


@ext('numpy.delete')
def _delete(I, a, kw):
    x = as_ar(I, a[0])
    n = T.fresh('len')
    ax = kw.get('axis', a[2] if len(a) > 2 else NONE)
    dims = list(x.dims)
    k = 0 if is_none(ax) else AR.axis_of(I, ax, len(dims))[0]
    if is_none(ax) and len(dims) > 1:
        dims = [n]
    i = a[1]
    if isinstance(i, Num) and (len(x.dims) == 1 or not is_none(ax)):
        d = x.dims[k]
        p = i.s + d if i.s.const() is not None and i.s.const() < 0 else i.s
        n = d - 1
        dims[k] = n
        b = P(bvar(k, n))
        mp1 = {bvar(k, d): b}
        mp2 = {bvar(k, d): b + 1}
        return I.new_arr(dims, where(lt(b, p), T.subst(x.body, mp1), T.subst(x.body, mp2)), x.dtype)
    dims[k] = n
    return opaque_arr(I, dims, 'delete', *a[:2], dtype=x.dtype)


@ext('numpy.array_equal')
def _array_equal(I, a, kw):
    for v in a[:2]:
        if is_none(v):
            return Num(ONE if is_none(a[0]) and is_none(a[1]) else ZERO, 'bool')
    x, y = as_ar(I, a[0]), as_ar(I, a[1])
    if len(x.dims) != len(y.dims):
        return Num(ZERO, 'bool')
    if x.body is y.body and all(p is q for p, q in zip(x.dims, y.dims)):
        return Num(ONE, 'bool')
    for p, q in zip(x.dims, y.dims):
        if p is not q and AR.definitely_different(p, q):
            return Num(ZERO, 'bool')
    sx, sy = rounds(x.body.srcs), rounds(y.body.srcs)
    if sx and sy and not (sx & sy):
        # data of different calls are taken to differ
        return Num(ZERO, 'bool')
    return Num(P(A('arreq', ar_atom(x), ar_atom(y))), 'bool')


def rounds(srcs):
    return {s[-1] for s in srcs if s and s[-1].isdigit()}


@ext('numpy.apply_along_axis')
def _aaa(I, a, kw):
    extra = list(a[3:])
    fn, ax, arr = bind(a[:3], {k: kw.pop(k) for k in ('func1d', 'axis', 'arr') if k in kw}, 'func1d', 'axis', 'arr')
    x = as_ar(I, arr)
    n = len(x.dims)
    k = AR.axis_of(I, ax, n)[0]
    if n == 1:
        return I.call(fn, [arr] + extra, kw)
    others = [j for j in range(n) if j != k]
    sl = SliceV(NONE, NONE, NONE)
    if not I.is_arr(arr):
        arr = new(I, x)
    ixs = []
    for j in others:
        ix = I.new_ix(ZERO, x.dims[j])
        I.loop_ixs.append(ix)
        ixs.append(ix)
    try:
        at = dict(zip(others, ixs))
        row = M.getitem(I, arr, Tup([Num(P(at[j]), 'int') if j in at else sl for j in range(n)]))
        r = I.call(fn, [row] + extra, kw)
        if isinstance(r, Alt):
            raise UnkShape()
        p = as_ar(I, r)
    finally:
        for ix in ixs:
            I.loop_ixs.remove(ix)
    nr = len(p.dims)
    for ix, j in list(zip(ixs, others))[::-1]:
        p = AR.promote_axis0(p, ix, x.dims[j])
    if nr and k != n - 1:
        # the axes of the function's result take the place of the axis they come from
        m = len(others)
        perm = list(range(k)) + list(range(m, m + nr)) + list(range(k, m))
        return AR.transpose(I, new(I, p), perm)
    return result(I, p)


@ext('numpy.vectorize')
def _vectorize(I, a, kw):
    return Partial('vectorize', a[0], ())


@ext('numpy.errstate', 'numpy.seterr')
def _errstate(I, a, kw):
    return I.alloc(ExtObj('errstate', {}))


@method('errstate', '__enter__')
def _es(I, o, a, kw):
    return NONE


@ext('numpy.genfromtxt', 'numpy.loadtxt')
def _genfromtxt(I, a, kw):
    n, m = P(A('dim', 'file_rows', 2)), P(A('dim', 'file_cols', 2))
    return named_arr(I, (n, m), A('src', 'file'))


@ext('numpy.meshgrid')
def _meshgrid(I, a, kw):
    return Top(T.fresh('meshgrid', *arr_srcs(I, *a)))


@ext('numpy.cov', 'numpy.corrcoef')
def _cov(I, a, kw):
    raise UnkShape()


@ext('numpy.einsum', 'numpy.tensordot', 'numpy.kron', 'numpy.cross')
def _einsum(I, a, kw):
    raise UnkShape()


@ext('numpy.finfo')
def _finfo(I, a, kw):
    return I.alloc(ExtObj('finfo', {'eps': Num(P(A('spacing', ONE)), 'float'), 'tiny': Num(P(A('spacing', ZERO)), 'float'),
                                    'max': Num(T.opq('fmax'), 'float'), 'min': Num(T.opq('fmin'), 'float')}))


@ext('numpy.array_split', 'numpy.split')
def _array_split(I, a, kw):
    x = as_ar(I, a[0])
    n = scalar(I, a[1])
    ix = I.new_ix(ZERO, n)
    d = T.opq('chunk', P(ix), x.dims[0])
    return I.alloc(ListObj(None, comp=(ix, n, opaque_arr(I, (d,) + x.dims[1:], 'split', a[0])), site=I.site()))


# random ----------------------------------------------------------------------------
DRAWS = ('rand randn randint random random_sample uniform normal choice permutation shuffle dirichlet multinomial '
         'binomial beta gamma exponential standard_normal poisson sample ranf random_integers integers lognormal '
         'standard_exponential bytes').split()


@ext('numpy.random.RandomState', 'numpy.random.default_rng', 'numpy.random.Generator')
def _randomstate(I, a, kw):
    seed = a[0] if a else kw.get('seed', NONE)
    return make_rng(I, seed)


def make_rng(I, seed):
    if is_none(seed):
        I.event('rng', what='unseeded', how='RandomState(None)')
    return I.alloc(ExtObj('rng', {'seed': seed}, site=I.site()))


def seed_srcs(I, seed):
    return I.src_terms(seed) + ([seed.s] if isinstance(seed, Num) else [])


@ext('numpy.random.seed')
def _seed(I, a, kw):
    I.event('rng', what='global_seed', how='numpy.random.seed')
    return NONE


def draw(name):
    def f(I, a, kw):
        I.event('rng', what='global', how='numpy.random.' + name)
        return do_draw(I, name, a, kw, [])
    return f


for _n in DRAWS:
    EXT['numpy.random.' + _n] = draw(_n)
    EXT['random.' + _n] = draw(_n)


def size_dims(I, v):
    if is_none(v):
        return None
    return shape_of(I, v)


def draw_id(I):
    """names a draw by its place in the program and the number of earlier draws there in this phase of the history"""
    f = '/'.join(x[1].where.split(':')[-1] for x in I.frames if x[1] is not None)
    key = '%s:%s' % (f, I.line)
    d = I.__dict__.setdefault('draws', {})
    k = (key, I.__dict__.get('draw_gen'))
    d[k] = d.get(k, 0) + 1
    return '%s#%d' % (key, d[k])


def choice_size(I, sz):
    try:
        d = size_dims(I, sz)
    except Unsupported:
        return None
    return d[0] if d and len(d) == 1 else None


def do_draw(I, name, a, kw, extra, made=(), gen=None):
    # one draw per iteration of the loops entered since the generator was made
    I.draw_gen = gen
    srcs = list(extra) + [P(ix) for ix in I.loop_ixs if ix not in made]
    tag = 'draw:' + name
    size = kw.get('size', NONE)
    if name in ('rand', 'randn'):
        dims = tuple(scalar(I, x) for x in a)
        return rnd(I, dims, tag, srcs, (0, 1) if name == 'rand' else None)
    if name in ('random', 'random_sample', 'sample', 'ranf'):
        d = size_dims(I, a[0] if a else size)
        return rnd(I, d or (), tag, srcs, (0, 1))
    if name == 'uniform':
        lo, hi, sz = bind(a, kw, 'low', 'high', 'size')
        d = size_dims(I, sz)
        lo_s = ZERO if is_none(lo) else scalar(I, lo)
        hi_s = ONE if is_none(hi) else scalar(I, hi)
        dims = d or ()
        bs = [P(bvar(k, x)) for k, x in enumerate(dims)]
        u = unit_draw(I, tag, srcs + bs)
        return result(I, Ar(dims, lo_s + (hi_s - lo_s) * u, 'float'))
    if name in ('randint', 'integers', 'random_integers'):
        lo, hi, sz = bind(a, {k: v for k, v in kw.items() if k in ('low', 'high', 'size')}, 'low', 'high', 'size')
        d = size_dims(I, sz) or ()
        if is_none(hi):
            lo_s, hi_s = ZERO, scalar(I, lo)
        else:
            lo_s, hi_s = scalar(I, lo), scalar(I, hi)
        I.event('randint', lo=lo_s, hi=hi_s, dims=d)
        bs = [P(bvar(k, x)) for k, x in enumerate(d)]
        s = P(A('rndint', draw_id(I), lo_s, hi_s, tuple(srcs + bs)))
        return result(I, Ar(d, s, 'int'))
    if name == 'choice':
        v, sz, rep, p = bind(a, kw, 'a', 'size', 'replace', 'p')
        I.event('choice', pool=v, size=choice_size(I, sz), replace=rep, p=None if is_none(p) else as_ar(I, p), dims=None,
                n=v.s if isinstance(v, Num) else as_ar(I, v).dims[0] if I.is_arr(v) else None, ixs=tuple(I.loop_ixs))
        d = size_dims(I, sz) or ()
        bs = [P(bvar(k, x)) for k, x in enumerate(d)]
        if isinstance(v, Num):
            if not is_none(rep) and const_bool(rep) is False and len(d) == 1:
                s = T.subst(perm(I, tag, srcs, v.s), {bvar(0, v.s): P(bvar(0, d[0]))})
            else:
                s = P(A('rndint', draw_id(I), ZERO, v.s, tuple(srcs + bs)))
            return result(I, Ar(d, s, 'int'))
        x = as_ar(I, v)
        if len(x.dims) != 1:
            err(I, 'ValueError', "'a' must be 1-dimensional")
        if not is_none(rep) and const_bool(rep) is False and len(d) == 1:
            s = T.subst(perm(I, tag, srcs, x.dims[0]), {bvar(0, x.dims[0]): P(bvar(0, d[0]))})
            return result(I, Ar(d, T.subst(x.body, {bvar(0, x.dims[0]): s}), x.dtype))
        s = P(A('rndint', draw_id(I), ZERO, x.dims[0], tuple(srcs + bs)))
        return result(I, Ar(d, T.subst(x.body, {bvar(0, x.dims[0]): s}), x.dtype))
    if name in ('permutation', 'shuffle'):
        v = a[0]
        if name == 'shuffle':
            if I.is_arr(v):
                AR.write_event(I, v, 'shuffle')
                o = I.obj(v)
                x = as_ar(I, v)
                AR.set_body(I, v, T.subst(x.body, {bvar(0, x.dims[0]): perm(I, tag, srcs, x.dims[0])}))
            elif isinstance(v, Ref) and isinstance(I.obj(v), ListObj):
                list_clobber(I, v, 'shuffle')
            return NONE
        if isinstance(v, Num):
            return I.new_arr((v.s,), perm(I, tag, srcs, v.s), 'int')
        x = as_ar(I, v)
        return I.new_arr(x.dims, T.subst(x.body, {bvar(0, x.dims[0]): perm(I, tag, srcs, x.dims[0])}), x.dtype)
    if name == 'dirichlet':
        al, sz = bind(a, kw, 'alpha', 'size')
        x = as_ar(I, al)
        d = (size_dims(I, sz) or ()) + (x.dims[0],)
        base = A('dirichlet', draw_id(I), tuple(srcs + I.src_terms(al)), len(d) - 1, d)
        return named_arr(I, d, base)
    if name == 'multinomial':
        n, p, sz = bind(a, kw, 'n', 'pvals', 'size')
        x = as_ar(I, p)
        d = (size_dims(I, sz) or ()) + (x.dims[0],)
        base = A('multinomial', draw_id(I), tuple(srcs + I.src_terms(p)), len(d) - 1, d, scalar(I, n))
        return named_arr(I, d, base, 'int')
    if name in ('normal', 'lognormal', 'gamma', 'beta', 'binomial', 'poisson', 'exponential'):
        pos = {'normal': 2, 'lognormal': 2, 'gamma': 2, 'beta': 2, 'binomial': 2, 'poisson': 1, 'exponential': 1}[name]
        sz = kw.get('size', a[pos] if len(a) > pos else NONE)
        d = size_dims(I, sz)
        if d is None:
            xs = [as_ar(I, v) for v in list(a[:pos]) + [v for k, v in kw.items() if k != 'size']]
            d = AR.broadcast(I, xs)[0] if xs else ()
        return rnd(I, d, tag, srcs + arr_srcs(I, *a), None)
    return Top(T.fresh(tag, *srcs))


def perm(I, tag, srcs, d):
    return P(A('perm', draw_id(I), d, tuple(srcs), P(bvar(0, d))))


T.INT_OPS.update({'rndint', 'perm'})
T.IV_OPS['unit'] = lambda a: (Fraction(0), Fraction(1))
T.IV_OPS['rndint'] = lambda a: (T.iv(a.args[1])[0], T.iv(a.args[2])[1])
T.IV_OPS['perm'] = lambda a: (Fraction(0), None)
T.CONTRACT_OPS['dirichlet'] = lambda b: {'lo': Fraction(0), 'hi': Fraction(1), 'simplex': b.args[2], 'dims': b.args[3]}
T.CONTRACT_OPS['multinomial'] = lambda b: {'lo': Fraction(0), 'hi': None, 'int': True}


def _multi_sum(var, dim, a):
    if a.op == 'at' and a.args[0].op == 'multinomial':
        b = a.args[0]
        if a.args[1][b.args[2]].atom() is var:
            return b.args[4]
    return None


T.SUM_RULES.append(_multi_sum)


def unit_draw(I, tag, srcs):
    return P(A('unit', tag, draw_id(I), tuple(srcs)))


def rnd(I, dims, tag, srcs, rng):
    bs = [P(bvar(k, d)) for k, d in enumerate(dims)]
    s = unit_draw(I, tag, srcs + bs) if rng else T.fresh(tag, *(srcs + bs))
    return result(I, Ar(dims, s, 'float'))


def rng_method(name):
    def f(I, o, a, kw):
        ob = I.obj(o)
        I.event('rng', what='draw', how=name, oid=o.oid)
        return do_draw(I, name, a, kw, seed_srcs(I, ob.attrs.get('seed', NONE)), getattr(ob, 'ixs', ()), o.oid)
    return f


for _n in DRAWS:
    METHODS[('rng', _n)] = rng_method(_n)


@method('rng', 'seed')
def _rng_seed(I, o, a, kw):
    I.event('rng', what='reseed', oid=o.oid)
    ob = I.obj(o)
    at = dict(ob.attrs)
    at['seed'] = a[0] if a else NONE
    I.store_obj(o, ob.with_(attrs=at))
    return NONE


@method('rng', 'get_state', 'set_state')
def _rng_state(I, o, a, kw):
    return Top(T.fresh('rngstate'))
