"""Models of Python builtins, containers, operators and attribute access; dispatch to the library models."""
import ast
import json
import os

from . import terms as T
from . import arrays as AR
from .arrays import Ar, UnkShape, as_ar, err, new, result, bvar
from .terms import S, A, K, P, ZERO, ONE, where, mk, eq, lt, le, not_
from .values import *
from .loader import ClassInfo, FuncInfo
from .interp import RaiseSignal, EXC_BASES, exc_supers

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'data', 'names.json')) as _f:
    NAMES = json.load(_f)

EXT = {}        # dotted -> model(I, args, kw)
EXT_ATTR = {}   # dotted -> constant V
METHODS = {}    # (kind, name) -> model(I, obj, args, kw)


def install(I):
    from . import np_models, ext_models   # noqa: F401


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f
    return deco


def method(kind, *names):
    def deco(f):
        for n in names:
            METHODS[(kind, n)] = f
        return f
    return deco


CANON = {'np': 'numpy'}


def canon(dotted):
    return dotted


def bind(args, kw, *names):
    """Positional/keyword arguments -> list in the order of names (NONE when absent)."""
    out = {}
    for n, v in zip(names, args):
        out[n] = v
    for k, v in kw.items():
        out[k] = v
    return [out.get(n, NONE) for n in names]


def is_none(v):
    return isinstance(v, Const) and v.v is None


def num(v):
    """S of a scalar value, or raise UnkShape."""
    if isinstance(v, Num):
        return v.s
    raise UnkShape()


def scalar(I, v):
    if isinstance(v, Num):
        return v.s
    if isinstance(v, Ref) and I.is_arr(v):
        a = as_ar(I, v)
        if AR.total_size(a.dims) is ONE:
            return a.at(*[ZERO] * len(a.dims))
    raise UnkShape()


def const_bool(v, default=False):
    if isinstance(v, Num) and v.s.const() is not None:
        return v.s.const() != 0
    if isinstance(v, Const):
        return bool(v.v) if v.v is not None else default
    return default


def const_str(v):
    return v.v if isinstance(v, Const) and isinstance(v.v, str) else None


def dtype_of(v):
    """'int' | 'float' | 'bool' | 'any' | None from a dtype argument."""
    if is_none(v):
        return None
    n = None
    if isinstance(v, Const) and isinstance(v.v, str):
        n = v.v
    elif isinstance(v, Ext):
        n = v.name.split('.')[-1]
    elif isinstance(v, Top):
        return 'any'
    if n is None:
        return 'any'
    n = n.lower()
    if 'bool' in n:
        return 'bool'
    if 'int' in n or n in ('i', 'i4', 'i8'):
        return 'int'
    if 'float' in n or n in ('f', 'd', 'f8', 'double'):
        return 'float'
    return 'any'


BUILTINS = ('len range enumerate zip print isinstance issubclass hasattr getattr setattr type abs sum min max sorted '
            'reversed list tuple dict set str int float bool round callable map filter any all object super id repr '
            'iter next divmod pow format vars dir open input slice complex bytes hash ord chr property staticmethod '
            'classmethod frozenset').split()


def builtin(I, name):
    if name in BUILTINS:
        return Ext('builtins.' + name)
    if name in EXC_BASES or name in ('BaseException', 'Exception'):
        return Ext('builtins.' + name)
    if name == 'NotImplemented':
        return Const(NotImplemented)
    return None


def to_exc(I, v):
    if isinstance(v, Exc):
        return v
    if isinstance(v, Ext):
        return Exc(v.name.split('.')[-1])
    if isinstance(v, Cls):
        return Exc(v.ci.name)
    if isinstance(v, Ref):
        o = I.obj(v)
        if isinstance(o, InstObj):
            register_exc(o.cls)
            return Exc(o.cls.name)
    return Exc('AnyError')


def register_exc(ci):
    if ci.name not in EXC_BASES:
        for b in ci.bases:
            if isinstance(b, ClassInfo):
                register_exc(b)
        bs = [b.name if isinstance(b, ClassInfo) else b.split('.')[-1] for b in ci.bases]
        EXC_BASES[ci.name] = tuple(bs) if bs else 'Exception'


def exc_name(I, v):
    if isinstance(v, Ext):
        return v.name.split('.')[-1]
    if isinstance(v, Cls):
        register_exc(v.ci)
        return v.ci.name
    return 'Exception'


# ----------------------------------------------------------------------
# attribute access
def getattr_(I, o, name):
    if isinstance(o, Mod):
        I.load_module(o.m)
        g = I.st.heap[o.m.globals].vars
        if name in g:
            return g[name]
        sub = o.m.dotted + '.' + name
        if sub in I.repo.modules:
            return I.import_name(sub)
        err(I, 'AttributeError', 'module %s has no attribute %r' % (o.m.dotted, name))
    if isinstance(o, Ext):
        full = o.name + '.' + name
        if full in EXT_ATTR:
            return EXT_ATTR[full]
        if o.name in NAMES and name not in NAMES[o.name] and not name.startswith('__'):
            err(I, 'AttributeError', 'module %r has no attribute %r' % (o.name, name))
        if name == '__name__':
            return Const(o.name.split('.')[-1])
        if name == '__doc__':
            return Const(o.name)
        return I.external(full)
    if isinstance(o, Super):
        return super_getattr(I, o, name)
    if isinstance(o, Cls):
        m, owner = o.ci.find(name)
        if m is not None:
            if isinstance(m, FuncInfo):
                fn = Fn(m, owner.module.globals)
                if m.kind == 'class':
                    return Bound(o, fn)
                return fn
            return m
        if name == '__name__':
            return Const(o.ci.name)
        for b in o.ci.ext_bases():
            return Ext(b + '.' + name)
        err(I, 'AttributeError', 'class %s has no attribute %r' % (o.ci.name, name))
    if isinstance(o, Ref):
        ob = I.obj(o)
        if isinstance(ob, InstObj):
            return I.inst_getattr(o, name)
        if isinstance(ob, ArrObj):
            return arr_getattr(I, o, ob, name)
        if isinstance(ob, ExtObj):
            return ext_getattr(I, o, ob, name)
        if isinstance(ob, ListObj) and ob.nd:
            n = Num(I.list_len(ob), 'int')
            if name == 'shape':
                return Tup([n])
            if name in ('size', 'ndim'):
                return n if name == 'size' else Num(ONE, 'int')
            if name == 'tolist':
                return ExtBound(o, 'copy')
            if name in ('append', 'extend', 'insert', 'pop', 'remove', 'reverse', 'index', 'count', 'clear'):
                err(I, 'AttributeError', "'numpy.ndarray' object has no attribute %r" % name)
            return ExtBound(o, name) if name in ('__len__', '__getitem__', 'copy') else Top(T.fresh(name, *I.src_terms(o)))
        if isinstance(ob, ListObj):
            if name not in ('append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'index', 'count', 'copy',
                            'clear', '__len__', '__getitem__', 'add', 'update', 'discard', 'union', 'difference',
                            'intersection'):
                err(I, 'AttributeError', "'list' object has no attribute %r" % name)
            return ExtBound(o, name)
        return ExtBound(o, name)
    if isinstance(o, Num):
        if name == 'shape':
            return Tup([])
        if name == 'ndim':
            return Num(ZERO, 'int')
        if name == 'size':
            return Num(ONE, 'int')
        if name == 'T':
            return o
        if name == 'real':
            return o
        if name == 'dtype':
            return Ext('numpy.dtype:' + o.typ)
        return ExtBound(o, name)
    if isinstance(o, Const):
        if o.v is None:
            err(I, 'AttributeError', "'NoneType' object has no attribute %r" % name)
        return ExtBound(o, name)
    if isinstance(o, Top):
        return Top(T.opq('attr:' + name, o.s))
    if isinstance(o, (Fn, Bound)):
        f = o.info if isinstance(o, Fn) else (o.fn.info if isinstance(o.fn, Fn) else None)
        if name in ('__name__', '__qualname__') and f is not None:
            return Const(f.name)
        if name == '__self__' and isinstance(o, Bound):
            return o.self_
        return Top(T.fresh('fnattr'))
    if isinstance(o, Tup):
        return ExtBound(o, name)
    if isinstance(o, Exc):
        if name == '__class__' and o.name != 'AnyError':
            return EXT['builtins.type'](I, [o], {})
        return Top(T.fresh('excattr'))
    if isinstance(o, (ZipV, EnumV, RangeV, MapV)):
        return ExtBound(o, name)
    if isinstance(o, Undef):
        err(I, 'UnboundLocalError', 'attribute %r of an unbound value' % name)
    return Top(T.fresh('attr'))


def super_getattr(I, o, name):
    slf = o.self_
    if isinstance(slf, Ref):
        cls = I.obj(slf).cls
    elif isinstance(slf, Cls):
        cls = slf.ci
    else:
        return Top(T.fresh('super'))
    m, owner = cls.find(name, after=o.ci)
    if m is not None:
        if isinstance(m, FuncInfo):
            fn = Fn(m, owner.module.globals)
            if m.kind == 'static':
                return fn
            return Bound(slf, fn)
        return m
    for b in cls.ext_bases(after=o.ci):
        if name == '__init__':
            return ExtBound(Tup([slf, Const(b)]), 'ext_init')
        return ExtBound(slf, b + '.' + name)
    return ExtBound(Tup([slf, Const('object')]), 'ext_init' if name == '__init__' else 'object.' + name)


def ext_init(I, base, ref, args, kw):
    if base.split('.')[-1] in ('BaseEstimator', 'object') and kw:
        err(I, 'TypeError', 'object.__init__() takes exactly one argument (unexpected %s)' % ', '.join(sorted(kw)))
    return NONE


def ext_inst_attr(I, ref, o, name):
    """Attribute provided by an external base class of a repository class."""
    bases = o.cls.ext_bases()
    short = {b.split('.')[-1] for b in bases}
    if name in ('get_params', 'set_params', '__repr__', '__getstate__', '__sklearn_tags__', '_get_param_names') and \
            'BaseEstimator' in short:
        return ExtBound(ref, 'BaseEstimator.' + name)
    if name == 'score' and 'ClassifierMixin' in short:
        return ExtBound(ref, 'ClassifierMixin.score')
    if name == '_estimator_type' and 'ClassifierMixin' in short:
        return Const('classifier')
    if name == '__class__':
        return Cls(o.cls)
    other = short - {'BaseEstimator', 'ABCMeta', 'ClassifierMixin', 'MetaEstimatorMixin', 'RegressorMixin', 'ABC',
                     'object', 'Exception', 'TransformerMixin'}
    if other:
        return Top(T.fresh('extattr:' + name))
    return None


ARR_METHODS = set(NAMES.get('#ndarray', ())) or set()


def arr_getattr(I, ref, o, name):
    if o.dims is None:
        return Top(T.opq('attr:' + name, *I.src_terms(ref)))
    if name == 'shape':
        return Tup([Num(d, 'int') for d in o.dims])
    if name == 'ndim':
        return Num(K(len(o.dims)), 'int')
    if name == 'size':
        return Num(AR.total_size(o.dims), 'int')
    if name == 'T':
        return AR.transpose(I, ref)
    if name == 'dtype':
        return Ext('numpy.dtype:' + o.dtype)
    if name in ('real', 'flat', 'base', 'data', 'nbytes', 'itemsize', 'strides', 'flags', 'imag'):
        return ref if name == 'real' else Top(T.opq(name, *I.src_terms(ref)))
    if name not in ARR_METHODS:
        err(I, 'AttributeError', "'numpy.ndarray' object has no attribute %r" % name)
    return ExtBound(ref, name)


def arr_setattr(I, ref, o, name, v):
    if name == 'shape':
        AR.write_event(I, ref, 'shape assignment')


def ext_getattr(I, ref, o, name):
    f = METHODS.get((o.kind, '.' + name))
    if f is not None:
        return f(I, ref, o)
    if (o.kind, name) in METHODS:
        return ExtBound(ref, name)
    if name in o.attrs and isinstance(o.attrs[name], V):
        return o.attrs[name]
    f = METHODS.get((o.kind, '.*'))
    if f is not None:
        r = f(I, ref, o, name)
        if r is not None:
            return r
    return ExtBound(ref, name)


def ext_setattr(I, ref, o, name, v):
    f = METHODS.get((o.kind, '.=' + name)) or METHODS.get((o.kind, '.=*'))
    I.event('ext_setattr', oid=ref.oid, okind=o.kind, name=name, origin=o.origin)
    if f is not None:
        return f(I, ref, o, name, v)
    at = dict(o.attrs)
    at[name] = v
    I.store_obj(ref, o.with_(attrs=at))


# ----------------------------------------------------------------------
# subscripts
def getitem(I, o, i, check=True):
    if isinstance(o, Alt):
        return I.on_alt(o, lambda x: getitem(I, x, i, check))
    if isinstance(i, Alt):
        return I.on_alt(i, lambda x: getitem(I, o, x, check))
    if isinstance(i, Tup) and any(isinstance(x, Alt) for x in i.items):
        k = [n for n, x in enumerate(i.items) if isinstance(x, Alt)][0]
        return I.on_alt(i.items[k], lambda x: getitem(I, o, Tup(i.items[:k] + (x,) + i.items[k + 1:]), check))
    if isinstance(o, Tup):
        if isinstance(i, Num):
            c = i.s.const()
            if c is not None:
                c = int(c)
                if c < -len(o.items) or c >= len(o.items):
                    err(I, 'IndexError', 'tuple index out of range')
                return o.items[c]
            return pick(I, o.items, i.s)
        if isinstance(i, SliceV):
            try:
                lo, n, st = AR.slice_bounds(I, i, K(len(o.items)))
                if lo.const() is not None and n.const() is not None:
                    lo, n = int(lo.const()), int(n.const())
                    return Tup([o.items[lo + k * st] for k in range(n)])
            except UnkShape:
                pass
            return Top(T.opq('slice', *I.src_terms(o)))
        return Top(T.opq('item', *I.src_terms(o)))
    if isinstance(o, Ref):
        ob = I.obj(o)
        if isinstance(ob, ArrObj):
            try:
                return AR.arr_getitem(I, o, i, strict=check)
            except UnkShape:
                return Top(T.fresh('item', *(I.src_terms(o) + I.src_terms(i))))
        if isinstance(ob, ListObj):
            return list_getitem(I, o, ob, i)
        if isinstance(ob, DictObj):
            return dict_getitem(I, o, ob, i)
        if isinstance(ob, ExtObj):
            f = METHODS.get((ob.kind, '__getitem__'))
            if f is not None:
                return f(I, o, [i], {})
            return Top(T.opq('item', *(I.src_terms(o) + I.src_terms(i))))
        if isinstance(ob, InstObj):
            m, owner = ob.cls.find('__getitem__')
            if m is not None:
                return I.call_fn(Fn(m, owner.module.globals), [o, i], {})
            err(I, 'TypeError', '%s object is not subscriptable' % ob.cls.name)
    if isinstance(o, RangeV) and isinstance(i, Num):
        return Num(o.lo + i.s * o.step, 'int')
    if isinstance(o, Const) and o.v is None:
        err(I, 'TypeError', "'NoneType' object is not subscriptable")
    if isinstance(o, Const):
        if isinstance(o.v, str) and isinstance(i, Num) and i.s.const() is not None:
            c = int(i.s.const())
            if c < len(o.v):
                return Const(o.v[c])
        return Top(T.fresh('stritem'))
    if isinstance(o, Num):
        if isinstance(i, Const) and i.v is None or (isinstance(i, Tup) and not i.items):
            return o
        if o.typ in ('int', 'float', 'bool'):
            err(I, 'TypeError', 'scalar value is not subscriptable')
        err(I, 'IndexError', 'invalid index to scalar variable')
    if isinstance(o, Top):
        s = T.opq('item', o.s, *idx_terms(I, i))
        return Top(s)
    if isinstance(o, (ZipV, EnumV, MapV)):
        err(I, 'TypeError', 'object is not subscriptable')
    return Top(T.fresh('item'))


def idx_terms(I, i):
    if isinstance(i, Num):
        return [i.s]
    return I.src_terms(i)


def pick(I, items, s):
    """items[s] for an undecided position."""
    v = items[-1]
    for k in range(len(items) - 2, -1, -1):
        v = I.join_val(eq(s, K(k)), items[k], v)
    return v


def list_getitem(I, ref, ob, i):
    if isinstance(i, Num):
        c = i.s.const()
        if ob.items is not None:
            if c is not None:
                c = int(c)
                if c < -len(ob.items) or c >= len(ob.items):
                    err(I, 'IndexError', 'list index out of range')
                return ob.items[c]
            if not ob.items:
                err(I, 'IndexError', 'list index out of range')
            sg = T.sign_of(i.s - len(ob.items))
            if sg in ('+', '+0', '0'):
                err(I, 'IndexError', 'list index out of range')
            return pick(I, ob.items, i.s)
        if ob.comp[0] == 'phi':
            w = ob.comp[4] if len(ob.comp) > 4 else ()
            if w and w[-1][0] is i.s:
                return w[-1][1]
            return Top(T.opq('item', ob.comp[1]))
        ix, ext, t = ob.comp[:3]
        s = i.s
        if c is not None and c < 0:
            s = s + ext
        sg = T.sign_of(s - ext)
        if sg in ('+', '+0', '0'):
            err(I, 'IndexError', 'list index out of range')
        return I.sub_val(t, {ix: s + ix.args[1]})
    if isinstance(i, SliceV):
        n = I.list_len(ob)
        try:
            lo, ln, st = AR.slice_bounds(I, i, n)
        except UnkShape:
            return Top(T.opq('slice', *I.src_terms(ref)))
        if ob.items is not None and lo.const() is not None and ln.const() is not None:
            lo, ln = int(lo.const()), int(ln.const())
            return I.alloc(ListObj([ob.items[lo + k * st] for k in range(ln)], site=I.site()))
        if ob.comp is not None and ob.comp[0] != 'phi' and st == 1:
            ix = I.new_ix(ZERO, ln)
            v = I.sub_val(ob.comp[2], {ob.comp[0]: P(ix) + lo + ob.comp[0].args[1]})
            return I.alloc(ListObj(None, comp=(ix, ln, v), site=I.site()))
        return Top(T.opq('slice', *I.src_terms(ref)))
    if isinstance(i, (Tup, Const)) and not ob.nd:
        err(I, 'TypeError', 'list indices must be integers or slices')
    if isinstance(i, Ref) and I.is_arr(i):
        o = I.obj(i)
        if o.dims is not None and len(o.dims) > 0 and not ob.nd:
            err(I, 'TypeError', 'only integer scalar arrays can be converted to a scalar index')
        if o.dims == ():
            return list_getitem(I, ref, ob, Num(I.body(i), 'int'))
    return Top(T.opq('item', *I.src_terms(ref)))


def dict_key(I, k):
    return k


def dict_getitem(I, ref, ob, i):
    if i in ob.items:
        return ob.items[i]
    if ob.unknown is not None:
        fam = ob.items.get(Const('#family'))
        return Top(T.opq('dict', ob.unknown, *idx_terms(I, i)))
    for k, v in ob.items.items():
        if fam_key(k):
            # values stored under key(ix) for every ix
            return dict_family(I, k, v, i)
    if isinstance(i, Const) and all(isinstance(k, Const) for k in ob.items):
        err(I, 'KeyError', 'key %r' % (i.v,))
    # undecided key equality
    if isinstance(i, Num):
        out = None
        for k, v in ob.items.items():
            if isinstance(k, Num):
                out = v if out is None else I.join_val(eq(i.s, k.s), v, out)
        if out is not None:
            return out
    return Top(T.opq('dict', *(I.src_terms(ref) + idx_terms(I, i))))


def dict_family(I, k, v, i):
    ixn, keyv = k.items[1], k.items[2]
    ix = ixn.s.atom()
    if isinstance(i, Num) and isinstance(keyv, Num):
        # key template at(uniq, ix): invert when the wanted key is the same array at another position
        ka, wa = keyv.s.atom(), i.s.atom()
        if ka is not None and wa is not None and ka.op == 'at' and wa.op == 'at' and ka.args[0] is wa.args[0] and \
                len(ka.args[1]) == 1:
            kidx = ka.args[1][0]
            if (kidx - P(ix)).vars & {ix}:
                return Top(T.opq('dict', i.s))
            pos = wa.args[1][0] - (kidx - P(ix))
            return I.sub_val(v, {ix: pos})
        if ka is ix:
            return I.sub_val(v, {ix: i.s})
    return Top(T.opq('dict', *(idx_terms(I, i) + [P(A('src', x)) for x in sorted(I.srcs(v))])))


def fam_key(k):
    return isinstance(k, Tup) and len(k.items) == 3 and isinstance(k.items[0], Const) and k.items[0].v == '#fam'


def dict_pairs(I, o):
    """Entries of a dictionary: ('items', [(k, v)]) or ('fam', ix, key, value) or None."""
    if o.unknown is None and not any(fam_key(k) for k in o.items):
        return 'items', list(o.items.items())
    if o.unknown is None and len(o.items) == 1:
        (k, v), = o.items.items()
        return 'fam', k.items[1].s.atom(), k.items[2], v
    return None


def dict_put(I, o, i, v):
    """Store under a key in a dictionary that is being built (no write event)."""
    ob = I.obj(o)
    its = dict(ob.items)
    ix = None
    if isinstance(i, Num):
        for x in reversed(I.loop_ixs):
            if x in i.s.vars:
                ix = x
                break
    if ix is not None:
        key = Tup([Const('#fam'), Num(P(ix), 'int'), i])
        for k in list(its):
            if fam_key(k) and k is not key and isinstance(k.items[2], Num):
                ix2 = k.items[1].s.atom()
                if ix2 is not None and ix2.args[1:] == ix.args[1:] and T.subst(k.items[2].s, {ix2: P(ix)}) is i.s:
                    del its[k]
        its[key] = v
    else:
        if i in its:
            del its[i]
        its[i] = v
    I.store_obj(o, ob.with_(items=its))


def dict_from_pairs(I, v, default=None):
    """dict(iterable of pairs), or dict.fromkeys(iterable, default)."""
    d = I.alloc(DictObj({}, site=I.site()))
    k = iterate(I, v, None)
    unk = None

    def pair(x):
        if default is not None:
            return x, default
        if isinstance(x, Tup) and len(x.items) == 2:
            return x.items
        return None
    if k[0] == 'items':
        ps = [pair(x) for x in k[1]]
        if all(x is not None for x in ps):
            for a, b in ps:
                dict_put(I, d, a, b)
            return d
    else:
        ext_, lo, f = k[1:]
        ix = I.new_ix(lo, ext_)
        x = pair(f(P(ix)))
        if x is not None and isinstance(x[0], Num):
            its = {Tup([Const('#fam'), Num(P(ix), 'int'), x[0]]): x[1]}
            I.store_obj(d, I.obj(d).with_(items=its))
            return d
    I.store_obj(d, I.obj(d).with_(unknown=T.fresh('dict', *I.src_terms(v))))
    return d


def setitem(I, o, i, v):
    if isinstance(o, Alt):
        I.on_alt(o, lambda x: (setitem(I, x, i, v), NONE)[1])
        return
    if isinstance(v, Alt) and not (isinstance(o, Ref) and isinstance(I.st.heap[o.oid], (DictObj, ListObj))):
        I.on_alt(v, lambda x: (setitem(I, o, i, x), NONE)[1])
        return
    if isinstance(i, Alt):
        I.on_alt(i, lambda x: (setitem(I, o, x, v), NONE)[1])
        return
    if isinstance(o, Ref):
        ob = I.obj(o)
        if isinstance(ob, ArrObj):
            if isinstance(v, Const) and v.v is None and ob.dtype in ('int', 'float'):
                err(I, 'TypeError', 'None stored into a numeric array')
            AR.arr_setitem(I, o, i, v)
            return
        if isinstance(ob, ListObj):
            list_setitem(I, o, ob, i, v)
            return
        if isinstance(ob, DictObj):
            I.event('write', oid=o.oid, origin=ob.origin, what='dictionary item')
            dict_put(I, o, i, v)
            return
        if isinstance(ob, ExtObj):
            I.event('write', oid=o.oid, origin=ob.origin, what='item of external object')
            return
        if isinstance(ob, InstObj):
            m, owner = ob.cls.find('__setitem__')
            if m is not None:
                I.call_fn(Fn(m, owner.module.globals), [o, i, v], {})
                return
            err(I, 'TypeError', '%s object does not support item assignment' % ob.cls.name)
    if isinstance(o, Const) and o.v is None:
        err(I, 'TypeError', "'NoneType' object does not support item assignment")
    if isinstance(o, (Num, Tup)):
        err(I, 'TypeError', 'object does not support item assignment')


def list_setitem(I, ref, ob, i, v):
    I.event('write', oid=ref.oid, origin=ob.origin, what='list item')
    if isinstance(i, Num):
        c = i.s.const()
        if ob.items is not None and c is not None:
            c = int(c)
            if c < -len(ob.items) or c >= len(ob.items):
                err(I, 'IndexError', 'list assignment index out of range')
            its = list(ob.items)
            its[c] = v
            I.store_obj(ref, ob.with_(items=tuple(its)))
            return
        if ob.items is None and ob.comp[0] != 'phi':
            ix, ext, t = ob.comp[:3]
            a = (i.s + ix.args[1]).atom()
            if a is not None and a.op == 'ix' and a in I.loop_ixs and a.args[2] is ext:
                inv = {a: P(ix)}
                nv = I.sub_val(v, inv) if a is not ix else v
                I.store_obj(ref, ob.with_(comp=(ix, ext, nv)))
                return
            cond = eq(P(ix), i.s + ix.args[1])
            I.store_obj(ref, ob.with_(comp=(ix, ext, I.join_val(cond, v, t))))
            return
        if ob.items is not None:
            # [None] * n filled in a loop is handled through the loop promotion of every element
            its = tuple(I.join_val(eq(i.s, K(k)), v, x) for k, x in enumerate(ob.items))
            I.store_obj(ref, ob.with_(items=its))
            return
    if isinstance(i, Num) and ob.items is None and ob.comp[0] == 'phi':
        w = ob.comp[4] if len(ob.comp) > 4 else ()
        if w and w[-1][0] is i.s:
            w = w[:-1]
        I.store_obj(ref, ob.with_(comp=tuple(ob.comp[:4]) + (w + ((i.s, v),),)))
        return
    if isinstance(i, SliceV):
        n = I.list_len(ob)
        s = T.fresh('listwrite', *(I.src_terms(ref) + I.src_terms(v)))
        I.store_obj(ref, ob.with_(items=None, comp=(I.new_ix(ZERO, n), n, Top(s))))


def list_append(I, ref, v):
    ob = I.obj(ref)
    I.event('write', oid=ref.oid, origin=ob.origin, what='list append')
    if ob.items is not None:
        I.store_obj(ref, ob.with_(items=ob.items + (v,)))
        return
    if ob.comp[0] == 'phi':
        I.store_obj(ref, ob.with_(comp=('phi', ob.comp[1] + 1, ob.comp[2] + (v,)) + tuple(ob.comp[3:])))
        return
    n = ob.comp[1] + 1
    s = T.fresh('elem', *(I.src_terms(ref) + I.src_terms(v)))
    I.store_obj(ref, ob.with_(comp=(I.new_ix(ZERO, n), n, Top(s))))


def list_extend(I, ref, v):
    ob = I.obj(ref)
    I.event('write', oid=ref.oid, origin=ob.origin, what='list extend')
    its = concrete_items(I, v)
    if ob.items is not None and its is not None:
        I.store_obj(ref, ob.with_(items=ob.items + tuple(its)))
        return
    if ob.items == () and isinstance(v, Ref) and isinstance(I.obj(v), ListObj):
        I.store_obj(ref, ob.with_(items=None, comp=I.obj(v).comp))
        return
    if ob.items is None and ob.comp[0] == 'phi':
        I.store_obj(ref, ob.with_(comp=('phi', T.fresh('len'), ob.comp[2] + (('ext', v),)) + tuple(ob.comp[3:])))
        return
    n = T.fresh('len')
    s = T.fresh('elem', *(I.src_terms(ref) + I.src_terms(v)))
    I.store_obj(ref, ob.with_(items=None, comp=(I.new_ix(ZERO, n), n, Top(s))))


def concrete_items(I, v):
    if isinstance(v, Tup):
        return list(v.items)
    if isinstance(v, Ref):
        o = I.obj(v)
        if isinstance(o, ListObj) and o.items is not None:
            return list(o.items)
        if isinstance(o, ArrObj) and o.dims and o.dims[0].const() is not None and o.dims[0].const() <= 8:
            return [getitem(I, v, Num(K(k), 'int')) for k in range(int(o.dims[0].const()))]
        if isinstance(o, DictObj) and o.unknown is None:
            return list(o.items)
    if isinstance(v, (RangeV, ZipV, EnumV, MapV)):
        k = iterate(I, v, None)
        if k[0] == 'items':
            return k[1]
    return None


# ----------------------------------------------------------------------
# iteration
def iterate(I, v, node):
    """('items', [V]) or ('sym', extent, lo, ixS -> V)."""
    from .loops import UNROLL
    if isinstance(v, Tup):
        return 'items', list(v.items)
    if isinstance(v, RangeV):
        st = v.step.const()
        if st == 1:
            n = v.hi - v.lo
            c = n.const()
            if c is not None:
                if c <= UNROLL:
                    return 'items', [Num(v.lo + k, 'int') for k in range(max(0, int(c)))]
            else:
                sg = T.sign_of(n)
                if sg in ('-', '-0', '0'):
                    return 'items', []
            return 'sym', n, v.lo, lambda ix: Num(ix, 'int')
        if st == -1:
            n = v.lo - v.hi
            c = n.const()
            if c is not None and c <= UNROLL:
                return 'items', [Num(v.lo - k, 'int') for k in range(max(0, int(c)))]
            return 'sym', n, ZERO, lambda ix: Num(v.lo - ix, 'int')
        if st is not None and st > 1:
            n = T.fdiv(v.hi - v.lo + (v.step - 1), v.step)
            c = n.const()
            if c is not None and c <= UNROLL:
                return 'items', [Num(v.lo + v.step * k, 'int') for k in range(max(0, int(c)))]
            return 'sym', n, ZERO, lambda ix: Num(v.lo + v.step * ix, 'int')
        n = T.fresh('trips')
        return 'sym', n, ZERO, lambda ix: Num(T.opq('rangeitem', ix), 'int')
    if isinstance(v, EnumV):
        k = iterate(I, v.it, node)
        if k[0] == 'items':
            return 'items', [Tup([Num(v.start + n, 'int'), x]) for n, x in enumerate(k[1])]
        _, ext_, lo, f = k
        return 'sym', ext_, lo, lambda ix: Tup([Num(v.start + ix - lo, 'int'), f(ix)])
    if isinstance(v, ZipV):
        ks = [iterate(I, x, node) for x in v.its]
        if all(k[0] == 'items' for k in ks):
            return 'items', [Tup(t) for t in zip(*[k[1] for k in ks])]
        if any(k[0] == 'items' for k in ks):
            # align with the shortest concrete one
            n = min(len(k[1]) for k in ks if k[0] == 'items')
            fs = [(lambda j, k=k: k[1][j]) if k[0] == 'items' else (lambda j, k=k: k[3](k[2] + j)) for k in ks]
            return 'items', [Tup([f(j) for f in fs]) for j in range(n)]
        exts = [k[1] for k in ks]
        e = exts[0]
        for x in exts[1:]:
            if x is not e:
                sg = T.sign_of(e - x)
                if sg in ('+', '+0'):
                    e = x
                elif sg is None:
                    e = T.fun('min2', e, x)
        return 'sym', e, ZERO, lambda ix: Tup([k[3](k[2] + ix) for k in ks])
    if isinstance(v, MapV):
        ks = iterate(I, ZipV(v.its), node)
        if ks[0] == 'items':
            return 'items', [I.call(v.fn, list(t.items)) for t in ks[1]]
        return 'sym', ks[1], ks[2], lambda ix: I.call(v.fn, list(ks[3](ix).items))
    if isinstance(v, Ref):
        o = I.obj(v)
        if isinstance(o, ListObj):
            if o.items is not None:
                return 'items', list(o.items)
            if o.comp[0] == 'phi':
                return 'sym', o.comp[1], ZERO, lambda ix: Top(T.opq('item', o.comp[1], ix))
            ix0, e, t = o.comp[:3]
            return 'sym', e, ix0.args[1], lambda ix: I.sub_val(t, {ix0: ix})
        if isinstance(o, ArrObj):
            if o.dims is None:
                n = T.fresh('len')
                return 'sym', n, ZERO, lambda ix: Top(T.opq('item', *(I.src_terms(v) + [ix])))
            if not o.dims:
                err(I, 'TypeError', 'iteration over a 0-d array')
            c = o.dims[0].const()
            if c is not None and c <= UNROLL:
                return 'items', [getitem(I, v, Num(K(k), 'int')) for k in range(int(c))]
            return 'sym', o.dims[0], ZERO, lambda ix: getitem(I, v, Num(ix, 'int'))
        if isinstance(o, DictObj):
            dp = dict_pairs(I, o)
            if dp is not None and dp[0] == 'items':
                return 'items', [k for k, _ in dp[1]]
            if dp is not None:
                ix0 = dp[1]
                return 'sym', ix0.args[2], ix0.args[1], lambda ix: I.sub_val(dp[2], {ix0: ix})
            n = T.fresh('len')
            return 'sym', n, ZERO, lambda ix: Top(T.opq('key', *(I.src_terms(v) + [ix])))
        if isinstance(o, ExtObj):
            f = METHODS.get((o.kind, '__iter__'))
            if f is not None:
                return f(I, v, o)
            n = T.opq('len', *I.src_terms(v))
            return 'sym', n, ZERO, lambda ix: Top(T.opq('item', *(I.src_terms(v) + [ix])))
        if isinstance(o, InstObj):
            err(I, 'TypeError', '%s object is not iterable' % o.cls.name)
    if isinstance(v, Const) and v.v is None:
        err(I, 'TypeError', "'NoneType' object is not iterable")
    if isinstance(v, Const) and isinstance(v.v, str):
        return 'items', [Const(ch) for ch in v.v[:20]]
    if isinstance(v, Num):
        err(I, 'TypeError', 'scalar is not iterable')
    n = T.opq('len', v.s) if isinstance(v, Top) else T.fresh('len')
    base = [v.s] if isinstance(v, Top) else []
    return 'sym', n, ZERO, lambda ix: Top(T.opq('item', *(base + [ix])))


# ----------------------------------------------------------------------
# operators
BIN = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div', ast.FloorDiv: 'fdiv', ast.Mod: 'mod',
       ast.Pow: 'pow', ast.MatMult: 'matmul', ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor',
       ast.LShift: 'shl', ast.RShift: 'shr'}
DUNDER = {'add': '__add__', 'sub': '__sub__', 'mul': '__mul__', 'div': '__truediv__', 'matmul': '__matmul__'}


def is_cvx(I, v):
    if isinstance(v, Ref):
        o = I.st.heap.get(v.oid)
        return isinstance(o, ExtObj) and o.kind.startswith('cvxpy.')
    return False


def binop(I, op, a, b):
    name = op if isinstance(op, str) else BIN[type(op)]
    if isinstance(a, Alt):
        return I.on_alt(a, lambda x: binop(I, name, x, b))
    if isinstance(b, Alt):
        return I.on_alt(b, lambda x: binop(I, name, a, x))
    for v in (a, b):
        if isinstance(v, Undef):
            err(I, 'UnboundLocalError', 'unbound value used')
        if isinstance(v, Const) and v.v is None:
            err(I, 'TypeError', 'unsupported operand type(s) for %s: None' % name)
    if is_cvx(I, a) or is_cvx(I, b):
        from . import ext_models
        return ext_models.cvx_binop(I, name, a, b)
    # strings
    if isinstance(a, Const) and isinstance(a.v, str):
        if name == 'mod':
            return Const('<formatted>')
        if name == 'add':
            if isinstance(b, Const) and isinstance(b.v, str):
                return Const(a.v + b.v)
            if isinstance(b, (Num, Ref, Tup)):
                err(I, 'TypeError', 'can only concatenate str to str')
            return Const('<str>')
        if name == 'mul':
            return Const('<str>')
        err(I, 'TypeError', 'unsupported operand of str')
    if isinstance(b, Const) and isinstance(b.v, str):
        if isinstance(a, (Num, Tup)) or isinstance(a, Ref):
            err(I, 'TypeError', 'unsupported operand of str')
        return Top(T.fresh('str'))
    la = isinstance(a, Ref) and isinstance(I.st.heap.get(a.oid), ListObj)
    lb = isinstance(b, Ref) and isinstance(I.st.heap.get(b.oid), ListObj)
    if name == 'add' and ((la and lb) or (isinstance(a, Tup) and isinstance(b, Tup))):
        if isinstance(a, Tup):
            return Tup(a.items + b.items)
        oa, ob = I.obj(a), I.obj(b)
        if oa.items is not None and ob.items is not None:
            return I.alloc(ListObj(oa.items + ob.items, site=I.site()))
        return list_concat(I, oa, ob)
    if name == 'mul' and (la or lb or isinstance(a, Tup) or isinstance(b, Tup)) and \
            (isinstance(a, Num) or isinstance(b, Num)):
        seq, n = (a, b) if isinstance(b, Num) else (b, a)
        its = concrete_items(I, seq)
        c = n.s.const()
        if its is not None and c is not None and c * len(its) <= 12:
            r = its * int(c)
            return Tup(r) if isinstance(seq, Tup) else I.alloc(ListObj(r, site=I.site()))
        if its is not None and len(its) == 1:
            ix = I.new_ix(ZERO, n.s)
            return I.alloc(ListObj(None, comp=(ix, n.s, its[0]), site=I.site()))
        return Top(T.fresh('rep', *I.src_terms(seq)))
    if (la or lb) and not (isinstance(a, Ref) and I.is_arr(a)) and not (isinstance(b, Ref) and I.is_arr(b)):
        if not (isinstance(a, Top) or isinstance(b, Top)):
            err(I, 'TypeError', 'unsupported operand type(s) for %s: list' % name)
    for v in (a, b):
        if isinstance(v, Ref):
            o = I.st.heap.get(v.oid)
            if isinstance(o, InstObj):
                m, owner = o.cls.find(DUNDER.get(name, '__none__'))
                if m is not None and v is a:
                    return I.call_fn(Fn(m, owner.module.globals), [a, b], {})
                err(I, 'TypeError', 'unsupported operand type(s) for %s: %s' % (name, o.cls.name))
            if isinstance(o, DictObj):
                err(I, 'TypeError', 'unsupported operand type(s) for %s: dict' % name)
        if isinstance(v, (Fn, Bound, Cls)):
            err(I, 'TypeError', 'unsupported operand type(s) for %s: function' % name)
    try:
        if name == 'matmul':
            from . import np_models
            return np_models.dot(I, a, b)
        x, y = as_ar(I, a), as_ar(I, b)
        r = ew_bin(I, name, x, y)
        return result(I, r)
    except UnkShape:
        return Top(T.fresh(name, *(I.src_terms(a) + I.src_terms(b))))


def list_concat(I, oa, ob):
    n = I.list_len(oa) + I.list_len(ob)
    na = I.list_len(oa)
    ix = I.new_ix(ZERO, n)

    def elem(o, s):
        if o.items is not None:
            if not o.items:
                return None
            return pick(I, o.items, s)
        if o.comp[0] == 'phi':
            return Top(T.fresh('item'))
        return I.sub_val(o.comp[2], {o.comp[0]: s + o.comp[0].args[1]})
    x, y = elem(oa, P(ix)), elem(ob, P(ix) - na)
    v = y if x is None else x if y is None else I.join_val(lt(P(ix), na), x, y)
    return I.alloc(ListObj(None, comp=(ix, n, v), site=I.site()))


def ew_bin(I, name, x, y):
    fns = {'add': lambda p, q: p + q, 'sub': lambda p, q: p - q, 'mul': lambda p, q: p * q,
           'fdiv': T.fdiv, 'mod': T.mod, 'pow': lambda p, q: T.fun('pow', p, q),
           'and': lambda p, q: mk('and', p, q), 'or': lambda p, q: mk('or', p, q)}
    dt = None
    if name == 'div':
        dims, (p, q) = AR.broadcast(I, [x, y], 'division')
        I.event('div', num=p, den=q, dims=dims, scalar=(not x.dims and not y.dims))
        if q.const() == 0 and not dims and x.dtype in ('int', 'float') and y.dtype in ('int', 'float'):
            err(I, 'ZeroDivisionError', 'division by zero')
        return Ar(dims, T.div(p, q), 'float')
    if name in ('and', 'or', 'xor'):
        if x.dtype == 'bool' and y.dtype == 'bool' and name != 'xor':
            return AR.ew(I, fns[name], [x, y], 'bool', name)
        return AR.ew(I, lambda p, q: T.opq(name, p, q), [x, y], 'any', name)
    if name in ('shl', 'shr'):
        return AR.ew(I, lambda p, q: T.opq(name, p, q), [x, y], 'int', name)
    if name == 'fdiv':
        yc = y.body.const()
        if yc == 0:
            err(I, 'ZeroDivisionError', 'division by zero')
    dts = {x.dtype, y.dtype}
    if dts <= {'int', 'bool'}:
        dt = 'int'
    elif 'float' in dts and dts <= {'int', 'bool', 'float'}:
        dt = 'float'
    elif 'str' in dts:
        err(I, 'TypeError', 'arithmetic with a string')
    else:
        dt = 'any' if 'any' in dts else 'float'
    r = AR.ew(I, fns[name], [x, y], dt, name)
    return r


def unop(I, op, v):
    if isinstance(v, Alt):
        return I.on_alt(v, lambda x: unop(I, op, x))
    if isinstance(v, Const) and v.v is None:
        err(I, 'TypeError', 'bad operand type for unary operator: None')
    if is_cvx(I, v):
        from . import ext_models
        return ext_models.cvx_binop(I, 'mul', Num(K(-1), 'int'), v)
    try:
        a = as_ar(I, v)
    except UnkShape:
        return Top(T.fresh('un', *I.src_terms(v)))
    if isinstance(op, ast.USub):
        return result(I, Ar(a.dims, -a.body, a.dtype if a.dtype != 'bool' else 'int'))
    if isinstance(op, ast.UAdd):
        return result(I, a)
    if isinstance(op, ast.Invert):
        if a.dtype == 'bool':
            return result(I, Ar(a.dims, not_(a.body), 'bool'))
        return result(I, Ar(a.dims, -a.body - 1, a.dtype))
    return Top(T.fresh('un', *I.src_terms(v)))


def is_value_num(I, v):
    return isinstance(v, Num) or (isinstance(v, Ref) and I.is_arr(v))


def compare(I, op, a, b):
    if isinstance(op, (ast.Is, ast.IsNot)):
        if isinstance(a, Alt):
            return I.on_alt(a, lambda x: compare(I, op, x, b)) if False else alt_bool(I, a, lambda x: is_same(I, x, b), op)
        if isinstance(b, Alt):
            return alt_bool(I, b, lambda x: is_same(I, a, x), op)
        r = is_same(I, a, b)
        return Num(not_(r) if isinstance(op, ast.IsNot) else r, 'bool')
    if isinstance(a, Alt):
        return I.on_alt(a, lambda x: compare(I, op, x, b))
    if isinstance(b, Alt):
        return I.on_alt(b, lambda x: compare(I, op, a, x))
    if isinstance(op, (ast.In, ast.NotIn)):
        r = contains(I, a, b)
        return Num(not_(r) if isinstance(op, ast.NotIn) else r, 'bool')
    if is_cvx(I, a) or is_cvx(I, b):
        from . import ext_models
        return ext_models.cvx_compare(I, op, a, b)
    if isinstance(a, Const) or isinstance(b, Const):
        if isinstance(a, Const) and isinstance(b, Const):
            if isinstance(op, ast.Eq):
                return Num(ONE if a.v == b.v else ZERO, 'bool')
            if isinstance(op, ast.NotEq):
                return Num(ONE if a.v != b.v else ZERO, 'bool')
            if isinstance(a.v, str) and isinstance(b.v, str):
                return Num(T.fresh('strcmp'), 'bool')
            err(I, 'TypeError', 'ordering comparison of incompatible types')
        c, o = (a, b) if isinstance(a, Const) else (b, a)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            ne = isinstance(op, ast.NotEq)
            if isinstance(o, Ref) and I.is_arr(o) and I.obj(o).dims is not None:
                d = I.obj(o).dims
                s = ZERO if c.v is None or I.obj(o).dtype in ('int', 'float', 'bool') else \
                    T.opq('streq', I.body(o), P(A('str', c.v)))
                return I.new_arr(d, not_(s) if ne else s, 'bool')
            if isinstance(o, Top):
                s = P(A('bool', T.opq('eq', o.s, P(A('str', str(c.v))))))
                return Num(not_(s) if ne else s, 'bool')
            if isinstance(o, Num) and c.v is not None and o.typ == 'any':
                s = eq(o.s, P(A('str', c.v)))
                return Num(not_(s) if ne else s, 'bool')
            return Num(ONE if ne else ZERO, 'bool')
        if isinstance(o, Top):
            return Top(T.fresh('cmp', o.s))
        err(I, 'TypeError', 'ordering comparison with %r' % (c.v,))
    if isinstance(a, (Ext, Cls, Fn, Bound)) or isinstance(b, (Ext, Cls, Fn, Bound)):
        s = ONE if a == b else (ZERO if type(a) is type(b) or not (isinstance(a, Top) or isinstance(b, Top))
                                else P(A('bool', T.fresh('cmp'))))
        return Num(not_(s) if isinstance(op, ast.NotEq) else s, 'bool')
    if isinstance(a, Tup) and isinstance(b, Tup):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if len(a.items) != len(b.items):
                s = ZERO
            else:
                s = ONE
                for x, y in zip(a.items, b.items):
                    s = mk('and', s, I.truth(compare(I, ast.Eq(), x, y)))
            return Num(not_(s) if isinstance(op, ast.NotEq) else s, 'bool')
    if (isinstance(a, Tup) and isinstance(b, Num)) or (isinstance(b, Tup) and isinstance(a, Num)):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            return Num(ONE if isinstance(op, ast.NotEq) else ZERO, 'bool')
        err(I, 'TypeError', 'ordering comparison of a tuple with a number')
    la = isinstance(a, Ref) and isinstance(I.st.heap.get(a.oid), (ListObj, DictObj, InstObj, ExtObj))
    lb = isinstance(b, Ref) and isinstance(I.st.heap.get(b.oid), (ListObj, DictObj, InstObj, ExtObj))
    if (la or lb) and not (I.is_arr(a) or I.is_arr(b)):
        if a == b and isinstance(op, (ast.Eq, ast.NotEq)):
            return Num(ONE if isinstance(op, ast.Eq) else ZERO, 'bool')
        return Num(P(A('bool', T.fresh('cmp', *(I.src_terms(a) + I.src_terms(b))))), 'bool')
    fns = {ast.Eq: eq, ast.NotEq: lambda p, q: not_(eq(p, q)), ast.Lt: lt, ast.LtE: le,
           ast.Gt: lambda p, q: lt(q, p), ast.GtE: lambda p, q: le(q, p)}
    try:
        x, y = as_ar(I, a), as_ar(I, b)
        return result(I, AR.ew(I, fns[type(op)], [x, y], 'bool', 'comparison'))
    except UnkShape:
        #  the unknown side may be an array: so may the result
        return Top(T.fresh('cmp', *(I.src_terms(a) + I.src_terms(b))))


def alt_bool(I, alt, f, op):
    r = ZERO
    for c, x in reversed(alt.alts):
        r = bwhere(I, c, f(x), r)
    return Num(not_(r) if isinstance(op, ast.IsNot) else r, 'bool')


def bwhere(I, c, a, b):
    ca, cb = a.const(), b.const()
    if ca == 1 and cb == 0:
        return c
    if ca == 0 and cb == 1:
        return not_(c)
    if ca == 1:
        return mk('or', c, b)
    if ca == 0:
        return mk('and', not_(c), b)
    if cb == 0:
        return mk('and', c, a)
    return where(c, a, b)


def is_same(I, a, b):
    """Identity comparison as a boolean term."""
    if isinstance(a, Const) and isinstance(b, Const):
        return ONE if a.v is b.v or a.v == b.v else ZERO
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Const) and x.v is None:
            if isinstance(y, Top):
                return P(A('bool', T.opq('isnone', y.s)))
            return ZERO
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a == b:
            return ONE
        return ZERO if a.oid != b.oid else T.fresh('same')
    if isinstance(a, Num) and isinstance(b, Num):
        # x is True / x is False
        if a.typ == 'bool' and b.typ == 'bool':
            return eq(a.s, b.s)
        if 'npbool' in (a.typ, b.typ):
            return ZERO
        if a.typ != b.typ and 'any' not in (a.typ, b.typ):
            return ZERO
        return P(A('bool', T.fresh('is', a.s, b.s)))
    if isinstance(a, Top) or isinstance(b, Top):
        return P(A('bool', T.fresh('is', *(I.src_terms(a) + I.src_terms(b)))))
    return ONE if a == b else ZERO


def contains(I, a, b):
    if isinstance(b, Const) and isinstance(b.v, str):
        if isinstance(a, Const) and isinstance(a.v, str):
            return ONE if a.v in b.v else ZERO
        return P(A('bool', T.fresh('in')))
    its = concrete_items(I, b)
    if its is not None:
        r = ZERO
        for x in its:
            if isinstance(a, Const) or isinstance(x, Const):
                t = ONE if a == x else ZERO
                if isinstance(a, Top):
                    t = P(A('bool', T.fresh('in', a.s)))
            elif isinstance(a, Num) and isinstance(x, Num):
                t = eq(a.s, x.s)
            else:
                t = ONE if a == x else P(A('bool', T.fresh('in')))
            r = mk('or', r, t)
        return r
    if isinstance(b, Ref) and isinstance(I.st.heap.get(b.oid), DictObj):
        o = I.obj(b)
        if a in o.items:
            return ONE
        if isinstance(a, Const) and o.unknown is None:
            return ZERO
    if isinstance(b, Const) and b.v is None:
        err(I, 'TypeError', "argument of type 'NoneType' is not iterable")
    return P(A('bool', T.fresh('in', *(I.src_terms(a) + I.src_terms(b)))))


# ----------------------------------------------------------------------
# calls
def call_ext(I, name, args, kw):
    f = EXT.get(name)
    short = name.split('.')[-1]
    if f is None:
        if short in EXC_BASES:
            return Exc(short, tuple(args))
        f = find_ext(name)
    if f is None:
        I.event('unmodelled', name=name)
        for v in list(args) + list(kw.values()):
            if isinstance(v, Const) and v.v is None:
                pass
        from . import ext_models
        r = ext_models.default_ext(I, name, args, kw)
        return r
    return dist_call(I, f, list(args), dict(kw), name)


def find_ext(name):
    """Same function under another public path (sklearn.utils.validation.check_array ...)."""
    parts = name.split('.')
    root = parts[0]
    for k, f in EXT.items():
        if k.startswith(root + '.') and k.endswith('.' + parts[-1]) and root in ('sklearn', 'scipy', 'joblib', 'numpy') \
                and parts[-1][:1] != '_':
            if root == 'numpy' and ('.random.' in name) != ('.random.' in k):
                continue
            EXT[name] = f
            return f
    return None


NO_DIST = {'builtins.isinstance', 'builtins.print', 'builtins.type', 'builtins.hasattr', 'builtins.getattr',
           'builtins.list', 'builtins.tuple', 'builtins.zip', 'builtins.enumerate', 'builtins.callable',
           'joblib.Parallel', 'joblib.delayed', 'copy.deepcopy', 'copy.copy', 'sklearn.base.clone'}


HARMLESS = {('joblib.Parallel', 'n_jobs'), ('joblib.Parallel', 'backend'), ('joblib.Parallel', 'prefer'),
            ('joblib.Parallel', 'pre_dispatch'), ('joblib.Parallel', 'require'), ('builtins.print', 'end'), ('builtins.print', 'flush'), ('builtins.print', 'sep'), ('numpy.errstate', 'invalid'),
            ('numpy.errstate', 'divide'), ('numpy.errstate', 'over'), ('numpy.errstate', 'under'), ('numpy.errstate', 'all'),
            ('sklearn.utils.check_X_y', 'accept_sparse'), ('sklearn.model_selection._split.check_cv', 'classifier')}


def downgrade(I, r, name, left):
    """what a call gives whose keyword arguments the model does not know"""
    tag = '%s(%s)' % (name.split('.')[-1], ','.join(left))
    if isinstance(r, Ref) and isinstance(I.st.heap.get(r.oid), ArrObj):
        o = I.st.heap[r.oid]
        if o.body is None:
            return r
        from . import np_models
        return np_models.opaque_arr(I, o.dims, tag, r)
    if isinstance(r, Num):
        return Num(T.fresh(tag, r.s), r.typ)
    return r


class Kw(dict):
    """keyword arguments that know which of them were looked at"""

    def __init__(self, *a, **k):
        dict.__init__(self, *a, **k)
        self.read = set()

    def get(self, k, d=None):
        self.read.add(k)
        return dict.get(self, k, d)

    def __getitem__(self, k):
        self.read.add(k)
        return dict.__getitem__(self, k)

    def __contains__(self, k):
        self.read.add(k)
        return dict.__contains__(self, k)

    def pop(self, k, *d):
        self.read.add(k)
        return dict.pop(self, k, *d)

    def __iter__(self):
        self.read.update(dict.keys(self))
        return dict.__iter__(self)

    def keys(self):
        self.read.update(dict.keys(self))
        return dict.keys(self)

    def items(self):
        self.read.update(dict.keys(self))
        return dict.items(self)

    def values(self):
        self.read.update(dict.keys(self))
        return dict.values(self)


def dist_call(I, f, args, kw, name):
    """Distribute alternatives over the arguments, then run the model."""
    if name not in NO_DIST:
        for k, v in enumerate(args):
            if isinstance(v, Alt):
                return I.on_alt(v, lambda x, k=k: dist_call(I, f, args[:k] + [x] + args[k + 1:], kw, name))
        for k, v in kw.items():
            if isinstance(v, Alt):
                return I.on_alt(v, lambda x, k=k: dist_call(I, f, args, dict(kw, **{k: x}), name))
    for v in args:
        if isinstance(v, Undef):
            err(I, 'UnboundLocalError', 'unbound value used')
    try:
        t = Kw(kw)
        r = f(I, args, t)
        left = [k for k in kw if k not in t.read and (name, k) not in HARMLESS]
        if left:
            I.event('unmodelled', name='%s(%s)' % (name, ', '.join(left)))
            r = downgrade(I, r, name, left)
        return r
    except UnkShape:
        srcs = []
        for v in list(args) + list(kw.values()):
            srcs += I.src_terms(v)
        return Top(T.fresh(name.split('.')[-1], *srcs))


def call_method(I, obj, name, args, kw):
    if isinstance(obj, Alt):
        return I.on_alt(obj, lambda x: call_method(I, x, name, args, kw))
    if name == 'ext_init':
        return ext_init(I, obj.items[1].v, obj.items[0], args, kw)
    if isinstance(obj, Ref):
        o = I.st.heap.get(obj.oid)
        kind = {ArrObj: 'array', ListObj: 'list', DictObj: 'dict', InstObj: 'inst', ExtObj: 'ext'}[type(o)]
        if kind == 'ext':
            f = METHODS.get((o.kind, name)) or METHODS.get((o.kind, '*'))
            if f is None:
                I.event('unmodelled', name=o.kind + '.' + name)
                srcs = I.src_terms(obj)
                for v in list(args) + list(kw.values()):
                    srcs += I.src_terms(v)
                return Top(T.fresh(name, *srcs))
            if METHODS.get((o.kind, name)) is None:
                return f(I, obj, args, kw, name)
            return dist_call(I, lambda I2, a, k: f(I2, obj, a, k), list(args), dict(kw), o.kind + '.' + name)
        if kind == 'inst':
            from . import ext_models
            return ext_models.inst_ext_method(I, obj, name, args, kw)
        f = METHODS.get((kind, name))
        if f is None and kind == 'array':
            g = EXT.get('numpy.' + name)
            if g is not None:
                return dist_call(I, g, [obj] + list(args), dict(kw), 'numpy.' + name)
        if f is None:
            I.event('unmodelled', name=kind + '.' + name)
            return Top(T.fresh(name, *I.src_terms(obj)))
        return dist_call(I, lambda I2, a, k: f(I2, obj, a, k), list(args), dict(kw), kind + '.' + name)
    if isinstance(obj, Num):
        g = EXT.get('numpy.' + name)
        if name in ('astype', 'item', 'copy'):
            if name == 'astype' and dtype_of(args[0]) == 'int':
                return Num(T.fun('int', obj.s), 'int')
            return obj
        if g is not None and obj.typ != 'str':
            return dist_call(I, g, [obj] + list(args), dict(kw), 'numpy.' + name)
        if name == 'is_integer':
            return Num(T.fresh('isint', obj.s), 'bool')
        if name in NOT_OF_NUMBERS:
            err(I, 'AttributeError', "a number has no attribute '%s'" % name)
        return Top(T.fresh(name, obj.s))
    if isinstance(obj, Const):
        if isinstance(obj.v, str):
            return str_method(I, obj, name, args, kw)
        return Top(T.fresh(name))
    if isinstance(obj, Tup):
        if name in ('index', 'count'):
            return Num(T.fresh(name), 'int')
        return Top(T.fresh(name))
    return Top(T.fresh(name))


NOT_OF_NUMBERS = set('''fit predict predict_proba fit_transform transform get_params set_params score generate_bags append
extend items keys values split update pop'''.split())


def str_method(I, obj, name, args, kw):
    if name in ('lower', 'upper', 'strip', 'title', 'capitalize'):
        return Const(getattr(obj.v, name)())
    if name in ('startswith', 'endswith') and args and isinstance(args[0], Const) and isinstance(args[0].v, str):
        return Num(ONE if getattr(obj.v, name)(args[0].v) else ZERO, 'bool')
    if name in ('format', 'join', 'replace', 'ljust', 'rjust', 'zfill'):
        return Const('<formatted>')
    return Top(T.fresh('str.' + name))


def call_partial(I, p, args, kw):
    from . import ext_models
    return ext_models.call_partial(I, p, args, kw)


def call_extobj(I, ref, o, args, kw):
    f = METHODS.get((o.kind, '__call__'))
    if f is None:
        err(I, 'TypeError', '%s object is not callable' % o.kind)
    return dist_call(I, lambda I2, a, k: f(I2, ref, a, k), list(args), dict(kw), o.kind)


def unknown_call(I, f, args, kw):
    srcs = [f.s]
    for v in list(args) + list(kw.values()):
        srcs += I.src_terms(v)
    return Top(T.fresh('call', *srcs))


def arr_assign_all(I, ref, v):
    AR.assign_all(I, ref, v)
