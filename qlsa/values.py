"""Abstract values and heap objects."""
from .terms import S, P, K, A, opq, ZERO, ONE


class V(object):
    __slots__ = ()


class Const(V):
    """None, strings, Ellipsis, NotImplemented."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Const) and type(o.v) is type(self.v) and o.v == self.v

    def __hash__(self):
        return hash(('Const', self.v))

    def __repr__(self):
        return 'Const(%r)' % (self.v,)


NONE = Const(None)


class Num(V):
    __slots__ = ('s', 'typ')

    def __init__(self, s, typ='any'):
        self.s = s if isinstance(s, S) else (P(s) if not isinstance(s, (int, float)) else K(s))
        self.typ = typ

    def __eq__(self, o):
        return isinstance(o, Num) and o.s is self.s

    def __hash__(self):
        return hash(('Num', self.s))

    def __repr__(self):
        return 'Num(%s,%s)' % (self.s, self.typ)


class Ref(V):
    __slots__ = ('oid', 'sub')

    def __init__(self, oid, sub=()):
        self.oid = oid
        self.sub = sub

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid and o.sub == self.sub

    def __hash__(self):
        return hash(('Ref', self.oid, self.sub))

    def __repr__(self):
        return 'Ref(%s%s)' % (self.oid, self.sub or '')


class Tup(V):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, Tup) and o.items == self.items

    def __hash__(self):
        return hash(('Tup', self.items))

    def __repr__(self):
        return 'Tup%r' % (self.items,)


class Fn(V):
    """A function of the repository (with its closure frame)."""
    __slots__ = ('info', 'frame')

    def __init__(self, info, frame=None):
        self.info = info
        self.frame = frame

    def __eq__(self, o):
        return isinstance(o, Fn) and o.info is self.info and o.frame == self.frame

    def __hash__(self):
        return hash(('Fn', id(self.info)))

    def __repr__(self):
        return 'Fn(%s)' % self.info.qualname


class Bound(V):
    __slots__ = ('self_', 'fn')

    def __init__(self, self_, fn):
        self.self_ = self_
        self.fn = fn

    def __eq__(self, o):
        return isinstance(o, Bound) and o.self_ == self.self_ and o.fn == self.fn

    def __hash__(self):
        return hash(('Bound', self.self_, self.fn))

    def __repr__(self):
        return 'Bound(%r,%r)' % (self.self_, self.fn)


class Cls(V):
    __slots__ = ('ci',)

    def __init__(self, ci):
        self.ci = ci

    def __eq__(self, o):
        return isinstance(o, Cls) and o.ci is self.ci

    def __hash__(self):
        return hash(('Cls', id(self.ci)))

    def __repr__(self):
        return 'Cls(%s)' % self.ci.name


class Ext(V):
    """External module, function or class by dotted name."""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(('Ext', self.name))

    def __repr__(self):
        return 'Ext(%s)' % self.name


class ExtBound(V):
    """Method of a modelled object (array, list, external object...)."""
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ExtBound) and o.obj == self.obj and o.name == self.name

    def __hash__(self):
        return hash(('ExtBound', self.obj, self.name))

    def __repr__(self):
        return 'ExtBound(%r.%s)' % (self.obj, self.name)


class Partial(V):
    """delayed(f) / Parallel() / functools-like wrappers."""
    __slots__ = ('kind', 'fn', 'args')

    def __init__(self, kind, fn, args=()):
        self.kind = kind
        self.fn = fn
        self.args = args

    def __eq__(self, o):
        return isinstance(o, Partial) and (o.kind, o.fn, o.args) == (self.kind, self.fn, self.args)

    def __hash__(self):
        return hash(('Partial', self.kind))


class Mod(V):
    __slots__ = ('m',)

    def __init__(self, m):
        self.m = m

    def __eq__(self, o):
        return isinstance(o, Mod) and o.m is self.m

    def __hash__(self):
        return hash(('Mod', id(self.m)))


class SliceV(V):
    __slots__ = ('a', 'b', 'c')

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def __eq__(self, o):
        return isinstance(o, SliceV) and (o.a, o.b, o.c) == (self.a, self.b, self.c)

    def __hash__(self):
        return hash(('SliceV', self.a, self.b, self.c))


class Super(V):
    __slots__ = ('ci', 'self_')

    def __init__(self, ci, self_):
        self.ci = ci
        self.self_ = self_


class RangeV(V):
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __eq__(self, o):
        return isinstance(o, RangeV) and (o.lo, o.hi, o.step) == (self.lo, self.hi, self.step)

    def __hash__(self):
        return hash(('RangeV', self.lo, self.hi))


class EnumV(V):
    __slots__ = ('it', 'start')

    def __init__(self, it, start):
        self.it, self.start = it, start


class ZipV(V):
    __slots__ = ('its',)

    def __init__(self, its):
        self.its = tuple(its)


class MapV(V):
    __slots__ = ('fn', 'its')

    def __init__(self, fn, its):
        self.fn, self.its = fn, tuple(its)


class GenV(V):
    """Unevaluated generator expression (evaluated by the consumer, in the frame it was written in)."""
    __slots__ = ('node', 'frame', 'func')

    def __init__(self, node, frame, func):
        self.node, self.frame, self.func = node, frame, func


class Exc(V):
    __slots__ = ('name', 'args', 'tag')

    def __init__(self, name, args=(), tag=None):
        self.name = name
        self.args = args
        self.tag = tag

    def __eq__(self, o):
        return isinstance(o, Exc) and o.name == self.name

    def __hash__(self):
        return hash(('Exc', self.name))

    def __repr__(self):
        return 'Exc(%s%s)' % (self.name, ':' + str(self.tag) if self.tag else '')


class Top(V):
    """Unknown value; s keeps the sources it may depend on."""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, Top) and o.s is self.s

    def __hash__(self):
        return hash(('Top', self.s))

    def __repr__(self):
        return 'Top(%s)' % (self.s,)


class Alt(V):
    """Value that differs by path: ((cond, value), ...); conds are mutually exclusive."""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = tuple(alts)

    def __eq__(self, o):
        return isinstance(o, Alt) and o.alts == self.alts

    def __hash__(self):
        return hash(('Alt', self.alts))

    def __repr__(self):
        return 'Alt(%s)' % (', '.join('%s: %r' % (c, v) for c, v in self.alts))


class Undef(V):
    """Variable that is unbound on some path."""
    __slots__ = ()

    def __eq__(self, o):
        return isinstance(o, Undef)

    def __hash__(self):
        return hash('Undef')

    def __repr__(self):
        return 'Undef'


UNDEF = Undef()


# ----------------------------------------------------------------------
# heap objects (replaced, never mutated)
class Obj(object):
    __slots__ = ('ixs',)


class ArrObj(Obj):
    """dims: tuple of S; body: S over b(k, dims[k]); view: None or (Ref base, tuple of index S over own b-vars)."""
    __slots__ = ('dims', 'body', 'dtype', 'origin', 'view', 'site')

    def __init__(self, dims, body, dtype='float', origin='alloc', view=None, site=None, ixs=()):
        self.dims = dims
        self.body = body
        self.dtype = dtype
        self.origin = origin
        self.view = view
        self.site = site
        self.ixs = ixs

    def with_(self, **kw):
        o = ArrObj(self.dims, self.body, self.dtype, self.origin, self.view, self.site, self.ixs)
        for k, v in kw.items():
            setattr(o, k, v)
        return o


class ListObj(Obj):
    """items: tuple of V, or None with comp=(ix atom, extent S, template V)."""
    __slots__ = ('items', 'comp', 'origin', 'site', 'nd')

    def __init__(self, items=(), comp=None, origin='alloc', site=None, ixs=(), nd=False):
        self.nd = nd            # a one-dimensional numpy array of objects
        self.items = tuple(items) if items is not None else None
        self.comp = comp
        self.origin = origin
        self.site = site
        self.ixs = ixs

    def with_(self, **kw):
        o = ListObj(self.items, self.comp, self.origin, self.site, self.ixs, self.nd)
        for k, v in kw.items():
            setattr(o, k, v)
        return o


class DictObj(Obj):
    """items: dict from hashable V to V, or None when unknown."""
    __slots__ = ('items', 'origin', 'site', 'unknown')

    def __init__(self, items=None, origin='alloc', site=None, ixs=(), unknown=None):
        self.items = dict(items or {})
        self.origin = origin
        self.site = site
        self.ixs = ixs
        self.unknown = unknown     # S: value of keys that are not known

    def with_(self, **kw):
        o = DictObj(self.items, self.origin, self.site, self.ixs, self.unknown)
        for k, v in kw.items():
            setattr(o, k, v)
        return o


class InstObj(Obj):
    __slots__ = ('cls', 'attrs', 'origin', 'site')

    def __init__(self, cls, attrs=None, origin='alloc', site=None, ixs=()):
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.origin = origin
        self.site = site
        self.ixs = ixs

    def with_(self, **kw):
        o = InstObj(self.cls, self.attrs, self.origin, self.site, self.ixs)
        for k, v in kw.items():
            setattr(o, k, v)
        return o


class ExtObj(Obj):
    """Modelled external object. kind: dotted class or role; attrs: dict of V / terms."""
    __slots__ = ('kind', 'attrs', 'origin', 'site')

    def __init__(self, kind, attrs=None, origin='alloc', site=None, ixs=()):
        self.kind = kind
        self.attrs = dict(attrs or {})
        self.origin = origin
        self.site = site
        self.ixs = ixs

    def with_(self, **kw):
        o = ExtObj(self.kind, self.attrs, self.origin, self.site, self.ixs)
        for k, v in kw.items():
            setattr(o, k, v)
        return o


class FrameObj(Obj):
    __slots__ = ('vars', 'parent', 'func')

    def __init__(self, vars=None, parent=None, func=None, ixs=()):
        self.vars = dict(vars or {})
        self.parent = parent
        self.func = func
        self.ixs = ixs

    def with_(self, **kw):
        o = FrameObj(self.vars, self.parent, self.func, self.ixs)
        for k, v in kw.items():
            setattr(o, k, v)
        return o
