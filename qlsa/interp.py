"""Abstract interpreter for the Python subset used by the repository."""
import ast

from . import terms as T
from .terms import S, Atom, A, K, P, ZERO, ONE, where, mk, eq, lt, le, not_
from .values import *
from . import loader
from .loader import FuncInfo, ClassInfo, AnalysisBroken

MAX_DEPTH = 60


class RaiseSignal(Exception):
    def __init__(self, exc):
        self.exc = exc


class Unsupported(Exception):
    pass


class State(object):
    __slots__ = ('heap', 'facts', 'ivs')

    def __init__(self, heap=None, facts=None, ivs=None):
        self.heap = dict(heap or {})
        self.facts = dict(facts or {})
        self.ivs = dict(ivs or {})

    def copy(self):
        return State(self.heap, self.facts, self.ivs)


class TryCtx(object):
    __slots__ = ('handlers', 'frames', 'pending', 'node', 'func')

    def __init__(self, handlers, frames, node, func):
        self.handlers = handlers
        self.frames = frames
        self.pending = []
        self.node = node
        self.func = func


class Event(object):
    __slots__ = ('kind', 'where', 'line', 'data', 'path')

    def __init__(self, kind, where, line, data, path):
        self.kind = kind
        self.where = where
        self.line = line
        self.data = data
        self.path = path

    def __repr__(self):
        return '%s@%s:%s %r' % (self.kind, self.where, self.line, self.data)


EXC_BASES = {
    'BaseException': None, 'Exception': 'BaseException', 'ValueError': 'Exception', 'TypeError': 'Exception',
    'AttributeError': 'Exception', 'LookupError': 'Exception', 'KeyError': 'LookupError', 'IndexError': 'LookupError',
    'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError', 'ArithmeticError': 'Exception',
    'ZeroDivisionError': 'ArithmeticError', 'FloatingPointError': 'ArithmeticError', 'OverflowError': 'ArithmeticError',
    'NameError': 'Exception', 'UnboundLocalError': 'NameError', 'ImportError': 'Exception', 'OSError': 'Exception',
    'AssertionError': 'Exception', 'StopIteration': 'Exception', 'KeyboardInterrupt': 'BaseException',
    'NotFittedError': ('ValueError', 'AttributeError'), 'LinAlgError': 'ValueError', 'Warning': 'Exception',
    'UserWarning': 'Warning', 'ConvergenceWarning': 'UserWarning', 'SolverError': 'Exception', 'DCPError': 'Exception',
    'MemoryError': 'Exception', 'RecursionError': 'RuntimeError', 'ModuleNotFoundError': 'ImportError',
    'DeprecationWarning': 'Warning', 'FutureWarning': 'Warning', 'RuntimeWarning': 'Warning', 'EOFError': 'Exception',
    'IOError': 'OSError', 'FileNotFoundError': 'OSError',
    'UserError': 'Exception',          # any exception raised by a component supplied by the user
    # ... and the ones that handlers of standard exceptions catch too
    'User_ValueError': 'ValueError', 'User_TypeError': 'TypeError', 'User_AttributeError': 'AttributeError',
    'User_RuntimeError': 'NotImplementedError', 'User_KeyError': 'KeyError', 'User_IndexError': 'IndexError',
    'User_ArithmeticError': 'ZeroDivisionError', 'User_OverflowError': 'OverflowError', 'User_OSError': 'FileNotFoundError',
    'User_AssertionError': 'AssertionError', 'User_Warning': 'RuntimeWarning', 'User_ImportError': 'ModuleNotFoundError',
    'User_MemoryError': 'MemoryError', 'User_StopIteration': 'StopIteration', 'User_NameError': 'UnboundLocalError',
    'AnyError': 'Exception',
}


USER_ERRORS = ['UserError'] + [k for k in EXC_BASES if k.startswith('User_')]


def exc_supers(name):
    out = []
    todo = [name]
    while todo:
        n = todo.pop()
        if n is None or n in out:
            continue
        out.append(n)
        b = EXC_BASES.get(n, 'Exception')
        if isinstance(b, tuple):
            todo.extend(b)
        else:
            todo.append(b)
    return out


def mp_val(v, fs, fref=None):
    """Rebuild a value with fs applied to every scalar term and fref to every reference."""
    if isinstance(v, Num):
        n = fs(v.s)
        return v if n is v.s else Num(n, v.typ)
    if isinstance(v, Ref):
        return fref(v) if fref else v
    if isinstance(v, Tup):
        return Tup(mp_val(x, fs, fref) for x in v.items)
    if isinstance(v, Alt):
        return Alt([(fs(c), mp_val(x, fs, fref)) for c, x in v.alts])
    if isinstance(v, Top):
        n = fs(v.s)
        return v if n is v.s else Top(n)
    if isinstance(v, Bound):
        return Bound(mp_val(v.self_, fs, fref), v.fn)
    if isinstance(v, ExtBound):
        return ExtBound(mp_val(v.obj, fs, fref), v.name)
    if isinstance(v, Partial):
        return Partial(v.kind, mp_val(v.fn, fs, fref) if isinstance(v.fn, V) else v.fn,
                       tuple(mp_val(x, fs, fref) if isinstance(x, V) else x for x in v.args))
    if isinstance(v, SliceV):
        return SliceV(*[mp_val(x, fs, fref) for x in (v.a, v.b, v.c)])
    if isinstance(v, RangeV):
        return RangeV(fs(v.lo), fs(v.hi), fs(v.step))
    if isinstance(v, EnumV):
        return EnumV(mp_val(v.it, fs, fref), fs(v.start))
    if isinstance(v, ZipV):
        return ZipV([mp_val(x, fs, fref) for x in v.its])
    return v


def vals_of(o):
    """(key, value) fields of a heap object; key identifies the cell inside the object."""
    if isinstance(o, FrameObj):
        return o.vars
    if isinstance(o, (InstObj, ExtObj)):
        return o.attrs
    if isinstance(o, DictObj):
        return o.items
    return None


def mp_obj(o, fs, fref=None):
    if isinstance(o, ArrObj):
        view = o.view
        if view is not None:
            view = (fref(view[0]) if fref else view[0], tuple(fs(s) for s in view[1]))
        return o.with_(dims=tuple(fs(d) for d in o.dims) if o.dims is not None else None,
                       body=fs(o.body) if o.body is not None else None, view=view)
    if isinstance(o, ListObj):
        if o.items is not None:
            return o.with_(items=tuple(mp_val(x, fs, fref) for x in o.items))
        ix, ext, t = o.comp[:3]
        r = tuple(o.comp[3:])
        if len(r) > 1:
            r = (r[0], tuple((fs(i), mp_val(v, fs, fref)) for i, v in r[1]))
        return o.with_(comp=(ix, fs(ext), mp_val(t, fs, fref)) + r)
    if isinstance(o, DictObj):
        return o.with_(items={mp_val(k, fs, fref): mp_val(x, fs, fref) for k, x in o.items.items()},
                       unknown=fs(o.unknown) if o.unknown is not None else None)
    if isinstance(o, (InstObj, ExtObj)):
        return o.with_(attrs={k: mp_val(x, fs, fref) if isinstance(x, V) else (fs(x) if isinstance(x, S) else x)
                              for k, x in o.attrs.items()})
    if isinstance(o, FrameObj):
        return o.with_(vars={k: mp_val(x, fs, fref) for k, x in o.vars.items()})
    return o


class Interp(object):
    def __init__(self, repo):
        self.repo = repo
        self.st = State()
        self.frames = []          # [(frame oid, FuncInfo)]
        self.events = []
        self.mute = 0
        self.try_stack = []
        self.loop_ixs = []
        self.next_oid = 1
        self.next_lid = 1
        self.depth = 0
        self.line = 0
        self.analysed = set()     # functions interpreted
        self.callsites = 0
        self.steps = 0
        self.hooks = {}
        self.scenario = ''
        self.globals_oid = {}     # module dotted -> frame oid
        from . import models
        self.models = models
        models.install(self)

    # ------------------------------------------------------------------ state
    def set_state(self, st):
        self.st = st
        if st is not None:
            T.set_path(st.facts, st.ivs)

    def assume(self, c, val=True):
        """Add a path fact to the current state."""
        st = self.st
        self._assume(c, val)
        T.set_path(st.facts, st.ivs)

    def _assume(self, c, val):
        st = self.st
        if c.const() is not None:
            return
        st.facts[c] = val
        a = c.atom()
        if a is None:
            n = ONE - c
            if n.atom() is not None and n.atom().op in T.BOOLOPS and n not in st.facts:
                self._assume(n, not val)
            return
        if a.op == 'not':
            self._assume(a.args[0], not val)
        elif a.op == 'and' and val:
            self._assume(a.args[0], True)
            self._assume(a.args[1], True)
        elif a.op == 'or' and not val:
            self._assume(a.args[0], False)
            self._assume(a.args[1], False)
        elif a.op in ('lt', 'le'):
            x, y = a.args
            if not val:
                # not x<y  ==  y<=x ; not x<=y == y<x
                st.facts[P(A('le' if a.op == 'lt' else 'lt', y, x))] = True
                x, y = y, x
            cx, cy = x.const(), y.const()
            if cy is not None:
                lo, hi = st.ivs.get(x, (None, None))
                if hi is None or cy < hi:
                    hi = cy
                st.ivs[x] = (lo, hi)
            if cx is not None:
                lo, hi = st.ivs.get(y, (None, None))
                if lo is None or cx > lo:
                    lo = cx
                st.ivs[y] = (lo, hi)
        elif a.op == 'eq' and val:
            x, y = a.args
            for u, v in ((x, y), (y, x)):
                cv = v.const()
                if cv is not None:
                    st.ivs[u] = (cv, cv)

    def truth_of(self, c):
        return T.truth_of(c)

    def event(self, kind, **data):
        if self.mute:
            return
        f = self.frames[-1][1] if self.frames else None
        w = f.where if f is not None else '<scenario>'
        path = tuple(x[1].where for x in self.frames if x[1] is not None)
        self.events.append(Event(kind, w, self.line, data, path))

    # ------------------------------------------------------------------ heap
    def alloc(self, obj):
        oid = self.next_oid
        self.next_oid += 1
        obj.ixs = tuple(self.loop_ixs)
        self.st.heap[oid] = obj
        return Ref(oid)

    def site(self):
        f = self.frames[-1][1] if self.frames else None
        return (f.where if f is not None else '', self.line)

    def obj(self, ref):
        """The heap object seen through a reference (family index substituted)."""
        o = self.st.heap[ref.oid]
        if ref.sub:
            o = self.sub_obj(o, dict(ref.sub))
        return o

    def sub_obj(self, o, mp):
        return mp_obj(o, lambda s: T.subst(s, mp), lambda r: self.sub_ref(r, mp))

    def sub_ref(self, r, mp):
        o = self.st.heap.get(r.oid)
        cur = dict(r.sub)
        out = {k: T.subst(s, mp) for k, s in cur.items()}
        if o is not None:
            for ix in o.ixs:
                if ix in mp and ix not in out:
                    out[ix] = mp[ix] if isinstance(mp[ix], S) else P(mp[ix])
        out = {k: v for k, v in out.items() if v.atom() is not k}
        return Ref(r.oid, tuple(sorted(out.items(), key=lambda kv: kv[0].id)))

    def sub_val(self, v, mp):
        if not mp:
            return v
        return mp_val(v, lambda s: T.subst(s, mp), lambda r: self.sub_ref(r, mp))

    def store_obj(self, ref, new, old_seen=None):
        """Replace the object behind ref by new (an object as seen through ref)."""
        if not ref.sub:
            self.st.heap[ref.oid] = new
            return
        inv = {}
        strong = True
        for ix, s in ref.sub:
            a = s.atom()
            if a is not None and a.op in ('ix', 'b', 'r') and a not in inv:
                # another loop over the same family: rename back
                if a.op == 'ix' and a in self.loop_ixs and a.args[1] is ix.args[1] and a.args[2] is ix.args[2]:
                    inv[a] = P(ix)
                    continue
            strong = False
        if strong:
            if getattr(self, 'fam_strong', None) is not None:
                self.fam_strong.add(ref.oid)
            o = mp_obj(new, lambda s: T.subst(s, inv), lambda r: self._unsub_ref(r, inv))
            self.st.heap[ref.oid] = o
        else:
            base = self.st.heap[ref.oid]
            cond = ONE
            for ix, s in ref.sub:
                cond = mk('and', cond, eq(P(ix), s))
            seen = base
            self.st.heap[ref.oid] = self.join_obj(cond, new, seen, None)

    def _unsub_ref(self, r, inv):
        sub = []
        for ix, s in r.sub:
            t = T.subst(s, inv)
            if t.atom() is not ix:
                sub.append((ix, t))
        return Ref(r.oid, tuple(sub))

    # arrays -----------------------------------------------------------
    def new_arr(self, dims, body, dtype='float', origin='alloc', view=None):
        if body is not None and T.toobig(body):
            body = self.opaque_body(body, dims)
        return self.alloc(ArrObj(tuple(dims), body, dtype, origin, view, self.site()))

    def opaque_body(self, body, dims, tag='big'):
        bs = tuple(P(T.bvar(k, d)) for k, d in enumerate(dims))
        return T.fresh(tag, *([P(A('src', s)) for s in sorted(body.srcs)] + list(bs)))

    def is_arr(self, v):
        return isinstance(v, Ref) and isinstance(self.st.heap.get(v.oid), ArrObj)

    def arr(self, ref):
        return self.obj(ref)

    def body(self, ref):
        """Current element body of an array (views are resolved)."""
        o = self.obj(ref)
        return self.obj_body(o)

    def obj_body(self, o):
        if o.view is None:
            return o.body
        base, idx = o.view
        bo = self.obj(base)
        bb = self.obj_body(bo)
        mp = {T.bvar(k, bo.dims[k]): idx[k] for k in range(len(bo.dims))}
        return self.subst_b(bb, mp)

    def subst_b(self, body, mp):
        return T.subst(body, mp)

    def arr_atom(self, ref):
        o = self.obj(ref)
        body = self.obj_body(o)
        a = body.atom()
        if a is not None and a.op == 'at' and len(a.args[1]) == len(o.dims) and \
                all(i.atom() is T.bvar(k, o.dims[k]) for k, i in enumerate(a.args[1])):
            return a.args[0]
        return A('arr', o.dims, body)

    def root(self, ref):
        """Root object of a chain of views."""
        o = self.obj(ref)
        while isinstance(o, ArrObj) and o.view is not None:
            ref = o.view[0]
            o = self.obj(ref)
        return ref

    # ------------------------------------------------------------------ joins
    def join_val(self, c, a, b, ctx=None):
        if a is b or a == b:
            return a
        if isinstance(a, Num) and isinstance(b, Num):
            return Num(where(c, a.s, b.s), a.typ if a.typ == b.typ else
                       ('float' if {a.typ, b.typ} <= {'int', 'float', 'bool', 'npfloat'} else 'any'))
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup(self.join_val(c, x, y, ctx) for x, y in zip(a.items, b.items))
        if isinstance(a, Top) and isinstance(b, Top):
            return Top(where(c, a.s, b.s))
        if ctx is not None and isinstance(a, Ref) and isinstance(b, Ref) and a.sub == b.sub:
            r = ctx.pair(a, b)
            if r is not None:
                return r
        if isinstance(a, Bound) and isinstance(b, Bound) and a.fn == b.fn:
            return Bound(self.join_val(c, a.self_, b.self_, ctx), a.fn)
        alts = []
        for cc, v in ((c, a), (not_(c), b)):
            if isinstance(v, Alt):
                for c2, v2 in v.alts:
                    alts.append((mk('and', cc, c2), v2))
            else:
                alts.append((cc, v))
        # merge equal alternatives
        out = []
        for cc, v in alts:
            if self.truth_of(cc) is False:
                continue
            for k, (c2, v2) in enumerate(out):
                if v2 == v:
                    out[k] = (mk('or', c2, cc), v2)
                    break
            else:
                out.append((cc, v))
        if len(out) == 1:
            return out[0][1]
        if len(out) > 8:
            return Top(T.fresh('alts', *[P(A('src', s)) for s in sorted(set().union(*[self.srcs(v) for _, v in out]))]))
        return Alt(out)

    def join_obj(self, c, a, b, ctx):
        if a is b:
            return a
        if type(a) is not type(b):
            return None
        if isinstance(a, ArrObj):
            if a.dims == b.dims and a.view is None and b.view is None:
                return a.with_(body=where(c, a.body, b.body), dtype=a.dtype if a.dtype == b.dtype else 'any',
                               origin=a.origin if a.origin == b.origin else 'alloc')
            if a.dims == b.dims:
                if a.view == b.view:
                    return a
                if ctx is not None:
                    return None
                return a.with_(view=None, body=where(c, self.obj_body(a), self.obj_body(b)))
            if ctx is None:
                return a.with_(view=None, body=T.fresh('join', self.obj_body(a)))
            return None
        if isinstance(a, ListObj):
            if a.items is not None and b.items is not None and len(a.items) == len(b.items):
                return a.with_(items=tuple(self.join_val(c, x, y, ctx) for x, y in zip(a.items, b.items)))
            if a.items is None and b.items is None and a.comp[0] == 'phi' and b.comp[0] == 'phi':
                if a.comp == b.comp:
                    return a
                wa, wb = (x.comp[4] if len(x.comp) > 4 else () for x in (a, b))
                if a.comp[1:4] == b.comp[1:4] and len(wa) == len(wb) and all(x[0] is y[0] for x, y in zip(wa, wb)):
                    return a.with_(comp=a.comp[:4] + (tuple((x[0], self.join_val(c, x[1], y[1], ctx))
                                                            for x, y in zip(wa, wb)),))
                return None
            if a.items is None and b.items is None and a.comp[0] is b.comp[0] and a.comp[1] is b.comp[1]:
                return a.with_(comp=(a.comp[0], a.comp[1], self.join_val(c, a.comp[2], b.comp[2], ctx)))
            return None
        if isinstance(a, DictObj):
            keys = list(a.items) + [k for k in b.items if k not in a.items]
            its = {}
            for k in keys:
                its[k] = self.join_val(c, a.items.get(k, UNDEF), b.items.get(k, UNDEF), ctx)
            unk = a.unknown if a.unknown is b.unknown else (a.unknown if b.unknown is None else
                                                            b.unknown if a.unknown is None else
                                                            where(c, a.unknown, b.unknown))
            return a.with_(items=its, unknown=unk)
        if isinstance(a, InstObj):
            if a.cls is not b.cls:
                return None
            keys = list(a.attrs) + [k for k in b.attrs if k not in a.attrs]
            return a.with_(attrs={k: self.join_val(c, a.attrs.get(k, UNDEF), b.attrs.get(k, UNDEF), ctx)
                                  for k in keys})
        if isinstance(a, ExtObj):
            if a.kind != b.kind:
                return None
            keys = list(a.attrs) + [k for k in b.attrs if k not in a.attrs]
            at = {}
            for k in keys:
                x, y = a.attrs.get(k, UNDEF), b.attrs.get(k, UNDEF)
                if isinstance(x, V) and isinstance(y, V):
                    at[k] = self.join_val(c, x, y, ctx)
                elif isinstance(x, S) and isinstance(y, S):
                    at[k] = where(c, x, y)
                elif x == y:
                    at[k] = x
                else:
                    at[k] = ('mix', x, y)
            return a.with_(attrs=at)
        if isinstance(a, FrameObj):
            keys = list(a.vars) + [k for k in b.vars if k not in a.vars]
            return a.with_(vars={k: self.join_val(c, a.vars.get(k, UNDEF), b.vars.get(k, UNDEF), ctx) for k in keys})
        return None

    def merge(self, cases):
        """cases: [(cond, State, value or None)], exclusive.  Sets the current state; returns the merged value."""
        cases = [x for x in cases if x[1] is not None]
        while len(cases) > 1:
            c1, s1, v1 = cases[-2]
            c2, s2, v2 = cases[-1]
            st, v = self.merge2(c1, s1, v1, s2, v2)
            cases[-2:] = [(mk('or', c1, c2), st, v)]
        c, st, v = cases[0]
        self.set_state(st)
        return v

    def merge2(self, c, s1, v1, s2, v2):
        if s1 is s2:
            self.set_state(s1)
            return s1, (self.join_val(c, v1, v2) if v1 is not None else None)
        facts = {k: v for k, v in s1.facts.items() if s2.facts.get(k) is v or s2.facts.get(k) == v}
        ivs = {}
        for k, x in s1.ivs.items():
            y = s2.ivs.get(k)
            if y is not None:
                h = T._hull(x, y)
                if h != (None, None):
                    ivs[k] = h
        st = State(None, facts, ivs)
        T.set_path(facts, ivs)
        ctx = MergeCtx(self, c, s1, s2)
        h1, h2 = s1.heap, s2.heap
        out = st.heap
        old = self.st
        self.st = st
        # everything present in one of them (values joined below)
        out.update(h2)
        out.update(h1)
        for oid, o1 in h1.items():
            o2 = h2.get(oid)
            if o2 is None or o2 is o1:
                continue
            j = self.join_obj(c, o1, o2, ctx)
            if j is None:
                j = self.weak_join(c, o1, o2)
            out[oid] = j
        v = self.join_val(c, v1, v2, ctx) if v1 is not None else None
        while ctx.todo:
            a, b = ctx.todo.pop()
            o1, o2 = h1[a], h2[b]
            j = self.join_obj(c, o1, o2, ctx)
            if j is None:
                j = self.weak_join(c, o1, o2)
            out[a] = j
        if ctx.m21:
            # references to renamed objects inside objects that exist only in s2
            ren = ctx.m21

            def fref(r):
                n = ren.get(r.oid)
                return Ref(n, r.sub) if n is not None else r
            ident = lambda s: s
            for oid in list(out):
                if oid in ren:
                    del out[oid]
                    continue
                o = out[oid]
                if self._mentions(o, ren):
                    out[oid] = mp_obj(o, ident, fref)
            if v is not None:
                v = mp_val(v, ident, fref)
        self.st = old
        return st, v

    def _mentions(self, o, ren):
        def chk(v):
            if isinstance(v, Ref):
                return v.oid in ren
            if isinstance(v, Tup):
                return any(chk(x) for x in v.items)
            if isinstance(v, Alt):
                return any(chk(x) for _, x in v.alts)
            if isinstance(v, Bound):
                return chk(v.self_)
            if isinstance(v, ExtBound):
                return chk(v.obj)
            if isinstance(v, Partial):
                return any(chk(x) for x in v.args if isinstance(x, V)) or (isinstance(v.fn, V) and chk(v.fn))
            return False
        if isinstance(o, ArrObj):
            return o.view is not None and o.view[0].oid in ren
        if isinstance(o, ListObj):
            if o.items is not None:
                return any(chk(x) for x in o.items)
            return chk(o.comp[2])
        d = vals_of(o)
        if d is None:
            return False
        return any(chk(x) for x in d.values() if isinstance(x, V)) or \
            (isinstance(o, DictObj) and any(chk(k) for k in d))

    def weak_join(self, c, o1, o2):
        """Two incompatible contents of one object: unknown contents with the same sources."""
        srcs = sorted(self.obj_srcs(o1) | self.obj_srcs(o2))
        s = T.fresh('mix', *[P(A('src', x)) for x in srcs])
        if isinstance(o1, ArrObj):
            if o1.dims is not None and isinstance(o2, ArrObj) and o2.dims is not None and len(o1.dims) == len(o2.dims):
                dims = tuple(d if d is e else where(c, d, e) for d, e in zip(o1.dims, o2.dims))
                bs = [P(T.bvar(k, d)) for k, d in enumerate(dims)]
                return o1.with_(view=None, dims=dims, body=T.fresh('mix', *([P(A('src', x)) for x in srcs] + bs)))
            return o1.with_(view=None, body=s)
        if isinstance(o1, ListObj):
            n1, n2 = self.list_len(o1), self.list_len(o2) if isinstance(o2, ListObj) else T.fresh('n')
            ix = self.new_ix(ZERO, where(c, n1, n2))
            return o1.with_(items=None, comp=(ix, where(c, n1, n2), Top(T.fresh('mix', *[P(A('src', x)) for x in srcs]))))
        return o1

    def list_len(self, o):
        if o.items is not None:
            return K(len(o.items))
        return o.comp[1]

    def obj_srcs(self, o, seen=None):
        out = set()
        if isinstance(o, ArrObj):
            b = o.body if o.view is None else self.obj_body(o)
            out |= b.srcs
            for d in o.dims or ():
                out |= d.srcs
            return out
        if isinstance(o, ListObj):
            if o.items is not None:
                for x in o.items:
                    out |= self.srcs(x, seen)
            else:
                out |= o.comp[1].srcs | self.srcs(o.comp[2], seen)
            return out
        d = vals_of(o)
        if d:
            for x in d.values():
                if isinstance(x, V):
                    out |= self.srcs(x, seen)
                elif isinstance(x, (S, Atom)):
                    out |= x.srcs
        return out

    def srcs(self, v, seen=None):
        """Sources a value (deeply) depends on."""
        if seen is None:
            seen = set()
        if isinstance(v, Num) or isinstance(v, Top):
            return set(v.s.srcs)
        if isinstance(v, Ref):
            if (v.oid, v.sub) in seen:
                return set()
            seen.add((v.oid, v.sub))
            o = self.st.heap.get(v.oid)
            if o is None:
                return set()
            return self.obj_srcs(self.obj(v), seen)
        if isinstance(v, Tup):
            return set().union(*[self.srcs(x, seen) for x in v.items]) if v.items else set()
        if isinstance(v, Alt):
            out = set()
            for c, x in v.alts:
                out |= c.srcs | self.srcs(x, seen)
            return out
        if isinstance(v, Bound):
            return self.srcs(v.self_, seen)
        if isinstance(v, ExtBound):
            return self.srcs(v.obj, seen)
        if isinstance(v, SliceV):
            return self.srcs(v.a, seen) | self.srcs(v.b, seen) | self.srcs(v.c, seen)
        if isinstance(v, RangeV):
            return set(v.lo.srcs | v.hi.srcs)
        if isinstance(v, EnumV):
            return self.srcs(v.it, seen)
        if isinstance(v, (ZipV, MapV)):
            return set().union(*[self.srcs(x, seen) for x in v.its])
        return set()

    # ------------------------------------------------------------------ branching at expression level
    def branch(self, cases):
        """cases: [(cond S, thunk)], exclusive and exhaustive.  Runs the feasible ones, merges states and values."""
        feas = []
        for c, f in cases:
            t = self.truth_of(c)
            if t is True:
                return f()
            if t is None:
                feas.append((c, f))
        if not feas:
            if cases:
                return cases[-1][1]()
            raise Unsupported('no feasible case')
        if len(feas) == 1:
            self.assume(feas[0][0])
            return feas[0][1]()
        base = self.st
        res = []
        exc = None
        for c, f in feas:
            st = base.copy()
            self.set_state(st)
            self.assume(c)
            try:
                v = f()
                res.append((c, self.st, v))
            except RaiseSignal as e:
                if exc is None:
                    exc = (e, self.st)
                self.event('mayraise', exc=e.exc, cond=c)
                self.pend(c, self.st, e.exc)
        if not res:
            self.set_state(exc[1])
            raise exc[0]
        return self.merge(res)

    def on_alt(self, v, f):
        if isinstance(v, Alt):
            return self.branch([(c, (lambda x=x: self.on_alt(x, f))) for c, x in v.alts])
        return f(v)

    def pend(self, cond, st, exc):
        """An exception that may leave the current expression: offer it to enclosing handlers."""
        for ctx in reversed(self.try_stack):
            m = self.match_handlers(ctx, exc)
            if m is not None:
                ctx.pending.append((cond, st.copy(), exc))
                return

    def may_raise(self, exc, cond):
        self.pend(cond, self.st, exc)

    def user_raises(self, cond):
        """A component of the user may fail here, with any exception."""
        for nm in USER_ERRORS:
            self.pend(cond, self.st, Exc(nm))

    def match_handlers(self, ctx, exc):
        """Index of the first handler of ctx that (may) catch exc; None if none."""
        for k, (types, h) in enumerate(ctx.handlers):
            if types is None:
                return k
            sup = exc_supers(exc.name)
            for t in types:
                if t in sup:
                    return k
        return None

    # ------------------------------------------------------------------ frames / names
    def frame(self):
        return self.st.heap[self.frames[-1][0]]

    def func(self):
        return self.frames[-1][1]

    def set_var(self, name, v):
        foid = self.frames[-1][0]
        f = self.st.heap[foid]
        nv = dict(f.vars)
        nv[name] = v
        self.st.heap[foid] = f.with_(vars=nv)

    def lookup(self, name, line=0):
        foid, fi = self.frames[-1]
        first = True
        while foid is not None:
            f = self.st.heap[foid]
            if name in f.vars:
                v = f.vars[name]
                if isinstance(v, Alt) and any(isinstance(x, Undef) for _, x in v.alts):
                    live = [(c, x) for c, x in v.alts if self.truth_of(c) is not False]
                    d = [(c, x) for c, x in live if not isinstance(x, Undef)]
                    if not d:
                        v = UNDEF
                    else:
                        und = [c for c, x in live if isinstance(x, Undef)]
                        if und and any(self.truth_of(c) for c in und):
                            v = UNDEF
                        else:
                            if und:
                                self.event('maybe_unbound', name=name, cond=und[0])
                            v = d[0][1] if len(d) == 1 else Alt(d)
                if isinstance(v, Undef):
                    self.event('error', err='UnboundLocalError', msg='variable %r read before assignment' % name)
                    raise RaiseSignal(Exc('UnboundLocalError', tag=name))
                return v
            if first and fi is not None and f.func is fi and name in fi.local_names():
                self.event('error', err='UnboundLocalError', msg='variable %r read before assignment' % name)
                raise RaiseSignal(Exc('UnboundLocalError', tag=name))
            first = False
            foid = f.parent
        b = self.models.builtin(self, name)
        if b is not None:
            return b
        self.event('error', err='NameError', msg='name %r is not defined' % name)
        raise RaiseSignal(Exc('NameError', tag=name))

    def mangle(self, name):
        f = self.frames[-1][1] if self.frames else None
        while f is not None and f.cls is None:
            f = f.parent
        if f is not None and name.startswith('__') and not name.endswith('__'):
            return '_%s%s' % (f.cls.name.lstrip('_'), name)
        return name

    # ------------------------------------------------------------------ modules
    def load_module(self, m):
        if m.globals is not None:
            return m
        oid = self.next_oid
        self.next_oid += 1
        m.globals = oid
        fr = FrameObj({'__name__': Const(m.dotted), '__file__': Const(m.path)}, None, None)
        self.st.heap[oid] = fr
        info = FuncInfo(ast.FunctionDef(name='<module>', args=ast.arguments(
            posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]),
            body=m.tree.body, decorator_list=[]), m)
        info._locals = set()
        self.frames.append((oid, info))
        try:
            outs, pc = self.exec_block(m.tree.body)
            for o in outs:
                if o[0] == 'raise':
                    raise AnalysisBroken('importing %s raises %s' % (m.dotted, o[3]))
        finally:
            self.frames.pop()
        return m

    def import_name(self, dotted):
        m = self.repo.modules.get(dotted)
        if m is not None:
            self.load_module(m)
            return Mod(m)
        return self.external(self.models.canon(dotted))

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts):
        outs = []
        pc = ONE
        for s in stmts:
            self.line = getattr(s, 'lineno', self.line)
            try:
                o, c = self.exec_stmt(s)
            except RaiseSignal as e:
                o = [('raise', ONE, self.st, e.exc)]
                self.st = None
                c = ZERO
            for (k, cc, st, v) in o:
                outs.append((k, mk('and', pc, cc), st, v))
            if self.st is None:
                return outs, ZERO
            pc = mk('and', pc, c)
        return outs, pc

    def exec_stmt(self, s):
        self.steps += 1
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            self.event('unsupported', what=type(s).__name__)
            return [], ONE
        r = m(s)
        return r if r is not None else ([], ONE)

    def x_Pass(self, s):
        pass

    def x_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def x_Import(self, s):
        for al in s.names:
            v = self.import_name(al.name)
            if al.asname is None and '.' in al.name:
                top = al.name.split('.')[0]
                v = self.import_name(top)
                self.set_var(top, v)
            else:
                self.set_var(al.asname or al.name, v)

    def x_ImportFrom(self, s):
        mod = s.module or ''
        if s.level:
            cur = self.func().module.dotted.split('.')
            is_pkg = self.func().module.path.endswith('__init__.py')
            up = s.level - (1 if is_pkg else 0)
            base = cur[:len(cur) - up] if up else cur
            mod = '.'.join(base + ([mod] if mod else []))
        for al in s.names:
            if al.name == '*':
                if mod in self.repo.modules:
                    m = self.load_module(self.repo.modules[mod])
                    for k, v in self.st.heap[m.globals].vars.items():
                        if not k.startswith('_'):
                            self.set_var(k, v)
                continue
            full = mod + '.' + al.name
            if full in self.repo.modules:
                v = self.import_name(full)
            elif mod in self.repo.modules:
                m = self.load_module(self.repo.modules[mod])
                g = self.st.heap[m.globals].vars
                if al.name not in g:
                    self.event('error', err='ImportError', msg='%s has no name %s' % (mod, al.name))
                    raise RaiseSignal(Exc('ImportError', tag=full))
                v = g[al.name]
            else:
                v = self.external(self.models.canon(full))
            self.set_var(al.asname or al.name, v)

    def external(self, full):
        s = loader.STUBS.get(full)
        if s is None:
            return Ext(full)
        m = self.load_module(self.repo.modules[s[0]])
        return self.st.heap[m.globals].vars[s[1]]

    def make_func(self, node, cls=None):
        parent = self.frames[-1][1] if self.frames else None
        fi = FuncInfo(node, self.frames[-1][1].module, cls, parent if (parent and parent.name != '<module>') else None)
        a = node.args
        pos = a.posonlyargs + a.args
        fi.defaults = {}
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            fi.defaults[p.arg] = self.ev_default(d, fi, p.arg)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                fi.defaults[p.arg] = self.ev_default(d, fi, p.arg)
        return fi

    def ev_default(self, d, fi, name):
        v = self.ev(d)
        if isinstance(v, Ref):
            o = self.st.heap[v.oid]
            self.st.heap[v.oid] = o.with_(origin=('default', fi.where, name))
        return v

    def x_FunctionDef(self, s):
        fi = self.make_func(s)
        v = Fn(fi, self.frames[-1][0])
        for d in reversed(s.decorator_list):
            self.event('unsupported', what='decorator')
        self.set_var(s.name, v)

    def x_ClassDef(self, s):
        mod = self.frames[-1][1].module
        ci = ClassInfo(s, mod)
        for b in s.bases:
            bv = self.ev(b)
            if isinstance(bv, Cls):
                ci.bases.append(bv.ci)
            elif isinstance(bv, Ext):
                if bv.name == 'object':
                    continue
                ci.bases.append(bv.name)
            elif isinstance(bv, Tup):    # six.with_metaclass
                for x in bv.items:
                    if isinstance(x, Cls):
                        ci.bases.append(x.ci)
                    elif isinstance(x, Ext):
                        ci.bases.append(x.name)
        for n in s.body:
            if isinstance(n, ast.FunctionDef):
                # evaluate defaults in class scope approximated by module scope
                fi = self.make_func(n, ci)
                name = n.name
                if name.startswith('__') and not name.endswith('__'):
                    name = '_%s%s' % (ci.name.lstrip('_'), name)
                ci.methods[name] = fi
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        ci.attr_vals[t.id] = self.ev(n.value)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                ci.attr_vals[n.target.id] = self.ev(n.value)
        mod.classes[s.name] = ci
        self.set_var(s.name, Cls(ci))

    def x_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        st = self.st
        self.st = None
        return [('ret', ONE, st, v)], ZERO

    def x_Raise(self, s):
        if s.exc is None:
            exc = getattr(self, 'cur_exc', None) or Exc('RuntimeError')
            raise RaiseSignal(exc)
        v = self.ev(s.exc)
        e = self.models.to_exc(self, v)
        self.event('raise', exc=e)
        raise RaiseSignal(e)

    def x_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def x_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            new = self.inplace(s.op, cur, self.ev(s.value))
            self.set_var(t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.getattr(o, self.mangle(t.attr))
            new = self.inplace(s.op, cur, self.ev(s.value))
            self.setattr(o, self.mangle(t.attr), new)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            i = self.ev(t.slice)
            cur = self.models.getitem(self, o, i)
            new = self.inplace(s.op, cur, self.ev(s.value))
            if not (isinstance(new, Ref) and new == cur and self.is_arr(new) and self.obj(new).view is not None):
                self.models.setitem(self, o, i, new)

    def inplace(self, op, cur, val):
        def f(c):
            if self.is_arr(c):
                r = self.models.binop(self, op, c, val)
                self.models.arr_assign_all(self, c, r)
                return c
            if isinstance(c, Ref) and isinstance(self.st.heap[c.oid], ListObj) and isinstance(op, ast.Add):
                self.models.list_extend(self, c, val)
                return c
            return self.models.binop(self, op, c, val)
        return self.on_alt(cur, f)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.set_var(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), self.mangle(t.attr), v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            i = self.ev(t.slice)
            self.models.setitem(self, o, i, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x,
                                Top(T.fresh('star', *self.src_terms(v))))
                return
            items = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, items):
                self.assign(x, y)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    def src_terms(self, v):
        return [P(A('src', s)) for s in sorted(self.srcs(v))]

    def unpack(self, v, n):
        if isinstance(v, Alt):
            per = [(c, None, x) for c, x in v.alts if self.truth_of(c) is not False]
            rows = []
            for c, _, x in per:
                try:
                    rows.append((c, self.unpack(x, n)))
                except RaiseSignal as e:
                    self.may_raise(e.exc, c)
            if not rows:
                raise RaiseSignal(Exc('TypeError', tag='unpack'))
            out = []
            for k in range(n):
                cur = rows[-1][1][k]
                for c, r in reversed(rows[:-1]):
                    cur = self.join_val(c, r[k], cur)
                out.append(cur)
            return out
        if isinstance(v, Const) and v.v is None:
            self.event('error', err='TypeError', msg='unpacking None')
            raise RaiseSignal(Exc('TypeError', tag='unpack None'))
        if isinstance(v, Tup):
            if len(v.items) != n:
                self.event('error', err='ValueError', msg='unpacking %d values into %d names' % (len(v.items), n))
                raise RaiseSignal(Exc('ValueError', tag='unpack'))
            return list(v.items)
        if isinstance(v, Top):
            return [Top(T.opq('item', v.s, K(k))) for k in range(n)]
        return [self.models.getitem(self, v, Num(K(k), 'int'), check=False) for k in range(n)]

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                f = self.frame()
                nv = dict(f.vars)
                nv.pop(t.id, None)
                self.st.heap[self.frames[-1][0]] = f.with_(vars=nv)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                if isinstance(o, Ref) and isinstance(self.st.heap[o.oid], InstObj):
                    ob = self.obj(o)
                    at = dict(ob.attrs)
                    at.pop(self.mangle(t.attr), None)
                    self.store_obj(o, ob.with_(attrs=at))

    def x_Global(self, s):
        self.event('unsupported', what='global')

    x_Nonlocal = x_Global

    def x_Assert(self, s):
        c = self.truth(self.ev(s.test))
        t = self.truth_of(c)
        if t is False:
            raise RaiseSignal(Exc('AssertionError'))
        if t is None:
            self.may_raise(Exc('AssertionError'), not_(c))
            self.assume(c)

    def x_If(self, s):
        c = self.truth(self.ev(s.test))
        t = self.truth_of(c)
        if t is True:
            return self.exec_block(s.body)
        if t is False:
            return self.exec_block(s.orelse)
        base = self.st
        st1 = base.copy()
        st2 = base
        self.set_state(st1)
        self.assume(c)
        o1, p1 = self.exec_block(s.body)
        st1 = self.st
        self.set_state(st2)
        self.assume(c, False)
        o2, p2 = self.exec_block(s.orelse)
        st2 = self.st
        nc = not_(c)
        outs = [(k, mk('and', c, cc), st, v) for k, cc, st, v in o1] + \
               [(k, mk('and', nc, cc), st, v) for k, cc, st, v in o2]
        if st1 is None and st2 is None:
            self.st = None
            return outs, ZERO
        if st1 is None:
            self.set_state(st2)
            return outs, mk('and', nc, p2)
        if st2 is None:
            self.set_state(st1)
            return outs, mk('and', c, p1)
        st, _ = self.merge2(c, st1, None, st2, None)
        self.set_state(st)
        if not outs:
            return outs, ONE
        return outs, mk('or', mk('and', c, p1), mk('and', nc, p2))

    def x_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        return self.exec_block(s.body)

    def x_Try(self, s):
        handlers = []
        for h in s.handlers:
            if h.type is None:
                types = None
            else:
                tv = self.ev(h.type)
                types = []
                for x in (tv.items if isinstance(tv, Tup) else [tv]):
                    types.append(self.models.exc_name(self, x))
            handlers.append((types, h))
        ctx = TryCtx(handlers, list(self.frames), s, self.func())
        self.try_stack.append(ctx)
        nframes = len(self.frames)
        entry_depth = self.depth
        try:
            outs, pc = self.exec_block(s.body)
        finally:
            self.try_stack.pop()
        normal = self.st
        cases = []
        if normal is not None:
            # else clause
            if s.orelse:
                o2, p2 = self.exec_block(s.orelse)
                outs = outs + [(k, mk('and', pc, c), st, v) for k, c, st, v in o2]
                normal = self.st
                pc = mk('and', pc, p2)
            if normal is not None:
                cases.append((pc, normal))
        res = []
        raised = [(c, st, v, False) for k, c, st, v in outs if k == 'raise'] + \
                 [(c, st, v, True) for c, st, v in ctx.pending]
        res = [o for o in outs if o[0] != 'raise']
        frames = self.frames
        for c, st, exc, pend in raised:
            k = self.match_handlers(ctx, exc)
            if k is None:
                res.append(('raise', c, st, exc))
                continue
            types, h = handlers[k]
            self.frames = list(ctx.frames)
            self.depth = entry_depth
            user = exc.name in USER_ERRORS or exc.name == 'AnyError'
            self.set_state(st.copy())
            if h.name:
                self.set_var(h.name, exc)
            prev = getattr(self, 'cur_exc', None)
            self.cur_exc = exc
            mark = len(self.events)
            self.line = h.lineno
            o2, p2 = self.exec_block(h.body)
            self.cur_exc = prev
            self.frames = frames
            if user:
                done = self.st is not None or any(o[0] in ('ret', 'cnt', 'brk') for o in o2)
                evs = self.events[mark:]
                del self.events[mark:]
                if done:
                    self.line = h.lineno
                    self.event('swallow', exc=exc, tag=exc.tag, types=types)
                continue
            res += [(kk, mk('and', c, cc), s2, v) for kk, cc, s2, v in o2]
            if self.st is not None:
                cases.append((mk('and', c, p2), self.st))
        self.frames = frames
        if not cases:
            self.st = None
            npc = ZERO
        else:
            if len(cases) > 1:
                # exceptional cases first: where(cond_exc, handler, normal)
                order = cases[1:] + cases[:1] if normal is not None else cases
                self.merge([(c, st, None) for c, st in order])
            else:
                self.set_state(cases[0][1])
            npc = ZERO
            for c, _ in cases:
                npc = mk('or', npc, c)
        if s.finalbody:
            if self.st is not None:
                o3, p3 = self.exec_block(s.finalbody)
                res += o3
        return res, (npc if res else ONE)

    def x_Break(self, s):
        st = self.st
        self.st = None
        return [('brk', ONE, st, None)], ZERO

    def x_Continue(self, s):
        st = self.st
        self.st = None
        return [('cnt', ONE, st, None)], ZERO

    # ------------------------------------------------------------------ loops (loops.py)
    def x_For(self, s):
        from . import loops
        return loops.exec_for(self, s)

    def x_While(self, s):
        from . import loops
        return loops.exec_while(self, s)

    def new_ix(self, lo, ext):
        lid = self.next_lid
        self.next_lid += 1
        return A('ix', lo, ext, lid) if False else A('ix', lid, lo, ext)

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kw=None, star=None):
        kw = kw or {}
        if isinstance(f, Alt):
            return self.on_alt(f, lambda x: self.call(x, args, kw))
        self.callsites += 1
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw)
        if isinstance(f, Bound):
            if isinstance(f.fn, Fn):
                return self.call_fn(f.fn, [f.self_] + list(args), kw)
            return self.call(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, Cls):
            return self.instantiate(f.ci, args, kw)
        if isinstance(f, Ext):
            return self.models.call_ext(self, f.name, args, kw)
        if isinstance(f, ExtBound):
            return self.models.call_method(self, f.obj, f.name, args, kw)
        if isinstance(f, Partial):
            return self.models.call_partial(self, f, args, kw)
        if isinstance(f, Ref):
            o = self.obj(f)
            if isinstance(o, ExtObj):
                return self.models.call_extobj(self, f, o, args, kw)
            if isinstance(o, InstObj):
                m, owner = o.cls.find('__call__')
                if m is not None:
                    return self.call_fn(Fn(m), [f] + list(args), kw)
            self.event('error', err='TypeError', msg='object is not callable')
            raise RaiseSignal(Exc('TypeError', tag='not callable'))
        if isinstance(f, Top):
            return self.models.unknown_call(self, f, args, kw)
        if isinstance(f, (Const, Num, Tup)):
            self.event('error', err='TypeError', msg='%r is not callable' % (f,))
            raise RaiseSignal(Exc('TypeError', tag='not callable'))
        return Top(T.fresh('call'))

    def instantiate(self, ci, args, kw):
        ref = self.alloc(InstObj(ci, {}, 'alloc', self.site()))
        h = self.hooks.get('instantiate')
        init, owner = ci.find('__init__')
        if init is not None:
            self.call_fn(Fn(init, owner.module.globals), [ref] + list(args), kw)
        else:
            ext = [b for b in ci.ext_bases() if not b.endswith(('BaseEstimator', 'ABCMeta', 'Mixin'))]
            for b in ext:
                self.models.ext_init(self, b, ref, args, kw)
        return ref

    def bind(self, fi, args, kw):
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        if len(args) > len(pos):
            if a.vararg:
                vals[a.vararg.arg] = Tup(args[len(pos):])
            else:
                self.event('error', err='TypeError', msg='%s() takes %d positional arguments but %d were given' %
                           (fi.name, len(pos), len(args)))
                raise RaiseSignal(Exc('TypeError', tag='args'))
        elif a.vararg:
            vals[a.vararg.arg] = Tup([])
        for n, v in zip(pos, args):
            vals[n] = v
        extra = {}
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in pos or k in konly:
                if k in vals:
                    self.event('error', err='TypeError', msg='%s() got multiple values for argument %r' % (fi.name, k))
                    raise RaiseSignal(Exc('TypeError', tag='args'))
                vals[k] = v
            elif a.kwarg:
                extra[Const(k)] = v
            else:
                self.event('error', err='TypeError', msg='%s() got an unexpected keyword argument %r' % (fi.name, k))
                raise RaiseSignal(Exc('TypeError', tag='args'))
        if a.kwarg:
            vals[a.kwarg.arg] = self.alloc(DictObj(extra))
        for n in pos + konly:
            if n not in vals:
                if fi.defaults and n in fi.defaults:
                    vals[n] = fi.defaults[n]
                else:
                    self.event('error', err='TypeError', msg='%s() missing argument %r' % (fi.name, n))
                    raise RaiseSignal(Exc('TypeError', tag='args'))
        return vals

    def call_fn(self, fv, args, kw):
        fi = fv.info
        h = self.hooks.get(fi.where)
        if h is not None:
            r = h(self, fv, args, kw)
            if r is not None:
                return r
        if self.depth > MAX_DEPTH or sum(1 for x in self.frames if x[1] is fi) >= 6:
            self.event('recursion', func=fi.where)
            return Top(T.fresh('rec'))
        vals = self.bind(fi, args, kw)
        self.analysed.add(fi.where)
        parent = fv.frame if fv.frame is not None else fi.module.globals
        fr = FrameObj(vals, parent, fi)
        foid = self.next_oid
        self.next_oid += 1
        fr.ixs = ()
        self.st.heap[foid] = fr
        self.frames.append((foid, fi))
        self.depth += 1
        line = self.line
        base = self.st
        nfacts = base.facts
        try:
            if isinstance(fi.node, ast.Lambda):
                try:
                    v = self.ev(fi.node.body)
                    return v
                finally:
                    pass
            outs, pc = self.exec_block(fi.node.body)
            if fi.is_gen:
                self.event('unsupported', what='generator function')
                if self.st is None:
                    self.set_state(outs[0][2])
                return Top(T.fresh('gen'))
            cases = [(c, st, v) for k, c, st, v in outs if k == 'ret']
            if self.st is not None:
                cases.append((pc, self.st, NONE))
            raises = [(c, st, v) for k, c, st, v in outs if k == 'raise']
            if not cases:
                c, st, exc = raises[0]
                for c2, st2, e2 in raises[1:]:
                    self.set_state(st2)
                    self.event('mayraise', exc=e2, cond=c2)
                    self.pend(c2, st2, e2)
                self.set_state(st)
                raise RaiseSignal(exc)
            for c, st, exc in raises:
                self.event('mayraise', exc=exc, cond=c)
                self.pend(c, st, exc)
            v = self.merge(cases)
            return v
        finally:
            self.frames.pop()
            self.depth -= 1
            self.line = line
            if self.st is not None and not self._captured(foid):
                self.st.heap.pop(foid, None)

    def _captured(self, foid):
        f = self.st.heap.get(foid)
        if f is None:
            return False
        for n in ast.walk(f.func.node):
            if n is not f.func.node and isinstance(n, (ast.Lambda, ast.FunctionDef, ast.GeneratorExp)):
                return True
        return False

    # ------------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, Alt):
            return self.on_alt(o, lambda x: self.getattr(x, name))
        return self.models.getattr_(self, o, name)

    def inst_getattr(self, ref, name, default=None):
        o = self.obj(ref)
        if name in o.attrs:
            v = o.attrs[name]
            if isinstance(v, Alt):
                live = [(c, x) for c, x in v.alts if self.truth_of(c) is not False]
                d = [(c, x) for c, x in live if not isinstance(x, Undef)]
                if d and len(d) < len(live):
                    self.event('maybe_unbound', name='self.' + name, cond=None)
                    v = d[0][1] if len(d) == 1 else Alt(d)
            if not isinstance(v, Undef):
                return v
        m, owner = o.cls.find(name)
        if m is not None:
            if isinstance(m, FuncInfo):
                fn = Fn(m, owner.module.globals)
                if m.kind == 'static':
                    return fn
                if m.kind == 'class':
                    return Bound(Cls(o.cls), fn)
                if m.kind == 'property':
                    return self.call_fn(fn, [ref], {})
                return Bound(ref, fn)
            return m
        if name == '__class__':
            return Cls(o.cls)
        if name == '__dict__':
            return self.alloc(DictObj({Const(k): v for k, v in o.attrs.items()}))
        v = self.models.ext_inst_attr(self, ref, o, name)
        if v is not None:
            return v
        if default is not None:
            return default
        self.event('error', err='AttributeError', msg='%s object has no attribute %r' % (o.cls.name, name))
        raise RaiseSignal(Exc('AttributeError', tag=name))

    def setattr(self, o, name, v):
        def f(x):
            if isinstance(x, Ref):
                ob = self.obj(x)
                if isinstance(ob, InstObj):
                    self.event('setattr', oid=x.oid, cls=ob.cls, name=name, value=v)
                    at = dict(ob.attrs)
                    at[name] = v
                    self.store_obj(x, ob.with_(attrs=at))
                    return NONE
                if isinstance(ob, ExtObj):
                    self.models.ext_setattr(self, x, ob, name, v)
                    return NONE
                if isinstance(ob, ArrObj):
                    self.models.arr_setattr(self, x, ob, name, v)
                    return NONE
                return NONE
            if isinstance(x, Const) and x.v is None:
                self.event('error', err='AttributeError', msg='attribute %r of None assigned' % name)
                raise RaiseSignal(Exc('AttributeError', tag=name))
            if isinstance(x, Cls):
                x.ci.attr_vals[name] = v
            return NONE
        self.on_alt(o, f)

    # ------------------------------------------------------------------ truth
    def truth(self, v):
        """Boolean term of a value."""
        if isinstance(v, Num):
            c = v.s.const()
            if c is not None:
                return ONE if c != 0 else ZERO
            if v.typ == 'bool':
                return v.s
            a = v.s.atom()
            if a is not None and a.op in T.BOOLOPS:
                return v.s
            return not_(eq(v.s, ZERO))
        if isinstance(v, Const):
            return ONE if v.v else ZERO
        if isinstance(v, Tup):
            return ONE if v.items else ZERO
        if isinstance(v, Alt):
            r = ZERO
            for c, x in reversed(v.alts):
                r = where(c, self.truth(x), r)
            return r
        if isinstance(v, Ref):
            o = self.obj(v)
            if isinstance(o, ListObj):
                return lt(ZERO, self.list_len(o))
            if isinstance(o, DictObj):
                return ONE if o.items else ZERO
            if isinstance(o, ArrObj):
                if o.dims is not None:
                    n = ONE
                    for d in o.dims:
                        n = n * d
                    cn = n.const()
                    if cn == 1:
                        b = self.body(v)
                        b = T.subst(b, {T.bvar(k, d): ZERO for k, d in enumerate(o.dims)})
                        return self.truth(Num(b, o.dtype if o.dtype == 'bool' else 'any'))
                    if T.positive(n - 1):
                        self.event('error', err='ValueError', msg='truth value of an array with more than one element')
                        raise RaiseSignal(Exc('ValueError', tag='array truth'))
                return T.opq('truth', *self.src_terms(v))
            if isinstance(o, InstObj):
                m, _ = o.cls.find('__len__')
                if m is None:
                    return ONE
            return ONE
        if isinstance(v, Top):
            return P(A('bool', v.s))
        if isinstance(v, Undef):
            return ZERO
        return ONE

    # ------------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.event('unsupported', what=type(e).__name__)
            return Top(T.fresh('unsup'))
        ln = getattr(e, 'lineno', None)
        if ln:
            self.line = ln
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, bool):
            return Num(K(int(v)), 'bool')
        if isinstance(v, int):
            return Num(K(v), 'int')
        if isinstance(v, float):
            return Num(K(v), 'float')
        return Const(v)

    def e_Name(self, e):
        return self.lookup(self.mangle(e.id) if e.id.startswith('__') else e.id)

    def e_Attribute(self, e):
        o = self.ev(e.value)
        self.line = e.lineno
        return self.getattr(o, self.mangle(e.attr))

    def e_Tuple(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.models.concrete_items(self, self.ev(x.value)) or [Top(T.fresh('star'))])
            else:
                out.append(self.ev(x))
        return Tup(out)

    def e_List(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.models.concrete_items(self, self.ev(x.value)) or [Top(T.fresh('star'))])
            else:
                out.append(self.ev(x))
        return self.alloc(ListObj(out, site=self.site()))

    def e_Set(self, e):
        return self.alloc(ListObj([self.ev(x) for x in e.elts], site=self.site()))

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v)
            if k is None:
                if isinstance(vv, Ref) and isinstance(self.st.heap[vv.oid], DictObj):
                    d.update(self.obj(vv).items)
                continue
            kk = self.ev(k)
            try:
                d[kk] = vv
            except TypeError:
                pass
        return self.alloc(DictObj(d, site=self.site()))

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        self.line = e.lineno
        return self.models.binop(self, e.op, a, b)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return Num(not_(self.truth(v)), 'bool')
        return self.models.unop(self, e.op, v)

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def go(k):
            v = self.ev(e.values[k])
            if k == len(e.values) - 1:
                return v
            c = self.truth(v)
            t = self.truth_of(c)
            if t is not None:
                if t == isand:
                    return go(k + 1)
                return v
            if isand:
                r = self.branch([(c, lambda: go(k + 1)), (not_(c), lambda: v)])
                if isinstance(v, Num) and isinstance(r, Num) and v.typ == 'bool':
                    # both boolean
                    pass
            else:
                r = self.branch([(c, lambda: v), (not_(c), lambda: go(k + 1))])
            return r
        # boolean-only operands: a plain conjunction
        r = go(0)
        if isinstance(r, Num) and isinstance(r.s, S):
            a = r.s.atom()
            if a is not None and a.op == 'where':
                c, x, y = a.args
                r = Num(self.bool_where(c, x, y), r.typ)
        return r

    def bool_where(self, c, x, y):
        # where(c, x, 0) = c and x ; where(c, c, x) = c or x
        if y is ZERO or y is c:
            pass
        if y.const() == 0:
            return mk('and', c, x)
        if x is c or x is ONE:
            return mk('or', c, y)
        if y is c:
            return mk('and', c, x)
        return where(c, x, y)

    def e_Compare(self, e):
        left = self.ev(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            self.line = e.lineno
            v = self.models.compare(self, op, left, right)
            if res is None:
                res = v
            else:
                res = Num(mk('and', self.truth(res), self.truth(v)), 'bool')
            left = right
        return res

    def e_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        return self.branch([(c, lambda: self.ev(e.body)), (not_(c), lambda: self.ev(e.orelse))])

    def e_Call(self, e):
        # super() needs the frame
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            f = self.func()
            while f is not None and f.cls is None:
                f = f.parent
            if e.args:
                cv = self.ev(e.args[0])
                sv = self.ev(e.args[1])
                return Super(cv.ci, sv)
            slf = self.lookup(f.node.args.args[0].arg)
            return Super(f.cls, slf)
        fv = self.ev(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                its = self.models.concrete_items(self, v)
                if its is None:
                    self.event('unsupported', what='*args')
                    args.append(Top(T.fresh('star')))
                else:
                    args.extend(its)
            else:
                args.append(self.ev(a))
        kw = {}
        unknown_kw = None
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                if isinstance(v, Ref) and isinstance(self.st.heap[v.oid], DictObj):
                    for kk, vv in self.obj(v).items.items():
                        if isinstance(kk, Const):
                            kw[kk.v] = vv
                else:
                    self.event('unsupported', what='**kwargs')
            else:
                kw[k.arg] = v
        self.line = e.lineno
        r = self.call(fv, args, kw)
        self.line = e.lineno
        return r

    def e_Subscript(self, e):
        o = self.ev(e.value)
        i = self.ev(e.slice)
        self.line = e.lineno
        return self.models.getitem(self, o, i)

    def e_Slice(self, e):
        return SliceV(self.ev(e.lower) if e.lower else NONE, self.ev(e.upper) if e.upper else NONE,
                      self.ev(e.step) if e.step else NONE)

    def e_Lambda(self, e):
        fi = FuncInfo(e, self.func().module, None, self.func())
        fi.defaults = {}
        a = e.args
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            fi.defaults[p.arg] = self.ev(d)
        return Fn(fi, self.frames[-1][0])

    def e_JoinedStr(self, e):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value)
        return Const('<fstring>')

    def e_ListComp(self, e):
        from . import loops
        return loops.comprehension(self, e)

    def e_SetComp(self, e):
        from . import loops
        return loops.comprehension(self, e)

    def e_DictComp(self, e):
        from . import loops
        return self.models.dict_from_pairs(self, loops.comprehension(self, e))

    def e_GeneratorExp(self, e):
        from . import loops
        return loops.comprehension(self, e)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.set_var(e.target.id, v)
        return v

    def e_Starred(self, e):
        return self.ev(e.value)

    def e_Await(self, e):
        return self.ev(e.value)


class MergeCtx(object):
    def __init__(self, I, c, s1, s2):
        self.I = I
        self.h1, self.h2 = s1.heap, s2.heap
        self.m12 = {}
        self.m21 = {}
        self.todo = []

    def pair(self, a, b):
        """Try to identify object a (only in state 1) with b (only in state 2)."""
        if a.oid == b.oid:
            return None
        if self.m12.get(a.oid) == b.oid:
            return a
        if a.oid in self.h2 or b.oid in self.h1:
            return None
        if a.oid in self.m12 or b.oid in self.m21:
            return None
        o1, o2 = self.h1.get(a.oid), self.h2.get(b.oid)
        if o1 is None or o2 is None or type(o1) is not type(o2):
            return None
        if o1.ixs != o2.ixs:
            return None
        if isinstance(o1, ArrObj):
            if o1.dims != o2.dims or o1.view is not None or o2.view is not None or o1.origin != o2.origin:
                return None
        elif isinstance(o1, ListObj):
            if o1.items is None or o2.items is None or len(o1.items) != len(o2.items):
                return None
        elif isinstance(o1, InstObj):
            if o1.cls is not o2.cls:
                return None
        elif isinstance(o1, ExtObj):
            if o1.kind != o2.kind:
                return None
        elif isinstance(o1, (FrameObj,)):
            return None
        self.m12[a.oid] = b.oid
        self.m21[b.oid] = a.oid
        self.todo.append((a.oid, b.oid))
        return a
