"""Abstract histories ("scenarios") over which the rules are evaluated.

A scenario builds abstract arguments (arrays whose elements are named sources), constructs objects of the
repository's public classes and calls their public operations with the abstract interpreter.  Nothing of the
repository is executed: the interpreter walks the syntax trees found under /repo.
"""
import os

from . import terms as T
from . import loader
from . import np_models as NP
from . import ext_models as EX
from .terms import A, P, K, S, bvar, dimatom, ZERO, ONE
from .values import *
from .interp import Interp, RaiseSignal, State
from .loader import AnalysisBroken


class Base(object):
    """Repository with all modules loaded; snapshots the heap so every scenario starts from it."""

    def __init__(self, root=None):
        self.repo = loader.Repo(root) if root else loader.Repo()
        I = Interp(self.repo)
        for m in sorted(self.repo.modules):
            I.load_module(self.repo.modules[m])
        self.heap = dict(I.st.heap)
        self.next_oid = I.next_oid
        self.load_events = list(I.events)
        self.n_functions = 0

    def interp(self):
        I = Interp(self.repo)
        I.st = State(self.heap)
        I.next_oid = self.next_oid
        EX.install_hooks(I)
        T.set_path(I.st.facts, I.st.ivs)
        return I

    def cls(self, dotted, name):
        m = self.repo.module(dotted)
        if name not in m.classes:
            raise AnalysisBroken('class %s.%s is not there any more' % (dotted, name))
        return Cls(m.classes[name])

    def fn(self, dotted, name):
        m = self.repo.module(dotted)
        g = self.heap[m.globals].vars
        v = g.get(name)
        if v is None:
            raise AnalysisBroken('function %s.%s is not there any more' % (dotted, name))
        return v


class World(object):
    """Abstract data for one scenario."""

    def __init__(self, base, name=''):
        self.base = base
        self.I = base.interp()
        self.I.uniq_dims = {}
        self.I.scenario = name
        self.name = name
        self.D = dimatom('D')
        self.marks = []
        self.outcome = {}

    # -------------------------------------------------------------- data
    def arr(self, name, dims, dtype='float'):
        r = NP.named_arr(self.I, dims, A('src', name), dtype)
        o = self.I.st.heap[r.oid]
        self.I.st.heap[r.oid] = o.with_(origin=('param', name))
        return r

    def X(self, name, n, d=None):
        return self.arr(name, (n, d if d is not None else self.D))

    def y(self, name, n, c, fam='L', dtype='any'):
        b = A('src', name)
        T.CONTRACTS[b] = {'label_of': fam}
        self.I.uniq_dims[b] = (fam, c)
        return self.arr(name, (n,), dtype)

    def probs(self, name, n, c):
        b = A('src', name)
        T.CONTRACTS[b] = {'lo': 0, 'hi': 1, 'simplex': 1, 'dims': (None, c)}
        return self.arr(name, (n, c))

    def crisp(self, name, n, fam='L'):
        b = A('src', name)
        T.CONTRACTS[b] = {'label_of': fam}
        return self.arr(name, (n,), 'int')

    def labels(self, name, c, fam):
        """array of the c distinct sorted labels of a family"""
        b = A('uniq', A('src', name))
        T.CONTRACTS[b] = {'labels': fam, 'dims': (c,), 'ndim': c}
        return NP.named_arr(self.I, (c,), b, 'any')

    def est(self, name, fitted=None, c=None, fam='L', kind='est', **kw):
        """A classifier/regressor supplied by the user."""
        at = {}
        if fitted is ONE or fitted is True:
            fitted = ONE
            at['fit'] = P(A('fit0', name))
            at['nfeat'] = self.D
            if kind == 'est':
                at['classes'] = self.labels('cls:' + name, c, fam)
        elif fitted is None or fitted is False:
            fitted = ZERO
        at.update(kw)
        return EX.mk_est(self.I, name, fitted, kind, ('param', name), **at)

    def usercall(self, name, ret='scalar'):
        return self.I.alloc(ExtObj('usercall', {'name': name, 'ret': ret}, ('param', name)))

    # -------------------------------------------------------------- calls
    def new(self, dotted, cname, *args, **kw):
        return self.I.call(self.base.cls(dotted, cname), list(args), kw)

    def mark(self, label):
        self.marks.append((label, len(self.I.events)))

    def events(self, label=None):
        """Events of the phase with that label (all without)."""
        if label is None:
            return self.I.events
        for k, (l, n) in enumerate(self.marks):
            if l == label:
                end = self.marks[k + 1][1] if k + 1 < len(self.marks) else len(self.I.events)
                return self.I.events[n:end]
        return []

    def do(self, label, f, *args, **kw):
        """Run f(*args, **kw) as a phase. Returns the value, or None when it ends in an exception."""
        self.mark(label)
        I = self.I
        st = I.st
        n_frames = len(I.frames)
        I.draws = {}
        try:
            v = I.call(f, list(args), kw)
            self.outcome[label] = ('ok', v)
            if label == 'new' and isinstance(v, Ref) and hasattr(I.obj(v), 'attrs'):
                self.new_attrs = dict(I.obj(v).attrs)
            return v
        except RaiseSignal as e:
            del I.frames[n_frames:]
            if I.st is None:
                I.set_state(st)
            self.outcome[label] = ('raise', e.exc)
            return None
        finally:
            self.mark(label + '/end')

    def call(self, label, obj, meth, *args, **kw):
        try:
            f = self.I.getattr(obj, meth)
        except RaiseSignal as e:
            self.mark(label)
            self.outcome[label] = ('raise', e.exc)
            self.mark(label + '/end')
            return None
        return self.do(label, f, *args, **kw)

    def ok(self, label):
        return self.outcome.get(label, ('none',))[0] == 'ok'

    def cells(self, v):
        """(dims, body) of an array/number value, or None."""
        I = self.I
        if isinstance(v, Num):
            return (), v.s
        if isinstance(v, Ref) and I.is_arr(v):
            o = I.obj(v)
            return o.dims, I.body(v)
        return None

    def store(self, key, v):
        """Remember dims/body of a result at this point of the history (the object may change later)."""
        if not hasattr(self, 'res'):
            self.res = {}
        self.res[key] = self.results(v)

    def results(self, v):
        """[(condition, dims, body or value)]: the alternatives of a result."""
        out = []
        alts = v.alts if isinstance(v, Alt) else [(ONE, v)]
        for c, x in alts:
            d = self.cells(x) if x is not None else None
            if d is not None:
                out.append((c, d[0], d[1]))
            else:
                out.append((c, None, x))
        return out

    def elem(self, v, *idx):
        d, b = self.cells(v)
        return T.subst(b, {bvar(k, d[k]): (i if isinstance(i, S) else K(i)) for k, i in enumerate(idx)})
