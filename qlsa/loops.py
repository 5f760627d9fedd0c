"""Loops: concrete unrolling, and one symbolic iteration with promotion of the effects to the whole range."""
import ast

from . import terms as T
from .terms import S, A, K, P, ZERO, ONE, where, mk, eq, lt, le, not_
from .values import *
from .interp import RaiseSignal, State, mp_val, mp_obj, vals_of

UNROLL = 6


def exec_for(I, s):
    it = I.ev(s.iter)
    return for_value(I, s, it)


def for_value(I, s, it):
    if isinstance(it, Alt):
        live = [(c, v) for c, v in it.alts if I.truth_of(c) is not False]
        if len(live) == 1:
            return for_value(I, s, live[0][1])
        base = I.st
        outs, cases = [], []
        for c, v in live:
            I.set_state(base.copy())
            I.assume(c)
            try:
                o, p = for_value(I, s, v)
            except RaiseSignal as e:
                o = [('raise', ONE, I.st, e.exc)]
                I.st = None
            outs += [(k, mk('and', c, cc), st, x) for k, cc, st, x in o]
            if I.st is not None:
                cases.append((c, I.st, None))
        if not cases:
            I.st = None
            return outs, ZERO
        I.merge(cases)
        return outs, (T.opq('looped') if outs else ONE)
    kind = I.models.iterate(I, it, s)
    if kind[0] == 'items':
        return run_items(I, kind[1], lambda v: one_iter(I, s, v), s.orelse)
    _, ext, lo, elem = kind
    outs, broke = run_sym(I, ext, lo, lambda ix: one_iter(I, s, elem(ix)))
    if I.st is not None and s.orelse and not broke:
        o2, p2 = I.exec_block(s.orelse)
        outs = outs + o2
    if I.st is None:
        return outs, ZERO
    return outs, (loop_cond(outs) if outs else ONE)


def loop_cond(outs):
    c = ZERO
    for o in outs:
        c = mk('or', c, o[1])
    return not_(c)


def one_iter(I, s, v):
    I.assign(s.target, v)
    return I.exec_block(s.body)


def run_items(I, items, body, orelse=None):
    outs = []
    pc = ONE
    brk = []
    for v in items:
        try:
            o, p = body(v)
        except RaiseSignal as e:
            o, p = [('raise', ONE, I.st, e.exc)], ZERO
            I.st = None
        p = settle(I, o, p)
        for k, c, st, x in o:
            if k == 'brk':
                brk.append((mk('and', pc, c), st, None))
            elif k != 'cnt':
                outs.append((k, mk('and', pc, c), st, x))
        if I.st is None:
            pc = ZERO
            break
        pc = mk('and', pc, p)
    if I.st is not None and orelse:
        o, p = I.exec_block(orelse)
        outs += [(k, mk('and', pc, c), st, x) for k, c, st, x in o]
        if I.st is None:
            pc = ZERO
    cases = brk + ([(pc, I.st, None)] if I.st is not None else [])
    if not cases:
        I.st = None
        return outs, ZERO
    I.merge(cases)
    c = ZERO
    for x in cases:
        c = mk('or', c, x[0])
    return outs, (c if outs else ONE)


def settle(I, o, p):
    """Merge 'continue' outcomes with the normal end of the body."""
    cases = [(c, st, None) for k, c, st, x in o if k == 'cnt']
    if cases:
        if I.st is not None:
            cases.append((p, I.st, None))
        I.merge(cases)
        c = ZERO
        for x in cases:
            c = mk('or', c, x[0])
        return c
    return p


# ----------------------------------------------------------------------
def diff(h0, h1):
    cells = []
    for oid, o0 in h0.items():
        o1 = h1.get(oid)
        if o1 is None or o1 is o0:
            continue
        d0, d1 = vals_of(o0), vals_of(o1)
        if d0 is not None and type(o0) is type(o1):
            for k, v in d1.items():
                w = d0.get(k)
                if w is not v and not (isinstance(w, V) and w == v) and not (not isinstance(v, V) and w == v):
                    cells.append((oid, k))
        elif isinstance(o0, ListObj):
            cells.append((oid, '#list'))
        elif isinstance(o0, ArrObj):
            cells.append((oid, '#arr'))
    return cells


def phi_atom(lid, cell):
    return A('phi', lid, str(cell[0]), str(cell[1]))


class SymLoop(object):
    def __init__(self, I, ext, lo, body):
        self.I = I
        self.body = body
        self.ext = ext
        self.lo = lo
        self.ix = I.new_ix(lo, ext)
        self.cells = []
        self.phis = {}
        self.ind = {}         # cell -> step S (induction variables)
        self.broke = False
        self.stop = ZERO      # condition of leaving the loop with 'break', in terms of the state before the iteration
        self.cond = None      # function that gives the condition of a while loop
        self.trips = None     # placeholder for the number of iterations of a while loop

    def havoc(self, st):
        I = self.I
        self.phis = {}
        for cell in self.cells:
            oid, key = cell
            o = st.heap.get(oid)
            if o is None:
                continue
            ph = phi_atom(self.ix.args[0], cell)
            if key == '#arr':
                if o.dims is None:
                    continue
                self.phis[cell] = ph
                bs = [P(T.bvar(k, d)) for k, d in enumerate(o.dims)]
                if o.view is None:
                    st.heap[oid] = o.with_(body=T.at(ph, *bs))
                continue
            if key == '#list':
                self.phis[cell] = ph
                st.heap[oid] = o.with_(items=None, comp=('phi', T.opq('len', P(ph)), (), cell))
                continue
            d = vals_of(o)
            if key not in d:
                continue
            v = d[key]
            if cell in self.ind and isinstance(v, Num):
                nv = Num(v.s + self.ind[cell] * (P(self.ix) - self.lo), v.typ)
            else:
                nv = self.havoc_val(st, v, ph, cell)
            nd = dict(d)
            nd[key] = nv
            if isinstance(o, FrameObj):
                st.heap[oid] = o.with_(vars=nd)
            elif isinstance(o, DictObj):
                st.heap[oid] = o.with_(items=nd)
            else:
                st.heap[oid] = o.with_(attrs=nd)

    def havoc_val(self, st, v, ph, cell):
        if not isinstance(v, V):
            return v
        if isinstance(v, Num):
            self.phis[cell] = ph
            if cell in self.numarr:
                return self.phi_array(st, ph, *self.numarr[cell])
            return Num(P(ph), v.typ)
        if isinstance(v, Ref):
            o = st.heap.get(v.oid)
            if isinstance(o, ArrObj) and o.dims is not None and cell in self.rebound:
                self.phis[cell] = ph
                oo = self.I.obj(v)
                return self.phi_array(st, ph, oo.dims, oo.dtype, oo.site)
            return Top(T.opq('carry', P(ph)))
        if isinstance(v, Tup):
            return Tup([self.havoc_val(st, x, A('phi', ph.args[0], ph.args[1], ph.args[2] + '.%d' % k), cell)
                        for k, x in enumerate(v.items)])
        return Top(T.opq('carry', P(ph)))

    def phi_array(self, st, ph, dims, dtype, site):
        I = self.I
        oid = I.next_oid
        I.next_oid += 1
        bs = [P(T.bvar(k, d)) for k, d in enumerate(dims)]
        n = ArrObj(dims, T.at(ph, *bs), dtype, 'alloc', None, site)
        n.ixs = tuple(I.loop_ixs)
        st.heap[oid] = n
        return Ref(oid)

    def one(self, base):
        I = self.I
        st = base.copy()
        I.set_state(st)
        self.havoc(st)
        start = dict(st.heap)
        try:
            o, p = self.body(P(self.ix))
        except RaiseSignal as e:
            o, p = [('raise', ONE, I.st, e.exc)], ZERO
            I.st = None
        p = settle(I, o, p)
        brk = [(c, s2, None) for k, c, s2, x in o if k == 'brk']
        self.stop = ZERO
        if brk:
            self.broke = True
            for x in brk:
                self.stop = mk('or', self.stop, x[0])
            if I.st is not None:
                brk.append((p, I.st, None))
            I.merge(brk)
        outs = [x for x in o if x[0] not in ('cnt', 'brk')]
        if I.st is not None:
            for c in self.numarr:
                self.one_array(I.st, c)
        return outs, start

    def one_array(self, st, cell):
        """the value of the cell, which differs by path, as one array"""
        I = self.I
        o = st.heap[cell[0]]
        v = vals_of(o).get(cell[1])
        if not isinstance(v, Alt):
            return
        dims, dtype, site = self.numarr[cell]
        body = None
        for c, x in reversed(v.alts):
            if isinstance(x, Num):
                b = x.s
            else:
                a = I.obj(x) if isinstance(x, Ref) else None
                if not isinstance(a, ArrObj) or a.dims is None or len(a.dims) != len(dims) or \
                        any(p is not q for p, q in zip(a.dims, dims)):
                    return
                b = I.obj_body(a) if a.view is not None else a.body
            if b is None:
                return
            body = b if body is None else where(c, b, body)
        r = self.phi_array(st, ZERO.atom() or A('src', ''), dims, dtype, site)
        st.heap[r.oid] = st.heap[r.oid].with_(body=body)
        nd = dict(vals_of(o))
        nd[cell[1]] = r
        st.heap[cell[0]] = o.with_(vars=nd) if isinstance(o, FrameObj) else \
            o.with_(items=nd) if isinstance(o, DictObj) else o.with_(attrs=nd)

    def run(self):
        I = self.I
        base = I.st
        pend = [len(c.pending) for c in I.try_stack]
        self.rebound = set()
        # numbers that some iterations replace by an array: the number stands for the array of that number
        self.numarr = {}
        I.loop_ixs.append(self.ix)
        fam0 = getattr(I, 'fam_strong', None)
        I.fam_strong = set()
        try:
            I.mute += 1
            try:
                outs, start = self.one(base)
            finally:
                I.mute -= 1
                for c, n in zip(I.try_stack, pend):
                    del c.pending[n:]
            if I.st is None:
                # no iteration completes: run again for the events
                outs, start = self.one(base)
                return outs
            for rnd in range(4):
                end = I.st
                new = [c for c in diff(base.heap, end.heap) if c not in self.cells]
                cells0 = set(self.cells)
                for c in new:
                    o = base.heap.get(c[0])
                    if o is not None and o.ixs and self.ix not in o.ixs and c[0] in I.fam_strong:
                        continue
                    self.cells.append(c)
                    if not str(c[1]).startswith('#'):
                        d0 = vals_of(o)
                        v0 = d0.get(c[1])
                        v1 = vals_of(end.heap[c[0]]).get(c[1])
                        if isinstance(v0, Ref) and isinstance(v1, Ref) and \
                                isinstance(base.heap.get(v0.oid), ArrObj) and isinstance(end.heap.get(v1.oid), ArrObj):
                            if base.heap[v0.oid].dims == end.heap[v1.oid].dims:
                                self.rebound.add(c)
                        elif isinstance(v0, Num) and isinstance(v1, Alt):
                            arrs = [end.heap.get(v.oid) for _, v in v1.alts if isinstance(v, Ref)]
                            if len(arrs) == 1 and isinstance(arrs[0], ArrObj) and arrs[0].dims and \
                                    all(isinstance(v, (Num, Ref)) for _, v in v1.alts) and \
                                    all(d.const() is not None for d in arrs[0].dims):
                                self.numarr[c] = (arrs[0].dims, arrs[0].dtype, arrs[0].site)
                added = [c for c in self.cells if c not in cells0]
                if rnd > 0 and not added and not self.find_induction(base, end, commit=False):
                    break
                # muted pass to discover induction variables, then the recorded pass
                I.mute += 1
                mark = [len(c.pending) for c in I.try_stack]
                try:
                    outs, start = self.one(base)
                finally:
                    I.mute -= 1
                    for c, n in zip(I.try_stack, mark):
                        del c.pending[n:]
                if I.st is None:
                    return outs
                self.find_induction(base, I.st, commit=True)
                mark = len(I.events)
                pmark = [len(c.pending) for c in I.try_stack]
                outs, start = self.one(base)
                if I.st is None:
                    return outs
                more = [c for c in diff(base.heap, I.st.heap) if c not in self.cells and not
                        (base.heap[c[0]].ixs and self.ix not in base.heap[c[0]].ixs and c[0] in I.fam_strong)]
                if not more:
                    break
                del I.events[mark:]
                for c, n in zip(I.try_stack, pmark):
                    del c.pending[n:]
            end = I.st
        finally:
            I.loop_ixs.pop()
            if fam0 is not None:
                I.fam_strong = fam0 | I.fam_strong
            else:
                I.fam_strong = fam0
        self.finish(base, end)
        outs = [(k, self.out_cond(c), st, x) for k, c, st, x in outs]
        return outs

    def out_cond(self, c):
        if c.const() is not None:
            return c
        if self.ix in c.vars or any(v.op == 'phi' for v in c.vars):
            return P(A('bool', T.opq('some', *[P(A('src', s)) for s in sorted(c.srcs)])))
        return c

    def find_induction(self, base, end, commit):
        found = False
        for cell in self.cells:
            if cell in self.ind or str(cell[1]).startswith('#'):
                continue
            o0 = base.heap.get(cell[0])
            o1 = end.heap.get(cell[0])
            if o0 is None or o1 is None:
                continue
            v0, v1 = vals_of(o0).get(cell[1]), vals_of(o1).get(cell[1])
            ph = self.phis.get(cell)
            if isinstance(v0, Num) and isinstance(v1, Num) and ph is not None:
                d = minus(v1.s, P(ph))
                if d is not None and not any(x.op in ('phi', 'ix') and (x.op == 'phi' or x is self.ix) for x in d.vars) \
                        and d.const() is not None and not T.has_op(d, 'opq'):
                    found = True
                    if commit:
                        self.ind[cell] = d
        return found

    # ------------------------------------------------------------------
    def finish(self, base, end):
        I = self.I
        ix = self.ix
        st = State(end.heap, base.facts, base.ivs)
        I.set_state(st)
        self.recurrences(base, end)
        I.set_state(st)
        if self.broke or self.trips is not None and self.trips is self.ext:
            t = self.trip_count()
            if t is not None:
                self.ext = t
        last = self.lo + self.ext - 1
        opq = self.prev_map(base, end)
        prev, prevf = dict(opq), dict(opq)
        for ph in self.comps:
            prev[ph] = self.rec(ph, self.ext - 1)
            prevf[ph] = self.rec(ph, P(ix) - self.lo)

        def close(s):
            mp = dict(prev_for(s, prev))
            mp[ix] = last
            return T.subst(s, mp)

        def close_ref(r):
            return I.sub_ref(r, {ix: last})
        post = {}
        for oid, o1 in list(end.heap.items()):
            o0 = base.heap.get(oid)
            if o0 is None:
                # allocated in the loop: a family indexed by ix; only phis are closed
                if any_phi(o1, self.lid()):
                    post[oid] = mp_obj(o1, lambda s: T.subst(s, prev_for(s, prevf)))
                continue
            if o1 is o0:
                continue
            if isinstance(o1, ArrObj):
                post[oid] = self.finish_arr(oid, o0, o1, close)
                continue
            if isinstance(o1, ListObj):
                post[oid] = self.finish_list(oid, o0, o1, close, close_ref)
                continue
            d0, d1 = vals_of(o0), vals_of(o1)
            nd = {}
            for k, v in d1.items():
                cell = (oid, k)
                if k in d0 and (d0[k] is v or (isinstance(v, V) and d0[k] == v)):
                    nd[k] = d0[k]
                    continue
                if isinstance(o1, DictObj) and isinstance(k, Tup) and len(k.items) == 3 and \
                        isinstance(k.items[0], Const) and k.items[0].v == '#fam' and k.items[1].s.atom() is ix:
                    # stored under key(ix) for every ix: only the loop-carried values are closed
                    nd[k] = mp_val(v, lambda s: T.subst(s, prev_for(s, prevf)), lambda r: r) if isinstance(v, V) else v
                    continue
                if cell in self.phis or cell in self.cells:
                    nd[k] = self.finish_val(cell, d0.get(k, UNDEF), v, close, close_ref)
                elif isinstance(v, S):
                    nd[k] = close(v)
                else:
                    nd[k] = mp_val(v, close, close_ref) if isinstance(v, V) else v
            if isinstance(o1, FrameObj):
                post[oid] = o1.with_(vars=nd)
            elif isinstance(o1, DictObj):
                post[oid] = o1.with_(items=nd)
            else:
                post[oid] = o1.with_(attrs=nd)
        st.heap.update(post)

    def lid(self):
        return self.ix.args[0]

    # -------------------------------------------------------------- recurrences
    def recurrences(self, base, end):
        """The simultaneous recurrence of the loop-carried numbers and arrays: phi -> (dims, init, step, phis read)."""
        I = self.I
        comps = {}

        def array(st, v):
            save = I.st
            I.set_state(st)
            try:
                o = I.obj(v)
                if isinstance(o, ArrObj) and o.view is not None and o.dims is not None:
                    o = o.with_(body=I.obj_body(o))
            finally:
                I.set_state(save)
            return o

        def put(ph, d0, b0, d1, b1):
            if d0 is None or d1 is None or b0 is None or b1 is None or len(d0) != len(d1):
                return
            if any(x is not y for x, y in zip(d0, d1)):
                return
            for x in d0:
                if self.ix in x.vars or any(v.op == 'phi' for v in x.vars):
                    return
            if T.toobig(b0) or T.toobig(b1):
                return
            comps[ph] = [d0, b0, b1, None]

        for cell, ph in self.phis.items():
            o0, o1 = base.heap.get(cell[0]), end.heap.get(cell[0])
            if o0 is None or o1 is None or cell[1] == '#list':
                continue
            if cell[1] == '#arr':
                if o0.view is None and o1.view is None:
                    put(ph, o0.dims, o0.body, o1.dims, o1.body)
                continue
            v0, v1 = vals_of(o0).get(cell[1]), vals_of(o1).get(cell[1])
            self.comp_of(ph, v0, v1, base, end, array, put)
        for ph, c in comps.items():
            c[3] = {v for v in c[1].vars | c[2].vars if v.op == 'phi' and v.args[0] == self.lid()}
        # what reads a value that is not representable is not representable
        while True:
            bad = [ph for ph, c in comps.items() if any(v not in comps for v in c[3])]
            if not bad:
                break
            for ph in bad:
                del comps[ph]
        self.order = {ph: j for j, ph in enumerate(sorted(comps, key=lambda a: a.id))}
        self.comps = comps
        for ph, c in comps.items():
            j = self.order[ph]
            mp = {T.bvar(k, d): P(T.rec_var(self.lid(), j, k, d)) for k, d in enumerate(c[0])}
            if mp:
                c[1], c[2] = T.subst(c[1], mp), T.subst(c[2], mp)
        self.systems = {}

    def comp_of(self, ph, v0, v1, base, end, array, put):
        if isinstance(v0, Num) and isinstance(v1, Num):
            put(ph, (), v0.s, (), v1.s)
        elif isinstance(v0, Ref) and isinstance(v1, Ref):
            a0, a1 = array(base, v0), array(end, v1)
            if isinstance(a0, ArrObj) and isinstance(a1, ArrObj):
                put(ph, a0.dims, a0.body, a1.dims, a1.body)
        elif isinstance(v0, Num) and isinstance(v1, Ref):
            # a number that becomes an array of one element
            a1 = array(end, v1)
            if isinstance(a1, ArrObj) and a1.dims and a1.body is not None and \
                    any(self.phis.get(c) is ph for c in self.numarr):
                put(ph, a1.dims, v0.s, a1.dims, a1.body)
            elif isinstance(a1, ArrObj) and a1.dims and all(d is ONE for d in a1.dims) and a1.body is not None:
                put(ph, (), v0.s, (), T.subst(a1.body, {T.bvar(k, d): ZERO for k, d in enumerate(a1.dims)}))
        elif isinstance(v0, Tup) and isinstance(v1, Tup) and len(v0.items) == len(v1.items):
            for k, (x, y) in enumerate(zip(v0.items, v1.items)):
                self.comp_of(A('phi', ph.args[0], ph.args[1], ph.args[2] + '.%d' % k), x, y, base, end, array, put)

    def system(self, need, cond=ONE, stop=ZERO):
        todo, seen = list(need), set()
        while todo:
            ph = todo.pop()
            if ph in seen:
                continue
            if ph not in self.comps:
                return None
            seen.add(ph)
            todo += self.comps[ph][3]
        phs = sorted(seen, key=lambda ph: self.order[ph])
        key = (tuple(phs), cond, stop)
        if key not in self.systems:
            a = A('recsys', self.ix, self.lo, tuple((ph,) + tuple(self.comps[ph][:3]) for ph in phs), cond, stop)
            self.systems[key] = (a, {ph: k for k, ph in enumerate(phs)})
        return self.systems[key]

    def rec(self, ph, n):
        """what stands for the carried value ph after n iterations"""
        a, pos = self.system([ph])
        r = A('rec', a, pos[ph], n)
        return T.at(r) if not self.comps[ph][0] else r

    def trip_count(self):
        cond = self.cond() if self.cond is not None else ONE
        if cond is None:
            return None
        need = {v for v in cond.vars | self.stop.vars if v.op == 'phi' and v.args[0] == self.lid()}
        sy = self.system(need, cond, self.stop)
        if sy is None:
            return None
        return T.at(A('rec', sy[0], 'trips', K(-1) if self.cond is not None else self.ext))

    def rec_array(self, ph, bs):
        if ph not in self.comps:
            return None
        return T.at(self.rec(ph, self.ext), *[P(b) for b in bs])

    def prev_map(self, base, end):
        """Closed (opaque, source-preserving) replacements of the loop-carried values."""
        I = self.I
        deps = {}
        for cell, ph in self.phis.items():
            o0, o1 = base.heap.get(cell[0]), end.heap.get(cell[0])
            a, b = set(), set()
            save = I.st
            for st, o, acc in ((base, o0, a), (end, o1, b)):
                I.st = st
                if str(cell[1]).startswith('#'):
                    acc |= I.obj_srcs(o)
                else:
                    v = vals_of(o).get(cell[1])
                    if isinstance(v, V):
                        acc |= I.srcs(v)
                    # which phis does the new value read
            I.st = save
            deps[ph] = a | b
        allsrc = set()
        for v in deps.values():
            allsrc |= v
        out = {}
        for cell, ph in self.phis.items():
            out[ph] = A('opq', 'carried:%s' % (cell[1] if isinstance(cell[1], str) else '#'),
                        tuple(P(A('src', s)) for s in sorted(deps[ph])) + (K(self.lid()),))
        return out

    def finish_val(self, cell, v0, v1, close, close_ref):
        I = self.I
        ph = self.phis.get(cell)
        if cell in self.ind and isinstance(v0, Num):
            return Num(v0.s + self.ind[cell] * self.ext, v0.typ)
        if isinstance(v1, Num) and isinstance(v0, Num) and ph is not None:
            if ph in v1.s.vars:
                d = minus(v1.s, P(ph))
                if d is not None and not self.has_phi(d):
                    return Num(v0.s + self.total(d), v1.typ)
            return Num(close(v1.s), v1.typ)
        if isinstance(v1, V):
            return mp_val(v1, close, close_ref)
        if isinstance(v1, S):
            return close(v1)
        return v1

    def has_phi(self, s):
        return any(x.op == 'phi' and x.args[0] == self.lid() for x in s.vars)

    def total(self, d):
        """Sum of d over the loop range."""
        r = A('r', -7000 - self.lid(), 0, self.ext)
        return T.sum_over(r, self.ext, T.subst(d, {self.ix: P(r) + self.lo}))

    def finish_list(self, oid, o0, o1, close, close_ref):
        I = self.I
        if o1.items is None and o1.comp[0] == 'phi' and len(o1.comp) > 4:
            return self.finish_items(o0, o1)
        if o1.items is None and o1.comp[0] == 'phi':
            app = o1.comp[2]
            if len(app) == 1 and o0.items == ():
                if isinstance(app[0], tuple):
                    v = Top(T.fresh('ext'))
                else:
                    v = app[0]
                return o1.with_(comp=(self.ix, self.ext, v))
            if not app:
                return o0
            n = I.list_len(o0) + self.ext * len(app)
            srcs = set()
            for a in app:
                srcs |= I.srcs(a) if isinstance(a, V) else I.srcs(a[1])
            srcs |= I.obj_srcs(o0)
            if any(isinstance(a, tuple) for a in app):
                n = T.fresh('len')
            return o1.with_(comp=(I.new_ix(ZERO, n), n, Top(T.fresh('elem', *[P(A('src', s)) for s in sorted(srcs)]))))
        if o1.items is not None:
            return o1.with_(items=tuple(mp_val(x, close, close_ref) for x in o1.items))
        if o1.comp[0] is self.ix:
            return o1
        return o1.with_(comp=(o1.comp[0], close(o1.comp[1]), mp_val(o1.comp[2], close, close_ref)) + tuple(o1.comp[3:]))

    def finish_items(self, o0, o1):
        """the list after every iteration stored its own item"""
        I = self.I
        n = I.list_len(o0)
        app, w = o1.comp[2], o1.comp[4]
        d = (w[0][0] - P(self.ix)) if len(w) == 1 and not app else None
        if d is not None and self.ix not in d.vars and not self.has_phi(d):
            lo, v = self.lo + d, w[0][1]
            if lo is ZERO and self.ext is n:
                if d is not ZERO:
                    v = I.sub_val(v, {self.ix: P(self.ix) - d})
                if d is ZERO:
                    return o1.with_(comp=(self.ix, n, v))
            if o0.items is None and o0.comp[0] != 'phi':
                jx = I.new_ix(ZERO, n)
                old = I.sub_val(o0.comp[2], {o0.comp[0]: P(jx) + o0.comp[0].args[1]})
                new = I.sub_val(v, {self.ix: P(jx) - d})
                c = mk('and', le(lo, P(jx)), lt(P(jx), lo + self.ext))
                return o1.with_(comp=(jx, n, I.join_val(c, new, old)))
            if o0.items is not None:
                its = []
                for k, x in enumerate(o0.items):
                    c = mk('and', le(lo, K(k)), lt(K(k), lo + self.ext))
                    its.append(I.join_val(c, I.sub_val(v, {self.ix: K(k) - d}), x))
                return o1.with_(items=tuple(its), comp=None)
        srcs = I.obj_srcs(o0)
        for v in app:
            srcs |= I.srcs(v) if isinstance(v, V) else I.srcs(v[1])
        for i, v in w:
            srcs |= I.srcs(v)
        if app:
            n = T.fresh('len')
        return o1.with_(comp=(I.new_ix(ZERO, n), n, Top(T.fresh('elem', *[P(A('src', s)) for s in sorted(srcs)]))))

    def finish_arr(self, oid, o0, o1, close):
        cell = (oid, '#arr')
        ph = self.phis.get(cell)
        if o1.dims is None or o1.body is None:
            return o1
        if o0.dims != o1.dims or ph is None or o0.view is not None:
            return mp_obj(o1, close)
        bs = [T.bvar(k, d) for k, d in enumerate(o1.dims)]
        phb = T.at(ph, *[P(b) for b in bs])
        if ph not in o1.body.vars and self.ix not in o1.body.vars:
            return o1.with_(body=close(o1.body))
        if ph not in o1.body.vars:
            return o1.with_(body=close(o1.body))
        r = self.promote(o1.body, phb, ph, o0.body, bs)
        if r is not None and not self.has_phi(r) and self.ix not in r.vars:
            return o1.with_(body=r)
        r = self.rec_array(ph, bs)
        if r is not None:
            return o1.with_(body=r)
        srcs = sorted(o0.body.srcs | o1.body.srcs)
        return o1.with_(body=T.fresh('loop', *([P(A('src', s)) for s in srcs] + [P(b) for b in bs])))

    def promote(self, n, phb, ph, init, bs):
        if n is phb:
            return init
        if ph not in n.vars and self.ix not in n.vars:
            return n
        at = n.atom()
        if at is not None and at.op == 'where':
            c, g, rest = at.args
            if self.ix in c.vars:
                flip = False
                sol = self.solve(c, bs)
                if sol is None:
                    sol = self.solve(not_(c), bs)
                    if sol is not None:
                        g, rest = rest, g
                if sol is not None:
                    val, guard = sol
                    r = self.promote(rest, phb, ph, init, bs)
                    if r is None or self.ix in r.vars:
                        return None
                    gg = T.subst(g, {self.ix: val})
                    if ph in gg.vars:
                        # value before the write at the same position
                        before = r
                        gg2 = T.subst(gg, {phb.atom(): before}) if phb.atom() is not None else gg
                        if ph in gg2.vars:
                            # reads of other positions already (or not yet) written
                            return None
                        gg = gg2
                    return where(guard, gg, r)
            elif not self.has_phi(c):
                a = self.promote(g, phb, ph, init, bs)
                b = self.promote(rest, phb, ph, init, bs)
                if a is None or b is None:
                    return None
                return where(c, a, b)
        d = minus(n, phb)
        if d is not None and not self.has_phi(d):
            return init + self.total(d)
        if ph not in n.vars:
            return T.subst(n, {self.ix: self.lo + self.ext - 1})
        return None

    def solve(self, c, bs):
        """Solve a write condition for the loop index: (value of ix, remaining guard) or None."""
        conj = conjuncts(c)
        dep = [x for x in conj if self.ix in x.vars]
        rest = [x for x in conj if self.ix not in x.vars]
        guard = ONE
        for x in rest:
            guard = mk('and', guard, x)
        for x in dep:
            a = x.atom()
            if a is not None and a.op == 'eq':
                val = self.linear(a.args[0] - a.args[1])
                if val is not None:
                    val, exact = val
                    for y in dep:
                        if y is not x:
                            guard = mk('and', guard, T.subst(y, {self.ix: val}))
                    return val, mk('and', guard, self.in_range(val))
        # slice: s(ix) <= b < e(ix) with e - s = B and s = B*ix + k
        lows, highs = [], []
        for x in dep:
            a = x.atom()
            if a is None or a.op not in ('lt', 'le'):
                return None
            u, v = a.args
            strict = a.op == 'lt'
            # u (<|<=) v ; index variable on which side
            if self.ix in u.vars and self.ix not in v.vars:
                # s <= b  (integers: s < b  ==  s+1 <= b)
                lows.append(((u + 1) if strict else u, v))
            elif self.ix in v.vars and self.ix not in u.vars:
                highs.append((u, v if strict else v + 1))
            else:
                return None
        if len(lows) == 1 and len(highs) == 1 and lows[0][1] is highs[0][0]:
            s, b = lows[0]
            e = highs[0][1]
            B = e - s
            if self.ix in B.vars:
                return None
            k = T.subst(s, {self.ix: ZERO})
            if s is k + B * P(self.ix):
                val = T.fdiv(b - k, B)
                return val, mk('and', guard, self.in_range(val))
        if len(highs) == 1 and not lows:
            # first chunk started at 0 was simplified away?  b < B*ix + B with ix >= 0 only
            return None
        return None

    def in_range(self, val):
        return mk('and', le(self.lo, val), lt(val, self.lo + self.ext))

    def linear(self, d):
        """d == 0 solved for ix when d = a*ix + rest with a = +-1."""
        coef = ZERO
        rest = ZERO
        for m, c in d.terms:
            es = dict(m)
            if self.ix in es:
                if es[self.ix] != 1 or len(m) != 1:
                    return None
                coef = coef + c
            elif any(self.ix in a.vars for a, e in m):
                return None
            else:
                rest = rest + T._mkpoly({m: c})
        cc = coef.const() if isinstance(coef, S) else coef
        if cc not in (1, -1):
            return None
        return (T.scale(rest, -1 if cc == 1 else 1), True)


def prev_for(s, prev):
    out = {}
    for v in s.vars:
        if v.op == 'phi' and v in prev:
            out[v] = prev[v] if isinstance(prev[v], S) else P(prev[v])
        elif v.op == 'phi':
            base = A('phi', v.args[0], v.args[1], v.args[2].split('.')[0])
            if base in prev:
                out[v] = P(prev[base])
    return out


def any_phi(o, lid):
    found = []

    def f(s):
        if any(x.op == 'phi' and x.args[0] == lid for x in s.vars):
            found.append(1)
        return s
    mp_obj(o, f)
    return bool(found)


def conjuncts(c):
    a = c.atom()
    if a is not None and a.op == 'and':
        return conjuncts(a.args[0]) + conjuncts(a.args[1])
    if a is None and len(c.terms) == 1 and c.terms[0][1] == 1 and all(x.op in T.BOOLOPS for x, e in c.terms[0][0]):
        out = []
        for x, e in c.terms[0][0]:
            out += conjuncts(P(x))
        return out
    return [c]


def minus(n, p):
    """n - p, pushed through where; None if p does not cancel."""
    at = n.atom()
    if at is not None and at.op == 'where':
        a, b = minus(at.args[1], p), minus(at.args[2], p)
        if a is None or b is None:
            return None
        return where(at.args[0], a, b)
    d = n - p
    pa = p.atom()
    if pa is not None and pa in T_atoms(d):
        # where atoms inside a sum
        for m, c in n.terms:
            for x, e in m:
                if x.op == 'where' and len(m) == 1 and c == 1 and e == 1 and pa in T_atoms(P(x)):
                    r = minus(P(x), p)
                    if r is not None:
                        return n - P(x) + r
        return None
    return d


def T_atoms(s):
    return {a for m, c in s.terms for a, e in m} | ({y for m, c in s.terms for a, e in m if a.op == 'where'
                                                     for y in T.walk(P(a))})


def run_sym(I, ext, lo, body, cond=None, trips=None):
    c = ext.const()
    if c is not None and c <= 0:
        return [], False
    L = SymLoop(I, ext, lo, body)
    L.cond, L.trips = cond, trips
    outs = L.run()
    return outs, L.broke


def exec_while(I, s):
    c = I.truth(I.ev(s.test))
    t = I.truth_of(c)
    if t is False:
        return I.exec_block(s.orelse) if s.orelse else ([], ONE)
    # concrete counting loops
    n = 0
    base = I.st.copy()
    mark = len(I.events)
    outs = []
    # symbolic: opaque trip count; counters become induction variables
    trips = P(A('opq', 'trips', (K(I.next_lid),)))

    state = {}

    def body(ix):
        cc = I.truth(I.ev(s.test))
        state['cond'] = cc
        if I.truth_of(cc) is None:
            I.assume(cc)
        return I.exec_block(s.body)
    I.mute += 1
    save = I.st
    pend = [len(x.pending) for x in I.try_stack]
    lid0 = I.next_lid
    ext = trips
    try:
        I.set_state(save.copy())
        L = SymLoop(I, trips, ZERO, body)
        try:
            L.run()
            cc = state.get('cond')
            for q in conjuncts(cc) if cc is not None and not L.broke else []:
                a = q.atom()
                if a is not None and a.op in ('lt', 'le') and L.ix in a.args[0].vars and \
                        not any(v.op == 'phi' or v is L.ix for v in a.args[1].vars) and len(conjuncts(cc)) == 1:
                    k = a.args[0] - P(L.ix)
                    if L.ix not in k.vars:
                        e = a.args[1] - k
                        if a.op == 'le':
                            e = e + 1
                        ext = e
        except RaiseSignal:
            pass
    finally:
        I.mute -= 1
        for x, k in zip(I.try_stack, pend):
            del x.pending[k:]
    I.set_state(save)
    cx = ext.const()
    if cx is not None and cx <= UNROLL:
        outs, p = run_items(I, [None] * int(cx), lambda v: I.exec_block(s.body))
        return outs, p
    outs, broke = run_sym(I, ext, ZERO, body, lambda: state.get('cond'), trips)
    if I.st is None:
        return outs, ZERO
    if s.orelse and not broke:
        o2, p2 = I.exec_block(s.orelse)
        outs = outs + o2
    if I.st is None:
        return outs, ZERO
    return outs, (loop_cond(outs) if outs else ONE)


def comprehension(I, e):
    lst = I.alloc(ListObj([], site=I.site()))
    foid = I.frames[-1][0]
    saved = {}
    names = [n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)]
    for n in names:
        saved[n] = I.st.heap[foid].vars.get(n)
    tmp = '#comp%d' % lst.oid
    I.set_var(tmp, lst)

    def level(k):
        if k == len(e.generators):
            v = Tup([I.ev(e.key), I.ev(e.value)]) if isinstance(e, ast.DictComp) else I.ev(e.elt)
            I.models.list_append(I, I.lookup(tmp), v)
            return [], ONE
        g = e.generators[k]
        it = I.ev(g.iter)

        def body(v):
            I.assign(g.target, v)
            for cnd in g.ifs:
                c = I.truth(I.ev(cnd))
                t = I.truth_of(c)
                if t is False:
                    return [], ONE
                if t is None:
                    I.event('filter', cond=c)
                    base = I.st
                    st1 = base.copy()
                    I.set_state(st1)
                    I.assume(c)
                    level(k + 1)
                    s1 = I.st
                    st, _ = I.merge2(c, s1, None, base, None)
                    I.set_state(st)
                    return [], ONE
            return level(k + 1)
        kind = I.models.iterate(I, it, e)
        if kind[0] == 'items':
            o, p = run_items(I, kind[1], body)
        else:
            o, b = run_sym(I, kind[1], kind[2], lambda ix: body(kind[3](ix)))
        for x in o:
            if x[0] == 'raise':
                if I.st is None:
                    I.set_state(x[2])
                    raise RaiseSignal(x[3])
                I.pend(x[1], x[2], x[3])
        return [], ONE
    level(0)
    r = I.lookup(tmp)
    f = I.st.heap[foid]
    nv = dict(f.vars)
    nv.pop(tmp, None)
    for n, v in saved.items():
        if v is None:
            nv.pop(n, None)
        else:
            nv[n] = v
    I.st.heap[foid] = f.with_(vars=nv)
    return r
