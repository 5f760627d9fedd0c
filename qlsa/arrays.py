"""Abstract arrays: indexing, assignment, element-wise operations, reductions."""
from fractions import Fraction

from . import terms as T
from .terms import S, A, K, P, ZERO, ONE, where, mk, eq, lt, le, not_, bvar
from .values import *


class UnkShape(Exception):
    """The shape of an operand is not known: the result is unknown as well."""


class Ar(object):
    __slots__ = ('dims', 'body', 'dtype')

    def __init__(self, dims, body, dtype='float'):
        self.dims = tuple(dims)
        self.body = body
        self.dtype = dtype

    def bs(self):
        return [P(bvar(k, d)) for k, d in enumerate(self.dims)]

    def at(self, *idx):
        return T.subst(self.body, {bvar(k, d): i for k, (d, i) in enumerate(zip(self.dims, idx))})


def err(I, name, msg, **kw):
    from .interp import RaiseSignal
    I.event('error', err=name, msg=msg, **kw)
    raise RaiseSignal(Exc(name, tag=msg))


def range_len(v):
    if v.step is ONE:
        return v.hi - v.lo
    sg = T.sign_of(v.step)
    if sg not in ('+', '-'):
        return None
    d, st = (v.hi - v.lo, v.step) if sg == '+' else (v.lo - v.hi, -v.step)
    k, r = T._split(d, st)
    return k if r is ZERO else T.fdiv(d + st - 1, st)


def as_ar(I, v):
    """Array view of a value (no allocation)."""
    if isinstance(v, Num):
        return Ar((), v.s, v.typ)
    if isinstance(v, Ref):
        o = I.obj(v)
        if isinstance(o, ArrObj):
            if o.dims is None:
                raise UnkShape()
            return Ar(o.dims, I.obj_body(o), o.dtype)
        if isinstance(o, ListObj):
            if o.items is not None:
                return stack(I, [as_ar(I, x) for x in o.items])
            if o.comp[0] == 'phi':
                raise UnkShape()
            ix, ext, t = o.comp[:3]
            a = as_ar(I, t)
            return promote_axis0(a, ix, ext)
        raise UnkShape()
    if isinstance(v, Tup):
        return stack(I, [as_ar(I, x) for x in v.items])
    if isinstance(v, RangeV):
        n = range_len(v)
        if n is None:
            raise UnkShape()
        return Ar((n,), v.lo + v.step * P(bvar(0, n)), 'int')
    if isinstance(v, Const) and v.v is None:
        err(I, 'TypeError', 'None used as an array')
    if isinstance(v, Const) and isinstance(v.v, str):
        return Ar((), P(A('str', v.v)), 'str')
    raise UnkShape()


def promote_axis0(a, ix, ext):
    """Elements a(ix) for every value of the loop index become axis 0."""
    nd = (ext,) + a.dims
    mp = {bvar(k, d): P(bvar(k + 1, d)) for k, d in enumerate(a.dims)}
    mp[ix] = P(bvar(0, ext)) + ix.args[1]
    return Ar(nd, T.subst(a.body, mp), a.dtype)


def stack(I, items):
    n = len(items)
    if not items:
        return Ar((ZERO,), ZERO, 'float')
    rank = len(items[0].dims)
    for x in items:
        if len(x.dims) != rank:
            raise UnkShape()
    d0 = items[0].dims
    for x in items[1:]:
        for p, q in zip(d0, x.dims):
            if p is not q:
                if definitely_different(p, q):
                    # ragged
                    err(I, 'ValueError', 'inhomogeneous shape %s and %s' % (p, q))
                raise UnkShape()
    nd = (K(n),) + d0
    sh = {bvar(k, d): P(bvar(k + 1, d)) for k, d in enumerate(d0)}
    b0 = P(bvar(0, nd[0]))
    bodies = [T.subst(x.body, sh) for x in items]
    body = bodies[-1]
    for k in range(n - 2, -1, -1):
        body = where(eq(b0, K(k)), bodies[k], body)
    dts = {x.dtype for x in items}
    dt = dts.pop() if len(dts) == 1 else ('float' if dts <= {'int', 'float', 'bool'} else 'any')
    return Ar(nd, body, dt)


def definitely_different(p, q):
    s = T.sign_of(p - q)
    return s in ('+', '-')


def free_dims(s):
    return all(a.op == 'dim' and e > 0 for m, c in s.terms for a, e in m)


def check_dim(I, p, q, what):
    """Dimension agreement; returns False after reporting a conflict."""
    if p is q:
        return True
    e = eq(p, q)
    t = I.truth_of(e)
    if t is True:
        return True
    if t is False or definitely_different(p, q):
        err(I, 'ValueError', 'shapes do not fit in %s: %s and %s' % (what, p, q), dims=(p, q))
    if free_dims(p) and free_dims(q):
        I.event('shape', what=what, dims=(p, q))
        return False
    return True


def new(I, a):
    """Allocate."""
    return I.new_arr(a.dims, a.body, a.dtype if a.dtype not in ('any',) else 'any')


def result(I, a):
    if not a.dims:
        return Num(a.body, a.dtype)
    return new(I, a)


def broadcast(I, ars, what='operation'):
    """Common dims and the bodies rewritten over them."""
    rank = max(len(a.dims) for a in ars)
    dims = []
    for ax in range(rank):
        cur = None
        for a in ars:
            k = ax - (rank - len(a.dims))
            if k < 0:
                continue
            d = a.dims[k]
            if d is ONE:
                if cur is None:
                    cur = d
                continue
            if cur is None or cur is ONE:
                cur = d
            elif cur is not d:
                check_dim(I, cur, d, what)
                # prefer the simpler description
                if d.size < cur.size:
                    cur = d
        dims.append(cur)
    dims = tuple(dims)
    out = []
    for a in ars:
        off = rank - len(a.dims)
        mp = {}
        for k, d in enumerate(a.dims):
            rd = dims[k + off]
            v = bvar(k, d)
            if d is ONE and rd is not ONE:
                mp[v] = ZERO
            else:
                nv = bvar(k + off, rd)
                if nv is not v:
                    mp[v] = P(nv)
        out.append(T.subst(a.body, mp) if mp else a.body)
    return dims, out


def elementwise(I, f, *vals, **kw):
    ars = [as_ar(I, v) for v in vals]
    return result(I, ew(I, f, ars, kw.get('dtype'), kw.get('what', 'operation')))


def ew(I, f, ars, dtype=None, what='operation'):
    dims, bodies = broadcast(I, ars, what)
    if dtype is None:
        dts = {a.dtype for a in ars}
        dtype = dts.pop() if len(dts) == 1 else ('float' if 'float' in dts else 'any')
    return Ar(dims, f(*bodies), dtype)


# ----------------------------------------------------------------------
# indexing
def norm_int(I, s, dim, strict=True):
    c = s.const()
    if c is not None and c < 0:
        s2 = s + dim
        if strict and T.sign_of(s2) == '-':
            err(I, 'IndexError', 'index %s out of bounds for axis of size %s' % (s, dim))
        return s2
    if strict:
        sg = T.sign_of(s - dim)
        if sg in ('+', '+0', '0') and (sg != '+0' or T.nonneg(s - dim)):
            err(I, 'IndexError', 'index %s out of bounds for axis of size %s' % (s, dim))
    return s


def slice_bounds(I, sl, dim):
    """(start, length, step) as S, S, int."""
    step = 1
    if isinstance(sl.c, Num):
        c = sl.c.s.const()
        if c is None:
            raise UnkShape()
        step = int(c)
    elif not (isinstance(sl.c, Const) and sl.c.v is None):
        raise UnkShape()

    def val(x):
        if isinstance(x, Num):
            return x.s
        if isinstance(x, Const) and x.v is None:
            return None
        if isinstance(x, Ref) and I.is_arr(x):
            o = I.obj(x)
            if o.dims == ():
                return I.body(x)
        raise UnkShape()
    a, b = val(sl.a), val(sl.b)
    if step == -1:
        if a is None and b is None:
            return dim - 1, dim, -1
        raise UnkShape()
    if step < 1:
        raise UnkShape()

    def norm(s, clip_hi):
        c = s.const()
        if c is not None and c < 0:
            s = s + dim
            if T.sign_of(s) == '-':
                return ZERO
            if not T.nonneg(s):
                return T.fun('max2', s, ZERO)
            return s
        if c is None and not T.nonneg(s):
            # negative start/stop counts from the end; only when provably negative
            if T.sign_of(s) == '-':
                return s + dim
        if clip_hi:
            sg = T.sign_of(dim - s)
            if sg in ('+', '+0', '0'):
                return s
            if sg in ('-', '-0'):
                return dim
            if I.truth_of(le(s, dim)):
                return s
            if c is None and not T.is_const_like(s):
                return s          # bounds computed from data are taken as in range
            return T.fun('min2', s, dim)
        return s
    lo = ZERO if a is None else norm(a, False)
    hi = dim if b is None else norm(b, True)
    n = hi - lo
    if T.sign_of(n) in ('-', '-0'):
        n = ZERO
    if step != 1:
        n = T.fdiv(n + (step - 1), K(step))
    return lo, n, step


def index_parts(I, i):
    if isinstance(i, Tup):
        return list(i.items)
    return [i]


def classify(I, x):
    if isinstance(x, Const) and x.v is None:
        return 'new'
    if isinstance(x, Const) and x.v is Ellipsis:
        return 'ell'
    if isinstance(x, SliceV):
        return 'slice'
    if isinstance(x, Num):
        return 'int' if x.typ != 'bool' else 'boolscalar'
    if isinstance(x, Ref):
        o = I.obj(x)
        if isinstance(o, ArrObj):
            if o.dims is None:
                return 'unk'
            if o.dims == ():
                return 'int'
            return 'mask' if o.dtype == 'bool' else 'fancy'
        if isinstance(o, ListObj):
            a = as_ar(I, x)
            return 'mask' if a.dtype == 'bool' else 'fancy'
    if isinstance(x, RangeV):
        return 'fancy'
    return 'unk'


class Sel(object):
    """Result of an index expression on dims: per base axis an index S over the result's b-vars."""
    __slots__ = ('dims', 'idx', 'basic', 'regions')

    def __init__(self, dims, idx, basic, regions):
        self.dims = dims
        self.idx = idx
        self.basic = basic
        self.regions = regions    # per base axis: ('pt', s) | ('sl', lo, n, step, result axis) | ('mask', lam..) | ('fancy',)


def select(I, dims, i, strict=True):
    parts = index_parts(I, i)
    kinds = [classify(I, x) for x in parts]
    if 'unk' in kinds or 'boolscalar' in kinds:
        raise UnkShape()
    used = 0
    for x, k in zip(parts, kinds):
        if k == 'new' or k == 'ell':
            continue
        if k == 'mask':
            used += len(as_ar(I, x).dims)
        else:
            used += 1
    if used > len(dims):
        err(I, 'IndexError', 'too many indices: %d for an array of dimension %d' % (used, len(dims)), dims=dims)
    if 'ell' in kinds:
        k = kinds.index('ell')
        fill = [SliceV(NONE, NONE, NONE)] * (len(dims) - used)
        parts = parts[:k] + fill + parts[k + 1:]
        kinds = kinds[:k] + ['slice'] * len(fill) + kinds[k + 1:]
    else:
        n = len(dims) - used
        parts += [SliceV(NONE, NONE, NONE)] * n
        kinds += ['slice'] * n
    fancy = [k for k in kinds if k in ('mask', 'fancy')]
    rdims = []
    plan = []       # per base axis
    ax = 0
    adv_pos = None
    adv = []
    for x, k in zip(parts, kinds):
        if k == 'new':
            rdims.append(ONE)
            continue
        if k == 'int':
            s = as_ar(I, x).body
            if fancy:
                adv.append((ax, Ar((), norm_int(I, s, dims[ax], strict), 'int'), None))
                if adv_pos is None:
                    adv_pos = len(rdims)
                    rdims.append('adv')
            else:
                plan.append((ax, 'pt', norm_int(I, s, dims[ax], strict)))
            ax += 1
        elif k == 'slice':
            lo, n, st = slice_bounds(I, x, dims[ax])
            plan.append((ax, 'sl', lo, n, st, len(rdims)))
            rdims.append(n)
            ax += 1
        elif k == 'fancy':
            a = as_ar(I, x)
            adv.append((ax, a, None))
            if adv_pos is None:
                adv_pos = len(rdims)
                rdims.append('adv')
            ax += 1
        elif k == 'mask':
            m = as_ar(I, x)
            for j, d in enumerate(m.dims):
                check_dim(I, d, dims[ax + j], 'boolean index')
            adv.append((ax, m, 'mask'))
            if adv_pos is None:
                adv_pos = len(rdims)
                rdims.append('adv')
            ax += len(m.dims)
    regions = {}
    if not adv:
        rd = tuple(rdims)
        idx = [None] * len(dims)
        for p in plan:
            if p[1] == 'pt':
                idx[p[0]] = p[2]
                regions[p[0]] = ('pt', p[2])
            else:
                _, _, lo, n, st, r = p
                b = P(bvar(r, rd[r]))
                idx[p[0]] = lo + b * st
                regions[p[0]] = ('sl', lo, n, st, r)
        return Sel(rd, idx, True, regions)
    # advanced
    masks = [a for a in adv if a[2] == 'mask']
    if masks:
        if len(adv) > 1:
            # a mask together with scalar indices of other axes
            others = [a for a in adv if a[2] != 'mask']
            if len(masks) > 1 or any(len(a[1].dims) for a in others):
                raise UnkShape()
        max_, m, _ = masks[0]
        rs = [A('r', -8000, j, d) for j, d in enumerate(m.dims)]
        lam = T.lam_vars(rs, m.dims, m.at(*[P(r) for r in rs]))
        cnt = mask_count(lam)
        adims = (cnt,)

        def aidx(off):
            out = {}
            b = P(bvar(off, cnt))
            if len(m.dims) == 1:
                out[max_] = mk('nth', lam, b)
            else:
                for j in range(len(m.dims)):
                    out[max_ + j] = P(A('nthk', lam, K(j), b))
            for ax2, a, kind in adv:
                if kind is None:
                    out[ax2] = a.body
            return out
        regions['mask'] = (max_, m, lam)
        for ax2, a, kind in adv:
            if kind is None:
                regions[ax2] = ('pt', a.body)
    else:
        ad, bodies = broadcast(I, [a[1] for a in adv], 'index')
        adims = ad

        def aidx(off):
            mp = {bvar(k, d): P(bvar(k + off, d)) for k, d in enumerate(ad)}
            out = {}
            for (ax2, a, _), bd in zip(adv, bodies):
                out[ax2] = neg_wrap(T.subst(bd, mp), dims[ax2])
            return out
        regions['fancy'] = [(ax2, a) for ax2, a, _ in adv]
    # adjacent advanced indices stay in place; separated ones go first
    pos = adv_pos
    axs = []
    for ax2, a, kind in adv:
        if kind == 'mask':
            axs += list(range(ax2, ax2 + len(a.dims)))
        else:
            axs.append(ax2)
    axs.sort()
    if axs != list(range(axs[0], axs[0] + len(axs))):
        order = ['adv'] + [d for d in rdims if d != 'adv']
        pos = 0
        remap = {}
        k = 1
        for r, d in enumerate(rdims):
            if d != 'adv':
                remap[r] = k
                k += 1
        rdims2 = order
    else:
        rdims2 = rdims
        remap = {r: r for r in range(len(rdims))}
    rd = []
    newpos = {}
    for r, d in enumerate(rdims2):
        if d == 'adv' or (isinstance(d, str) and d == 'adv'):
            off = len(rd)
            rd.extend(adims)
        else:
            newpos[r] = len(rd)
            rd.append(d)
    rd = tuple(rd)
    idx = [None] * len(dims)
    for ax2, s in aidx(off).items():
        idx[ax2] = s
    for p in plan:
        _, _, lo, n, st, r = p
        rr = newpos[remap[r]]
        idx[p[0]] = lo + P(bvar(rr, rd[rr])) * st
        regions[p[0]] = ('sl', lo, n, st, rr)
    return Sel(rd, idx, False, regions)


def neg_wrap(s, dim):
    c = s.const()
    if c is not None and c < 0:
        return s + dim
    return s


def mask_count(lam):
    if len(lam.args[1]) == 1:
        return T.count_of(lam)
    d, dims, body = lam.args
    rs = [A('r', -4500 - d, j, dims[j]) for j in range(len(dims))]
    s = T.lam_apply(lam, *[P(r) for r in rs])
    for r, dd in zip(rs, dims):
        s = T.sum_over(r, dd, s)
    return s


def arr_getitem(I, ref, i, strict=True):
    o = I.obj(ref)
    if o.dims is None:
        return Top(T.opq('item', *I.src_terms(ref)))
    sel = select(I, o.dims, i, strict)
    if sel.basic:
        if not sel.dims:
            body = I.obj_body(o)
            mp = {bvar(k, d): sel.idx[k] for k, d in enumerate(o.dims)}
            return Num(T.subst(body, mp), o.dtype)
        return I.alloc(ArrObj(sel.dims, None, o.dtype, o.origin, (ref, tuple(sel.idx)), I.site()))
    body = I.obj_body(o)
    mp = {bvar(k, d): sel.idx[k] for k, d in enumerate(o.dims)}
    return I.new_arr(sel.dims, T.subst(body, mp), o.dtype)


def write_event(I, ref, what):
    root = I.root(ref)
    o = I.st.heap[root.oid]
    I.event('write', oid=root.oid, origin=o.origin, what=what)


def arr_setitem(I, ref, i, v, what='item assignment'):
    write_event(I, ref, what)
    o = I.obj(ref)
    if o.dims is None:
        return
    old = I.obj_body(o)
    try:
        val = as_ar(I, v)
        sel = select(I, o.dims, i)
    except UnkShape:
        set_body(I, ref, unknown_body(I, o, old, v))
        return
    if o.dtype == 'int' and val.dtype not in ('int', 'bool', 'any') and not T.is_int(val.body):
        val = Ar(val.dims, T.fun('int', val.body), 'int')
    bs = [P(bvar(k, d)) for k, d in enumerate(o.dims)]
    cond = ONE
    inv = {}
    reg = sel.regions
    if 'fancy' in reg:
        nb = fancy_write(I, o, old, sel, val, bs)
        if nb is None:
            nb = unknown_body(I, o, old, v)
        set_body(I, ref, nb)
        return
    if 'mask' in reg:
        ax, m, lam = reg['mask']
        cond = m.at(*bs[ax:ax + len(m.dims)])
    for k in range(len(o.dims)):
        r = reg.get(k)
        if r is None:
            continue
        if r[0] == 'pt':
            cond = mk('and', cond, eq(bs[k], r[1]))
        else:
            _, lo, n, st, rax = r
            if st == -1:
                inv[rax] = lo - bs[k]
                continue
            if st != 1:
                set_body(I, ref, unknown_body(I, o, old, v))
                return
            cond = mk('and', cond, mk('and', le(lo, bs[k]), lt(bs[k], lo + n)))
            inv[rax] = bs[k] - lo
    # broadcast the value to the selected region
    rank = len(sel.dims)
    if len(val.dims) > rank:
        extra = val.dims[:len(val.dims) - rank]
        if any(d is not ONE for d in extra):
            if any(definitely_different(d, ONE) or free_dims(d) for d in extra):
                err(I, 'ValueError', 'could not broadcast an array of dimension %d into %d' % (len(val.dims), rank))
            set_body(I, ref, unknown_body(I, o, old, v))
            return
        val = Ar(val.dims[len(extra):], T.subst(val.body, shift_map(val.dims, len(extra))), val.dtype)
    mp = {}
    off = rank - len(val.dims)
    for k, d in enumerate(val.dims):
        rd = sel.dims[k + off]
        if d is ONE and rd is not ONE:
            mp[bvar(k, d)] = ZERO
            continue
        if d is not rd:
            check_dim(I, rd, d, 'assignment')
        pos = inv.get(k + off)
        if pos is None:
            if 'mask' in reg and len(reg['mask'][1].dims) == 1:
                pos = mk('rank', reg['mask'][2], bs[reg['mask'][0]])
            else:
                set_body(I, ref, unknown_body(I, o, old, v))
                return
        mp[bvar(k, d)] = pos
    vb = T.subst(val.body, mp)
    set_body(I, ref, where(cond, vb, old))


def shift_map(dims, n):
    mp = {}
    for k, d in enumerate(dims):
        mp[bvar(k, d)] = ZERO if k < n else P(bvar(k - n, d))
    return mp


def fancy_write(I, o, old, sel, val, bs):
    """a[idx] = v for one index array that is invertible (a permutation or an arithmetic map)."""
    items = sel.regions['fancy']
    if len(items) == 2 and items[0][1].dims and items[1][1].dims:
        # a[arange(n), cols] = v
        (a1, x1), (a2, x2) = items
        d, (b1, b2) = broadcast(I, [x1, x2], 'index')
        if len(d) == 1 and b1.atom() is bvar(0, d[0]) and not val.dims:
            cond = mk('and', lt(bs[a1], d[0]), eq(bs[a2], T.subst(b2, {bvar(0, d[0]): bs[a1]})))
            return where(cond, val.body, old)
        return None
    arrs = [x for x in items if x[1].dims]
    if len(arrs) != 1 or len(arrs[0][1].dims) != 1:
        return None
    ax, ia = arrs[0]
    cond = ONE
    for k, x in items:
        if not x.dims:
            cond = mk('and', cond, eq(bs[k], neg_wrap(x.body, o.dims[k])))
    n = ia.dims[0]
    b = bvar(0, n)
    a = ia.body.atom()
    at = {}                          # result axis -> position in it of the element
    for k, r in sel.regions.items():
        if not isinstance(k, int):
            continue
        if r[0] != 'sl' or r[3] != 1:
            return None
        if not (r[1] is ZERO and r[2] is o.dims[k]):
            cond = mk('and', cond, mk('and', le(r[1], bs[k]), lt(bs[k], r[1] + r[2])))
        at[r[4]] = bs[k] - r[1]
    if a is b:
        pos = bs[ax]
        if n is not o.dims[ax]:
            cond = mk('and', cond, lt(bs[ax], n))
    elif a is not None and a.op == 'argsort' and n is o.dims[ax]:
        pos = mk('rankof', a.args[0], bs[ax])
    else:
        # the last position of the index that names the element
        r = A('r', -8100, 0, n)
        lam = T.lam_vars([r], [n], eq(neg_wrap(T.subst(ia.body, {b: P(r)}), o.dims[ax]), bs[ax]))
        cond = mk('and', cond, T.P(A('red', 'any', lam)))
        pos = mk('nth', lam, T.count_of(lam) - 1)
    rank = len(sel.dims)
    mp = {}
    off = rank - len(val.dims)
    if off < 0:
        return None
    for k, d in enumerate(val.dims):
        rd = sel.dims[k + off]
        if d is ONE and rd is not ONE:
            mp[bvar(k, d)] = ZERO
            continue
        if d is not rd:
            check_dim(I, rd, d, 'assignment')
        mp[bvar(k, d)] = at.get(k + off, pos)
    return where(cond, T.subst(val.body, mp), old)


def unknown_body(I, o, old, *vs):
    srcs = set(old.srcs)
    for v in vs:
        srcs |= I.srcs(v)
    return T.fresh('write', *([P(A('src', s)) for s in sorted(srcs)] +
                              [P(bvar(k, d)) for k, d in enumerate(o.dims)]))


def set_body(I, ref, body):
    """Store a new element body, through views."""
    if T.toobig(body):
        o = I.obj(ref)
        body = I.opaque_body(body, o.dims)
    o = I.obj(ref)
    if o.view is None:
        I.store_obj(ref, o.with_(body=body))
        return
    base, idx = o.view
    bo = I.obj(base)
    bb = I.obj_body(bo)
    cond = ONE
    mp = {}
    ok = True
    for k, d in enumerate(bo.dims):
        e = idx[k]
        bk = P(bvar(k, d))
        own = [v for v in e.vars if v.op == 'b']
        if not own:
            cond = mk('and', cond, eq(bk, e))
        elif len(own) == 1:
            r = e - P(own[0])
            if r.vars & {own[0]}:
                r2 = e + P(own[0])
                if r2.vars & {own[0]}:
                    ok = False
                    break
                mp[own[0]] = r2 - bk
                continue
            pos = bk - r
            n = own[0].args[1]
            cond = mk('and', cond, mk('and', le(ZERO, pos), lt(pos, n)))
            mp[own[0]] = pos
        else:
            ok = False
            break
    for k, d in enumerate(o.dims):
        if bvar(k, d) not in mp:
            if d is ONE:
                mp[bvar(k, d)] = ZERO
            else:
                ok = False
    if ok:
        nb = where(cond, T.subst(body, mp), bb)
    else:
        srcs = sorted(bb.srcs | body.srcs)
        nb = T.fresh('viewwrite', *([P(A('src', s)) for s in srcs] + [P(bvar(k, d)) for k, d in enumerate(bo.dims)]))
    set_body(I, base, nb)


def assign_all(I, ref, v):
    """In-place whole-array update (augmented assignment, out=...)."""
    write_event(I, ref, 'in-place arithmetic')
    o = I.obj(ref)
    try:
        a = as_ar(I, v)
        rank = len(o.dims)
        if len(a.dims) > rank:
            raise UnkShape()
        dims, (b, _) = broadcast(I, [a, Ar(o.dims, ZERO)], 'in-place operation')
        if o.dtype == 'int' and a.dtype == 'float' and not T.is_int(b):
            I.event('error', err='UFuncTypeError', msg='in-place float result into an integer array')
        set_body(I, ref, T.subst(b, {bvar(k, d): P(bvar(k, o.dims[k])) for k, d in enumerate(dims)}))
    except UnkShape:
        set_body(I, ref, unknown_body(I, o, I.obj_body(o), v))


# ----------------------------------------------------------------------
# shape manipulation
def view_of(I, ref, dims, idx):
    o = I.obj(ref)
    return I.alloc(ArrObj(tuple(dims), None, o.dtype, o.origin, (ref, tuple(idx)), I.site()))


def transpose(I, v, axes=None):
    if not I.is_arr(v):
        v = new(I, as_ar(I, v))
    o = I.obj(v)
    if o.dims is None:
        raise UnkShape()
    n = len(o.dims)
    if axes is None:
        axes = list(range(n))[::-1]
    if n < 2:
        return v
    dims = tuple(o.dims[a] for a in axes)
    idx = [None] * n
    for r, a in enumerate(axes):
        idx[a] = P(bvar(r, dims[r]))
    return view_of(I, v, dims, idx)


def squeeze(I, v, axis=None):
    if not I.is_arr(v):
        if isinstance(v, Num):
            return v
        v = new(I, as_ar(I, v))
    o = I.obj(v)
    if o.dims is None:
        raise UnkShape()
    keep = []
    for k, d in enumerate(o.dims):
        if axis is not None:
            if k == axis % len(o.dims):
                if definitely_different(d, ONE):
                    err(I, 'ValueError', 'cannot squeeze an axis of size %s' % d)
                continue
            keep.append(k)
        elif d is not ONE:
            keep.append(k)
    if axis is None:
        for k in keep:
            if T.sign_of(o.dims[k] - 1) not in ('+', '-'):
                I.event('squeeze', dim=o.dims[k])
    if len(keep) == len(o.dims):
        return v
    if not keep:
        return I.alloc(ArrObj((), None, o.dtype, o.origin, (v, tuple(ZERO for _ in o.dims)), I.site()))
    dims = tuple(o.dims[k] for k in keep)
    idx = [ZERO] * len(o.dims)
    for r, k in enumerate(keep):
        idx[k] = P(bvar(r, dims[r]))
    return view_of(I, v, dims, idx)


def total_size(dims):
    n = ONE
    for d in dims:
        n = n * d
    return n


def reshape(I, v, shape):
    if not I.is_arr(v):
        v = new(I, as_ar(I, v))
    o = I.obj(v)
    if o.dims is None:
        raise UnkShape()
    shape = list(shape)
    tot = total_size(o.dims)
    unk = [k for k, s in enumerate(shape) if s.const() == -1]
    known = ONE
    for k, s in enumerate(shape):
        if k not in unk:
            known = known * s
    if unk:
        if len(unk) > 1:
            err(I, 'ValueError', 'reshape with two unknown dimensions')
        q = T.div(tot, known)
        if not T.is_int(q):
            q = T.fdiv(tot, known)
        shape[unk[0]] = q
    else:
        if known is not tot and definitely_different(known, tot):
            err(I, 'ValueError', 'cannot reshape size %s into %s' % (tot, known))
        if known is not tot and free_dims(known) and free_dims(tot) and I.truth_of(eq(known, tot)) is None:
            I.event('shape', what='reshape', dims=(known, tot))
    shape = tuple(shape)
    if shape == o.dims:
        return v
    rb = [P(bvar(k, d)) for k, d in enumerate(shape)]
    # drop unit axes on both sides: if the rest agrees this is a plain view
    src = [(k, d) for k, d in enumerate(o.dims) if d is not ONE]
    dst = [(k, d) for k, d in enumerate(shape) if d is not ONE]
    idx = [ZERO] * len(o.dims)
    if [d for _, d in src] == [d for _, d in dst]:
        for (k, d), (r, _) in zip(src, dst):
            idx[k] = rb[r]
        return view_of(I, v, shape, idx)
    # general: flat index
    flat = ZERO
    for k, d in enumerate(shape):
        flat = flat * d + rb[k]
    rest = flat
    for k in range(len(o.dims) - 1, -1, -1):
        if k == 0:
            idx[k] = rest
        else:
            idx[k] = T.mod(rest, o.dims[k])
            rest = T.fdiv(rest, o.dims[k])
    return view_of(I, v, shape, idx)


def copy(I, v, dtype=None):
    a = as_ar(I, v)
    body = a.body
    dt = a.dtype
    if dtype is not None and dtype != dt:
        if dtype == 'int' and not T.is_int(body):
            body = T.fun('int', body)
        elif dtype == 'bool' and dt != 'bool':
            body = not_(eq(body, ZERO))
        dt = dtype
    return I.new_arr(a.dims, body, dt)


# ----------------------------------------------------------------------
# reductions
def axis_of(I, axis, n):
    """Axis argument -> list of axes or None."""
    if axis is None or (isinstance(axis, Const) and axis.v is None):
        return None
    if isinstance(axis, Num):
        c = axis.s.const()
        if c is None:
            raise UnkShape()
        c = int(c)
        if c < -n or c >= n:
            err(I, 'AxisError', 'axis %d is out of bounds for array of dimension %d' % (c, n))
        return [c % n]
    if isinstance(axis, Tup):
        out = []
        for x in axis.items:
            out += axis_of(I, x, n)
        return sorted(set(out))
    raise UnkShape()


def reduce_(I, v, axis, f, keepdims=False, dtype=None):
    """f(rvars, dims, body) -> S."""
    a = as_ar(I, v)
    n = len(a.dims)
    axs = axis_of(I, axis, n)
    if axs is None:
        axs = list(range(n))
    if n == 0:
        return Num(f([], [], a.body), dtype or a.dtype)
    keep = [k for k in range(n) if k not in axs]
    rv = [A('r', -9000, j, a.dims[k]) for j, k in enumerate(axs)]
    mp = {bvar(k, a.dims[k]): P(rv[j]) for j, k in enumerate(axs)}
    if keepdims:
        rd = tuple(ONE if k in axs else a.dims[k] for k in range(n))
        for k in keep:
            mp[bvar(k, a.dims[k])] = P(bvar(k, a.dims[k]))
    else:
        rd = tuple(a.dims[k] for k in keep)
        for r, k in enumerate(keep):
            mp[bvar(k, a.dims[k])] = P(bvar(r, a.dims[k]))
    body = T.subst(a.body, mp)
    s = f(rv, [a.dims[k] for k in axs], body)
    # close stray reduction variables
    return result(I, Ar(rd, s, dtype or a.dtype))


def f_sum(rv, dims, body):
    for r, d in zip(rv, dims):
        body = T.sum_over(r, d, body)
    return body


def f_mean(rv, dims, body):
    n = ONE
    for d in dims:
        n = n * d
    return T.div(f_sum(rv, dims, body), n)


def f_red(name):
    def f(rv, dims, body):
        if not rv:
            return body if name not in ('any', 'all') else body
        cs = [d.const() for d in dims]
        if name in ('max', 'min', 'any', 'all', 'prod') and len(rv) == 1 and cs[0] is not None and 1 <= cs[0] <= 4:
            xs = [T.subst(body, {rv[0]: K(k)}) for k in range(int(cs[0]))]
            r = xs[0]
            for x in xs[1:]:
                r = {'max': lambda: T.fun('max2', r, x), 'min': lambda: T.fun('min2', r, x),
                     'any': lambda: mk('or', r, x), 'all': lambda: mk('and', r, x),
                     'prod': lambda: r * x}[name]()
            return r
        if name in ('any', 'all') and body.const() is not None:
            return ONE if body.const() != 0 else ZERO
        if not any(r in body.vars for r in rv) and name in ('max', 'min', 'any', 'all', 'median', 'amax', 'amin'):
            return body
        lam = T.lam_vars(rv, dims, body)
        return mk('red', name, lam)
    return f


def f_arg(name):
    def f(rv, dims, body):
        if len(rv) != 1:
            return T.fresh('arg')
        lam = T.lam_vars(rv, dims, body)
        return mk('arg', name, lam)
    return f


def lam_axis(a, axis):
    """lambda over one axis of an array body (other axes stay as b-vars)."""
    d = a.dims[axis]
    r = A('r', -9500, 0, d)
    return T.lam_vars([r], [d], T.subst(a.body, {bvar(axis, d): P(r)}))
