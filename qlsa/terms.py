"""Value-number terms.

Scalars are polynomials (``S``) with rational coefficients over interned ``Atom``s; an atom may carry a negative
exponent (division).  Arrays are represented by their *element body*: an ``S`` over axis variables ``b(k, dim)``.
Two computations that denote the same value by the (small) set of algebraic rules below get the same interned term,
however the source spells them.  Nothing here is solved for or enumerated: terms are only compared and evaluated in
an interval domain.
"""
from fractions import Fraction
import math

INF = float('inf')
_atoms = {}
_polys = {}
_EMPTY = frozenset()


class Atom(object):
    __slots__ = ('op', 'args', 'id', 'srcs', 'opaque', 'rdepth', 'vars', 'size', '_h')

    def __repr__(self):
        return show_atom(self)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


class S(object):
    __slots__ = ('terms', 'id', 'srcs', 'opaque', 'rdepth', 'vars', 'size', '_h')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    # arithmetic -------------------------------------------------------
    def __add__(self, o):
        return add(self, o)

    def __radd__(self, o):
        return add(K(o), self)

    def __sub__(self, o):
        return add(self, scale(_s(o), -1))

    def __rsub__(self, o):
        return add(K(o), scale(self, -1))

    def __neg__(self):
        return scale(self, -1)

    def __mul__(self, o):
        return mul(self, _s(o))

    def __rmul__(self, o):
        return mul(K(o), self)

    def const(self):
        """Fraction/float value when the polynomial is a constant, else None."""
        if not self.terms:
            return Fraction(0)
        if len(self.terms) == 1 and not self.terms[0][0]:
            return self.terms[0][1]
        return None

    def atom(self):
        """The atom when the polynomial is exactly one atom, else None."""
        if len(self.terms) == 1:
            m, c = self.terms[0]
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None


def _meta(args):
    srcs = set()
    opaque = False
    rd = 0
    vs = set()
    size = 1
    stack = list(args)
    while stack:
        a = stack.pop()
        if isinstance(a, (Atom, S)):
            srcs |= a.srcs
            opaque = opaque or a.opaque
            if a.rdepth > rd:
                rd = a.rdepth
            vs |= a.vars
            size += a.size
        elif isinstance(a, tuple):
            stack.extend(a)
    return srcs, opaque, rd, vs, size


_BIG = 200000

# recurrences: A('recsys', ix, lo, comps, cond, stop) with comps ((phi, dims, init, step), ..) is the simultaneous recurrence
# of a loop; A('rec', sys, k, n) is component k after n iterations ('inf': until cond fails or stop holds).
# The indices of an array component are r variables whose level names the loop.
RECBASE = 10 ** 7


def rec_var(lid, comp, k, dim):
    return A('r', -(RECBASE + lid * 10000 + comp * 10), k, dim)


def rec_lid(v):
    return (-v.args[0] - RECBASE) // 10000 if v.args[0] <= -RECBASE else None


def rec_bound(args):
    return {args[0]} | {c[0] for c in args[2]}


def A(op, *args):
    """Intern an atom."""
    key = (op, args)
    a = _atoms.get(key)
    if a is not None:
        return a
    a = Atom.__new__(Atom)
    a.op = op
    a.args = args
    a.id = len(_atoms) + 1
    a._h = hash(('A', a.id))
    srcs, opaque, rd, vs, size = _meta(args)
    if op == 'src':
        srcs = srcs | {args[0]}
    elif op == 'dim':
        srcs = srcs | {args[0]}
    elif op == 'opq':
        opaque = True
    elif op in ('b', 'ix', 'r', 'phi', 'prev'):
        vs = vs | {a}
        if op == 'r':
            pass
    elif op in ('lam', 'larr'):
        d = args[0]
        rd = max(rd, d)
        vs = {v for v in vs if not (v.op == 'r' and v.args[0] == d)}
    elif op == 'arr':
        vs = {v for v in vs if v.op != 'b'}
    elif op == 'recsys':
        bound = rec_bound(args)
        lid = args[0].args[0]
        vs = {v for v in vs if v not in bound and not (v.op == 'r' and rec_lid(v) == lid)}
    a.srcs = frozenset(srcs) if srcs else _EMPTY
    a.opaque = opaque
    a.rdepth = rd
    a.vars = frozenset(vs) if vs else _EMPTY
    a.size = min(size, _BIG)
    _atoms[key] = a
    return a


def _mkpoly(d):
    terms = tuple(sorted(((m, c) for m, c in d.items() if c != 0),
                         key=lambda mc: (tuple((a.id, e) for a, e in mc[0]))))
    p = _polys.get(terms)
    if p is not None:
        return p
    p = S.__new__(S)
    p.terms = terms
    srcs = set()
    opaque = False
    rd = 0
    vs = set()
    size = 1
    for m, c in terms:
        for a, e in m:
            srcs |= a.srcs
            opaque = opaque or a.opaque
            rd = max(rd, a.rdepth)
            vs |= a.vars
            size += a.size
    p.srcs = frozenset(srcs) if srcs else _EMPTY
    p.opaque = opaque
    p.rdepth = rd
    p.vars = frozenset(vs) if vs else _EMPTY
    p.size = min(size, _BIG)
    p.id = len(_polys) + 1
    p._h = hash(('S', p.id))
    _polys[terms] = p
    return p


def K(v):
    """Constant polynomial."""
    if isinstance(v, S):
        return v
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float):
        if math.isinf(v):
            return P(A('inf')) if v > 0 else scale(P(A('inf')), -1)
        if math.isnan(v):
            return P(A('nan'))
        v = Fraction(v)
    return _mkpoly({(): Fraction(v)})


def P(atom):
    """Polynomial for one atom."""
    if isinstance(atom, S):
        return atom
    return _mkpoly({((atom, 1),): Fraction(1)})


def _s(x):
    if isinstance(x, S):
        return x
    if isinstance(x, Atom):
        return P(x)
    return K(x)


ZERO = K(0)
ONE = K(1)


def add(a, b):
    a = _s(a)
    b = _s(b)
    if not a.terms:
        return b
    if not b.terms:
        return a
    d = dict(a.terms)
    for m, c in b.terms:
        d[m] = d.get(m, 0) + c
    return _mkpoly(d)


def scale(a, k):
    k = Fraction(k)
    if k == 1:
        return a
    return _mkpoly({m: c * k for m, c in a.terms})


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    # indicators are idempotent
    out = []
    for a, e in d.items():
        if e == 0:
            continue
        if e > 1 and a.op in BOOLOPS:
            e = 1
        out.append((a, e))
    out.sort(key=lambda ae: ae[0].id)
    return tuple(out)


BOOLOPS = {'eq', 'lt', 'le', 'not', 'and', 'or', 'isnan', 'bool'}
_mulmemo = {}


def mul(a, b):
    a = _s(a)
    b = _s(b)
    if not a.terms or not b.terms:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    key = (a.id, b.id) if a.id <= b.id else (b.id, a.id)
    r = _mulmemo.get(key)
    if r is not None:
        return r
    # a 'poly^-1' atom times that very polynomial cancels
    for x, y in ((a, b), (b, a)):
        if len(y.terms) == 1:
            m, c = y.terms[0]
            for at, e in m:
                if at.op == 'poly' and e < 0 and len(x.terms) > 1:
                    k = _multiple(x, at.args[0])
                    if k is not None:
                        rest = _mkpoly({_mmul(m, ((at, 1),)): c})
                        r = mul(rest, k)
                        _mulmemo[key] = r
                        return r
    if len(a.terms) * len(b.terms) > 400:
        a2 = P(A('poly', a)) if len(a.terms) > 1 else a
        b2 = P(A('poly', b)) if len(b.terms) > 1 else b
        if a2 is not a or b2 is not b:
            r = mul(a2, b2)
            _mulmemo[key] = r
            return r
    d = {}
    for m1, c1 in a.terms:
        for m2, c2 in b.terms:
            m = _mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    r = _mkpoly(d)
    _mulmemo[key] = r
    return r


def _multiple(p, d):
    """k (a one-monomial S) with p == k*d, or None."""
    if p is d:
        return ONE
    if not d.terms or len(p.terms) != len(d.terms):
        return None
    # try every monomial ratio with the first monomial of d
    m0, c0 = d.terms[0]
    inv0 = tuple((a, -e) for a, e in m0)
    for m1, c1 in p.terms:
        k = _mkpoly({_mmul(m1, inv0): c1 / c0})
        if mul(k, d) is p:
            return k
    return None


def div(a, b):
    a = _s(a)
    b = _s(b)
    cb = b.const()
    if cb is not None:
        if cb == 0:
            return P(A('div0', a))
        return scale(a, Fraction(1) / cb)
    if a is b:
        return ONE
    if len(b.terms) == 1:
        m, c = b.terms[0]
        inv = _mkpoly({tuple((x, -e) for x, e in m): Fraction(1) / c})
        return mul(a, inv)
    k = _multiple(a, b)
    if k is not None:
        return k
    # normalise sign/scale of the denominator
    lead = b.terms[0][1]
    nb = scale(b, Fraction(1) / lead)
    at = A('poly', nb)
    inv = _mkpoly({((at, -1),): Fraction(1) / lead})
    # factor a = q * ... : try every term group
    return mul(a, inv)


def rational(s):
    """Cancel sums of fractions with the same composite denominator."""
    for _ in range(8):
        den = None
        for m, c in s.terms:
            for a, e in m:
                if e < 0 and a.op == 'poly':
                    den = a
                    break
            if den is not None:
                num, rest = {}, {}
                for m2, c2 in s.terms:
                    d = dict(m2)
                    if d.get(den, 0) < 0:
                        num[_mmul(m2, ((den, 1),))] = c2
                    else:
                        rest[m2] = c2
                k = _multiple(_mkpoly(num), den.args[0])
                if k is not None:
                    s = add(k, _mkpoly(rest))
                    break
                den = None
        if den is None:
            return s
    return s


def power(a, n):
    r = ONE
    for _ in range(n):
        r = mul(r, a)
    return r


# ----------------------------------------------------------------------
# bound variables
def bvar(k, dim):
    return A('b', k, dim)


def dimatom(name, mn=1):
    return P(A('dim', name, mn))


def opq(tag, *args):
    """An unknown scalar that may depend on args (dependencies are kept)."""
    return P(A('opq', tag, tuple(args)))


_fresh = [0]


def fresh(tag='v', *args):
    _fresh[0] += 1
    return P(A('opq', '%s#%d' % (tag, _fresh[0]), tuple(args)))


def reset_fresh():
    _fresh[0] = 0


# ----------------------------------------------------------------------
# substitution
def subst(x, mp, _memo=None):
    """Replace atoms (keys of mp) by S values, rebuilding through the smart constructors."""
    if not mp:
        return x
    if _memo is None:
        _memo = {}
    return _sub(x, mp, set(mp), _memo)


def _sub(x, mp, keys, memo):
    if isinstance(x, S):
        if not (x.vars & keys) and not _hasnonvar(keys):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        acc = ZERO
        for m, c in x.terms:
            t = K(c)
            for a, e in m:
                v = _sub_atom(a, mp, keys, memo)
                if e >= 0:
                    t = mul(t, power(v, e))
                else:
                    t = div(t, power(v, -e))
            acc = add(acc, t)
        memo[x] = acc
        return acc
    if isinstance(x, Atom):
        return _sub_atom(x, mp, keys, memo)
    if isinstance(x, tuple):
        return tuple(_sub(y, mp, keys, memo) for y in x)
    return x


def _hasnonvar(keys):
    for k in keys:
        if k.op not in ('b', 'ix', 'r', 'phi', 'prev'):
            return True
    return False


def _sub_raw_atom(a, mp, keys, memo):
    """Substitute inside an atom that has to stay an atom (lam / arr)."""
    v = _sub_atom(a, mp, keys, memo)
    at = v.atom() if isinstance(v, S) else v
    return at


def _tmpname(t, a, mp):
    """a name for a re-opened binder that is free neither in the atom nor in what is put into it"""
    used = {v.args[0] for v in a.vars if v.op == 'r'}
    for x in mp.values():
        for v in _s(x).vars:
            if v.op == 'r':
                used.add(v.args[0])
    while t in used:
        t -= 1000
    return t


def _sub_atom(a, mp, keys, memo):
    if a in mp:
        return _s(mp[a])
    if not (a.vars & keys) and not _hasnonvar(keys):
        return P(a)
    r = memo.get(a)
    if r is not None:
        return r
    if a.op in ('lam', 'larr'):
        # capture avoidance: re-open with the canonical depth recomputed
        d, dims, body = a.args
        vs = [A('r', d, j, dims[j]) for j in range(len(dims))]
        t = _tmpname(-100000 - d, a, mp)
        tmp = [A('r', t, j, dims[j]) for j in range(len(dims))]
        b2 = subst(body, dict(zip(vs, [P(t) for t in tmp])))
        b3 = _sub(b2, mp, keys, memo)
        nd = _sub(dims, mp, keys, memo)
        tmp = [A('r', t, j, nd[j]) for j in range(len(dims))]      # their extents were substituted as well
        r = lam_vars(tmp, nd, b3)
        if a.op == 'larr':
            r = arr_of(r)
        r = P(r)
        memo[a] = r
        return r
    if a.op == 'recsys':
        bound = rec_bound(a.args)
        if bound & set(mp):
            mp = {k: v for k, v in mp.items() if k not in bound}
            if not mp:
                return P(a)
            keys = frozenset(mp)
            memo = {}
        r = P(A('recsys', *[_sub_args(y, mp, keys, memo) or y if not isinstance(y, (S, tuple)) else _sub_args(y, mp, keys, memo)
                            for y in a.args]))
        memo[a] = r
        return r
    if a.op == 'arr':
        dims, body = a.args
        inner = {k: v for k, v in mp.items() if k.op != 'b'}
        if not inner:
            return P(a)
        if any(v.op == 'b' for x in inner.values() for v in _s(x).vars):
            # an index of an enclosing array enters: the bound indices get names of their own
            t = _tmpname(-500000, a, mp)
            tmp = [A('r', t, j, dims[j]) for j in range(len(dims))]
            b2 = subst(body, {A('b', j, dims[j]): P(t) for j, t in enumerate(tmp)})
            nd = subst(dims, inner)
            tmp = [A('r', t, j, nd[j]) for j in range(len(dims))]
            r = P(arr_of(lam_vars(tmp, nd, subst(b2, inner))))
        else:
            r = P(A('arr', subst(dims, inner), subst(body, inner)))
        memo[a] = r
        return r
    args = []
    for y in a.args:
        if isinstance(y, Atom):
            if y.op in ('lam', 'arr', 'larr', 'src', 'obj', 'ext', 'pcs'):
                args.append(_sub_raw_atom(y, mp, keys, memo))
            else:
                args.append(_sub_raw_atom(y, mp, keys, memo) or y)
        elif isinstance(y, (S, tuple)):
            args.append(_sub_args(y, mp, keys, memo))
        else:
            args.append(y)
    r = mk(a.op, *args)
    memo[a] = r
    return r


def _sub_args(y, mp, keys, memo):
    if isinstance(y, S):
        return _sub(y, mp, keys, memo)
    if isinstance(y, Atom):
        return _sub_raw_atom(y, mp, keys, memo)
    if isinstance(y, tuple):
        return tuple(_sub_args(z, mp, keys, memo) for z in y)
    return y


# ----------------------------------------------------------------------
# lambdas
def lam_vars(vs, dims, body):
    """lambda over the given variable atoms; canonical bound names."""
    d = body.rdepth + 1
    for x in dims:
        if isinstance(x, S):
            d = max(d, x.rdepth + 1)
    mp = {}
    for j, v in enumerate(vs):
        mp[v] = P(A('r', d, j, dims[j]))
    b = subst(body, mp)
    if b.rdepth + 1 > d:
        d2 = b.rdepth + 1
        mp2 = {A('r', d, j, dims[j]): P(A('r', d2, j, dims[j])) for j in range(len(vs))}
        b = subst(b, mp2)
        d = d2
    return A('lam', d, tuple(dims), b)


def arr_of(lam):
    """Array atom of a lambda: indices of its own kind when no enclosing index occurs in it."""
    d, dims, body = lam.args
    if any(v.op == 'b' for v in lam.vars):
        return A('larr', d, dims, body)
    return A('arr', dims, subst(body, {A('r', d, j, dims[j]): P(A('b', j, dims[j])) for j in range(len(dims))}))


def lam_apply(lam, *idx):
    d, dims, body = lam.args
    mp = {A('r', d, j, dims[j]): _s(i) for j, i in enumerate(idx)}
    return subst(body, mp)


# ----------------------------------------------------------------------
# smart constructors
def mk(op, *args):
    f = SIMPL.get(op)
    if f is not None:
        r = f(*args)
        if r is not None:
            return r
    return P(A(op, *args))


SIMPL = {}


def simp(op):
    def deco(f):
        SIMPL[op] = f
        return f
    return deco


def _is_where(s):
    a = s.atom() if isinstance(s, S) else None
    return a is not None and a.op == 'where'


# truth values of conditions known on the current path (set by the interpreter)
TRUTH = {}


def set_path(truth, ivs):
    global TRUTH
    TRUTH = truth
    if FACTS != [ivs] or True:
        FACTS[:] = [ivs]
        _ivmemo.clear()
        _signmemo.clear()


def truth_of(c):
    """True/False when the condition is decided on the current path, else None."""
    cc = c.const()
    if cc is not None:
        return cc != 0
    r = TRUTH.get(c)
    if r is not None:
        return r
    a = c.atom()
    if a is None:
        # 1 - x spelled arithmetically
        n = ONE - c
        na = n.atom()
        if na is not None and na.op in BOOLOPS:
            r = truth_of(n)
            return None if r is None else (not r)
        return None
    if a.op == 'not':
        r = truth_of(a.args[0])
        return None if r is None else (not r)
    if a.op == 'and':
        x, y = truth_of(a.args[0]), truth_of(a.args[1])
        if x is False or y is False:
            return False
        if x and y:
            return True
        return None
    if a.op == 'or':
        x, y = truth_of(a.args[0]), truth_of(a.args[1])
        if x or y:
            return True
        if x is False and y is False:
            return False
        return None
    if a.op in ('lt', 'le'):
        s = sign_of(a.args[1] - a.args[0])
        if s == '+':
            return True
        if s == '-':
            return False
        if a.op == 'lt' and s in ('-0', '0'):
            return False
        if a.op == 'le' and s in ('+0', '0'):
            return True
        # x < y false  =>  x == y or y < x ...
        if a.op == 'le' and TRUTH.get(mk('lt', a.args[0], a.args[1])):
            return True
        if a.op == 'lt' and TRUTH.get(mk('le', a.args[0], a.args[1])) is False:
            return False
        if a.op == 'le' and TRUTH.get(mk('eq', a.args[0], a.args[1])):
            return True
        if a.op == 'lt' and TRUTH.get(mk('eq', a.args[0], a.args[1])):
            return False
    if a.op == 'eq':
        s = sign_of(a.args[1] - a.args[0])
        if s in ('+', '-'):
            return False
        for x, y in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
            if TRUTH.get(mk('lt', x, y)):
                return False
    return None


@simp('where')
def _where(c, a, b):
    if a is b:
        return a
    t = truth_of(c)
    if t is not None:
        return a if t else b
    at = c.atom()
    if at is not None and at.op == 'not':
        return mk('where', at.args[0], b, a)
    if at is not None and at.op in ('lt', 'le'):
        x, y = at.args
        if a is y and b is x:
            return mk('f', 'max2', x, y)
        if a is x and b is y:
            return mk('f', 'min2', x, y)
    if at is not None and at.op in ('le', 'lt', 'eq', 'and', 'or', 'isnan'):
        # nested tests of the same condition
        aa, ba = a.atom(), b.atom()
        if aa is not None and aa.op == 'where' and aa.args[0] is c:
            return mk('where', c, aa.args[1], b)
        if ba is not None and ba.op == 'where' and ba.args[0] is c:
            return mk('where', c, a, ba.args[2])
        if a is ONE and b is ZERO:
            return c
        if a is ZERO and b is ONE:
            return mk('not', c)
    if b is ZERO and at is not None and at.op in BOOLOPS and not a.opaque and not has_inf(a):
        return mul(c, a)
    return None


def has_inf(s):
    for m, c in s.terms:
        for a, e in m:
            if a.op in ('inf', 'nan') or e < 0:
                return True
    return False


def where(c, a, b):
    return mk('where', _s(c), _s(a), _s(b))


@simp('eq')
def _eq(a, b):
    d = a - b
    c = d.const()
    if c is not None:
        return ONE if c == 0 else ZERO
    s = sign_of(d)
    if s in ('+', '-'):
        return ZERO
    for x, y in ((a, b), (b, a)):
        ya = y.atom()
        if ya is None or ya.op != 'at' or not ya.args[1]:
            continue
        cy = contract(ya)
        if not cy or not cy.get('labels'):
            continue
        xa = x.atom()
        if xa is not None and xa.op == 'at' and xa.args[0] is ya.args[0] and len(xa.args[1]) == len(ya.args[1]) == 1:
            return eq(xa.args[1][0], ya.args[1][0])
        # the label of an example is one of the classes: the last class of a known number is the complement
        n = cy['dims'][0].const() if cy.get('dims') and cy['dims'][0] is not None else None
        if n is not None and 2 <= n <= 4 and ya.args[1][0].const() == n - 1 and xa is not None and xa.op == 'at':
            cx = contract(xa)
            if cx and (cx.get('label_of') == cy['labels'] or cx.get('labels') == cy['labels']):
                acc = ONE
                for j in range(int(n) - 1):
                    acc = acc - eq(x, P(A('at', ya.args[0], (K(j),))))
                return acc
    if a.id > b.id:
        return P(A('eq', b, a))
    return None


@simp('lt')
def _lt(a, b):
    d = b - a
    c = d.const()
    if c is not None:
        return ONE if c > 0 else ZERO
    s = sign_of(d)
    if s == '+':
        return ONE
    if s in ('-', '-0', '0'):
        return ZERO
    return None


@simp('le')
def _le(a, b):
    d = b - a
    c = d.const()
    if c is not None:
        return ONE if c >= 0 else ZERO
    s = sign_of(d)
    if s in ('+', '+0', '0'):
        return ONE
    if s == '-':
        return ZERO
    return None


@simp('not')
def _not(a):
    c = a.const()
    if c is not None:
        return ZERO if c != 0 else ONE
    at = a.atom()
    if at is not None and at.op == 'not':
        return at.args[0]
    if at is not None and at.op == 'lt':
        return mk('le', at.args[1], at.args[0])
    if at is not None and at.op == 'le':
        return mk('lt', at.args[1], at.args[0])
    return None


@simp('and')
def _and(a, b):
    if a.const() is not None:
        return b if a.const() != 0 else ZERO
    if b.const() is not None:
        return a if b.const() != 0 else ZERO
    if a is b:
        return a
    if a.id > b.id:
        return P(A('and', b, a))
    return None


@simp('or')
def _or(a, b):
    if a.const() is not None:
        return ONE if a.const() != 0 else b
    if b.const() is not None:
        return ONE if b.const() != 0 else a
    if a is b:
        return a
    if a.id > b.id:
        return P(A('or', b, a))
    return None


def eq(a, b):
    return mk('eq', _s(a), _s(b))


def lt(a, b):
    return mk('lt', _s(a), _s(b))


def le(a, b):
    return mk('le', _s(a), _s(b))


def not_(a):
    return mk('not', _s(a))


# linear range reasoning over bound variables and dimensions -------------
def _extent_sub(s, lower):
    """Replace index variables by the end of their range that minimises (lower=True) s.  None if not linear."""
    for _ in range(8):
        target = None
        for m, c in s.terms:
            for a, e in m:
                if a.op in ('b', 'ix', 'r'):
                    target = a
                    break
            if target:
                break
        if target is None:
            return s
        # collect coefficient of target
        coef = ZERO
        rest = ZERO
        for m, c in s.terms:
            es = dict(m)
            if target in es:
                if es[target] != 1:
                    return None
                mm = tuple((a, e) for a, e in m if a is not target)
                if any(target in a.vars for a, e in mm):
                    return None
                coef = coef + _mkpoly({mm: c})
            else:
                if any(target in a.vars for a, e in m):
                    return None
                rest = rest + _mkpoly({m: c})
        sc = _simple_sign(coef)
        if sc is None:
            return None
        lo, hi = var_range(target)
        if lo is None or hi is None:
            return None
        if (sc == '+') == lower:
            s = rest + coef * lo
        else:
            s = rest + coef * hi
    return None


def var_range(v):
    """(lo, hi inclusive) of an index variable, as S."""
    if v.op == 'b':
        return ZERO, v.args[1] - 1
    if v.op == 'r':
        return ZERO, v.args[2] - 1
    if v.op == 'ix':
        lo, ext = v.args[1], v.args[2]
        if ext is None:
            return lo, None
        return lo, lo + ext - 1
    return None, None


def _simple_sign(s):
    c = s.const()
    if c is not None:
        return '+' if c >= 0 else '-'
    if all(c > 0 for m, c in s.terms) and all(_pos_atom(a) for m, c in s.terms for a, e in m):
        return '+'
    if all(c < 0 for m, c in s.terms) and all(_pos_atom(a) for m, c in s.terms for a, e in m):
        return '-'
    return None


def _pos_atom(a):
    return a.op == 'dim'


def _shift_dims(s):
    """Write every dimension d as min(d) + d' with d' >= 0; returns the polynomial in d'."""
    mp = {}
    for m, c in s.terms:
        for a, e in m:
            if a.op == 'dim' and e > 0:
                mp[a] = P(A('dimx', a)) + a.args[1]
    if not mp:
        return s
    return subst_atoms(s, mp)


def subst_atoms(s, mp):
    acc = ZERO
    for m, c in s.terms:
        t = K(c)
        for a, e in m:
            v = mp.get(a)
            v = P(a) if v is None else v
            if e >= 0:
                t = mul(t, power(v, e))
            else:
                t = mul(t, _mkpoly({((a, e),): Fraction(1)}))
        acc = add(acc, t)
    return acc


_signmemo = {}


def sign_of(s):
    """'+', '+0', '-', '-0', '0' when provable from index ranges / dimensions / intervals, else None."""
    c = s.const()
    if c is not None:
        return '+' if c > 0 else ('-' if c < 0 else '0')
    r = _signmemo.get(s, 0)
    if r != 0:
        return r
    _signmemo[s] = None
    if TRUTH:
        if TRUTH.get(P(A('lt', ZERO, s))):
            _signmemo[s] = '+'
            return '+'
        n = scale(s, -1)
        if TRUTH.get(P(A('lt', ZERO, n))) or TRUTH.get(P(A('lt', s, ZERO))):
            _signmemo[s] = '-'
            return '-'
        if TRUTH.get(P(A('le', ZERO, s))):
            _signmemo[s] = '+0'
            return '+0'
        if TRUTH.get(P(A('le', s, ZERO))):
            _signmemo[s] = '-0'
            return '-0'
    r = _sign_of(s)
    _signmemo[s] = r
    return r


def _sign_of(s):
    if all(a.op in ('b', 'ix', 'r', 'dim') for m, c in s.terms for a, e in m):
        lo = _extent_sub(s, True)
        if lo is not None:
            x = _shift_dims(lo)
            cs = [c for m, c in x.terms]
            if cs and all(c > 0 for c in cs):
                k = dict(x.terms).get(())
                return '+' if k else '+0'
            if not cs:
                return '+0'
        hi = _extent_sub(s, False)
        if hi is not None:
            x = _shift_dims(hi)
            cs = [c for m, c in x.terms]
            if cs and all(c < 0 for c in cs):
                k = dict(x.terms).get(())
                return '-' if k else '-0'
            if not cs:
                return '-0'
        return None
    l, h = iv(s)
    if l is not None and l > 0:
        return '+'
    if h is not None and h < 0:
        return '-'
    if l is not None and l == 0:
        return '+0' if h != 0 else '0'
    if h is not None and h == 0:
        return '-0'
    return None


def nonneg(s):
    return sign_of(s) in ('+', '+0', '0')


def positive(s):
    return sign_of(s) == '+'


# ----------------------------------------------------------------------
# sums
def depends(s, v):
    return v in s.vars


def sum_over(var, dim, body):
    """Sum of body for var in [0, dim)."""
    body = _s(body)
    c = dim.const()
    if c is not None and c.denominator == 1 and 0 <= c <= 4:
        acc = ZERO
        for k in range(int(c)):
            acc = acc + subst(body, {var: K(k)})
        return acc
    acc = ZERO
    for m, co in body.terms:
        ind = K(co)
        dep = ONE
        for a, e in m:
            f = _mkpoly({((a, e),): Fraction(1)})
            if var in a.vars:
                dep = mul(dep, f)
            else:
                ind = mul(ind, f)
        if dep is ONE:
            acc = acc + ind * dim
        else:
            acc = acc + ind * _sum_mono(var, dim, dep)
    return acc


SUM_RULES = []


def _sum_mono(var, dim, dep):
    a = dep.atom()
    if a is not None:
        if a.op == 'where' and var not in a.args[0].vars:
            return where(a.args[0], sum_over(var, dim, a.args[1]), sum_over(var, dim, a.args[2]))
        for rule in SUM_RULES:
            r = rule(var, dim, a)
            if r is not None:
                return r
        if a.op == 'sum':
            # swap the sums when the inner one simplifies
            lam = a.args[0]
            d, dims, b = lam.args
            if var not in set().union(*[x.vars for x in dims]):
                fv = [A('r', -2000 - d, j, dims[j]) for j in range(len(dims))]
                inner = lam_apply(lam, *[P(v) for v in fv])
                sw = sum_over(var, dim, inner)
                at = sw.atom()
                if not (at is not None and at.op == 'sum'):
                    if not any(x.op == 'sum' and var in x.vars for m, c in sw.terms for x, e in m):
                        r = sw
                        for v, dd in zip(fv, dims):
                            r = sum_over(v, dd, r)
                        return r
    # selected samples: sum over the selected positions is the masked sum over all positions
    r = _sum_nth(var, dim, dep)
    if r is not None:
        return r
    lam = lam_vars([var], [dim], dep)
    return P(A('sum', lam))


def _find_nth(x, var, acc):
    if isinstance(x, S):
        if var not in x.vars:
            return True
        for m, c in x.terms:
            for a, e in m:
                if not _find_nth(a, var, acc):
                    return False
        return True
    if isinstance(x, Atom):
        if var not in x.vars:
            return True
        if x is var:
            return False
        if x.op == 'nth' and x.args[1].atom() is var and var not in x.args[0].vars:
            acc.add(x)
            return True
        return all(_find_nth(y, var, acc) for y in x.args)
    if isinstance(x, tuple):
        return all(_find_nth(y, var, acc) for y in x)
    return True


def _sum_nth(var, dim, dep):
    acc = set()
    if not _find_nth(dep, var, acc) or len(acc) != 1:
        return None
    n = acc.pop()
    lam = n.args[0]
    cnt = count_of(lam)
    if cnt is not dim:
        return None
    full = lam.args[1][0]
    v = A('r', -3000 - lam.args[0] - dep.rdepth, 0, full)
    body = mul(lam_apply(lam, P(v)), subst(dep, {n: P(v)}))
    return sum_over(v, full, body)


_cntmemo = {}


def count_of(lam):
    """Number of true positions of a one-argument boolean lambda."""
    r = _cntmemo.get(lam)
    if r is None:
        d, dims, body = lam.args
        v = A('r', -4000 - d, 0, dims[0])
        r = sum_over(v, dims[0], lam_apply(lam, P(v)))
        _cntmemo[lam] = r
    return r


@simp('sum')
def _resum(lam):
    d, dims, body = lam.args
    if len(dims) != 1:
        return None
    v = A('r', -5000 - d, 0, dims[0])
    return _redo_sum(v, dims[0], lam_apply(lam, P(v)), lam)


def _redo_sum(v, dim, body, lam):
    r = sum_over(v, dim, body)
    return r


# index arithmetic --------------------------------------------------------
@simp('fdiv')
def _fdiv(a, b):
    k, r = _split(a, b)
    if k is not None:
        return k
    return None


@simp('mod')
def _mod(a, b):
    k, r = _split(a, b)
    if k is not None:
        return r
    return None


def _split(a, b):
    """a == k*b + r with 0 <= r < b provable: (k, r), else (None, None)."""
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None and cb != 0:
        k = ca // cb
        return K(k), K(ca - k * cb)
    if b is ONE and all(c.denominator == 1 for m, c in a.terms) and \
            all(x.op in ('b', 'ix', 'r', 'dim') and e > 0 for m, c in a.terms for x, e in m):
        return a, ZERO
    if nonneg(a) and positive(b - a):
        return ZERO, a
    # collect monomials divisible by b (b one monomial)
    if len(b.terms) == 1:
        mb, cb = b.terms[0]
        k = ZERO
        r = ZERO
        for m, c in a.terms:
            dm = dict(m)
            ok = True
            for x, e in mb:
                if dm.get(x, 0) < e:
                    ok = False
            q = c / cb
            if ok and q.denominator == 1 and mb:
                for x, e in mb:
                    dm[x] = dm[x] - e
                mm = tuple(sorted(((x, e) for x, e in dm.items() if e), key=lambda t: t[0].id))
                k = k + _mkpoly({mm: q})
            else:
                r = r + _mkpoly({m: c})
        if k is not ZERO and nonneg(r) and positive(b - r):
            return k, r
    # a = q*b exactly
    q = div(a, b)
    if q.const() is not None and q.const().denominator == 1:
        return q, ZERO
    return None, None


def fdiv(a, b):
    return mk('fdiv', _s(a), _s(b))


def mod(a, b):
    return mk('mod', _s(a), _s(b))


# elementwise functions -----------------------------------------------------
@simp('f')
def _fun(name, *args):
    if name in DISTRIB and args and isinstance(args[0], S) and _is_where(args[0]):
        w = args[0].atom()
        return where(w.args[0], mk('f', name, w.args[1], *args[1:]), mk('f', name, w.args[2], *args[1:]))
    if name == 'abs':
        a, = args
        c = a.const()
        if c is not None:
            return K(abs(c))
        l, h = iv(a)
        if l is not None and l >= 0:
            return a
        if h is not None and h <= 0:
            return -a
        n = -a
        if n.id < a.id:
            return P(A('f', 'abs', n))
    elif name == 'clip':
        a, lo, hi = args
        c = a.const()
        if c is not None and lo.const() is not None and hi.const() is not None:
            return K(min(max(c, lo.const()), hi.const()))
        l, h = iv(a)
        okl = l is not None and lo.const() is not None and l >= lo.const()
        okh = h is not None and hi.const() is not None and h <= hi.const()
        if okl and okh:
            return a
        if lo.const() is not None and hi.const() is not None:
            n = lo + hi - a             # clip(lo+hi-a) == lo+hi-clip(a)
            if n.id < a.id:
                return lo + hi - mk('f', 'clip', n, lo, hi)
    elif name == 'sqrt':
        a, = args
        c = a.const()
        if c is not None and c in (0, 1):
            return K(c)
    elif name in ('max2', 'min2'):
        a, b = args
        if a is b:
            return a
        s = sign_of(a - b)
        if s in ('+', '+0', '0'):
            return a if name == 'max2' else b
        if s in ('-', '-0'):
            return b if name == 'max2' else a
        # clip spelled with min/max
        for x, y in ((a, b), (b, a)):
            xa = x.atom()
            if xa is not None and xa.op == 'f' and xa.args[0] in ('max2', 'min2') and xa.args[0] != name and \
                    y.const() is not None:
                for u, v in ((xa.args[1], xa.args[2]), (xa.args[2], xa.args[1])):
                    if v.const() is not None:
                        if name == 'min2' and v.const() <= y.const():
                            return mk('f', 'clip', u, v, y)
                        if name == 'max2' and y.const() <= v.const():
                            return mk('f', 'clip', u, y, v)
        if a.id > b.id:
            return P(A('f', name, b, a))
    elif name in ('int', 'float'):
        a, = args
        if name == 'float' or is_int(a):
            return a
        c = a.const()
        if c is not None:
            return K(int(c))
    elif name in ('round', 'floor', 'ceil'):
        a, = args
        if is_int(a):
            return a
    elif name in ('log2', 'log'):
        a, = args
        if a is ONE:
            return ZERO
    elif name == 'pow':
        a, b = args
        c = b.const()
        if c is not None and c.denominator == 1 and 0 <= c <= 4:
            return power(a, int(c))
        if c == Fraction(1, 2):
            return mk('f', 'sqrt', a)
    return None


DISTRIB = {'abs', 'clip', 'int', 'float', 'round'}


def fun(name, *args):
    return mk('f', name, *[_s(a) for a in args])


def is_int(s):
    for m, c in s.terms:
        if c.denominator != 1:
            return False
        for a, e in m:
            if e < 0 or not _int_atom(a):
                return False
    return True


INT_OPS = {'b', 'ix', 'r', 'dim', 'eq', 'lt', 'le', 'not', 'and', 'or', 'fdiv', 'hist', 'nth', 'argsort'}


def _int_atom(a):
    if a.op in INT_OPS:
        return True
    if a.op == 'sum':
        return is_int(a.args[0].args[2])
    if a.op == 'f' and a.args[0] in ('int', 'round', 'floor', 'ceil'):
        return True
    if a.op == 'mod':
        return is_int(a.args[0]) and is_int(a.args[1])
    if a.op == 'at':
        c = contract(a)
        return bool(c and c.get('int'))
    if a.op == 'where':
        return is_int(a.args[1]) and is_int(a.args[2])
    return False


# ----------------------------------------------------------------------
# contracts: what is assumed about environment values, by base atom
CONTRACTS = {}


def contract(at_atom):
    """Contract dictionary of an 'at' atom (keys: lo, hi, int, simplex axis, free)."""
    if at_atom.op != 'at':
        return None
    base = at_atom.args[0]
    c = CONTRACTS.get(base)
    if c is not None:
        return c
    f = CONTRACT_OPS.get(base.op)
    if f is not None:
        return f(base)
    return None


CONTRACT_OPS = {}


def at(base, *idx):
    return mk('at', base, tuple(_s(i) for i in idx))


AT_RULES = []


@simp('at')
def _at(base, idx):
    if base.op == 'arr':
        dims, body = base.args
        mp = {A('b', k, dims[k]): i for k, i in enumerate(idx)}
        return subst(body, mp)
    if base.op == 'larr':
        return lam_apply(base, *idx)
    if idx and base.op != 'arr':
        c = CONTRACTS.get(base)
        if c is None:
            f = CONTRACT_OPS.get(base.op)
            c = f(base) if f is not None else None
        if c and c.get('simplex') is not None and c.get('dims'):
            ax = c['simplex']
            n = c['dims'][ax] if ax < len(c['dims']) else None
            n = n.const() if n is not None else None
            if n is not None and 1 <= n <= 4 and ax < len(idx) and idx[ax].const() == n - 1:
                acc = ONE
                for j in range(int(n) - 1):
                    acc = acc - P(A('at', base, idx[:ax] + (K(j),) + idx[ax + 1:]))
                return acc
    for r in AT_RULES:
        v = r(base, idx)
        if v is not None:
            return v
    return None


def _simplex_rule(var, dim, a):
    if a.op == 'at':
        c = contract(a)
        if c and c.get('simplex') is not None:
            ax = c['simplex']
            idx = a.args[1]
            if ax < len(idx) and idx[ax].atom() is var and \
                    not any(var in i.vars for k, i in enumerate(idx) if k != ax):
                if c.get('dims') is None or c['dims'][ax] is None or c['dims'][ax] is dim:
                    return ONE
    return None


SUM_RULES.append(_simplex_rule)


def _label_rule(var, dim, a):
    """sum over all classes of [label == class] is one."""
    if a.op == 'eq':
        for x, y in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
            ya = y.atom()
            if ya is None or ya.op != 'at' or var in x.vars:
                continue
            cy = contract(ya)
            if not (cy and cy.get('labels')):
                continue
            if ya.args[1][0].atom() is not var:
                continue
            if cy.get('dims') and cy['dims'][0] is not dim:
                continue
            xa = x.atom()
            if xa is None:
                continue
            if xa.op == 'at':
                cx = contract(xa)
                if cx and cx.get('label_of') == cy['labels']:
                    return ONE
                if cx and cx.get('labels') == cy['labels']:
                    return ONE
    return None


SUM_RULES.append(_label_rule)


def _split_rule(var, dim, a):
    """sum of a concatenation: where(v < n, f, g) with 0 <= n <= dim."""
    if a.op != 'where':
        return None
    c = a.args[0].atom()
    if c is None or c.op != 'lt' or c.args[0].atom() is not var or var in c.args[1].vars:
        return None
    n = c.args[1]
    if sign_of(n) not in ('+', '+0', '0') or sign_of(dim - n) not in ('+', '+0', '0'):
        return None
    v1 = A('r', -8100 - a.rdepth, 0, n)
    v2 = A('r', -8101 - a.rdepth, 1, dim - n)
    return sum_over(v1, n, subst(a.args[1], {var: P(v1)})) + \
        sum_over(v2, dim - n, subst(a.args[2], {var: P(v2) + n}))


SUM_RULES.append(_split_rule)


# ----------------------------------------------------------------------
# intervals
FACTS = []          # stack of {S: (lo, hi)} valid on the current path
_ivmemo = {}


def push_facts(d):
    FACTS.append(d)
    _ivmemo.clear()
    _signmemo.clear()


def pop_facts():
    FACTS.pop()
    _ivmemo.clear()
    _signmemo.clear()


def _hull(a, b):
    lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
    hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
    return lo, hi


def iv(s):
    """Interval of a term: (lo, hi); None means unknown on that side (not: unbounded)."""
    s = _s(s)
    r = _ivmemo.get(s)
    if r is not None:
        return r
    _ivmemo[s] = (None, None)
    lo = hi = Fraction(0)
    for m, c in s.terms:
        l, h = Fraction(1), Fraction(1)
        for a, e in m:
            al, ah = _aiv(a)
            if e < 0:
                al, ah = _inv_iv(al, ah)
                e = -e
            if e % 2 == 0 and e > 0:
                # even power of one atom is nonnegative
                if al is not None and ah is not None:
                    mx = max(abs(al), abs(ah))
                    mn = 0 if al <= 0 <= ah else min(abs(al), abs(ah))
                    al, ah = mn ** e if mn != INF else INF, (mx ** e if mx != INF else INF)
                else:
                    al, ah = Fraction(0), None
                l, h = _imul((l, h), (al, ah))
            else:
                for _ in range(e):
                    l, h = _imul((l, h), (al, ah))
        l, h = _imul((l, h), (c, c))
        lo = _addb(lo, l)
        hi = _addb(hi, h)
    for d in reversed(FACTS):
        f = d.get(s)
        if f is not None:
            if f[0] is not None and (lo is None or f[0] > lo):
                lo = f[0]
            if f[1] is not None and (hi is None or f[1] < hi):
                hi = f[1]
    # squares: p*p spelled as an expanded polynomial is handled by special cases only
    sq = _square_root(s)
    if sq is not None and (lo is None or lo < 0):
        lo = Fraction(0)
    r = (lo, hi)
    _ivmemo[s] = r
    return r


def _square_root(s):
    """Recognise expanded (a-b)^2 with two atoms: a^2 - 2ab + b^2."""
    if len(s.terms) != 3:
        return None
    sq = []
    cross = None
    for m, c in s.terms:
        if len(m) == 1 and m[0][1] == 2 and c > 0:
            sq.append((m[0][0], c))
        elif len(m) == 2 and m[0][1] == 1 and m[1][1] == 1:
            cross = (m[0][0], m[1][0], c)
    if len(sq) == 2 and cross and {sq[0][0], sq[1][0]} == {cross[0], cross[1]}:
        if sq[0][1] * sq[1][1] * 4 == cross[2] * cross[2]:
            return True
    return None


def _addb(a, b):
    if a is None or b is None:
        return None
    if a in (INF, -INF):
        if b == -a:
            return None
        return a
    if b in (INF, -INF):
        return b
    return a + b


def _mulb(a, b):
    if a == 0 or b == 0:
        return Fraction(0)
    if a in (INF, -INF) or b in (INF, -INF):
        return INF if (a > 0) == (b > 0) else -INF
    return a * b


def _imul(x, y):
    if x == (Fraction(1), Fraction(1)):
        return y
    if y == (Fraction(1), Fraction(1)):
        return x
    if None not in x and None not in y:
        ps = [_mulb(a, b) for a in x for b in y]
        return min(ps), max(ps)
    # partial knowledge: nonnegativity
    if x[0] is not None and y[0] is not None and x[0] >= 0 and y[0] >= 0:
        hi = None
        return _mulb(x[0], y[0]), hi
    return None, None


def _inv_iv(l, h):
    if l is None and h is None:
        return None, None
    if l is not None and l >= 0:
        nl = Fraction(0) if (h is None or h == INF) else (Fraction(1) / h if h != 0 else INF)
        if h is None:
            nl = Fraction(0)
        nh = INF if l == 0 else Fraction(1) / l
        return nl, nh
    if h is not None and h <= 0:
        a, b = _inv_iv(-h, None if l is None else -l)
        return (None if b is None else -b), (None if a is None else -a)
    if l is None or h is None:
        return None, None
    return -INF, INF


IV_OPS = {}


def _aiv(a):
    for d in reversed(FACTS):
        f = d.get(a)
        if f is None:
            pa = _polys.get(((((a, 1),), Fraction(1)),))
            f = d.get(pa) if pa is not None else None
        if f is not None:
            l, h = _aiv0(a)
            if f[0] is not None and (l is None or f[0] > l):
                l = f[0]
            if f[1] is not None and (h is None or f[1] < h):
                h = f[1]
            return l, h
    return _aiv0(a)


def _aiv0(a):
    op = a.op
    if op in BOOLOPS:
        return Fraction(0), Fraction(1)
    if op == 'dim':
        return Fraction(a.args[1]), INF
    if op == 'dimx':
        return Fraction(0), INF
    if op in ('b', 'ix', 'r'):
        lo, hi = var_range(a)
        l = lo.const() if lo is not None else None
        if l is None and lo is not None:
            l = iv(lo)[0]
        h = iv(hi)[1] if hi is not None else None
        return l, h
    if op == 'inf':
        return INF, INF
    if op == 'at':
        c = contract(a)
        if c:
            return c.get('lo'), c.get('hi')
        return None, None
    if op == 'where':
        return _hull(iv(a.args[1]), iv(a.args[2]))
    if op == 'sum':
        lam = a.args[0]
        l, h = iv(lam.args[2])
        n = lam.args[1][0]
        nl, nh = iv(n)
        lo = hi = None
        if l is not None and l >= 0:
            lo = Fraction(0)
            if l > 0 and nl is not None and nl > 0:
                lo = l * nl if l != INF else INF
        if h is not None and h <= 0:
            hi = Fraction(0)
        if h is not None and h > 0 and nh is not None:
            hi = _mulb(h, nh)
        if l is not None and l < 0 and nh is not None:
            lo = _mulb(l, nh)
        return lo, hi
    if op == 'poly':
        return iv(a.args[0])
    if op == 'fdiv' or op == 'mod':
        l, h = iv(a.args[0])
        if l is not None and l >= 0:
            if op == 'mod':
                return Fraction(0), iv(a.args[1])[1]
            return Fraction(0), None
        return None, None
    if op == 'f':
        return _fiv(a)
    f = IV_OPS.get(op)
    if f is not None:
        return f(a)
    return None, None


def _fiv(a):
    n = a.args[0]
    xs = [iv(x) if isinstance(x, S) else (None, None) for x in a.args[1:]]
    l, h = xs[0] if xs else (None, None)
    if n == 'clip':
        lo, hi = xs[1][0], xs[2][1]
        ll = lo
        hh = hi
        if l is not None and lo is not None and l > lo:
            ll = l
        if h is not None and hi is not None and h < hi:
            hh = h
        return ll, hh
    if n == 'abs':
        if l is not None and h is not None:
            return (Fraction(0) if l <= 0 <= h else min(abs(l), abs(h))), max(abs(l), abs(h))
        return Fraction(0), None
    if n == 'sqrt':
        lo = Fraction(0)
        hi = None
        if h is not None:
            hi = INF if h == INF else (Fraction(math.sqrt(h)) if h >= 0 else Fraction(0))
        return lo, hi
    if n == 'exp':
        return Fraction(0), None
    if n in ('max2', 'min2'):
        (l1, h1), (l2, h2) = xs[0], xs[1]
        if n == 'max2':
            los = [x for x in (l1, l2) if x is not None]
            lo = max(los) if los else None
            hi = None if h1 is None or h2 is None else max(h1, h2)
        else:
            his = [x for x in (h1, h2) if x is not None]
            hi = min(his) if his else None
            lo = None if l1 is None or l2 is None else min(l1, l2)
        return lo, hi
    if n in ('int', 'round', 'floor', 'ceil'):
        lo = None if l is None else (l if l in (INF, -INF) else Fraction(math.floor(l)))
        hi = None if h is None else (h if h in (INF, -INF) else Fraction(math.ceil(h)))
        if n == 'int' and l is not None and l >= 0:
            lo = Fraction(math.floor(l)) if l != INF else INF
        return lo, hi
    if n in ('log', 'log2'):
        if h is not None and h <= 1:
            return None, Fraction(0)
        return None, None
    if n == 'pow':
        b = a.args[2].const()
        if b is not None and b.denominator == 1 and int(b) % 2 == 0:
            return Fraction(0), None
        return None, None
    return None, None


def is_const_like(s):
    """Built from constants and free dimensions only."""
    return all(a.op == 'dim' for m, c in s.terms for a, e in m)


@simp('nth')
def _nth(lam, pos):
    body = lam.args[2]
    if body is ONE:
        return pos
    a = pos.atom()
    if a is not None and a.op == 'rank' and a.args[0] is lam:
        return a.args[1]
    return None


@simp('rank')
def _rank(lam, pos):
    if lam.args[2] is ONE:
        return pos
    a = pos.atom()
    if a is not None and a.op == 'nth' and a.args[0] is lam:
        return a.args[1]
    return None


@simp('csum')
def _csum(lam, pos):
    """sum of lam over positions 0..pos (inclusive)."""
    n = lam.args[1][0]
    d = lam.args[0]
    if pos is n - 1:
        v = A('r', -6000 - d, 0, n)
        return sum_over(v, n, lam_apply(lam, P(v)))
    c = pos.const()
    if c is not None and 0 <= c <= 3:
        acc = ZERO
        for k in range(int(c) + 1):
            acc = acc + lam_apply(lam, K(k))
        return acc
    return None


@simp('argsort')
def _argsort(lam, pos):
    return None


@simp('red')
def _red(name, lam):
    b = lam.args[2]
    if b.const() is not None and name in ('max', 'min', 'median', 'mean'):
        return b
    if name in ('any', 'all') and b.const() is not None:
        return ONE if b.const() != 0 else ZERO
    if name == 'std' and not any(v.op == 'r' and v.args[0] == lam.args[0] for v in b.vars):
        return ZERO
    return None


def _iv_red(a):
    name, lam = a.args[0], a.args[1]
    l, h = iv(lam.args[2])
    if name in ('max', 'min', 'median', 'mean', 'percentile', 'average'):
        return l, h
    if name in ('any', 'all'):
        return Fraction(0), Fraction(1)
    if name in ('std', 'var', 'norm'):
        return Fraction(0), None
    if name == 'prod':
        if l is not None and l >= 0:
            return Fraction(0), (Fraction(1) if h is not None and h <= 1 else None)
    return None, None


IV_OPS['red'] = _iv_red
BOOLOPS.update(('anyall', 'arreq'))


def _iv_arg(a):
    n = a.args[1].args[1][0]
    h = iv(n)[1]
    return Fraction(0), (None if h is None else (h if h == INF else h - 1))


IV_OPS['arg'] = _iv_arg
IV_OPS['nth'] = lambda a: (Fraction(0), None)
IV_OPS['argsort'] = lambda a: (Fraction(0), None)
IV_OPS['csum'] = lambda a: ((Fraction(0), iv(mk('sum', a.args[0]))[1]) if (iv(a.args[0].args[2])[0] or -1) >= 0 else (None, None))
INT_OPS.update({'arg', 'rank', 'nthk', 'rankof'})


# ----------------------------------------------------------------------
def walk(x, seen=None):
    """Every atom inside x."""
    if seen is None:
        seen = set()
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, S):
            if y in seen:
                continue
            seen.add(y)
            for m, c in y.terms:
                for a, e in m:
                    stack.append(a)
        elif isinstance(y, Atom):
            if y in seen:
                continue
            seen.add(y)
            yield y
            stack.extend(y.args)
        elif isinstance(y, tuple):
            stack.extend(y)


def has_op(x, *ops):
    for a in walk(x):
        if a.op in ops:
            return True
    return False


# ----------------------------------------------------------------------
def show(s, depth=0):
    if depth > 7:
        return '..'
    if not s.terms:
        return '0'
    out = []
    for m, c in s.terms:
        fs = []
        for a, e in m:
            t = show_atom(a, depth + 1)
            if e != 1:
                t += '^%d' % e
            fs.append(t)
        if c != 1 or not fs:
            fs.insert(0, str(c) if c.denominator == 1 else '%g' % float(c))
        out.append('*'.join(fs))
    return '(' + ' + '.join(out) + ')' if len(out) > 1 else out[0]


def show_atom(a, depth=0):
    if depth > 7:
        return '..'
    op = a.op

    def sh(x):
        if isinstance(x, S):
            return show(x, depth + 1)
        if isinstance(x, Atom):
            return show_atom(x, depth + 1)
        if isinstance(x, tuple):
            return '[' + ','.join(sh(y) for y in x) + ']'
        return str(x)
    if op == 'src':
        return a.args[0]
    if op == 'dim':
        return a.args[0]
    if op == 'b':
        return '%%%d' % a.args[0]
    if op == 'r':
        return '$%s.%s' % (a.args[0], a.args[1])
    if op == 'ix':
        return '@%s' % (a.args[0],)
    if op == 'at':
        return sh(a.args[0]) + sh(a.args[1])
    if op in ('lam', 'larr'):
        return '\\' + sh(a.args[1]) + '.' + sh(a.args[2])
    if op == 'arr':
        return '<' + sh(a.args[0]) + ':' + sh(a.args[1]) + '>'
    if op == 'f':
        return a.args[0] + '(' + ','.join(sh(x) for x in a.args[1:]) + ')'
    return op + '(' + ','.join(sh(x) for x in a.args) + ')'


def toobig(s, tree=60000, dag=3000):
    """the term is large even when its shared parts are counted once"""
    if s.size <= tree:
        return False
    n = 0
    for a in walk(s):
        n += 1
        if n > dag:
            return True
    return False
