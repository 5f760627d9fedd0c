"""Valuation of value numbers: identity testing of the terms the analysis derived.

Two derived terms that have the same normal form are equal for every input.  When the normal forms differ, the question
whether they denote the same function is decided by identity testing (Schwartz-Zippel; "random interpretation", Gulwani
and Necula): the *terms* are valued in a few small models of their source symbols (numbers of classes and examples,
example values), functions the analysis treats as uninterpreted (estimators, solvers, user functions) get arbitrary but
functional values.  Nothing of the program is executed: what is valued is the closed term of the abstract domain.
A term with an unknown (opq) part has no value and decides nothing.
"""
import hashlib
import math
from statistics import NormalDist

from . import terms as T
from .terms import S, Atom, A, P, K

ND = NormalDist()


class NoValue(Exception):
    """The term has no value in this model (unknown part, or undefined operation)."""


class Undefined(NoValue):
    """The operation is undefined in this model (0/0, log of 0 ...)."""


def rnd(x):
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            return repr(x)
        return '%.7g' % (x + 0.0 if abs(x) > 1e-12 else 0.0)
    if isinstance(x, (int,)):
        return '%.7g' % x
    if isinstance(x, (tuple, list)):
        return '(' + ','.join(rnd(y) for y in x) + ')'
    return str(x)


def h01(*key):
    d = hashlib.md5(rnd(list(key)).encode()).digest()
    return 0.02 + 0.96 * int.from_bytes(d[:7], 'big') / float(1 << 56)


class Data(object):
    """A concrete array: values nested in lists."""

    def __init__(self, values, tag=None):
        self.values = values
        self.tag = tag

    def get(self, idx):
        v = self.values
        for i in idx:
            if i < 0 or i >= len(v):
                raise NoValue('index out of range')
            v = v[i]
        return v


class Model(object):
    """Values of the source symbols."""

    def __init__(self, dims, srcs, labels=None, seed=0):
        self.dims = dims            # name -> int
        self.srcs = srcs            # name -> Data
        self.labels = labels        # values of the classes (for the classes of an estimator)
        self.seed = seed
        self.cvx = {}
        self.userfun = None
        self.force = {}             # values given to conditions such as 'singular'
        self.strict = False         # 0 * (something undefined) is undefined
        self.watch = None           # list that collects the problems handed to solvers
        self.memo = {}
        self.steps = 0
        self.limit = 3000000

    def copy(self, **kw):
        m = Model(dict(self.dims), dict(self.srcs), self.labels, self.seed)
        m.cvx = dict(self.cvx)
        m.userfun = self.userfun
        m.force = self.force
        m.limit = self.limit
        m.strict = self.strict
        for k, v in kw.items():
            setattr(m, k, v)
        return m

    # ------------------------------------------------------------------ terms
    def ev(self, s, env=None):
        env = env if env is not None else {}
        c = s.const()
        if c is not None:
            return int(c) if c.denominator == 1 else float(c)
        vs = s.vars
        if not vs:
            key = (s.id,)
        else:
            try:
                key = (s.id,) + tuple(env[v] for v in _order(s))
            except KeyError as e:
                raise NoValue('free variable %s' % e)
        r = self.memo.get(key)
        if r is None:
            self.steps += 1
            if self.steps > self.limit:
                raise NoValue('too large')
            try:
                r = self.poly(s, env)
            except OverflowError:
                raise NoValue('overflow')
            self.memo[key] = r
        return r

    def poly(self, s, env):
        tot = 0
        for m, c in s.terms:
            fs = sorted(m, key=lambda ae: (0 if ae[0].op in T.BOOLOPS else 1))
            v = int(c) if c.denominator == 1 else float(c)
            for a, e in fs:
                x = self.atom(a, env)
                if x == 0:
                    if e < 0:
                        raise Undefined('division by zero')
                    v = 0
                    if self.strict and a.op not in T.BOOLOPS:
                        continue
                    break
                if e == 1:
                    v = v * x
                elif e > 0:
                    v = v * x ** e
                else:
                    if x in (math.inf, -math.inf):
                        v = 0
                        break
                    v = v / (x ** -e)
            if v != v:
                raise Undefined('nan')
            tot = tot + v
        if tot != tot:
            raise Undefined('nan')
        return tot

    def atom(self, a, env):
        op = a.op
        if op in ('b', 'r', 'ix', 'phi'):
            try:
                return env[a]
            except KeyError:
                raise NoValue('free variable')
        if op == 'dim':
            try:
                return self.dims[a.args[0]]
            except KeyError:
                raise NoValue('dim ' + str(a.args[0]))
        f = OPS.get(op)
        if f is None:
            raise NoValue('op ' + op)
        vs = a.vars
        if not vs:
            key = ('a', a.id)
        else:
            try:
                key = ('a', a.id) + tuple(env[v] for v in _order(a))
            except KeyError:
                raise NoValue('free variable')
        r = self.memo.get(key)
        if r is None:
            self.steps += 1
            if self.steps > self.limit:
                raise NoValue('too large')
            r = f(self, a, env)
            self.memo[key] = r
        return r

    def nat(self, s, env):
        v = self.ev(s, env)
        k = int(round(v))
        if abs(v - k) > 1e-6:
            raise NoValue('not an integer')
        return k

    def lam(self, lam, env):
        """values of a lambda over its (first) dimension(s), as a generator of environments' values in order"""
        d, dims, body = lam.args
        ns = [self.nat(x, env) for x in dims]
        out = []
        vs = [A('r', d, j, dims[j]) for j in range(len(dims))]

        def rec(j, e):
            if j == len(vs):
                out.append(self.ev(body, e))
                return
            for k in range(ns[j]):
                e2 = dict(e)
                e2[vs[j]] = k
                rec(j + 1, e2)
        rec(0, dict(env))
        return out

    # ------------------------------------------------------------------ arrays
    def array(self, a, env, dims=None):
        """nested list of an array atom"""
        if isinstance(a, S):
            return self.ev(a, env)
        if a.op == 'arr':
            dims, body = a.args
            vs = [A('b', j, dims[j]) for j in range(len(dims))]
            return self._nested(vs, dims, body, env)
        if a.op == 'larr':
            d, dims, body = a.args
            vs = [A('r', d, j, dims[j]) for j in range(len(dims))]
            return self._nested(vs, dims, body, env)
        if a.op == 'src':
            return self.src(a.args[0]).values
        if a.op == 'num':
            return self.ev(a.args[0], env)
        if a.op == 'uniq':
            return self.base_list(a, env)
        c = T.CONTRACTS.get(a) or (T.CONTRACT_OPS[a.op](a) if a.op in T.CONTRACT_OPS else None)
        dd = dims or (c or {}).get('dims')
        if a.op == 'phi':
            return env[a].v
        if a.op == 'rec':
            dd = a.args[0].args[2][a.args[1]][1]
        if a.op == 'plab' and dd is None:
            dd = (None,)
        if dd is not None:
            if None in dd and a.op not in ('pred', 'plab', 'decf'):
                raise NoValue('array ' + a.op)
            ns = [len(self.array_memo(a.args[1], env)) if d is None else self.nat(d, env) for d in dd]

            def go(k, idx):
                if k == len(ns):
                    return BASES[a.op](self, a, idx, env)
                return [go(k + 1, idx + [i]) for i in range(ns[k])]
            if a.op in BASES:
                return go(0, [])
        raise NoValue('array ' + a.op)

    def _nested(self, vs, dims, body, env):
        def rec(j, e):
            if j == len(vs):
                return self.ev(body, e)
            out = []
            for k in range(self.nat(dims[j], env)):
                e2 = dict(e)
                e2[vs[j]] = k
                out.append(rec(j + 1, e2))
            return out
        return rec(0, dict(env))

    def src(self, name):
        d = self.srcs.get(name)
        if d is None:
            if self.labels is not None and name.startswith('cls:'):
                return Data(list(self.labels))
            raise NoValue('source ' + str(name))
        return d

    def base_list(self, a, env):
        if a.op == 'uniq':
            key = ('U', a.id) + tuple(env[v] for v in _order(a))
            r = self.memo.get(key)
            if r is None:
                v = self.array(a.args[0], env) if a.args[0].op != 'src' else self.src(a.args[0].args[0]).values
                flat = []
                _flat(v, flat)
                r = sorted(set(flat))
                self.memo[key] = r
            return r
        raise NoValue(a.op)

    def row(self, a, env, i):
        """row i of a two-dimensional array atom"""
        if a.op == 'src':
            v = self.src(a.args[0]).values
            if not 0 <= i < len(v):
                raise NoValue('index')
            return v[i]
        if a.op in ('arr', 'larr'):
            v = self.array_memo(a, env)
            if not 0 <= i < len(v):
                raise NoValue('index')
            return v[i]
        raise NoValue('row of ' + a.op)

    def array_memo(self, a, env):
        key = ('A', a.id) + tuple(env[v] for v in _order(a))
        r = self.memo.get(key)
        if r is None:
            r = self.array(a, env)
            self.memo[key] = r
        return r

    def token(self, a, env):
        """a value that identifies what an uninterpreted object was made from"""
        if isinstance(a, S):
            x = a.atom()
            if x is not None and x.op in ('arr', 'larr', 'src', 'fit', 'fit0', 'learned', 'cst'):
                return self.token(x, env)
            if x is not None and x.op in ('pred', 'plab', 'decf', 'uniq'):
                return _tup(self.array_memo(x, env))
            return self.ev(a, env)
        if isinstance(a, tuple):
            return tuple(self.token(x, env) for x in a)
        if not isinstance(a, Atom):
            return str(a)
        if a.op in ('arr', 'larr', 'src'):
            return _tup(self.array_memo(a, env))
        if a.op in ('fit', 'fit0'):
            key = ('T', a.id) + tuple(env[v] for v in _order(a))
            r = self.memo.get(key)
            if r is None:
                r = rnd([a.op] + [self.token(x, env) for x in a.args])
                self.memo[key] = r
            return r
        if a.op == 'top' or a.op == 'opq':
            raise NoValue('unknown')
        return (a.op,) + tuple(self.token(x, env) for x in a.args)

    # ------------------------------------------------------------------ optimisation problems
    def solve_small_qp(self, a, env, n):
        """min x'Gx/2 - a'x, C'x >= b (the first meq constraints are equalities), G positive definite: the best feasible
        KKT point over the active sets"""
        if not a.args[2] or a.args[4] is None or n > 4:
            return None
        G = self.matrix(a.args[0], env)
        av = self.array_memo(a.args[1], env)
        C = self.array_memo(a.args[2], env)
        b = self.array_memo(a.args[3], env)
        meq, k = a.args[4], len(b)
        if k > 7:
            return None
        best = None
        for bits in range(1 << (k - meq)):
            act = list(range(meq)) + [meq + j for j in range(k - meq) if bits >> j & 1]
            if len(act) > n:
                continue
            M = [[G[i][j] for j in range(n)] + [-C[i][c] for c in act] for i in range(n)]
            M += [[C[i][c] for i in range(n)] + [0.0] * len(act) for c in act]
            z = linsolve(M, list(av) + [b[c] for c in act])
            if z is None:
                continue
            x = z[:n]
            if any(sum(C[i][c] * x[i] for i in range(n)) - b[c] < -1e-9 for c in range(k)):
                continue
            v = self.qp_objective(a, env, x)
            if best is None or v < best[0] - 1e-13:
                best = (v, x)
        if best is None:
            raise Undefined('no feasible point')
        return best[1]

    def with_cvx(self, k, x):
        m = self.copy()
        m.cvx[k] = x
        return m

    def qp_objective(self, a, env, x):
        G = self.matrix(a.args[0], env)
        av = self.array_memo(a.args[1], env)
        n = len(av)
        q = sum(x[i] * G[i][j] * x[j] for i in range(n) for j in range(n)) / 2.0
        return q - sum(av[i] * x[i] for i in range(n))

    def matrix(self, a, env):
        if a.op == 'nearpd':
            return self.matrix(a.args[0], env)
        return self.array_memo(a, env)

    def probes(self, n):
        u = [1.0 / n] * n
        out = []
        for j in range(n):
            e = [0.0] * n
            e[j] = 1.0
            out.append((e, [0.5 * e[i] + 0.5 * u[i] for i in range(n)]))
        return out

    def solution(self, a, env):
        """An arbitrary solution that is a function of the problem, compatible with a renaming of its variables."""
        key = ('sol', a.id) + tuple(env[v] for v in _order(a))
        r = self.memo.get(key)
        if r is not None:
            return r
        if a.op == 'cvxsol':
            n = self.nat(a.args[3][0], env) if a.args[3] else None
            if n is None:
                raise NoValue('scalar problem')
            obj = lambda x: self.with_cvx(a.args[2], x).ev(a.args[1], env)
            flag = a.args[4]
            extra = a.args[0]
        else:
            n = self.nat(a.args[5], env)
            obj = lambda x: self.qp_objective(a, env, x)
            flag = a.args[6] == 'simplex'
            extra = str(a.args[6])
        seen = [n, obj, a.args[0] if a.op == 'cvxsol' else 'min', flag, None]
        if self.watch is not None:
            self.watch.append(seen)
        if a.op == 'qp':
            vals = self.solve_small_qp(a, env, n)
            if vals is not None:
                self.memo[key] = seen[4] = vals
                return vals
        pr = self.probes(n)
        vals = [h01(obj(e), obj(m), extra, self.seed) for e, m in pr]
        if flag:
            t = sum(vals)
            vals = [v / t for v in vals]
        self.memo[key] = seen[4] = vals
        return vals


def linsolve(M, b):
    n = len(M)
    M = [list(r) + [v] for r, v in zip(M, b)]
    for k in range(n):
        p = max(range(k, n), key=lambda i: abs(M[i][k]))
        if abs(M[p][k]) < 1e-11:
            return None
        M[k], M[p] = M[p], M[k]
        for i in range(n):
            if i != k and M[i][k]:
                f = M[i][k] / M[k][k]
                M[i] = [x - f * y for x, y in zip(M[i], M[k])]
    return [M[i][n] / M[i][i] for i in range(n)]


_ordmemo = {}


def _order(x):
    r = _ordmemo.get(x)
    if r is None:
        r = tuple(sorted(x.vars, key=lambda v: v.id))
        _ordmemo[x] = r
    return r


def _flat(v, out):
    if isinstance(v, list):
        for x in v:
            _flat(x, out)
    else:
        out.append(v)


def _tup(v):
    return tuple(_tup(x) for x in v) if isinstance(v, (list, tuple)) else v


OPS = {}


def op(*names):
    def deco(f):
        for n in names:
            OPS[n] = f
        return f
    return deco


EPS = 1e-10


@op('eq')
def _eq(m, a, env):
    x, y = m.ev(a.args[0], env), m.ev(a.args[1], env)
    if x == y:
        return 1
    if isinstance(x, float) or isinstance(y, float):
        return 1 if abs(x - y) < EPS else 0
    return 0


@op('lt')
def _lt(m, a, env):
    x, y = m.ev(a.args[0], env), m.ev(a.args[1], env)
    return 1 if x < y and not abs(x - y) < EPS else 0


@op('le')
def _le(m, a, env):
    x, y = m.ev(a.args[0], env), m.ev(a.args[1], env)
    return 1 if x <= y or abs(x - y) < EPS else 0


@op('not')
def _not(m, a, env):
    return 0 if m.ev(a.args[0], env) else 1


@op('and')
def _and(m, a, env):
    for x in a.args:
        if not m.ev(x, env):
            return 0
    return 1


@op('or')
def _or(m, a, env):
    for x in a.args:
        if m.ev(x, env):
            return 1
    return 0


@op('bool')
def _bool(m, a, env):
    return 1 if m.ev(a.args[0], env) else 0


@op('isnan')
def _isnan(m, a, env):
    m.ev(a.args[0], env)
    return 0


@op('where')
def _where(m, a, env):
    return m.ev(a.args[1] if m.ev(a.args[0], env) else a.args[2], env)


@op('poly')
def _poly(m, a, env):
    return m.ev(a.args[0], env)


@op('inf')
def _inf(m, a, env):
    return math.inf


@op('pi')
def _pi(m, a, env):
    return math.pi


@op('e')
def _e(m, a, env):
    return math.e


@op('spacing')
def _spacing(m, a, env):
    return math.ulp(float(m.ev(a.args[0], env)) or 1e-300)


@op('sum')
def _sum(m, a, env):
    return sum(m.lam(a.args[0], env))


@op('csum')
def _csum(m, a, env):
    v = m.lam(a.args[0], env)
    return sum(v[:m.nat(a.args[1], env) + 1])


@op('nth')
def _nth(m, a, env):
    k = m.nat(a.args[1], env)
    pos = [i for i, v in enumerate(m.lam(a.args[0], env)) if v]
    if not 0 <= k < len(pos):
        raise NoValue('index out of range')
    return pos[k]


@op('rank')
def _rank(m, a, env):
    k = m.nat(a.args[1], env)
    return sum(1 for v in m.lam(a.args[0], env)[:k] if v)


@op('argsort')
def _argsort(m, a, env):
    v = m.lam(a.args[0], env)
    k = m.nat(a.args[1], env)
    o = sorted(range(len(v)), key=lambda i: v[i])
    if k < 0:
        k += len(o)
    if not 0 <= k < len(o):
        raise NoValue('index out of range')
    return o[k]


@op('rankof')
def _rankof(m, a, env):
    v = m.lam(a.args[0], env)
    k = m.nat(a.args[1], env)
    o = sorted(range(len(v)), key=lambda i: v[i])
    return o.index(k)


@op('arg')
def _arg(m, a, env):
    v = m.lam(a.args[1], env)
    if not v:
        raise Undefined('empty')
    b = max(v) if 'max' in a.args[0] else min(v)
    for i, x in enumerate(v):
        if abs(x - b) < EPS:
            return i


@op('red')
def _red(m, a, env):
    nm = a.args[0]
    v = m.lam(a.args[1], env)
    if nm == 'any':
        return 1 if any(v) else 0
    if nm == 'all':
        return 1 if all(v) else 0
    if nm == 'prod':
        return math.prod(v)
    if not v:
        raise Undefined('empty')
    if nm == 'max':
        return max(v)
    if nm == 'min':
        return min(v)
    if nm == 'mean':
        return sum(v) / len(v)
    if nm in ('std', 'var'):
        mu = sum(v) / len(v)
        x = sum((y - mu) ** 2 for y in v) / len(v)
        return math.sqrt(x) if nm == 'std' else x
    if nm == 'median':
        w = sorted(v)
        k = len(w)
        return (w[(k - 1) // 2] + w[k // 2]) / 2
    if nm == 'gmean':
        if min(v) < 0:
            raise Undefined('gmean')
        return math.prod(v) ** (1 / len(v))
    raise NoValue('red ' + str(nm))


@op('fdiv')
def _fdiv(m, a, env):
    y = m.ev(a.args[1], env)
    if y == 0:
        raise Undefined('division by zero')
    return m.ev(a.args[0], env) // y


@op('mod')
def _mod(m, a, env):
    y = m.ev(a.args[1], env)
    if y == 0:
        raise Undefined('division by zero')
    return m.ev(a.args[0], env) % y


@op('f')
def _f(m, a, env):
    nm = a.args[0]
    x = [m.ev(y, env) for y in a.args[1:]]
    try:
        if nm == 'abs':
            return abs(x[0])
        if nm == 'clip':
            return min(max(x[0], x[1]), x[2])
        if nm == 'sqrt':
            if -1e-9 < x[0] < 0:
                return 0.0
            return math.sqrt(x[0])
        if nm in ('max2', 'maximum'):
            return max(x)
        if nm in ('min2', 'minimum'):
            return min(x)
        if nm == 'int':
            return int(x[0] + (EPS if x[0] > 0 else -EPS))
        if nm == 'round':
            if abs(x[0]) == math.inf:
                raise NoValue('inf')
            return int(round(x[0])) if len(x) == 1 else round(x[0], int(x[1]))
        if nm == 'floor':
            return math.floor(x[0] + EPS)
        if nm == 'ceil':
            return math.ceil(x[0] - EPS)
        if nm == 'log':
            return math.log(x[0])
        if nm == 'log2':
            return math.log2(x[0])
        if nm == 'log10':
            return math.log10(x[0])
        if nm == 'exp':
            return math.exp(x[0])
        if nm == 'pow':
            return x[0] ** x[1]
        if nm in ('log1p', 'expm1', 'sin', 'cos', 'tanh'):
            return getattr(math, nm)(x[0])
        if nm == 'sign':
            return (x[0] > 0) - (x[0] < 0)
    except (ValueError, ZeroDivisionError):
        raise Undefined(nm)
    raise NoValue('function ' + str(nm))


@op('dfun')
def _dfun(m, a, env):
    if a.args[0] == 'norm.ppf:':
        q = m.ev(a.args[1][0], env)
        if q <= 0:
            return -math.inf
        if q >= 1:
            return math.inf
        return ND.inv_cdf(q)
    raise NoValue('dfun')


@op('cdf')
def _cdf(m, a, env):
    if a.args[0] == 'norm.cdf:' and len(a.args[1]) == 1:
        return ND.cdf(m.ev(a.args[1][0], env))
    raise NoValue('cdf')


@op('userfun')
def _userfun(m, a, env):
    t = m.token(a.args[1], env)
    if m.userfun is not None:
        return m.userfun(a.args[0], t)
    return h01('userfun', a.args[0], t, m.seed)


@op('singular')
def _singular(m, a, env):
    if 'singular' in m.force:
        return m.force['singular']
    return 1 if abs(det(m.matrix(a.args[0], env))) < 1e-12 else 0


@op('posdef')
def _posdef(m, a, env):
    if 'posdef' in m.force:
        return m.force['posdef']
    M = m.matrix(a.args[0], env)
    n = len(M)
    for k in range(1, n + 1):
        if det([r[:k] for r in M[:k]]) <= 1e-12:
            return 0
    return 1


def det(M):
    M = [list(map(float, r)) for r in M]
    n = len(M)
    d = 1.0
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(M[r][i]))
        if abs(M[p][i]) < 1e-14:
            return 0.0
        if p != i:
            M[i], M[p] = M[p], M[i]
            d = -d
        d *= M[i][i]
        for r in range(i + 1, n):
            f = M[r][i] / M[i][i]
            for c in range(i, n):
                M[r][c] -= f * M[i][c]
    return d


def inverse(M):
    n = len(M)
    B = [list(map(float, r)) + [1.0 if i == j else 0.0 for j in range(n)] for i, r in enumerate(M)]
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(B[r][i]))
        if abs(B[p][i]) < 1e-13:
            raise Undefined('singular')
        B[i], B[p] = B[p], B[i]
        f = B[i][i]
        B[i] = [x / f for x in B[i]]
        for r in range(n):
            if r != i and B[r][i]:
                f = B[r][i]
                B[r] = [x - f * y for x, y in zip(B[r], B[i])]
    return [r[n:] for r in B]


# ---------------------------------------------------------------------- elements of arrays
@op('at')
def _at(m, a, env):
    base = a.args[0]
    f = BASES.get(base.op)
    if f is None:
        raise NoValue('element of ' + base.op)
    idx = [m.nat(i, env) for i in a.args[1]]
    return f(m, base, idx, env)


BASES = {}


def base(*names):
    def deco(f):
        for n in names:
            BASES[n] = f
        return f
    return deco


@base('src')
def _bsrc(m, b, idx, env):
    return m.src(b.args[0]).get(idx)


@base('arr', 'larr')
def _barr(m, b, idx, env):
    if b.op == 'arr':
        dims, body = b.args
        vs = [A('b', j, dims[j]) for j in range(len(dims))]
    else:
        d, dims, body = b.args
        vs = [A('r', d, j, dims[j]) for j in range(len(dims))]
    e = dict(env)
    for v, i, n in zip(vs, idx, dims):
        if not 0 <= i < m.nat(n, env):
            raise NoValue('index out of range')
        e[v] = i
    return m.ev(body, e)


class Cells(object):
    """values of a loop-carried array at one iteration"""

    def __init__(self, v):
        self.v = v

    def get(self, idx):
        v = self.v
        for i in idx:
            if not 0 <= i < len(v):
                raise NoValue('index out of range')
            v = v[i]
        if v is None:
            raise NoValue('carried element')
        return v


class Run(object):
    """the states of a recurrence, computed as far as they are needed"""
    LIMIT = 4000

    def __init__(self, m, sy, env):
        self.m, self.env = m, env
        self.ix, lo, self.comps, self.cond, self.stop = sy.args
        self.lid = self.ix.args[0]
        self.lo = m.nat(lo, env)
        self.states = [[self.val(c[0], c[1], c[2], env) for c in self.comps]]

    def envat(self, i):
        e = dict(self.env)
        e[self.ix] = self.lo + i
        for c, v in zip(self.comps, self.states[i]):
            if v is not None:
                e[c[0]] = v
        return e

    def val(self, ph, dims, body, env):
        if not dims:
            try:
                return self.m.ev(body, env)
            except NoValue:
                return None
        vs = {(v.args[1]): v for v in body.vars if v.op == 'r' and T.rec_lid(v) == self.lid}
        ns = [self.m.nat(d, env) for d in dims]

        def go(k, e):
            if k == len(dims):
                try:
                    return self.m.ev(body, e)
                except NoValue:
                    return None
            out = []
            for i in range(ns[k]):
                e2 = dict(e)
                if k in vs:
                    e2[vs[k]] = i
                out.append(go(k + 1, e2))
            return out
        return Cells(go(0, dict(env)))

    def at(self, n):
        if n < 0 or n > self.LIMIT:
            raise NoValue('number of iterations')
        while len(self.states) <= n:
            e = self.envat(len(self.states) - 1)
            self.states.append([self.val(c[0], c[1], c[3], e) for c in self.comps])
        return self.states[n]

    def trips(self, bound):
        i = 0
        while True:
            if bound is not None and i >= bound:
                return i
            if i > self.LIMIT:
                raise NoValue('number of iterations')
            self.at(i)
            e = self.envat(i)
            if not self.m.ev(self.cond, e):
                return i
            if self.stop is not T.ZERO and self.m.ev(self.stop, e):
                return i + 1
            i += 1


# ---------------------------------------------------------------------- random draws: arbitrary but functional values
def draw_key(m, a, ident, extra, env):
    # the sizes of testing samples (M*) have no part in a draw made before them
    out = [ident, m.seed, tuple(sorted((k, v) for k, v in m.dims.items() if k[0] != 'M'))]
    for t in extra:
        x = t.atom() if isinstance(t, S) else t
        if isinstance(x, Atom) and x.op in ('src', 'obj'):
            out.append(str(x.args[0]))
        elif isinstance(t, S):
            out.append(m.ev(t, env))
        else:
            out.append(str(t))
    return out


@op('rndint')
def _rndint(m, a, env):
    ident, lo, hi, extra = a.args
    lo, hi = m.nat(lo, env), m.nat(hi, env)
    if hi <= lo:
        raise Undefined('draw from an empty range')
    return lo + min(hi - lo - 1, int(h01(*draw_key(m, a, ident, extra, env)) * (hi - lo)))


@op('unit')
def _unit(m, a, env):
    return h01(a.args[0], *draw_key(m, a, a.args[1], a.args[2], env))


@op('perm')
def _perm(m, a, env):
    ident, d, extra, i = a.args
    n, i = m.nat(d, env), m.nat(i, env)
    if not 0 <= i < n:
        raise NoValue('index out of range')
    k = draw_key(m, a, ident, extra, env)
    return sorted(range(n), key=lambda j: h01(j, *k))[i]


def folds(m, draw, env):
    """the test sets of a splitter: every repetition deals a permutation of the examples into the folds"""
    name, fresh, n, k, reps, srcs, g = draw.args
    key = ('folds', draw.id) + tuple(env[v] for v in _order(draw))
    r = m.memo.get(key)
    if r is None:
        n, k = m.nat(n, env), m.nat(k, env)
        if k % reps or k // reps > n:
            raise Undefined('number of folds')
        q = k // reps
        t = [m.dims[nm] if nm in m.dims else m.token(x, env) for x, nm in ((x, x.atom().args[0]) for x in srcs)]
        r = []
        for j in range(reps):
            o = sorted(range(n), key=lambda i: h01('split', name, fresh, j, i, t, m.seed))
            r += [sorted(o[f::q]) for f in range(q)]
        m.memo[key] = r
    return r


@op('fold')
def _fold(m, a, env):
    which, draw, f, i = a.args
    fs = folds(m, draw, env)
    f, i = m.nat(f, env), m.nat(i, env)
    if not 0 <= f < len(fs):
        raise NoValue('fold')
    x = fs[f]
    if which == 'train':
        x = [j for j in range(m.nat(draw.args[2], env)) if j not in set(x)]
    if not 0 <= i < len(x):
        raise NoValue('index out of range')
    return x[i]


@op('dimx')
def _dimx(m, a, env):
    if a.args[0] != 'ntest':
        raise NoValue('dimx')
    fs = folds(m, a.args[1], env)
    f = m.nat(a.args[2], env)
    if not 0 <= f < len(fs):
        raise NoValue('fold')
    return len(fs[f])


@op('arreq')
def _arreq(m, a, env):
    return 1 if rnd(_tup(m.array_memo(a.args[0], env))) == rnd(_tup(m.array_memo(a.args[1], env))) else 0


@op('nuniq')
def _nuniq(m, a, env):
    return len(m.base_list(a.args[0], env))


@base('dirichlet')
def _bdir(m, b, idx, env):
    ident, extra, ax, dims = b.args
    k = draw_key(m, b, ident, extra, env)
    n = m.nat(dims[ax], env)
    row = [-math.log(h01(j, idx[:ax], *k)) for j in range(n)]
    return row[idx[ax]] / sum(row)


@base('multinomial')
def _bmult(m, b, idx, env):
    ident, extra, ax, dims, n = b.args
    k = draw_key(m, b, ident, extra, env)
    c, n = m.nat(dims[ax], env), m.nat(n, env)
    cuts = [0] + sorted(int(h01(j, idx[:ax], *k) * (n + 1)) for j in range(c - 1)) + [n]
    return cuts[idx[ax] + 1] - cuts[idx[ax]]


@base('rec')
def _brec(m, b, idx, env):
    sy, k, n = b.args
    key = ('rec', sy.id) + tuple(env[v] for v in _order(sy))
    r = m.memo.get(key)
    if r is None:
        r = Run(m, sy, {v: env[v] for v in sy.vars})
        m.memo[key] = r
    if k == 'trips':
        n = m.nat(n, env)
        return r.trips(None if n < 0 else n)
    v = r.at(m.nat(n, env))[k]
    if v is None:
        raise NoValue('carried value')
    return v.get(idx) if isinstance(v, Cells) else v


@base('phi')
def _bphi(m, b, idx, env):
    try:
        v = env[b]
    except KeyError:
        raise NoValue('free variable')
    return v.get(idx) if isinstance(v, Cells) else v


@base('uniq')
def _buniq(m, b, idx, env):
    u = m.base_list(b, env)
    if not 0 <= idx[0] < len(u):
        raise NoValue('index out of range')
    return u[idx[0]]


@base('cvxvar')
def _bcvx(m, b, idx, env):
    x = m.cvx.get(b.args[0])
    if x is None:
        raise NoValue('optimisation variable')
    if not 0 <= idx[0] < len(x):
        raise NoValue('index out of range')
    return x[idx[0]]


@base('cvxsol', 'qp')
def _bsol(m, b, idx, env):
    s = m.solution(b, env)
    if not 0 <= idx[0] < len(s):
        raise NoValue('index out of range')
    return s[idx[0]]


@base('inv')
def _binv(m, b, idx, env):
    key = ('inv', b.id) + tuple(env[v] for v in _order(b))
    r = m.memo.get(key)
    if r is None:
        r = inverse(m.matrix(b.args[0], env))
        m.memo[key] = r
    return r[idx[0]][idx[1]]


def jacobi(M):
    """eigenvalues (ascending) and eigenvectors (rows) of a symmetric matrix"""
    n = len(M)
    M = [list(map(float, r)) for r in M]
    Q = [[float(i == j) for j in range(n)] for i in range(n)]
    for _ in range(60):
        if sum(M[i][j] ** 2 for i in range(n) for j in range(n) if i != j) < 1e-40:
            break
        for p in range(n):
            for q in range(p + 1, n):
                if M[p][q] == 0:
                    continue
                t = (M[q][q] - M[p][p]) / (2 * M[p][q])
                t = (1 if t >= 0 else -1) / (abs(t) + math.sqrt(t * t + 1))
                c = 1 / math.sqrt(t * t + 1)
                s = t * c
                for k in range(n):
                    M[k][p], M[k][q] = c * M[k][p] - s * M[k][q], s * M[k][p] + c * M[k][q]
                for k in range(n):
                    M[p][k], M[q][k] = c * M[p][k] - s * M[q][k], s * M[p][k] + c * M[q][k]
                for k in range(n):
                    Q[p][k], Q[q][k] = c * Q[p][k] - s * Q[q][k], s * Q[p][k] + c * Q[q][k]
    o = sorted(range(n), key=lambda i: M[i][i])
    return [M[i][i] for i in o], [Q[i] for i in o]


def spectrum(m, b, env):
    key = ('spectrum', b.args[0].id) + tuple(env[v] for v in _order(b))
    r = m.memo.get(key)
    if r is None:
        M = m.matrix(b.args[0], env)
        if any(len(r) != len(M) for r in M) or any(abs(M[i][j] - M[j][i]) > 1e-9 for i in range(len(M)) for j in range(i)):
            raise NoValue('spectrum of a matrix that is not symmetric')
        r = jacobi(M)
        m.memo[key] = r
    return r


@base('eig')
def _beig(m, b, idx, env):
    return spectrum(m, b, env)[0][idx[0]]


@base('svdS', 'svdV', 'svdU')
def _bsvd(m, b, idx, env):
    l, q = spectrum(m, b, env)
    o = sorted(range(len(l)), key=lambda i: -abs(l[i]))
    if b.op == 'svdS':
        return abs(l[o[idx[0]]])
    if b.op == 'svdV':
        return q[o[idx[0]]][idx[1]]
    return q[o[idx[1]]][idx[0]] * (-1 if l[o[idx[1]]] < 0 else 1)


@base('hist')
def _bhist(m, b, idx, env):
    key = ('hist', b.id) + tuple(env[v] for v in _order(b))
    r = m.memo.get(key)
    if r is None:
        xa, n, ea, nb, cover = b.args
        x = []
        _flat(m.array_memo(xa, env), x)
        e = []
        _flat(m.array_memo(ea, env), e)
        k = m.nat(nb, env)
        r = [0] * k
        for v in x:
            for j in range(k):
                if e[j] - EPS <= v and (v < e[j + 1] - EPS or (j == k - 1 and v <= e[j + 1] + EPS)):
                    r[j] += 1
                    break
        m.memo[key] = r
    if not 0 <= idx[0] < len(r):
        raise NoValue('index out of range')
    return r[idx[0]]


@base('pairdist')
def _bpair(m, b, idx, env):
    x = m.row(b.args[1], env, idx[0])
    y = m.row(b.args[2], env, idx[1])
    x = x if isinstance(x, (list, tuple)) else [x]
    y = y if isinstance(y, (list, tuple)) else [y]
    nm = b.args[0].replace('cdist:', '')
    if nm == 'rbf_kernel':
        g = m.ev(b.args[5], env) if len(b.args) > 5 else 1.0 / len(x)
        return math.exp(-g * sum((p - q) ** 2 for p, q in zip(x, y)))
    if nm == 'sqeuclidean':
        return sum((p - q) ** 2 for p, q in zip(x, y))
    if nm == 'chebyshev':
        return max(abs(p - q) for p, q in zip(x, y))
    if nm == 'manhattan_distances' or nm == 'cityblock':
        return sum(abs(p - q) for p, q in zip(x, y))
    if nm in ('euclidean_distances', 'euclidean'):
        return math.sqrt(sum((p - q) ** 2 for p, q in zip(x, y)))
    return sum(abs(p - q) ** 0.5 for p, q in zip(x, y)) * (1 + h01(nm, m.seed))


HALVES = (47,)          # models in which two-class estimators often answer 0, 0.5 and 1


def pred_value(t, x, n, seed):
    if seed in HALVES and n == 2:
        v = int(h01('pred', t, x, 0, seed) * 5) / 4.0
        return [v, 1 - v]
    v = [h01('pred', t, x, k, seed) for k in range(n)]
    return [z / sum(v) for z in v]


@base('pred')
def _bpred(m, b, idx, env):
    fit, X, c = b.args[:3]
    t = m.token(fit, env)
    x = m.row(X, env, idx[0])
    n = m.nat(c, env)
    if not 0 <= idx[1] < n:
        raise NoValue('index out of range')
    return pred_value(t, x, n, m.seed)[idx[1]]


@base('userq')
def _buserq(m, b, idx, env):
    v = userq(m, *b.args, env=env)
    if not 0 <= idx[0] < len(v):
        raise NoValue('index out of range')
    return v[idx[0]]


def userq(m, model, X, p, c, env):
    t = (m.token(model, env), m.token(X, env), m.token(p, env))
    return userq_value(t, m.nat(c, env), m.seed)


VERTEX = (21, 22, 23, 24)       # models in which a base quantifier answers a single class


def userq_value(t, n, seed):
    v = [h01('userq', t, k, seed) ** 2 for k in range(n)]
    if seed in VERTEX:
        v = [int(k == max(range(n), key=lambda j: v[j] + (n == 2 and j == 0) * 0.5)) for k in range(n)]
    return [x / sum(v) for x in v]


@base('plab')
def _bplab(m, b, idx, env):
    fit, X = b.args[:2]
    t = m.token(fit, env)
    x = m.row(X, env, idx[0])
    labels = m.labels
    f = fit.atom() if isinstance(fit, S) else fit
    if f is not None and f.op == 'fit' and isinstance(f.args[2], Atom) and f.args[2].op in ('arr', 'larr', 'src'):
        labels = []
        _flat(m.array_memo(f.args[2], env), labels)
        labels = sorted(set(labels))
    if labels is None:
        raise NoValue('labels')
    return labels[int(h01('plab', t, x, m.seed) * len(labels))]


@base('rpred')
def _brpred(m, b, idx, env):
    return reg_value(m.token(b.args[0], env), m.row(b.args[1], env, idx[0]), idx[1:], m.seed)


def reg_value(t, row, idx, seed):
    # what a regressor answers need not lie between 0 and 1
    return 1.6 * h01('rpred', t, row, tuple(idx), seed) - 0.3


@base('glmpred')
def _bglm(m, b, idx, env):
    x = m.array_memo(b.args[1], env)
    return h01('glmpred', m.token(b.args[0], env), _tup(x[idx[0]] if idx else x), m.seed)


@base('neigh')
def _bneigh(m, b, idx, env):
    fit, X, k = b.args[:3]
    if isinstance(fit, S):
        fit = fit.atom()
    if fit is None or fit.op != 'fit':
        raise NoValue('neigh')
    tr = m.array_memo(fit.args[1], env)
    x = m.row(X, env, idx[0])
    o = sorted(range(len(tr)), key=lambda i: (round(sum((p - q) ** 2 for p, q in zip(tr[i], x)), 9), i))
    if idx[1] >= len(o):
        raise Undefined('too few neighbours')
    return o[idx[1]]


@base('wmode')
def _bwmode(m, b, idx, env):
    x = m.array_memo(b.args[0], env)
    w = m.array_memo(b.args[1], env)
    if b.args[2] != 1:
        raise NoValue('wmode')
    r = x[idx[0]]
    ww = w[idx[0]] if isinstance(w, list) else [w] * len(r)
    tot = {}
    for v, q in zip(r, ww):
        tot[v] = tot.get(v, 0) + q
    best = max(tot.values())
    top = [v for v in tot if abs(tot[v] - best) < EPS]
    if len(top) > 1:
        raise NoValue('tie')
    return top[0]
