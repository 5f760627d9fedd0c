"""Histories of the bag generators, and the rules on the bags they return (C10, C11)."""
from . import terms as T
from . import rules as R
from . import rules_quant as RQ
from . import np_models as NP
from . import ext_models as EX
from .drivers import const, cdim
from .scen import World
from .terms import A, P, K, bvar, dimatom, ZERO, ONE
from .values import *
from . import valuate as V

CLASSES = [('PriorShift_BagGenerator', True), ('CovariateShift_BagGenerator', False),
           ('PriorAndCovariateShift_BagGenerator', True)]


PER_CLASS = dict(min_prevalence=[0.1, 0.3, 0.2, 0.05], alphas=[2, 1, 3, 1])


def classes(kw):
    given = set(v for v in kw.values() if isinstance(v, str))
    return '3' if 'list' in given else '24' if 'array' in given else '2n'


def options():
    """(class, option name, options)"""
    for cls, prior in CLASSES:
        yield cls, 'default-size', {}
        yield cls, 'bag_size', dict(bag_size=lambda W: Num(dimatom('B'), 'int'))
        yield cls, 'RandomState', dict(random_state='rng')
        if prior:
            yield cls, 'min', dict(min_prevalence=0.1)
            yield cls, 'min-list', dict(min_prevalence='list')
            yield cls, 'min-array', dict(min_prevalence='array')
            yield cls, 'Dirichlet-alphas', dict(method='Dirichlet', alphas='array')
            yield cls, 'Dirichlet', dict(method='Dirichlet')
            yield cls, 'Dirichlet-scalar', dict(method='Dirichlet', alphas=2)


def history(base, cls, opt, kw, c):
    W = World(base, '%s(%s)/C=%s' % (cls, opt, c))
    I = W.I
    C, N = cdim(c, 'C'), dimatom('N1', 2)
    W.C1, W.N1 = C, N
    W.x, W.y1 = W.X('X1', N), W.y('y1', N, C, 'L')
    W.x2, W.y2 = W.X('X2', dimatom('N2', 2)), W.y('y2', dimatom('N2', 2), C, 'L')
    W.nb = dimatom('NB', 2)
    W.bag_size = dimatom('B') if 'bag_size' in kw else N
    ctor = dict(n_bags=Num(W.nb, 'int'))
    for k, v in kw.items():
        if isinstance(v, str) and v in ('list', 'array'):
            x = [const(W, z) for z in PER_CLASS[k][:int(c)]]
            v = I.alloc(ListObj(x)) if v == 'list' else EX.EXT['numpy.array'](I, [Tup(x)], {})
            ctor[k] = v
            continue
        ctor[k] = const(W, v)
    if kw.get('random_state') == 'rng':
        ctor['random_state'] = I.alloc(ExtObj('rng', {'seed': Num(dimatom('SEED', 0), 'int')}, ('param', 'random_state')))
    else:
        ctor['random_state'] = Num(dimatom('SEED', 0), 'int')
    W.ctor = ctor
    W.obj = W.do('new', W.base.cls('bag_generator', cls), **ctor)
    W.res = {}
    if W.obj is None:
        return W
    bags(W, 'gen1', W.obj, W.x, W.y1)
    bags(W, 'gen2', W.obj, W.x2, W.y2)
    if kw.get('random_state') != 'rng':
        W.obj2 = W.do('new2', W.base.cls('bag_generator', cls), **ctor)
        if W.obj2 is not None:
            bags(W, 'gen3', W.obj2, W.x2, W.y2)
    return W


def bags(W, label, obj, X, y):
    r = W.call(label, obj, 'generate_bags', X, y)
    if not W.ok(label):
        return
    its = W.I.models.concrete_items(W.I, r)
    if its and len(its) == 2:
        W.store(label + '.prev', its[0])
        W.store(label + '.idx', its[1])
    at = W.I.obj(obj).attrs
    for k, n in (('prev', 'prevalences_'), ('idx', 'indexes_')):
        if n in at:
            W.store('%s.a%s' % (label, k), at[n])


def matrix(res, m):
    for cond, dims, body in res:
        if cond is ONE or m.ev(cond):
            if dims is None or len(dims) != 2:
                raise V.NoValue('not a matrix')
            r, c = m.nat(dims[0], {}), m.nat(dims[1], {})
            return [[m.ev(body, {bvar(0, dims[0]): i, bvar(1, dims[1]): j}) for j in range(c)] for i in range(r)]
    raise V.NoValue('no alternative')


def model(W, sd):
    import random
    rng = random.Random(sd * 31 + 5)
    c = RQ.ncls(W, W.C1)
    low = 'min_prevalence' in W.ctor     # many bags, large enough to tell one minimum from another
    s1 = RQ.Sample(rng, (17 if low else 9) + sd % 3, c, RQ.LABELS, 'prob')
    s2 = RQ.Sample(rng, 8, c, RQ.LABELS, 'prob')
    dims = {'D': 2, 'N1': s1.n, 'N2': s2.n, 'C': c, 'NB': (9 if low else 2) + sd, 'B': 10 + 3 * sd, 'SEED': 40 + sd}
    return V.Model(dims, {'X1': V.Data(s1.X), 'y1': V.Data(s1.y), 'X2': V.Data(s2.X), 'y2': V.Data(s2.y)},
                   RQ.LABELS[:c], sd)


def check(W, rep, kw):
    res = W.res
    c = RQ.ncls(W, W.C1)
    lab = RQ.LABELS[:c]
    for g, yn, nn in (('gen1', 'y1', 'N1'), ('gen2', 'y2', 'N2')):
        if g + '.prev' not in res:
            rep.count('C11', 'generations without bags')
            continue
        site = R.site_of(W, 'generate_bags')
        n = 0
        for sd in RQ.SEEDS:
            m = model(W, sd)
            try:
                prev, idx = matrix(res[g + '.prev'], m), matrix(res[g + '.idx'], m)
            except V.NoValue as e:
                rep.count('C11', 'models without value')
                rep.sample('C11?', '%s: %s' % (W.name, e))
                continue
            n += 1
            size = m.dims['B'] if 'bag_size' in kw else m.dims[nn]
            y = m.srcs[yn].values
            bad = []
            if len(idx) != size or any(len(r) != m.dims['NB'] for r in idx):
                bad.append(('bags-have-requested-size', 'the indexes have shape (%d, %d) for %d bags of %d examples' % (
                    len(idx), len(idx[0]) if idx else 0, m.dims['NB'], size)))
            elif len(prev) != c or any(len(r) != m.dims['NB'] for r in prev):
                bad.append(('one-prevalence-per-class', 'the prevalences have shape (%d, %d)' % (len(prev), len(prev[0]) if prev else 0)))
            else:
                cols = set()
                for b in range(m.dims['NB']):
                    col = [idx[i][b] for i in range(size)]
                    cols.add(tuple(col))
                    if any(abs(i - round(i)) > 1e-9 or not 0 <= i < len(y) for i in col):
                        bad.append(('indexes-in-range', 'an index lies outside the data'))
                        break
                    p = [prev[k][b] for k in range(c)]
                    q = [sum(1 for i in col if y[int(round(i))] == l) / float(size) for l in lab]
                    if any(abs(u - v) > 1e-9 for u, v in zip(p, q)):
                        bad.append(('reported-prevalence', 'prevalences %s reported for a bag whose examples have %s' % (
                            RQ.fmt(p), RQ.fmt(q))))
                        break
                    lo = kw.get('min_prevalence')
                    if lo is not None and W.cls == 'PriorShift_BagGenerator' and kw.get('method') != 'Dirichlet':
                        lows = PER_CLASS['min_prevalence'][:c] if isinstance(lo, str) else [lo] * c
                        if any(u * size < int(w * size + 1e-9) - 1e-9 for u, w in zip(p, lows)):
                            bad.append(('minimum-prevalence', 'a bag with prevalences %s' % RQ.fmt(p)))
                            break
                if not bad and len(cols) == 1 and m.dims['NB'] > 2:
                    bad.append(('bags-differ', 'every bag is the same'))
            for rule, d in bad:
                rep.add('C11', rule, site, 'the bags generated do not match what is reported or requested', '%s: %s' % (W.name, d))
        rep.count('C11', 'generations %s' % ('valued' if n else 'undecided'))
    # the same seed gives the same bags, whatever was generated before
    if 'gen3.prev' in res and 'gen2.prev' in res:
        for k in ('prev', 'idx'):
            def f(g):
                return lambda sd: [x for r in matrix(res['%s.%s' % (g, k)], model(W, sd)) for x in r]
            r = RQ.compare(rep, 'C10', W.name, f('gen2'), f('gen3'), RQ.SEEDS)
            rep.count('C10', 'same seed, same bags: %s' % (r if isinstance(r, str) else 'differs'))
            if not isinstance(r, str):
                rep.add('C10', 'seed-decides', R.site_of(W, 'generate_bags'),
                        'the bags are not decided by random_state and the data', W.name)
            r = RQ.compare(rep, 'C05', W.name, f('gen2'), f('gen3'), RQ.SEEDS)
            rep.count('C05', 'regenerated bags compared: %s' % (r if isinstance(r, str) else 'differs'))
            if not isinstance(r, str):
                rep.add('C05', 'refit-equals-fresh', R.site_of(W, 'generate_bags'),
                        'a generator used before gives other bags than a fresh one', W.name)


def extent(m, ix, env):
    return m.nat(ix.args[2], env)


def envs(m, ixs):
    """all values of the loop variables of an event"""
    out = [{}]
    for ix in ixs:
        out = [dict(e, **{}) for e in out]
        new = []
        for e in out:
            for k in range(extent(m, ix, e)):
                f = dict(e)
                f[ix] = m.ev(ix.args[1], e) + k if isinstance(ix.args[1], T.S) else k
                new.append(f)
        out = new
        if len(out) > 400:
            raise V.NoValue('too many iterations')
    return out


def draws(W, rep):
    """C11: how the examples of a bag are drawn"""
    from math import exp
    site = R.site_of(W, 'generate_bags')
    for e in W.I.events:
        if e.kind != 'choice':
            continue
        p, rp, size, n = (e.data[k] for k in ('p', 'replace', 'size', 'n'))
        who = '%s:%d' % (e.where, e.line)
        rep.count('C11', 'draws of examples')
        if W.cls == 'PriorShift_BagGenerator':
            used = set(p.body.srcs) if p is not None else set()
            v = e.data['pool']
            if W.I.is_arr(v):
                used |= set(W.I.obj(v).body.srcs)
            if used & {'X1', 'X2'}:
                rep.add('C11', 'independent-of-features', who, 'the examples of a class are drawn by their features', W.name)
        without = isinstance(rp, (Num, Const)) and NP.const_bool(rp) is False
        if without and size is not None and n is not None:
            rep.count('C11', 'draws without replacement')
            for sd in RQ.SEEDS:
                m = model(W, sd)
                try:
                    if any(m.nat(size, env) > m.nat(n, env) for env in envs(m, e.data['ixs'])):
                        rep.add('C11', 'bags-have-requested-size', who,
                                'a bag cannot be drawn: more examples than there are, without replacement', W.name)
                        break
                except V.NoValue as x:
                    rep.sample('C11?', '%s draw: %s' % (W.name, x))
        if W.cls != 'CovariateShift_BagGenerator' or size is None or size is not W.bag_size and 'bag_size' in W.ctor:
            continue
        if p is None:
            rep.add('C11', 'similarity-weights', who, 'the examples of a bag are drawn without the weights of their similarity', W.name)
            continue
        k = '1' if 'X1' in p.body.srcs else '2'
        same = []
        for sd in RQ.SEEDS:
            m = model(W, sd)
            X = m.srcs['X' + k].values
            rows = [[exp(-sum((u - v) ** 2 for u, v in zip(a, b)) / len(a)) for b in X] for a in X]
            rows = [[u / sum(r) for u in r] for r in rows]
            try:
                got = []
                for env in envs(m, e.data['ixs']):
                    f = lambda j: dict(env, **{}) if False else _env(env, bvar(0, p.dims[0]), j)
                    got.append([m.ev(p.body, f(j)) for j in range(m.nat(p.dims[0], env))])
            except V.NoValue as x:
                rep.count('C11', 'weights without value')
                rep.sample('C11?', '%s weights: %s' % (W.name, x))
                continue
            cs = [[c for c, r in enumerate(rows) if len(r) == len(g) and max(abs(u - v) for u, v in zip(r, g)) < 1e-9] for g in got]
            rep.count('C11', 'weights of bags compared', len(cs))
            if any(not c for c in cs):
                rep.add('C11', 'similarity-weights', who, 'the weights of a draw are not the similarities to a centre', W.name)
                break
            if len(cs) >= 3:
                same.append(len({c[0] for c in cs}) == 1)
        else:
            # by chance alone the centres of a few bags may coincide in one model
            if len(same) >= 3 and all(same):
                rep.add('C11', 'random-centre', who, 'every bag has the same centre', W.name)
                break


def _env(env, v, k):
    e = dict(env)
    e[v] = k
    return e


PHASES = ('new', 'gen1', 'gen2', 'new2', 'gen3')


def job_fn(cls, opt, kw, c):
    def fn(base, rep):
        W = history(base, cls, opt, kw, c)
        W.cls = cls
        R.events(W, rep)
        R.outcomes(W, rep, PHASES)
        if W.obj is not None:
            R.ctor_params(W, rep, W.obj, W.ctor, 'generate_bags' if W.ok('gen1') else '')
        check(W, rep, kw)
        draws(W, rep)
    return fn
