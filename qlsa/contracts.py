"""Contracts: what a search procedure promises, used in the scenarios about its callers.

global_search(F, M, test, ...) and golden_section_search(F, M, test, tol, a, b, ...) return the point p of the interval
where the loss F(M(prevalence=p), test) is least, as the vector [1 - p, p].  The bodies of the two functions are analysed
on their own (scenarios search/...)."""
from fractions import Fraction

from . import terms as T
from . import np_models as NP
from .ext_models import scalar, as_ar
from .arrays import UnkShape
from .terms import A, P, K, bvar, ZERO, ONE
from .values import *

VAR = 50


def _loss(I, vals, mix=None):
    base = A('cvxvar', VAR)
    T.CONTRACTS[base] = {'lo': 0, 'hi': 1}
    p = Num(T.at(base, ONE), 'float')
    kw = {}
    d = vals.get('kwargs')
    if isinstance(d, Ref):
        for k, v in I.obj(d).items.items():
            kw[k.v] = v
    f, t = vals['distance_func'], vals['test_distrib']
    if mix is None:
        kw['prevalence'] = p
        mix = I.call(vals['mixture_func'], [], kw)
    r = I.call(f, [mix, t], {})
    try:
        body = scalar(I, r)
    except UnkShape:
        body = T.fresh('loss', *I.src_terms(r))
    return base, body, mix


def _result(I, body):
    b = A('cvxsol', 'min', body, VAR, (K(2),), True)
    return NP.named_arr(I, (K(2),), b)


def golden(I, fv, args, kw):
    vals = I.bind(fv.info, args, kw)
    if not {'distance_func', 'mixture_func', 'test_distrib', 'tol', 'a', 'b'} <= set(vals):
        return None
    base, body, mix = _loss(I, vals)
    I.event('search', body=body, a=vals['a'], b=vals['b'])
    return Tup([Num(T.opq('loss', body), 'float'), _result(I, body)])


def glob(I, fv, args, kw):
    vals = I.bind(fv.info, args, kw)
    if not {'distance_func', 'mixture_func', 'test_distrib', 'tol', 'mixtures', 'return_mixtures'} <= set(vals):
        return None
    old = vals['mixtures']
    ret = vals['return_mixtures']
    rv = ret.s.const() if isinstance(ret, Num) else None
    if rv is None or isinstance(old, Alt):
        return None
    base, body, mix = _loss(I, vals)
    p = T.at(base, ONE).atom()
    if isinstance(old, Ref) and I.is_arr(old):
        # the losses are computed from the stored mixtures
        try:
            m = as_ar(I, old)
            t = as_ar(I, vals['test_distrib'])
        except UnkShape:
            return None
        if len(m.dims) != 2:
            return None
        row = m.at(P(p) * 100, P(bvar(0, m.dims[1])))
        r = I.new_arr((m.dims[1],), row)
        r = I.call(I.getattr(r, 'reshape'), [Tup([Num(d, 'int') for d in t.dims])], {})
        body = _loss(I, vals, r)[1]
    elif not isinstance(old, Const) or old.v is not None:
        return None
    I.event('search', body=body, a=None, b=None)
    new = NONE
    if rv:
        if isinstance(old, Ref):
            new = old
        else:
            try:
                x = as_ar(I, mix)
                n = [d for d in x.dims if d is not ONE]
                if len(n) > 1:
                    return None
                n = n[0] if n else ONE
                j = P(bvar(1, n))
                cell = x.at(*[j if d is n and d is not ONE else ZERO for d in x.dims]) if n is not ONE else x.at(*[ZERO for d in x.dims])
                cell = T.subst(cell, {p: T.scale(P(bvar(0, K(101))), Fraction(1, 100))})
                new = I.new_arr((K(101), n), cell)
            except UnkShape:
                return None
    return Tup([new, _result(I, body)])


def install(W):
    for name, h in (('golden_section_search', golden), ('global_search', glob)):
        try:
            f = W.base.fn('search', name)
        except Exception:
            continue
        if isinstance(f, Fn):
            W.I.hooks[f.info.where] = h
    return W
