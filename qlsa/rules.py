"""Rules: what each property forbids in the abstract histories (drivers.py).

A rule looks at what the interpreter derived from the source (events with their site, final states, symbolic results)
and reports a Finding only for a derived violation.  Whatever the analysis could not decide is counted, not reported.
"""
from . import terms as T
from . import np_models as NP
from . import ext_models as EX
from .interp import USER_ERRORS
from .terms import A, P, K, S, bvar, ZERO, ONE
from .values import *


class Finding(object):
    def __init__(self, prop, rule, where, what, detail='', line=None, path=()):
        self.prop = prop
        self.rule = rule
        self.where = where
        self.what = what
        self.detail = detail
        self.line = line
        self.path = tuple(path)

    @property
    def key(self):
        return '%s|%s|%s|%s' % (self.prop, self.rule, self.where, self.what)

    def __repr__(self):
        return '%s [%s] %s: %s %s' % (self.prop, self.rule, self.where + ('' if self.line is None else ':%s' % self.line),
                                      self.what, self.detail)


class Report(object):
    """Findings and coverage of one scenario."""

    def __init__(self, name):
        self.name = name
        self.findings = []
        self.counts = {}
        self.samples = {}
        self.functions = set()
        self.callsites = 0

    def add(self, prop, rule, where, what, detail='', line=None, path=()):
        f = Finding(prop, rule, where, what, detail, line, path)
        if not any(g.key == f.key for g in self.findings):
            self.findings.append(f)

    def ev(self, prop, rule, e, what, detail=''):
        self.add(prop, rule, e.where, what, detail, e.line, e.path)

    def count(self, prop, what, n=1):
        c = self.counts.setdefault(prop, {})
        c[what] = c.get(what, 0) + n

    def sample(self, prop, s):
        l = self.samples.setdefault(prop, [])
        if len(l) < 3 and s not in l:
            l.append(s)


def par_origin(o):
    return isinstance(o, tuple) and o[0] == 'param'


def def_origin(o):
    return isinstance(o, tuple) and o[0] == 'default'


def owner(W):
    """file:class the scenario is about."""
    return getattr(W, 'subject', W.name.split('/')[0])


# ----------------------------------------------------------------------------------------------------------------
# rules on events (any scenario)
INTERNAL = ('NameError', 'UnboundLocalError', 'AttributeError', 'TypeError', 'IndexError', 'KeyError', 'UFuncTypeError',
            'ZeroDivisionError', 'AxisError', 'ImportError', 'LinAlgError', 'StopIteration', 'AssertionError',
            'ParameterError', 'RecursionError', 'DCPError', 'SolverError')


def clean(msg):
    """message without terms (stable key)"""
    import re
    m = re.sub(r'\s+', ' ', str(msg))
    return m[:110]


def events(W, rep, quiet=True, reject=False):
    """C07 C08 C10 C13 C17 C20 C21: rules that hold for every operation.

    quiet: the scenario asks for no output.  reject: the scenario is one that must be rejected (C15/C22/C23), so errors
    are not C17 findings.
    """
    swallowed = 0
    for e in W.I.events:
        d = e.data
        if e.kind == 'write':
            rep.count('C07', 'writes analysed')
            if par_origin(d.get('origin')):
                rep.ev('C07', 'no-write-to-caller-data', e, 'writes into the object passed as %s (%s)' % (d['origin'][1], d['what']))
            elif def_origin(d.get('origin')):
                rep.ev('C08', 'no-shared-default', e, 'writes into the default value of parameter %s of %s (%s)' %
                       (d['origin'][2], d['origin'][1], d['what']))
        elif e.kind == 'ext_setattr':
            rep.count('C07', 'attribute stores on external objects')
            if par_origin(d.get('origin')):
                rep.ev('C07', 'no-write-to-caller-data', e, 'sets attribute %s of the object passed as %s' %
                       (d['name'], d['origin'][1]))
        elif e.kind == 'setattr':
            o = W.I.st.heap.get(d['oid']) if W.I.st is not None else None
            org = getattr(o, 'origin', None)
            rep.count('C08', 'attribute stores')
            if def_origin(org):
                rep.ev('C08', 'no-shared-default', e, 'changes attribute %s of the default value of parameter %s of %s' %
                       (d['name'], org[2], org[1]))
        elif e.kind == 'est_fit' and d.get('shallow'):
            rep.ev('C08', 'member-shares-parts', e, 'fits a shallow copy of an estimator: its nested parts belong to the original too')
        elif e.kind == 'rng' and d['what'] == 'draw':
            rep.count('C10', 'draws from a seeded generator')
        elif e.kind == 'rng':
            rep.ev('C10', 'no-global-generator', e, '%s %s' % (d['how'], d['what']))
        elif e.kind == 'print':
            rep.count('C13', 'print sites reached')
            if quiet:
                rep.ev('C13', 'silent-by-default', e, '%s reached with default verbosity' % d.get('what', 'print'))
        elif e.kind == 'swallow':
            exc = d['exc']
            rep.count('C20', 'handled exceptions')
            nm = getattr(exc, 'name', '?')
            if nm in USER_ERRORS:
                rep.ev('C20', 'no-swallowed-failure', e, 'an exception raised by user-supplied code is swallowed here')
        elif e.kind in ('error', 'shape') and not reject:
            if e.kind == 'shape':
                nm, msg = 'ValueError', 'shapes do not fit: %s %s' % (d.get('what', ''), [T.show(x) for x in d.get('dims', ())])
            else:
                nm, msg = d['err'], d.get('msg', '')
            if nm == 'NotFittedError':
                continue
            rep.ev('C17', 'executable', e, '%s: %s' % (nm, clean(msg)), '')
        elif e.kind == 'hist':
            rep.count('C21', 'histograms')
            cov = d.get('cover')
            for side, c in zip(('smallest', 'largest'), cov or ()):
                if c is False:
                    rep.ev('C21', 'edges-cover-everything', e, 'the %s bin edge does not cover every value' % side)
                elif c is None:
                    rep.count('C21', 'histogram edges undecided')
                else:
                    rep.count('C21', 'histogram edges proved unbounded')
        elif e.kind in ('unmodelled', 'unsupported', 'recursion'):
            rep.count('*', 'unmodelled constructs')
    rep.functions |= {str(x) for x in W.I.analysed}
    rep.callsites += W.I.callsites if isinstance(W.I.callsites, int) else len(W.I.callsites)


def outcomes(W, rep, labels):
    """C17: every phase of the history ends normally."""
    for l in labels:
        o = W.outcome.get(l)
        if o is None:
            continue
        rep.count('C17', 'operations analysed')
        if o[0] == 'raise':
            e = o[1]
            nm = getattr(e, 'name', '?')
            if nm in USER_ERRORS:
                continue
            w = raise_site(W, l, e)
            rep.add('C17', 'executable', w[0], 'operation %s always ends in %s' % (l, clean(e)), W.name, w[1])


def raise_site(W, label, exc):
    evs = [e for e in W.events(label) if e.kind in ('error', 'raise', 'mayraise', 'shape')]
    if evs:
        return evs[-1].where, evs[-1].line
    return owner(W), None


# ----------------------------------------------------------------------------------------------------------------
# taint rules on fit/predict histories
def body_srcs(res):
    """sources a stored result depends on, and whether something about it is unknown"""
    s = set()
    unknown = False
    for cond, dims, body in res or ():
        s |= set(cond.srcs)
        if dims is None:
            if isinstance(body, Top):
                unknown = True
                s |= set(body.s.srcs)
            continue
        for d in dims:
            s |= set(d.srcs)
        s |= set(body.srcs)
    return s, unknown


def history_taint(W, rep, k=''):
    """C05 (refit replaces everything) and C06 (predict does not depend on earlier predicts)."""
    res = getattr(W, 'res', {})
    if 'pB' + k in res:
        s, unk = body_srcs(res['pB' + k])
        rep.count('C06', 'predictions analysed')
        if unk:
            rep.count('C06', 'undecided results')
        for x in sorted(s & {'TA', 'QA', 'MA'}):
            rep.add('C06', 'history-independent', site_of(W, 'predict'),
                    'the second prediction depends on %s of the first one' % SRC[x], W.name)
        if s & {'TB', 'QB', 'MB'}:
            rep.count('C06', 'results that depend on their own sample')
    if 'pC' + k in res:
        s, unk = body_srcs(res['pC' + k])
        rep.count('C05', 'refit histories analysed')
        if unk:
            rep.count('C05', 'undecided results')
        old = {'X1', 'y1', 'P1', 'N1', 'I1', 'V1', 'TA', 'QA', 'MA', 'TB', 'QB', 'MB'}
        if W.C2 is not W.C1:
            old.add('C')
        if W.mode in ('new', 'newens'):
            # the estimators keep what they learned from the first sample
            old -= {'X1', 'y1', 'N1', 'C', 'I1', 'NB'}
        for x in sorted(s & old):
            rep.add('C05', 'refit-replaces', site_of(W, 'predict'),
                    'after a second fit the prediction still depends on %s' % SRC.get(x, x), W.name)


SRC = {'I1': 'the first training bags', 'V1': 'the prevalences of the first training bags', 'X1': 'the first training sample', 'y1': 'the first training labels', 'P1': 'the first training predictions',
       'N1': 'the size of the first training sample', 'C': 'the classes of the first training sample',
       'TA': 'the first testing sample', 'QA': 'the first testing predictions', 'MA': 'the size of the first testing sample',
       'TB': 'an earlier testing sample', 'QB': 'earlier testing predictions', 'MB': 'the size of an earlier testing sample'}


def site_of(W, meth):
    """file:Class.method that implements an operation of the object under test"""
    try:
        ci = W.I.obj(W.obj).cls
        f = ci.find(meth)
        return f.where if hasattr(f, 'where') else '%s.%s' % (ci.name, meth)
    except Exception:
        return owner(W)


def members(W, rep, template):
    """C08: the members of the fitted object are objects of their own, and the template stays as it was given"""
    I = W.I
    if W.obj is None or not W.ok('fit1'):
        return
    tmpl = template.oid if isinstance(template, Ref) else None

    def part(r):
        """the object inside a base quantifier of the analysis"""
        ob = I.st.heap.get(r.oid)
        v = getattr(ob, 'attrs', {}).get('part') if not isinstance(ob, ExtObj) else None
        return v if isinstance(v, Ref) else None
    tpart = part(template) if isinstance(template, Ref) else None
    shared = 'the members of %s share the objects they are made of'
    for attr in ('estimators_', 'quantifiers_'):
        v = I.obj(W.obj).attrs.get(attr)
        for _, x in (v.alts if isinstance(v, Alt) else ((ONE, v),)):
            o = I.obj(x) if isinstance(x, Ref) else None
            if not isinstance(o, ListObj):
                continue
            rep.count('C08', 'lists of members')
            seen = set()
            pseen = {tpart.oid: None} if tpart is not None else {}
            if o.items is not None:
                for it in o.items:
                    for r in refs(it):
                        q = part(r)
                        if q is not None and r.oid != tmpl:
                            rep.count('C08', 'parts of members')
                            if pseen.get(q.oid, r.oid) != r.oid:
                                rep.add('C08', 'member-shares-parts', site_of(W, 'fit'), shared % attr, W.name)
                            pseen[q.oid] = r.oid
                        if r.oid == tmpl:
                            rep.add('C08', 'member-is-template', site_of(W, 'fit'), 'a member of %s is the template itself' % attr, W.name)
                        elif (r.oid, r.sub) in seen:
                            rep.add('C08', 'members-distinct', site_of(W, 'fit'), 'two members of %s are the same object' % attr, W.name)
                    seen |= {(r.oid, r.sub) for r in refs(it)}
            elif o.comp is not None and o.comp[0] != 'phi':
                ix = o.comp[0]
                for r in refs(o.comp[2]):
                    ob = I.st.heap.get(r.oid)
                    q = part(r)
                    if q is not None and r.oid != tmpl:
                        rep.count('C08', 'parts of members')
                        pb = I.st.heap.get(q.oid)
                        # made in fewer loops than the member it belongs to
                        if tpart is not None and q.oid == tpart.oid or ob is not None and pb is not None and len(pb.ixs) < len(ob.ixs):
                            rep.add('C08', 'member-shares-parts', site_of(W, 'fit'), shared % attr, W.name)
                    if r.oid == tmpl:
                        rep.add('C08', 'member-is-template', site_of(W, 'fit'), 'a member of %s is the template itself' % attr, W.name)
                    elif ob is not None and ix not in ob.ixs and not any(ix in s.vars for _, s in r.sub):
                        rep.add('C08', 'members-distinct', site_of(W, 'fit'), 'all the members of %s are the same object' % attr, W.name)
    if tmpl is not None:
        rep.count('C08', 'templates checked')
        ob = I.st.heap.get(tmpl)
        if isinstance(ob, ExtObj) and I.truth_of(ob.attrs.get('fitted', ZERO)) is True:
            rep.add('C08', 'template-unfitted', site_of(W, 'fit'), 'the template given by the caller is fitted itself', W.name)


def refs(v):
    if isinstance(v, Alt):
        return [r for _, x in v.alts for r in refs(x)]
    return [v] if isinstance(v, Ref) else []


def same_value(I, a, b):
    if a is b:
        return True
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.oid == b.oid and a.sub == b.sub
    if isinstance(a, Num) and isinstance(b, Num):
        return a.s is b.s
    if isinstance(a, Alt) or isinstance(b, Alt) or isinstance(a, Top) or isinstance(b, Top):
        return None
    if isinstance(a, (Tup,)) and isinstance(b, (Tup,)):
        if len(a.items) != len(b.items):
            return False
        r = [same_value(I, x, y) for x, y in zip(a.items, b.items)]
        return False if False in r else (None if None in r else True)
    try:
        return a == b
    except Exception:
        return None


def ctor_params(W, rep, obj, given, after=''):
    """C14: the constructor parameters are stored under their own names, unchanged."""
    I = W.I
    o = I.obj(obj)
    ci = o.cls
    init = ci.find('__init__')[0]
    if init is None or not hasattr(init, 'node'):
        return
    a = init.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs][1:]
    for n in names:
        rep.count('C14', 'constructor parameters checked')
        if n not in o.attrs:
            try:
                v = I.getattr(obj, n)
            except Exception:
                rep.add('C14', 'parameters-readable', init.where, 'parameter %s of %s cannot be read back' % (n, ci.name), after)
                continue
        else:
            v = o.attrs[n]
        if n in given:
            r = same_value(I, given[n], v)
            if r is False:
                rep.add('C14', 'parameters-unchanged', init.where if not after else site_of(W, after),
                        'parameter %s of %s is not the value given to the constructor%s' %
                        (n, ci.name, ' after ' + after if after else ''))
            elif r is None:
                rep.count('C14', 'parameters undecided')
        elif after and n in getattr(W, 'new_attrs', {}):
            r = same_value(I, W.new_attrs[n], v)
            if r is False:
                rep.add('C14', 'parameters-unchanged', site_of(W, after),
                        'parameter %s of %s is replaced after %s' % (n, ci.name, after))
            elif r is None:
                rep.count('C14', 'parameters undecided')


def estimators(W, rep):
    """C09 on a quantifier history."""
    for e in W.I.events:
        if e.kind == 'est_fit' and par_origin(e.data.get('origin')):
            rep.count('C09', 'fit sites of supplied estimators')
            t = W.I.truth_of(e.data['fitted']) if isinstance(e.data['fitted'], S) else None
            if t is True:
                rep.ev('C09', 'fit-only-unfitted', e, 'fits the already fitted %s' % e.data['origin'][1])
        elif e.kind == 'est_use' and not e.data.get('internal'):
            rep.count('C09', 'uses of supplied estimators')
    for l in ('fit1', 'predA', 'predB'):
        o = W.outcome.get(l)
        if o and o[0] == 'raise' and getattr(o[1], 'name', '') == 'NotFittedError' and (getattr(W, 'est_train', None) or getattr(W, 'est_test', None)):
            w = raise_site(W, l, o[1])
            rep.add('C09', 'used-unfitted', w[0], 'operation %s uses a supplied estimator that nobody has fitted' % l, W.name, w[1])
    st = getattr(W, 'est_fit1', None)
    if st and W.ok('fit1') and W.mode != 'both':
        X, y = NP.ar_atom(EX.as_ar(W.I, W.X1)), NP.ar_atom(EX.as_ar(W.I, W.y1))
        for name, new, at in st:
            if not new:
                continue
            rep.count('C09', 'unfitted estimators followed')
            f = at.get('fitted')
            t = W.I.truth_of(f) if isinstance(f, S) else None
            if t is False:
                rep.add('C09', 'left-unfitted', site_of(W, 'fit'), '%s is not fitted by fit' % name, W.name)
                continue
            if t is None:
                rep.count('C09', 'unfitted estimators undecided')
                continue
            want = P(A('fit', name, X, y, ()))
            rep.count('C09', 'fitted with the data of the caller' if at.get('fit') is want else 'fitted with other terms')
