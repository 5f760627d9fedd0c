"""The scenarios each property is decided on."""
import json
import os

from . import drivers as D
from . import rules as R
from . import rules_quant as RQ
from . import drivers_bags as DB
from . import drivers_est as DE
from . import drivers_ens as DN
from . import drivers_metrics as DM
from . import drivers_reject as DR
from . import drivers_reg as DG
from . import drivers_search as DS
from . import drivers_misc as DX
from .ruletext import RULES

# seconds an analysis took once (only to start the long ones first)
COSTS = json.load(open(os.path.join(os.path.dirname(__file__), 'data', 'costs.json')))
PHASES = ('new', 'fit1', 'predA', 'predB', 'fit2', 'predC')
EVENT_PROPS = ('C07', 'C08', 'C10', 'C13', 'C17', 'C20', 'C21')


class Job(object):
    def __init__(self, name, props, fn, tier='quick', cost=1):
        self.name = name
        self.props = set(props)
        self.fn = fn
        self.tier = tier
        self.cost = cost

    def run(self, base):
        rep = R.Report(self.name)
        self.fn(base, rep)
        return rep


# properties decided on a fit/predict history, by how the history obtains the predictions
BY_MODE = {
    'pred': 'C01 C02 C04 C05 C06 C07 C08 C10 C13 C14 C17 C18 C20 C21 C25',
    'multi': 'C01 C03 C07 C17 C21 C25',
    'new': 'C05 C06 C07 C08 C09 C10 C13 C14 C17 C20 C22',
    'fitted': 'C07 C08 C09 C10 C17',
    'both': 'C07 C09 C17 C22',
    'testnew': 'C09 C17',
    'trainnew': 'C09 C17',
    'shared': 'C09 C17',
}
# the check that is running needs the rules that can report its property only (None: all of them)
FOCUS = None
REPORT = {'C18': ('C18', 'C06', 'C25')}


def focus(props):
    return [p for p in props if FOCUS is None or p in REPORT.get(FOCUS, (FOCUS,))]


SLOW = {'DFX': 4, 'HDX': 3, 'DFy': 4, 'HDy': 3, 'PDFOrdinaly': 3, 'MMy': 2, 'FriedmanME': 2, 'EDX': 2, 'EDy': 2}


def hist_job(qi, oi, c, mode, verbose=None, only=None, tier='quick'):
    q = D.QUANT[qi]
    o = (q.opts + q.cross + q.full)[oi]
    name = '%s(%s)/C=%s/%s%s' % (q.cls, D.optname(o), c, mode, '' if verbose is None else '/verbose')

    def fn(base, rep):
        # the body of the line search is followed in one mode, its contract stands for it in the others
        W = D.history(base, q, o, c, mode, verbose, contract=q.searched(o) and (mode != 'pred' or verbose is not None))
        W.subject = '%s:%s' % (base.repo.module(q.dotted).where if hasattr(base.repo.module(q.dotted), 'where') else q.dotted, q.cls)
        R.events(W, rep, quiet=verbose is None)
        R.outcomes(W, rep, PHASES)
        if verbose is not None:
            return
        if W.obj is not None:
            R.ctor_params(W, rep, W.obj, W.ctor, 'fit' if W.ok('fit1') else '')
        if BY_MODE[mode] != 'C09 C17':
            R.history_taint(W, rep)
        R.estimators(W, rep)
        if mode != 'pred' and W.outcome.get('fit1'):
            RQ.fit_data(W, rep)
        for l in ('fit1', 'fit2'):
            if W.ok(l):
                rep.count('C14', 'fit results checked')
                r = R.same_value(W.I, W.obj, W.outcome[l][1])
                if r is False:
                    rep.add('C14', 'fit-returns-self', R.site_of(W, 'fit'), 'fit does not return the object')
        if not q.searched(o) and BY_MODE[mode] != 'C09 C17':
            RQ.quantifier_values(W, rep, focus((only or BY_MODE[mode]).split()))
            if mode == 'multi' and focus(['C03']):
                RQ.alignment(W, D.history(base, q, o, c, 'pred'), rep)
    props = BY_MODE[mode].split() if verbose is None else ('C07', 'C17')
    if not q.preds:
        props = list(props) + ['C09', 'C22'] if verbose is None else props
        props = [p for p in props if p not in ('C03', 'C09', 'C22')]
    if only:
        props = only.split()
    return Job(name, props, fn, tier, cost=SLOW.get(q.cls, 1) * (2 if c == 'n' else 1))


def search_job(qi, oi, c, mode):
    q = D.QUANT[qi]
    o = q.opts[oi]
    name = '%s(%s)/C=%s/%s/search-contract' % (q.cls, D.optname(o), c, mode)

    def fn(base, rep):
        W = D.history(base, q, o, c, mode, contract=True)
        W.name = name
        R.outcomes(W, rep, PHASES)
        RQ.quantifier_values(W, rep, focus(BY_MODE[mode].split()))
        if mode == 'multi' and focus(['C03']):
            RQ.alignment(W, D.history(base, q, o, c, 'pred', contract=True), rep)
    return Job(name, [p for p in BY_MODE[mode].split() if p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C18', 'C22', 'C25')], fn)


def jobs():
    out = []
    for qi, q in enumerate(D.QUANT):
        for oi in range(len(q.opts)):
            for c in q.classes:
                for m in (('pred', 'multi', 'new', 'fitted', 'both') if q.preds else ('pred',)):
                    if m == 'multi' and not q.train:
                        continue
                    out.append(hist_job(qi, oi, c, m))
                    if q.searched(q.opts[oi]) and m in ('pred', 'multi', 'both'):
                        out.append(search_job(qi, oi, c, m))
                if q.preds and q.train and oi == 0:
                    out += [hist_job(qi, oi, c, m) for m in ('testnew', 'trainnew', 'shared')]
                if c == 'n':        # three classes: every index of a loop over the classes is a number
                    out.append(hist_job(qi, oi, '3', 'pred', only='C02 C04 C17 C18 C25'))
                if q.verbose and oi < len(q.opts):
                    out.append(hist_job(qi, oi, c, 'pred', 1))
        for k in range(len(q.cross) + len(q.full)):
            for c in q.classes:
                oi = len(q.opts) + k
                if k < len(q.cross):
                    out.append(hist_job(qi, oi, c, 'pred', only='C04 C17 C21 C25'))
                else:
                    out.append(hist_job(qi, oi, c, 'pred', only=BY_MODE['pred'], tier='thorough'))
    out += DE.jobs(Job) + DE.oqt_jobs(Job)
    out += DN.jobs(Job)
    out += DM.jobs(Job)
    out += DR.jobs(Job)
    out += DG.jobs(Job)
    out += DS.jobs(Job)
    out += DX.jobs(Job)
    for cls, opt, kw in DB.options():
        for c in DB.classes(kw):
            out.append(Job('%s(%s)/C=%s' % (cls, opt, c), 'C05 C07 C10 C11 C13 C14 C17'.split(), DB.job_fn(cls, opt, kw, c)))
    for j in out:
        j.cost = COSTS.get(j.name, 1)
    return out
