#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property from the source under /repo (or $QLSA_REPO).

  check.py --list [TEXT]   the scenarios (whose name contains TEXT)
  check.py --dev [TEXT]    run the scenarios and print every finding of every property
"""
import argparse
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

BASE = None
JOBS = None
JOB_SECONDS = 150       # a scenario that needs more is undecided
TOTAL_SECONDS = 780     # scenarios not started by then are undecided
T0 = time.time()


class TooLong(Exception):
    pass


def _alarm(sig, frame):
    raise TooLong()


def work(k):
    j = JOBS[k]
    t = time.time()
    left = TOTAL_SECONDS - (t - T0)
    if left < 3:
        return k, None, ('skipped', 'no time left'), 0.0
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(max(2, min(JOB_SECONDS, left + 40))))
    try:
        rep = j.run(BASE)
        err = None
    except Exception as e:
        from qlsa.loader import AnalysisBroken
        rep = None
        kind = 'broken' if isinstance(e, AnalysisBroken) else 'timeout' if isinstance(e, TooLong) else 'crash'
        err = (kind, traceback.format_exc())
    finally:
        signal.alarm(0)
    return k, rep, err, time.time() - t


def load_known():
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                key, _, text = l[7:].partition(' :: ')
                out[key.strip()] = text.strip()
    return out


def run(select, jobs=None):
    """[(job, report or None, error, seconds)]"""
    global BASE, JOBS
    from qlsa import catalog
    from qlsa.scen import Base
    BASE = Base()
    JOBS = [j for j in catalog.jobs() if select(j)]
    JOBS.sort(key=lambda j: -j.cost)
    out = []
    n = jobs or max(1, min(8, len(os.sched_getaffinity(0))))
    with mp.get_context('fork').Pool(n, maxtasksperchild=1) as pool:
        for k, rep, err, s in pool.imap_unordered(work, range(len(JOBS)), chunksize=1):
            out.append((JOBS[k], rep, err, s))
    out.sort(key=lambda x: x[0].name)
    return out


def dev(flt):
    t = time.time()
    res = run(lambda j: flt in j.name)
    ks = {}
    for j, rep, err, s in res:
        if err:
            print('!!', j.name, err[0], err[1][-900:])
            continue
        for f in rep.findings:
            ks.setdefault(f.key, []).append((j.name, f))
    for k in sorted(ks):
        print(len(ks[k]), ks[k][0][1], '   <-', ks[k][0][0])
    tot = {}
    for j, rep, err, s in res:
        if rep:
            for p in rep.counts:
                for w, n in rep.counts[p].items():
                    tot[(p, w)] = tot.get((p, w), 0) + n
    for k in sorted(tot):
        print('   ', k, tot[k])
    slow = sorted(res, key=lambda x: -x[3])[:4]
    print('slowest:', [(j.name, round(s, 1)) for j, rep, err, s in slow])
    print(len(res), 'jobs', round(time.time() - t, 1), 's')


def decide(prop, tier, seed):
    from qlsa import catalog
    rule = catalog.RULES[prop]
    catalog.FOCUS = prop
    try:
        res = run(lambda j: prop in j.props and (tier == 'thorough' or j.tier == 'quick'))
    except Exception:
        traceback.print_exc()
        print('ERROR: the source cannot be analysed')
        return 2
    known = load_known()
    found, counts, functions, samples, undecided = {}, {}, set(), [], []
    ncalls = 0
    for j, rep, err, s in res:
        if err:
            undecided.append({'scenario': j.name, 'why': err[0], 'detail': err[1].strip().split('\n')[-1][:200]})
            continue
        functions |= rep.functions
        ncalls += rep.callsites
        for p in (prop, '*'):
            for w, n in rep.counts.get(p, {}).items():
                counts[w] = counts.get(w, 0) + n
        for s_ in rep.samples.get(prop, ()):
            if len(samples) < 12 and s_ not in samples:
                samples.append(s_)
        for f in rep.findings:
            if f.prop == prop:
                found.setdefault(f.key, (f, []))[1].append(j.name)
    new = {k: v for k, v in found.items() if k not in known}
    listed = {k: v for k, v in found.items() if k in known}
    for k in sorted(listed):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
    outdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(outdir, exist_ok=True)
    for n, k in enumerate(sorted(new)):
        f, names = new[k]
        path = os.path.join(outdir, '%s-%d.json' % (prop, n))
        with open(path, 'w') as fo:
            json.dump({'property': prop, 'rule': f.rule, 'where': f.where, 'line': f.line, 'what': f.what,
                       'detail': f.detail, 'call path': list(f.path), 'scenarios': names,
                       'reproduce': 'python3 check.py --dev "%s"' % names[0]}, fo, indent=1, default=str)
        print('%s%s: [%s] %s %s' % (f.where, '' if f.line is None else ':%s' % f.line, f.rule, f.what, f.detail))
        print('    derived for %s' % '; '.join(names[:3]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    decided = len(res) - len(undecided)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
          'coverage': {
              'explanation': rule['explanation'],
              'rule': rule['rule'],
              'scenarios_analysed': decided, 'scenarios_undecided': undecided,
              'functions_analysed': len(functions), 'call_sites_analysed': ncalls,
              'counts': counts, 'samples': samples, 'functions': sorted(functions),
              'known_findings_seen': sorted(listed)},
          'assumptions': rule.get('assumptions', []),
          'wall_s': round(time.time() - T0, 2), 'violations': len(new)}
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fo:
        json.dump(ev, fo, indent=1, default=str)
    print('%s: %d scenarios analysed, %d undecided, %d functions, %d call sites, %d violations, %.1f s' %
          (prop, decided, len(undecided), len(functions), ncalls, len(new), time.time() - T0))
    if new:
        return 1
    if not res or decided * 2 < len(res):
        for u in undecided[:5]:
            print('UNDECIDED', u)
        print('ERROR: most scenarios could not be analysed')
        return 2
    return 0


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?', default='')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--dev', action='store_true')
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    if a.tier == 'thorough':
        os.environ['QLSA_DEEP'] = '1'      # more models of every family
        JOB_SECONDS, TOTAL_SECONDS = 900, 5400
    if a.list:
        from qlsa import catalog
        for j in catalog.jobs():
            if a.prop in j.name:
                print(j.name, ' '.join(sorted(j.props)), j.tier)
    elif a.dev:
        dev(a.prop)
    else:
        sys.exit(decide(a.prop, a.tier, int(os.environ.get('VERIF_SEED') or 1)))
