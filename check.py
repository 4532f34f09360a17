#!/usr/bin/env python3
"""python3 check.py P06 [--tier quick|thorough]      decide one property from /repo's current source

Exit 0: held on everything analysed.  Exit 1: a line `VIOLATION property=<id> replay=<path>` per violated
obligation.  Rewrites evidence/<id>.json.  Nothing of /repo is imported or executed.
"""
import argparse
import ast
import json
import multiprocessing
import os
import sys
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(30000)

from sa import equiv, src                      # noqa: E402
from sa.rules import load_all                  # noqa: E402

KNOWN = os.path.join(HERE, 'known_findings.txt')


class Ctx:
    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.repo, self.specs = equiv.load()


def known_lines(prop):
    """entries `known: property=<id> key=<key> <what fails>`"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding='utf8'):
            line = line.strip()
            if line.startswith('known: '):
                parts = line.split(' ', 3)
                p, k = parts[1].split('=', 1)[1], parts[2].split('=', 1)[1]
                if p == prop or prop is None:
                    out[k] = parts[3] if len(parts) > 3 else ''
    return out


def run_spec(job):
    i, tries, seed, limit, mode = job
    t = time.time()
    limit = min(limit, int(DEADLINE - t))
    if limit < 2:
        return i, 'undecided', 'time budget of this tier used up', None, None, 0.0
    try:
        import resource
        import signal
        resource.setrlimit(resource.RLIMIT_AS, (3500 << 20, 3500 << 20))

        def stop(*_):
            raise TimeoutError()
        signal.signal(signal.SIGALRM, stop)
        signal.alarm(limit)
        repo, specs = CTX.repo, CTX.specs
        s = specs[i]
        v = equiv.check(repo, s, tries=tries, seed=seed, mode=mode)
        signal.alarm(0)
        return i, v.status, v.detail, v.witness, v.where, time.time() - t
    except TimeoutError:
        return i, 'undecided', f'no verdict within {limit} s', None, None, time.time() - t
    except MemoryError:
        signal.alarm(0)
        return i, 'undecided', 'out of memory', None, None, time.time() - t
    except Exception as e:
        signal.alarm(0)
        return i, 'undecided', 'analysis failed: ' + ''.join(traceback.format_exception_only(e)).strip(), None, None, time.time() - t


def run_rule(job):
    i, = job
    r = RULES[i]
    try:
        return i, r(CTX), None
    except src.AnchorError as e:
        return i, None, f'anchor gone: {e}'
    except Exception as e:
        return i, None, 'analysis failed: ' + ''.join(traceback.format_exception_only(e)).strip()


def main():
    global CTX, RULES, DEADLINE
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    try:
        CTX = Ctx(a.tier, seed)
    except SyntaxError as e:
        print(f'source does not parse: {e}')
        path = write_replay(a.prop, [{'rule': 'the source parses', 'where': str(e), 'detail': str(e)}])
        print(f'VIOLATION property={a.prop} replay={path}')
        write_evidence(a, seed, t0, [], [], 1)
        return 1
    RULES = load_all()
    # P01, P02 and P22 look at one aspect of every specified function; the other properties at every facet of the functions that carry them
    aspect = {'P01': 'det', 'P02': 'args', 'P22': 'total'}.get(a.prop)
    modes = {i: 'full' if a.prop in s.props else aspect for i, s in enumerate(CTX.specs) if a.prop in s.props or aspect}
    specs = list(modes)
    rules = [i for i, r in enumerate(RULES) if a.prop in r.props]
    tries = 250 if a.tier == 'quick' else 4000
    limit = 200 if a.tier == 'quick' else 3000
    DEADLINE = t0 + (600 if a.tier == 'quick' else 14000)
    # the slow ones first
    specs.sort(key=lambda i: -CTX.specs[i].opts.get('cost', 1))
    rows, rrows = [], []
    mp = multiprocessing.get_context('fork')
    with mp.Pool(min(8, max(1, len(specs) + len(rules)))) as pool:
        rs = [pool.apply_async(run_rule, ((i,),)) for i in rules]
        ss = [pool.apply_async(run_spec, ((i, tries, seed, limit, modes[i]),)) for i in specs]
        for x in ss:
            i, st, detail, wit, where, dt = x.get()
            rows.append({'target': CTX.specs[i].target, 'spec': f'{CTX.specs[i].func.module.name}.py:{CTX.specs[i].func.node.lineno} {CTX.specs[i].name}',
                         'status': st, 'detail': detail, 'witness': wit, 'where': where, 'seconds': round(dt, 2), 'key': f'{CTX.specs[i].target}/{CTX.specs[i].name.split("#")[0]}'})
        for x in rs:
            i, res, err = x.get()
            rrows.append((RULES[i], res, err))
    known = known_lines(a.prop)
    violations, knowns = [], []
    for r in rows:
        if r['status'] == 'known':
            if r['key'] in known:
                knowns.append((r['key'], known[r['key']]))
            elif r['key'] not in known_lines(None):      # recorded for the property that it breaks

                violations.append({'rule': 'equals its specification', 'where': r['where'], 'detail': f'{r["target"]}: {r["detail"]}', 'specification': r['spec'], 'witness': r['witness']})
        elif r['status'] == 'violated':
            violations.append({'rule': 'equals its specification', 'where': r['where'], 'detail': f'{r["target"]}: {r["detail"]}', 'specification': r['spec'], 'witness': r['witness']})
    for rule, res, err in rrows:
        if res is None:
            continue
        for f in res.findings:
            if f.key in known:
                knowns.append((f.key, known[f.key]))
            else:
                violations.append({'rule': rule.title, 'where': f.where, 'detail': f.detail, 'key': f.key, 'witness': f.witness})
    for k, what in sorted(set(knowns)):
        print(f'KNOWN-FINDING: property={a.prop} {k} {what}')
    for r in rows:
        if r['status'] in ('undecided', 'missing'):
            print(f'undecided: {r["target"]}: {r["detail"]}')
    for rule, res, err in rrows:
        if err:
            print(f'undecided: rule "{rule.title}": {err}')
    if violations:
        path = write_replay(a.prop, violations)
        for v in violations:
            print(f'  {v["where"]}: {v["detail"]} [{v["rule"]}]')
            if v.get('witness'):
                print('    ' + json.dumps(v['witness'], default=str)[:900])
            print(f'VIOLATION property={a.prop} replay={path}')
    write_evidence(a, seed, t0, rows, rrows, len(violations), len(knowns))
    n = len(rows) + sum(r.obligations for _, r, _ in rrows if r)
    print(f'{a.prop}: {n} obligations, {len(violations)} violations, {time.time() - t0:.1f} s')
    return 1 if violations else 0


def write_replay(prop, violations):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    path = os.path.join(HERE, 'evidence', f'{prop}.violations.json')
    json.dump(violations, open(path, 'w'), indent=1, default=str)
    return path


def write_evidence(a, seed, t0, rows, rrows, nviol, nknown=0):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    count = lambda s: sum(1 for r in rows if r['status'] == s)
    exact = sum(1 for r in rows if r['status'] == 'holds' and r['detail'] == 'identical normal forms')
    cov = {
        'explanation': 'Each specification obligation compares the normal form (gated value numbering) of a function of /repo with the normal form of '
                       'its specification; identical forms are equal for every input, different forms are compared by random interpretation of the '
                       'terms and reported only when a valuation separates them. Each rule obligation is one construct the rule inspected.',
        'obligations': len(rows) + sum(r.obligations for _, r, _ in rrows if r),
        'discharged': count('holds') + sum(r.discharged for _, r, _ in rrows if r),
        'specifications': len(rows),
        'identical_normal_forms': exact,
        'equal_under_random_interpretation': count('holds') - exact,
        'undecided': [f'{r["target"]}: {r["detail"]}' for r in rows if r['status'] == 'undecided'] + [f'{rule.title}: {err}' for rule, _, err in rrows if err]
        + [u for _, r, _ in rrows if r for u in r.undecided][:40],
        'missing_anchors': [r['target'] for r in rows if r['status'] == 'missing'],
        'known_findings': nknown,
        'functions_analysed': sorted({r['target'] for r in rows if r['status'] != 'missing'}),
        'rules': [{'rule': rule.title, 'obligations': r.obligations if r else 0, 'discharged': r.discharged if r else 0, 'findings': len(r.findings) if r else 0}
                  for rule, r, _ in rrows],
        'samples': [f'{r["where"]}: {r["target"]} vs {r["spec"]}: {r["status"]} ({r["detail"]})' for r in rows[:5]] + [s for _, r, _ in rrows if r for s in r.samples][:8],
    }
    ev = {'property': a.prop, 'tier': a.tier, 'seed': seed, 'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - t0, 2), 'violations': nviol,
          'assumptions': ['the summariser models the Python subset used here faithfully (self-tested by selftest.py)',
                          'specification preconditions hold at the call sites (named tuples carry non-negative leg counts)']}
    with open(os.path.join(HERE, 'evidence', f'{a.prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == '__main__':
    sys.exit(main())
