"""python3-vt -m pyvc.check P01 [--thorough]: decide one property."""
import concurrent.futures
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# (results on a copy of the code may be put elsewhere)
OUT = os.environ.get('PYVC_OUT', HERE)
PY = os.environ.get('VERIF_PY', 'python3-vt')
MODES = {'unbounded': 'all collections of any size',
         'bounded': 'collections of the stated sizes'}

TRUSTED = [
    'pyvc (verification-condition generator: symbolic execution of the real '
    'functions with the loop rule for symbolic collections, see DESIGN.md)',
    'mechanical rewriting of /repo sources at import (for, comprehensions, '
    'dict displays, / and ** and float literals; nothing dropped)',
    'machine arithmetic treated as mathematical reals (no rounding, no '
    'overflow)',
    'z3 and cvc5; pyvc.algebra normal forms',
    'CPython semantics of the statements not rewritten',
]


def run_job(job, limit):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1',
               PYTHONWARNINGS='ignore',
               PYTHONHASHSEED=str(job.get('hashseed', 0)))
    t = time.time()
    try:
        p = subprocess.run(
            [PY, '-m', 'pyvc.worker'], input=json.dumps(job), text=True,
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=HERE,
            env=env, timeout=limit)
        out = p.stdout.strip().splitlines()
        r = json.loads(out[-1]) if out else {
            'ok': False, 'crash': 'no output: ' + p.stderr[-500:]}
    except subprocess.TimeoutExpired:
        r = {'ok': False, 'crash': 'time limit of %d s' % limit}
    except ValueError:
        r = {'ok': False, 'crash': 'unreadable result'}
    r['wall_total'] = time.time() - t
    return r


def clean(r):
    return bool(r.get('ok') and r.get('status') == 'done' and
                not r['errors'] and not r['n_failed'] and
                not r['n_unknown'] and r['stats']['obligations'] > 0)


def why_not(r):
    if not r.get('ok'):
        return r.get('crash', 'crash').strip().splitlines()[-1][:300]
    if r['status'] != 'done':
        return r['why'][:300]
    if r['errors']:
        return 'error on a path: %s' % r['errors'][0]['exception'][:200]
    if r['n_failed']:
        return 'refuted: %s' % r['failed'][0]['obligation']
    if r['n_unknown']:
        return 'not decided: %s' % r['unknown'][0]['obligation']
    if not r['stats']['obligations']:
        return 'no obligation generated'
    return ''


def candidates(*results):
    out = []
    for r in results:
        if r and r.get('ok'):
            for key in ('failed', 'unknown', 'errors'):
                out += [{'model': e.get('model'), 'notes': e.get('notes')}
                        for e in r.get(key, [])[:6]]
    return out[:16]


def decide(prop, c, tier, seed, deadline):
    """Everything about one contract."""
    name, kinds = c['name'], c['kinds']
    thorough = tier == 'thorough'
    res = {'contract': name, 'note': c['note'], 'kinds': kinds}
    base = {'prop': prop, 'contract': name, 'seed': seed, 'kind': kinds[0]}
    sym = {}

    def left():
        return deadline - time.time()
    conc = None
    failure = None
    trials = c['trials'] * (10 if thorough else 1)
    b = 40 if not thorough else 300

    def evaluate(cands, trials):
        """The contract on the unmodified code: replays the verifier's
        counterexamples, and cross-checks the verifier itself."""
        nonlocal conc, failure
        if left() < 10:
            return
        r = run_job(dict(base, mode='concrete', trials=trials,
                         candidates=cands,
                         budget=min(b, max(5, left() - 10))), b + 30)
        if not r.get('ok') and left() > 30:
            r = run_job(dict(base, mode='concrete', trials=20,
                             candidates=[], budget=10), 30)
        if r.get('failures'):
            failure = r['failures'][0]
        if conc is None or failure or not conc.get('ok'):
            conc = r
    for mode in kinds:
        if mode not in MODES:
            continue
        budget = min(c['budget'] * (4 if thorough else 1),
                     max(5, left() - 60))
        if left() < 40:
            sym[mode] = {'ok': False, 'crash': 'no time left'}
            continue
        sym[mode] = run_job(dict(
            base, mode=mode, budget=budget,
            timeout_ms=c['timeout_ms'] * (3 if thorough else 1)),
            budget + 60)
        if clean(sym[mode]):
            break
        evaluate(candidates(sym[mode]), trials)
        if failure:
            break
    if conc is None:
        evaluate([], trials)
    res['sym'] = sym
    res['concrete'] = conc
    good = [m for m in sym if clean(sym[m])]
    if failure:
        res['verdict'] = 'violated'
        res['failure'] = failure
        entry = None
        for r in sym.values():
            if r.get('ok') and r.get('failed'):
                entry = r['failed'][0]
        res['entry'] = entry
    elif good:
        res['verdict'] = good[0]
    else:
        exact = []
        for r in sym.values():
            if r.get('ok') and r.get('status') == 'done':
                # the last mode tried decides; a refutation counts only
                # when its model interprets every term
                exact = [e for e in r['failed'] if e.get('exact')]
        if exact:
            res['verdict'] = 'refuted'
            res['entry'] = exact[0]
        else:
            res['verdict'] = 'evaluated' if conc and conc.get('ok') and \
                conc.get('trials') else 'undecided'
    res['why_not'] = {m: why_not(r) for m, r in sym.items() if not clean(r)}
    return res


def main(argv):
    t0 = time.time()
    prop = argv[0]
    tier = 'thorough' if '--thorough' in argv else os.environ.get(
        'VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    limit = 780 if tier == 'quick' else 3 * 3600
    deadline = t0 + limit
    only = [a for a in argv[1:] if not a.startswith('--')]
    listing = run_job({'mode': 'list', 'prop': prop}, 120)
    if not listing.get('ok'):
        # the tree does not even import: nothing can be decided
        print('cannot load the checked tree or the contracts:')
        print(listing.get('crash', '')[-2000:])
        return 2
    cs = [c for c in listing['contracts']
          if not only or c['name'] in only]
    cs.sort(key=lambda c: -c['budget'])
    results = []
    with concurrent.futures.ThreadPoolExecutor(
            max_workers=os.cpu_count() or 4) as ex:
        futs = [ex.submit(decide, prop, c, tier, seed, deadline)
                for c in cs]
        finds = [ex.submit(run_job, {'mode': 'finding', 'prop': prop,
                                     'contract': f['id'], 'seed': seed}, 120)
                 for f in listing['findings']] if not only else []
        results = [f.result() for f in futs]
        probes = [f.result() for f in finds]
    results.sort(key=lambda r: r['contract'])
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))
    listed = {f['id'] for f in known['findings']
              if f['property'] == prop}
    violations = []
    for f, p in zip(listing['findings'], probes):
        if p.get('fails'):
            if f['id'] in listed:
                print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
            else:
                path = write_replay(prop, 'finding-' + f['id'], {
                    'finding': f['id'], 'what': f['what'],
                    'detail': p.get('detail')})
                violations.append((path, ''))
    for r in results:
        if r['verdict'] == 'violated':
            path = write_replay(prop, r['contract'], {
                'contract': r['contract'],
                'obligation': r['failure']['obligation'],
                'detail': r['failure'].get('detail'),
                'trace': r['failure'].get('trace'),
                'inputs': r['failure']['inputs'],
                'verifier': r['entry']})
            violations.append((path, ''))
            print('%s: %s fails: %s' % (
                r['contract'], r['failure']['obligation'],
                str(r['failure'].get('detail'))[:300]))
        elif r['verdict'] == 'refuted':
            path = write_replay(prop, r['contract'], {
                'contract': r['contract'],
                'obligation': r['entry']['obligation'],
                'inputs': None, 'verifier': r['entry'],
                'note': 'no failing input found on the real code'})
            violations.append((path, ' no-failing-input-found'))
            print('%s: obligation "%s" is refuted by the solver' % (
                r['contract'], r['entry']['obligation']))
    total = summarize(prop, tier, seed, results, listing, violations,
                      time.time() - t0, partial=bool(only))
    for r in results:
        s = r['sym'].get(r['verdict']) if r['verdict'] in MODES else None
        print('  %-50s %-10s %s' % (
            r['contract'][:50], r['verdict'],
            '%d obligations, %d paths, %.1f s' % (
                s['stats']['obligations'], s['stats']['paths'],
                s['wall']) if s else '; '.join(
                    '%s: %s' % kv for kv in r['why_not'].items())[:200]))
    print('%s: %d contracts, %d/%d obligations discharged, %.1f s' % (
        prop, len(results), total['discharged'], total['obligations'],
        time.time() - t0))
    if violations:
        for path, extra in violations:
            print('VIOLATION property=%s replay=%s%s' % (prop, path, extra))
        return 1
    if not total['obligations'] and not total['evaluations']:
        print('nothing was generated: the check decided nothing')
        return 2
    return 0


def write_replay(prop, name, data):
    d = os.path.join(OUT, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (prop, name.replace('/', '_')))
    data = dict(data, property=prop, rerun='cd /verif && python3-vt -m '
                'pyvc.replay %s' % path)
    with open(path, 'w') as f:
        json.dump(data, f, indent=1, default=str)
    return path


def summarize(prop, tier, seed, results, listing, violations, wall,
              partial=False):
    obligations = discharged = evaluations = distinct = paths = 0
    by = {}
    functions = set()
    solver = {'z3_calls': 0, 'z3_s': 0.0, 'cvc5_calls': 0, 'cvc5_s': 0.0}
    proved, bounded, evaluated, undecided = [], [], [], []
    samples = []
    for r in results:
        v = r['verdict']
        {'unbounded': proved, 'bounded': bounded}.get(
            v, evaluated if v == 'evaluated' else undecided).append(
                {'contract': r['contract'], 'what': r['note'],
                 'why': r['why_not']} if v not in ('unbounded',)
                else r['contract'])
        for m, s in r['sym'].items():
            if not s.get('ok'):
                continue
            for k in solver:
                solver[k] += s['backend'].get(k, 0)
            if m == v or (v not in MODES and m == list(r['sym'])[-1]):
                obligations += s['stats']['obligations']
                discharged += s['stats']['discharged']
                paths += s['stats']['paths']
                functions.update(s['functions'])
                for k, n in s['stats'].items():
                    if k.startswith('by '):
                        by[k[3:]] = by.get(k[3:], 0) + n
        c = r['concrete']
        if c and c.get('ok'):
            evaluations += c['trials']
            distinct += c['distinct']
            if c.get('samples') and len(samples) < 4:
                samples.append({'contract': r['contract'],
                                'inputs': c['samples'][0]})
    known = level_of(prop)
    total = {'obligations': obligations, 'discharged': discharged,
             'evaluations': evaluations}
    cov = {
        'obligations': obligations, 'discharged': discharged,
        'checker_cmd': 'cd /verif && python3-vt -m pyvc.check %s' % prop,
        'trusted_base': TRUSTED + listing.get('trusted', []),
        'paths': paths, 'discharged_by': by,
        'solver': {k: round(x, 3) for k, x in solver.items()},
        'functions_under_contract': sorted(functions),
        'contracts_proved_without_bound': proved,
        'contracts_bounded': bounded,
        'contracts_evaluated_only': evaluated,
        'contracts_not_decided': undecided,
        'evaluations': evaluations, 'distinct_nontrivial': distinct,
        'rule': 'Cross-check of the verifier: each contract is also run on '
                'the unmodified code with random inputs meeting its '
                'precondition; non-trivial means the inputs were accepted '
                'by the precondition and at least one postcondition was '
                'evaluated, distinct by input values.',
        'samples': samples,
        'explanation': 'Contracts on the real functions; the verifier '
                       'executes the code of /repo symbolically on every '
                       'path and discharges each postcondition by '
                       'normalisation or SMT.  %d contracts hold for '
                       'collections of any size, %d for the stated sizes '
                       '(bounded), %d were only evaluated on inputs.' % (
                           len(proved), len(bounded), len(evaluated)),
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': known,
          'coverage': cov, 'assumptions': listing.get('assumptions', []) + [
              'machine arithmetic treated as mathematical reals'],
          'wall_s': round(wall, 2), 'violations': len(violations)}
    if not partial:
        d = os.path.join(OUT, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    return total


def level_of(prop):
    try:
        m = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
        for c in m['checks']:
            if c['property'] == prop:
                return c['level']
    except (OSError, ValueError, KeyError):
        pass
    return 'other'


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
