"""One contract, one mode, in its own process.  Reads a JSON job on stdin and
writes a JSON result on the last line of stdout."""
import importlib
import json
import os
import random
import sys
import time
import traceback

VENV = '/opt/venv/lib/python3.12/site-packages'


def setup_path():
    sys.dont_write_bytecode = True
    if VENV not in sys.path:
        sys.path.insert(1, VENV)


def load(prop):
    import pyvc.ctx as ctx
    importlib.import_module('contracts.' + prop)
    return ctx.CONTRACTS[prop]


def run_symbolic(job):
    from pyvc import loader
    loader.install_symbolic()
    from pyvc import core, backend, ctx, algebra
    cs = load(job['prop'])
    c = cs[job['contract']]
    be = backend.Backend(timeout_ms=job.get('timeout_ms', 8000))
    t0 = time.time()
    e = core.Engine(be, max_paths=job.get('max_paths', c['max_paths']),
                    deadline=t0 + job.get('budget', 300))
    be.engine = e
    funcs = {}
    root = loader.REPO.rstrip('/') + '/'

    def prof(frame, event, arg):
        if event == 'call':
            co = frame.f_code
            if co.co_filename.startswith(root):
                k = (co.co_filename[len(root):], co.co_qualname)
                funcs[k] = funcs.get(k, 0) + 1
    out = {'errors': []}
    nruns = [0]

    def body():
        nruns[0] += 1
        cx = ctx.SymCtx(e, job['mode'])
        if nruns[0] <= 40 or nruns[0] % 10 == 0:
            sys.setprofile(prof)
        try:
            c['fn'](cx)
        except algebra.Unsupported:
            raise
        except (core.Restart, core.PathEnd):
            raise
        except RecursionError:

            if os.environ.get('PYVC_DEBUG'):
                sys.stderr.write(traceback.format_exc()[:6000])
            raise algebra.Unsupported('recursion limit')
        except Exception as ex:      # noqa
            sys.setprofile(None)
            # is this path feasible?
            facts = []
            for k in e.active:
                facts += e.leaves[k].facts
                facts.append(core.SymBool('<=', algebra.Poly.const(1).sub(
                    algebra.Poly.atom(e.leaves[k].n_atom))))
            res, how, model = be.prove(e, e.pc + facts, False)
            if res == 'proved':
                raise core.PathEnd()
            if len(out['errors']) < 30:
                out['errors'].append({
                    'exception': '%s: %s' % (type(ex).__name__, ex),
                    'trace': traceback.format_exc()[-1500:],
                    'model': model, 'notes': list(e.notes),
                    'path': [repr(x)[:200] for x in e.pc][:40]})
        finally:
            sys.setprofile(None)
    status = 'done'
    why = ''
    try:
        e.explore(body)
        left = sorted(e.inv_stated - e.inv_reached)
        if left:
            status, why = 'unsupported', 'loop not reached: %s' % (left[0],)
    except algebra.Unsupported as ex:
        status, why = 'unsupported', str(ex)
        tb = traceback.extract_tb(ex.__traceback__)
        fr = [f for f in tb if f.filename.startswith(root)]
        if fr:
            why += ' (at %s:%d)' % (fr[-1].filename[len(root):], fr[-1].lineno)
        if job.get('debug'):
            traceback.print_exc()
    except core.Restart:
        status, why = 'unsupported', 'restart'
    out.update(status=status, why=why, stats=e.stats, by_name=e.by_name,
               failed=e.failed[:20], n_failed=len(e.failed),
               unknown=e.unknown[:10], n_unknown=len(e.unknown),
               backend=be.stats, splits=getattr(e, 'splits', 0),
               functions=sorted('%s:%s' % k for k in funcs
                                if '<' not in k[1].split('.')[-1]),
               wall=time.time() - t0)
    return out


def forced_from(entry):
    """Concrete inputs suggested by a solver model."""
    from fractions import Fraction
    m = entry.get('model') or {}
    forced = {}
    maps = {}
    for k, v in m.items():
        if '.key' in k or '.val:' in k:
            leaf, _, field = k.partition('.')
            if m.get('#' + leaf) == '0':
                continue
            maps.setdefault(leaf, {})[field] = v
        elif '#' not in k and '[' not in k and '(' not in k:
            forced[k] = v
    bymap = {}
    for leaf, fs in maps.items():
        if 'key' in fs:
            for f, v in fs.items():
                if f.startswith('val:'):
                    bymap.setdefault(f[4:], []).append([fs['key'], v])
    for k, v in m.items():
        # name@t.val
        if '@' in k and k.endswith('.val'):
            n, t = k[:-4].rsplit('@', 1)
            bymap.setdefault(n, []).append([t, v])
    for n, pts in bymap.items():
        forced['map:' + n] = pts
    choices = {n: i for kind, n, i in entry.get('notes', [])
               if kind == 'choice'}
    return forced, choices


def run_concrete(job):
    from pyvc import loader
    loader.install_plain()
    from pyvc import ctx
    c = load(job['prop'])[job['contract']]
    t0 = time.time()
    deadline = t0 + job.get('budget', 60)
    n = {'trials': 0, 'rejected': 0, 'checks': 0}
    failures = []
    seen = set()
    samples = []

    def once(rng, forced, choices):
        cx = ctx.ConcreteCtx(rng, forced, choices)
        n['trials'] += 1
        try:
            c['fn'](cx)
            n['checks'] += cx.checks
            k = repr(sorted(cx.inputs.items(), key=lambda kv: kv[0]))
            if cx.checks and k not in seen:
                seen.add(k)
                if len(samples) < 3:
                    samples.append(cx.inputs)
            return None
        except ctx.Reject:
            n['rejected'] += 1
            return None
        except ctx.Failed as f:
            return {'obligation': f.name, 'detail': f.detail,
                    'inputs': cx.inputs}
        except RecursionError as ex:
            return {'obligation': 'runs without error',
                    'detail': 'RecursionError', 'inputs': cx.inputs}
        except Exception as ex:      # noqa
            return {'obligation': 'runs without error',
                    'detail': '%s: %s' % (type(ex).__name__, ex),
                    'trace': traceback.format_exc()[-1200:],
                    'inputs': cx.inputs}
    seed = job.get('seed', 1)
    for i, entry in enumerate(job.get('candidates', [])):
        forced, choices = forced_from(entry)
        for j in range(40):
            if time.time() > deadline:
                break
            rng = random.Random('%s/%s/%s/%s' % (
                seed, job['contract'], i, j))
            fc = dict(forced)
            if j % 4 == 1:
                fc = {k: v for k, v in fc.items()
                      if not k.startswith('map:')}
            elif j % 4 == 2:
                fc = {k: v for k, v in fc.items() if rng.random() < 0.5}
            elif j % 4 == 3:
                fc = {}
            f = once(rng, fc, choices)
            if f:
                f['from_candidate'] = True
                failures.append(f)
                break
        if failures:
            break
    j = 0
    while not failures and j < job.get('trials', c['trials']) and \
            time.time() < deadline:
        rng = random.Random('%s/%s/r%s' % (seed, job['contract'], j))
        j += 1
        f = once(rng, None, None)
        if f:
            failures.append(f)
    return dict(n, failures=failures, distinct=len(seen), samples=samples,
                wall=time.time() - t0)


def run_inputs(job):
    """Re-run one recorded failing input (replay file)."""
    from pyvc import loader
    loader.install_plain()
    from pyvc import ctx
    c = load(job['prop'])[job['contract']]
    inputs = job['inputs']
    forced, choices = {}, {}
    for k, v in inputs.items():
        if k.startswith('choice:'):
            choices[k[7:]] = v
        else:
            forced[k] = v
    cx = ctx.ConcreteCtx(random.Random(0), forced, choices)
    try:
        c['fn'](cx)
    except ctx.Failed as f:
        return {'reproduced': True, 'detail': str(f)}
    except ctx.Reject as f:
        return {'reproduced': False, 'detail': 'rejected %s' % f}
    except Exception as ex:      # noqa
        return {'reproduced': True,
                'detail': '%s: %s' % (type(ex).__name__, ex)}
    return {'reproduced': False, 'detail': 'holds'}


def run_list(job):
    from pyvc import loader
    loader.install_plain()
    from pyvc import ctx
    cs = load(job['prop'])
    mod = sys.modules['contracts.' + job['prop']]
    return {'contracts': [
        {k: c[k] for k in ('name', 'kinds', 'trials', 'note', 'budget',
                           'timeout_ms')} for c in cs.values()],
        'findings': [{'id': f['id'], 'what': f['what']}
                     for f in ctx.FINDINGS.get(job['prop'], {}).values()],
        'trusted': getattr(mod, 'TRUSTED', []),
        'assumptions': getattr(mod, 'ASSUMPTIONS', [])}


def run_finding(job):
    from pyvc import loader
    loader.install_plain()
    from pyvc import ctx
    load(job['prop'])
    f = ctx.FINDINGS[job['prop']][job['contract']]
    cx = ctx.ConcreteCtx(random.Random(0))
    try:
        f['fn'](cx)
    except Exception as ex:      # noqa
        return {'fails': True, 'detail': '%s: %s' % (
            type(ex).__name__, ex)}
    return {'fails': False}


def main():
    setup_path()
    job = json.load(sys.stdin)
    sys.setrecursionlimit(5000)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if here not in sys.path:
        sys.path.insert(0, here)
    try:
        if job['mode'] == 'list':
            r = run_list(job)
        elif job['mode'] == 'finding':
            r = run_finding(job)
        elif job['mode'] == 'concrete':
            r = run_concrete(job)
        elif job['mode'] == 'replay':
            r = run_inputs(job)
        else:
            r = run_symbolic(job)
        r['ok'] = True
    except BaseException:      # noqa
        r = {'ok': False, 'crash': traceback.format_exc()[-3000:]}
    sys.stdout.write('\n' + json.dumps(r, default=str) + '\n')


if __name__ == '__main__':
    main()
