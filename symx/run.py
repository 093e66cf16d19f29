"""Decides one property:  run.py PROPERTY [--tier quick|thorough]"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import resource
import subprocess
import sys
import time
import traceback
import warnings
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PY = sys.executable
warnings.simplefilter('ignore')


class Server:
    """the real code in a separate process (which forks for every request)"""
    def __init__(self):
        self.p = None

    def start(self):
        self.p = subprocess.Popen([PY, os.path.join(HERE, 'symx', 'replay.py'), '--serve'], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        return self

    def ask(self, req):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(req) + '\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            line = ''
        if not line:
            self.p = None
            return {'result': 'error', 'what': 'replay process ended'}
        return json.loads(line)

    def close(self):
        if self.p is not None:
            self.p.kill()


SERVERS, FREE = [], None


def encode(inputs):
    return {k: [kind, str(v) if isinstance(v, Fraction) else v] for k, (kind, v) in inputs.items()}


def work(args):
    prop, index, tier, wall, seed = args
    from symx import registry, explore, loader, second
    h, params = registry.jobs(prop, tier)[index]
    slot = FREE.get()
    srv = SERVERS[slot]
    loader.FUNCTIONS.clear()
    sys.monitoring.restart_events()

    def req(inp):
        return {'prop': prop, 'harness': h.name, 'params': params, 'inputs': encode(inp)}

    def verify(inp):
        return srv.ask(req(inp))['result'] == 'violated'

    out = {'harness': h.name, 'params': params, 'runs': [], 'cex': [], 'validated': 0, 'validation_failures': [],
           'functions': [], 'models': [], 'reached': {}, 'bounds': h.bounds_doc, 'outside': h.outside}
    t0 = time.time()
    try:
        modes = ['A', 'B', 'C'] if h.mode == 'A' else ['B', 'C'] if h.mode == 'B' else ['C']
        for mode in modes:
            left = wall - (time.time() - t0)
            if left < 5:
                break
            rounds = 1 if mode != 'C' else 4
            for rnd in range(rounds):
                ex = explore.Explorer(h.fn, params, mode=mode, wall=left / rounds if mode == 'C' else
                                      left * 0.8, reset=loader.reset, seed=seed,
                                      verify=verify, max_cex=2, second=second.make() if tier == 'thorough' else None,
                                      timeout_ms=8000 if tier == 'quick' else 20000,
                                      max_models=6 if tier == 'quick' else 40)
                ex.round = rnd
                ex.run()
                out['runs'].append({'mode': mode, 'complete': ex.complete, **ex.stats,
                                    'errors': ex.errors[:5], 'n_errors': len(ex.errors)})
                for c in ex.cex:
                    out['cex'].append({'what': c.what, 'inputs': encode(c.inputs), 'mode': mode})
                for k, v in ex.reached.items():
                    out['reached'][k] = out['reached'].get(k, 0) + v
                if ex.cex:
                    break
                if mode == 'A' or not out['models']:
                    out['models'] = [encode(m) for m in ex.models]
            if out['cex'] or not ex.errors:
                break
        # the real code on the models of explored paths
        if not out['cex']:
            for m in out['models']:
                if time.time() - t0 > wall + 60:
                    break
                r = srv.ask({'prop': prop, 'harness': h.name, 'params': params, 'inputs': m})
                if r['result'] == 'ok':
                    out['validated'] += 1
                elif r['result'] == 'violated':
                    out['cex'].append({'what': 'on the model of a path: ' + r['what'], 'inputs': m, 'mode': 'model'})
                    break
                else:
                    out['validation_failures'].append(r)
    except Exception as e:
        out['crash'] = f'{e!r}\n{traceback.format_exc()}'
    finally:
        FREE.put(slot)
    out['functions'] = sorted(loader.FUNCTIONS)
    out['wall_s'] = round(time.time() - t0, 2)
    return out


def load_known(prop):
    path = os.path.join(HERE, 'KNOWN_FINDINGS')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding:'):
                f = dict(x.split('=', 1) for x in line[8:].split(' | ')[0].split() if '=' in x)
                if f.get('property') == prop:
                    out.append((f, line.split(' | ', 1)[1] if ' | ' in line else ''))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    seed = int(os.environ.get('VERIF_SEED', '1'))
    global FREE
    t0 = time.time()
    os.environ['PYTHONHASHSEED'] = os.environ.get('PYTHONHASHSEED', '0')
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    os.environ['SYMX_PROP'] = prop
    SERVERS.extend(Server().start() for _ in range(8))
    FREE = mp.get_context('fork').SimpleQueue()
    for i in range(8):
        FREE.put(i)
    from symx import loader
    loader.install()
    from symx import registry
    importlib.import_module('harness.' + prop.lower())
    loader.snapshot()
    jobs = registry.jobs(prop, tier)
    total = float(os.environ.get('SYMX_WALL', 700 if tier == 'quick' else 3000))
    n = min(8, max(1, len(jobs)))
    waves = -(-len(jobs) // n)
    wall = min(total, max(60.0, total / waves * 1.5))
    order = [i for i in range(len(jobs)) if only is None or jobs[i][0].name == only]
    args = [(prop, i, tier, wall, seed) for i in order]
    ctx = mp.get_context('fork')
    results = []
    deadline = t0 + total + 100
    with ctx.Pool(n, maxtasksperchild=1) as pool:
        pending = [(a, pool.apply_async(work, (a,))) for a in args]
        stopped = False
        while pending:
            rest = []
            for a, p in pending:
                if p.ready():
                    try:
                        results.append(p.get())
                    except Exception as e:
                        results.append({'harness': jobs[a[1]][0].name, 'params': jobs[a[1]][1], 'crash': repr(e)})
                else:
                    rest.append((a, p))
            pending = rest
            if any(r.get('cex') for r in results) and not stopped:
                deadline = min(deadline, time.time() + 5)
                stopped = True
            if time.time() > deadline:
                for a, p in pending:
                    results.append({'harness': jobs[a[1]][0].name, 'params': jobs[a[1]][1], 'timeout': True})
                pool.terminate()
                break
            time.sleep(0.05)
    for srv in SERVERS:
        srv.close()
    code = report(prop, tier, seed, results, time.time() - t0, len(jobs), only)
    sys.stdout.flush()
    return code


def report(prop, tier, seed, results, wall, njobs, only):
    verbose = '-v' in sys.argv
    violations = []
    known = load_known(prop)
    known_hits = {}
    for r in results:
        for c in r.get('cex', []) if len(violations) < 3 else []:
            rep = {'prop': prop, 'harness': r['harness'], 'params': r['params'], 'inputs': c['inputs'],
                   'what': c['what']}
            key = hashlib.sha256(json.dumps(rep, sort_keys=True).encode()).hexdigest()[:12]
            d = os.path.join(HERE, 'evidence', 'replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f'{prop}-{key}.json')
            with open(path, 'w') as f:
                json.dump(rep, f, indent=1)
            # confirmation in a fresh process on the code as it is
            ok = subprocess.run([PY, os.path.join(HERE, 'symx', 'replay.py'), path], stdout=subprocess.PIPE,
                                stderr=subprocess.DEVNULL, text=True, timeout=120)
            if ok.returncode != 1:
                r.setdefault('validation_failures', []).append({'result': 'not confirmed', 'what': c['what']})
                continue
            hit = None
            for f, txt in known:
                if f.get('harness') == r['harness'] and f.get('check', '') in c['what'].replace(' ', '_'):
                    hit = txt
            if hit is not None:
                known_hits[hit] = path
                continue
            violations.append((path, c, ok.stdout.strip().splitlines()[-1]))
            if len(violations) >= 3:
                break
    runs = [x for r in results for x in r.get('runs', [])]
    tot = lambda k: sum(x.get(k, 0) for x in runs)   # noqa: E731
    funcs = sorted({f for r in results for f in r.get('functions', []) if '<module>' not in f})
    modes = {}
    for r in results:
        if r.get('runs'):
            modes[f"{r['harness']}{r['params'] or ''}"] = ''.join(x['mode'] for x in r['runs'])
    samples = []
    for r in results:
        for m in r.get('models', [])[:2]:
            if len(samples) < 6:
                samples.append({'harness': r['harness'], 'params': str(r['params']), 'path_model': {
                    k: v[1] for k, v in m.items()}})
    incomplete = [f"{r['harness']}{r['params'] or ''}" for r in results
                  if r.get('timeout') or r.get('crash') or not any(x['complete'] and not x['n_errors'] and x['mode'] != 'C'
                                                                   and not x['concretized'] for x in r.get('runs', []))]
    vac = [f"{r['harness']}{r['params'] or ''}" for r in results if r.get('runs') and not r.get('reached')]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'wall_s': round(wall, 2), 'violations': len(violations),
        'coverage': {
            'states': tot('paths'), 'transitions': tot('branches'),
            'traces_validated_against_impl': sum(r.get('validated', 0) for r in results),
            'samples': samples or [{'harness': r['harness'], 'params': str(r['params'])} for r in results[:3]],
            'meaning': 'states = execution paths of the real code explored symbolically; transitions = branch '
                       'conditions decided by the solver; traces = path models replayed on the uninstrumented code',
            'properties_stated_on_paths': tot('checks'), 'property_queries_decided': tot('checks_decided'),
            'property_queries_without_verdict': tot('checks_unknown'),
            'solver_queries': tot('queries'), 'sat': tot('sat'), 'unsat': tot('unsat'), 'unknown': tot('unknown'),
            'solver_s': round(tot('solver_s'), 2), 'second_solver_agreements': tot('second'),
            'second_solver_disagreements': tot('second_disagree'),
            'inputs_fixed_to_model_values': tot('concretized'),
            'functions_encoded': funcs,
            'harnesses': sorted({r['harness'] for r in results}), 'jobs': njobs,
            'bounds': sorted({f"{r['harness']}: {r.get('bounds')}" for r in results if r.get('bounds')}),
            'outside_the_bounds': sorted({r['outside'] for r in results if r.get('outside')}),
            'modes': modes, 'incomplete_jobs': incomplete, 'vacuous_jobs': vac,
            'property_reached_on_paths': {k: sum(r.get('reached', {}).get(k, 0) for r in results)
                                          for r in results for k in r.get('reached', {})},
            'notes': [str(e) for r in results for x in r.get('runs', []) for e in x['errors']][:20] +
                     [str(v) for r in results for v in r.get('validation_failures', [])][:10] +
                     [r['crash'][-600:] for r in results if r.get('crash')],
            'exhaustive': not incomplete,
        },
        'assumptions': [
            'floats are read as exact real numbers (shortest decimal, or the simple rational or square root within '
            '1e-15); rounding of float arithmetic is outside the claim',
            'numpy, pint, networkx, pandas and the Python runtime are executed, not encoded',
            'the angular-momentum library is represented by its closed form on symbolic arguments and is called on '
            'concrete ones',
        ],
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if only is None:
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    c = ev['coverage']
    print(f"{prop} {tier}: {c['states']} paths, {c['transitions']} branches, {c['solver_queries']} queries "
          f"({c['solver_s']} s), {c['properties_stated_on_paths']} property instances, "
          f"{c['traces_validated_against_impl']} replays, {round(wall, 1)} s"
          + (f", incomplete: {len(incomplete)} such as {incomplete[:3]}" if incomplete else ''))
    if verbose:
        by = {}
        for r in sorted(results, key=lambda r: -(r.get('wall_s') or 1e9)):
            by.setdefault(r['harness'], []).append(r.get('wall_s') or 0)
            bad = r.get('timeout') or r.get('crash') or r.get('validation_failures') or \
                not all(x['complete'] and not x['errors'] for x in r.get('runs', []))
            if len(by[r['harness']]) > 2 and not (bad and len(by[r['harness']]) < 8):
                continue
            print('  ', r['harness'], {k: v for k, v in r['params'].items()}, r.get('wall_s'), [
                {k: x[k] for k in ('mode', 'complete', 'paths', 'aborted', 'branches', 'checks', 'queries', 'unknown',
                                   'branch_unknown', 'concretized') if x[k] not in (0, True)} for x in r.get('runs', [])])
            for x in r.get('runs', []):
                for e in x['errors'][:3]:
                    print('      error', str(e)[:400])
            for v in r.get('validation_failures', []):
                print('      validation', v)
            if r.get('crash'):
                print('      crash', r['crash'])
        print('   CPU by harness', {k: (len(v), round(sum(v))) for k, v in by.items()})
    for txt in known_hits:
        print(f'KNOWN-FINDING: property={prop} {txt}')
    for path, cx, line in violations:
        print(f'VIOLATION property={prop} replay={path}')
        print(f'  {cx["what"]}')
        print(f'  {line}')
    if violations:
        return 1
    if vac and not incomplete:
        print('error: vacuous harness', vac)
        return 2
    if c['properties_stated_on_paths'] == 0:
        print('error: nothing was checked')
        return 2
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
