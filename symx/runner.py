"""Runs the cases of one property in parallel worker processes, confirms each
counterexample on the unpatched code, and writes the evidence file.

exit 0  every obligation discharged (known findings listed)
exit 1  a confirmed violation:  VIOLATION property=<id> replay=<path>
exit 2  inconclusive or broken (never reported as success)
"""
import argparse
import importlib
import json
import multiprocessing
import os
import random
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('SYMX_REPO', '/repo')

SMT_TRUSTED = ['z3 (z3-new)', 'cvc5 (fallback for hard nonlinear queries)',
               'symx: symbolic numbers, normal form, encodings (/verif/symx)',
               'PyPy interpreter executing the repository source']


def setup_path():
    for p in (ROOT, REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    sys.setrecursionlimit(10000)
    import warnings
    warnings.simplefilter('ignore')


def load(pid):
    mod = importlib.import_module('props.' + pid.lower())
    import pysnobal
    where = os.path.abspath(pysnobal.__file__)
    if not where.startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError('pysnobal imported from %s' % where)
    return mod


class Case(object):
    def __init__(self, name, fn, opts, tier):
        self.name = name
        self.fn = fn
        self.opts = opts
        self.tier = tier


def json_safe(o):
    if isinstance(o, dict):
        return {str(k): json_safe(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [json_safe(x) for x in o]
    if isinstance(o, (str, int, float, bool, type(None))):
        return o
    return repr(o)


# ------------------------------------------------------------------- worker
def work(pid, mod, case, budget, seed, conn):
    out = {'case': case.name}
    t0 = time.time()
    try:
        from symx import core, shims, smt
        core.trace_functions(REPO)
        pt = shims.Patcher()
        pt.install()
        eng = core.Engine(case.name, case.fn, case.opts, pt,
                          time.time() + budget, random.Random(seed))
        eng.run()
        eng.reach_by_sampling()
        out.update({
            'stats': eng.stats, 'labels': eng.labels,
            'witnessed': sorted(eng.witnessed),
            'violations': [(v.label, v.values, v.choices, v.detail)
                           for v in eng.violations],
            'findings': [(k, v.label, v.values, v.choices, v.detail)
                         for k, v in sorted(eng.findings.items())],
            'inconclusive': eng.inconclusive[:8],
            'samples': eng.samples, 'smt': dict(smt.STATS),
            'functions': core.traced_functions()})
    except BaseException as e:
        out['crash'] = '%s: %s\n%s' % (type(e).__name__, e,
                                       traceback.format_exc()[-2500:])
    out['wall'] = time.time() - t0
    conn.send(json.dumps(json_safe(out)))
    conn.close()
    os._exit(0)


def run_cases(pid, mod, cases, budget, seed, jobs):
    ctx = multiprocessing.get_context('fork')
    todo = sorted(cases, key=lambda c: -c.opts.get('cost', 1))
    running = []
    results = []
    hard = time.time() + budget + 60
    while todo or running:
        if time.time() > hard:
            results += [{'case': c.name, 'crash': 'not started in time'}
                        for c in todo]
            todo = []
        while todo and len(running) < jobs:
            c = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(
                pid, mod, c, min(budget, c.opts.get('budget', budget)),
                seed, b))
            p.start()
            b.close()
            running.append((c, p, a))
        time.sleep(0.01)
        for item in list(running):
            c, p, a = item
            got = None
            if a.poll():
                try:
                    got = json.loads(a.recv())
                except EOFError:
                    got = {'case': c.name, 'crash': 'worker died'}
            elif not p.is_alive():
                got = {'case': c.name, 'crash': 'worker died'}
            elif time.time() > hard:
                p.kill()
                got = {'case': c.name, 'crash': 'worker over time'}
            if got is not None:
                results.append(got)
                if got.get('violations'):
                    # the others may finish, but not much later
                    hard = min(hard, time.time() + 60)
                running.remove(item)
                p.join(5)
    return results


# ------------------------------------------------------------------- replay
def replay(path):
    """run one counterexample on the unpatched code; prints a JSON line"""
    with open(path) as f:
        d = json.load(f)
    setup_path()
    mod = load(d['property'])
    from symx import core, shims
    shims.load_all()
    shims.Patcher(symbolic=False).take()
    case = [c for c in mod.CASES if c.name == d['case']][0]
    bad, obs, labels, err = core.run_concrete(
        case.fn, d['inputs'], d['choices'], case.opts, full=True)
    print('REPLAY ' + json.dumps(json_safe(
        {'bad': bad or [], 'err': err})))
    return 1 if bad else 0


def confirm(path):
    p = subprocess.run([sys.executable, '-B', os.path.abspath(__file__),
                        '--replay', path], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=300,
                       env=dict(os.environ, SYMX_REPO=REPO))
    for line in p.stdout.decode().splitlines():
        if line.startswith('REPLAY '):
            return json.loads(line[7:])
    return {'bad': [], 'err': p.stdout.decode()[-800:]}


def known(pid):
    """finding tag -> text, from the committed known-findings file"""
    out = {}
    try:
        with open(os.path.join(ROOT, 'known_findings.txt')) as f:
            for line in f:
                line = line.strip()
                if not line.startswith('known: '):
                    continue
                w = line.split(None, 3)
                kv = dict(x.split('=', 1) for x in w[1:3])
                if kv.get('property') == pid:
                    out[kv['id']] = w[3]
    except OSError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--case')
    ap.add_argument('--jobs', type=int,
                    default=max(2, min(8, os.cpu_count() or 4)))
    ap.add_argument('--budget', type=float)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    pid = a.pid.upper()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    setup_path()
    sys.modules['symx.runner'] = sys.modules['__main__']
    mod = load(pid)
    cases = [c for c in mod.CASES if tier == 'thorough' or c.tier == 'quick']
    if a.case:
        cases = [c for c in mod.CASES if a.case in c.name]
    budget = a.budget or (420.0 if tier == 'quick' else 3000.0)
    results = run_cases(pid, mod, cases, budget, seed, a.jobs)

    listed = known(pid)
    problems, violations, findings = [], [], {}
    rdir = os.path.join(ROOT, 'replays')
    os.makedirs(rdir, exist_ok=True)
    n = 0

    def save(case, label, values, choices, detail):
        path = os.path.join(rdir, '%s-%d-%d.json' % (pid, os.getpid(), n))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'case': case, 'label': label,
                       'inputs': values, 'choices': choices,
                       'detail': detail}, f, indent=1)
        return path

    for r in results:
        if 'crash' in r:
            problems.append('%s: %s' % (r['case'], r['crash']))
            continue
        for kind, text in r['inconclusive']:
            problems.append('%s: %s: %s' % (r['case'], kind, text))
        miss = [l for l in r['labels'] if l not in r['witnessed'] and
                not l.startswith('raises-')]
        r['unreached'] = sorted(miss)
        must = [c for c in cases if c.name == r['case']][0].opts.get('must')
        lack = [l for l in (must or ()) if l not in r['witnessed']]
        if r['labels'] and not r['violations'] and (
                lack or len(miss) == len(r['labels'])):
            problems.append('%s: vacuous, no witness for %s' % (
                r['case'], ', '.join(sorted(lack or miss))))
        if not r['labels'] and not r['violations']:
            problems.append('%s: vacuous, nothing checked' % r['case'])
        items = [(None,) + tuple(v) for v in r['violations']] + \
            [tuple(f) for f in r['findings']]
        for tag, label, values, choices, detail in items:
            if tag is not None and tag in findings:
                continue
            if tag is None and (
                    len(violations) >= 5 or
                    sum(v[0] == r['case'] for v in violations) >= 2):
                # enough of them confirmed to report
                continue
            n += 1
            if n > 40 and tag is None:
                problems.append('%s: %s: not replayed, after 40 others' % (
                    r['case'], label))
                continue
            path = save(r['case'], label, values, choices, detail)
            got = confirm(path)
            hits = [b for b in got['bad'] if b[0] == label] or got['bad']
            if not hits:
                problems.append(
                    '%s: counterexample for %s not reproduced on the real '
                    'code (%s)' % (r['case'], label, got['err']))
                os.remove(path)
                continue
            if tag is not None:
                findings[tag] = (label, path, detail)
            else:
                violations.append((r['case'], label, path, hits[0][1]))

    rc = 0
    for tag, (label, path, detail) in sorted(findings.items()):
        if tag in listed:
            print('KNOWN-FINDING: property=%s %s: %s' % (
                pid, tag, listed[tag]))
            os.remove(path)
        else:
            violations.append(('finding ' + tag, label, path, detail))
    for case, label, path, detail in violations:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  case %s, %s: %s' % (case, label, detail))
        rc = 1
    if problems and not rc:
        rc = 2
    for p in problems[:12]:
        print('INCONCLUSIVE property=%s %s' % (pid, p))

    evidence(pid, mod, tier, seed, cases, results, violations, findings,
             problems, time.time() - t0)
    if a.v or rc == 0:
        for r in sorted(results, key=lambda r: r['case']) if a.v else ():
            print('  %-28s %6.1fs %s' % (
                r['case'], r.get('wall', 0), ' '.join(
                    '%s=%s' % (k, v) for k, v in r.get('stats', {}).items()
                    if v)))
            if r.get('unreached'):
                print('      not reached: ' + ', '.join(r['unreached']))
        s = [r['stats'] for r in results if 'stats' in r]
        print('%s %s: %d cases, %d paths, %d obligations discharged of %d, '
              '%.1f s' % (pid, 'held' if rc == 0 else 'not decided',
                          len(results), sum(x['paths'] for x in s),
                          sum(x['discharged'] for x in s),
                          sum(x['obligations'] for x in s),
                          time.time() - t0))
    sys.stdout.flush()
    sys.exit(rc)


def evidence(pid, mod, tier, seed, cases, results, violations, findings,
             problems, wall):
    ok = [r for r in results if 'stats' in r]

    def tot(k):
        return sum(r['stats'][k] for r in ok)

    def smt(k):
        return sum(r['smt'][k] for r in ok)
    funcs = sorted(set(f for r in ok for f in r['functions']))
    samples = [s for r in ok for s in r['samples'][:1]][:6]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed,
        'level': getattr(mod, 'LEVEL', 'model_checking'),
        'coverage': {
            'states': tot('paths'),
            'transitions': tot('forks'),
            'traces_validated_against_impl': tot('witness_ok'),
            'samples': samples,
            'explanation':
                'states = symbolic paths of the real code explored to the '
                'end, transitions = two-way branch decisions put to the '
                'solver; traces_validated = concrete inputs following a '
                'symbolic path whose real run reproduced the symbolic '
                'outputs',
            'functions_encoded': funcs,
            'bounds': getattr(mod, 'BOUNDS', ''),
            'outside': getattr(mod, 'OUTSIDE', ''),
            'obligations': tot('obligations'),
            'discharged': tot('discharged'),
            'decided_by_normal_form': tot('trivial'),
            'solver_queries': smt('queries'),
            'solver_queries_lra': smt('lin'),
            'solver_queries_nra': smt('nra'),
            'solver_unsat': smt('unsat'), 'solver_sat': smt('sat'),
            'solver_unknown': smt('unknown'),
            'solver_time_s': round(smt('time'), 2),
            'infeasible_paths': tot('infeasible'),
            'counterexample_replays': tot('replayed'),
            'cases': {r['case']: {
                'paths': r['stats']['paths'],
                'checked': r['labels'],
                'not_reached': r.get('unreached', []),
                'wall_s': round(r['wall'], 2)} for r in ok},
            'trusted_base': SMT_TRUSTED,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + [
            'floating point is read as exact real arithmetic; rounding is '
            'outside the claim (tolerances absorb it)',
            'exp, log, pow, cos and atan are known to the solver through '
            'bounds, monotonicity, tangents and values at chosen points'],
        'wall_s': round(wall, 2),
        'violations': len(violations),
        'known_findings': sorted(findings),
        'inconclusive': problems[:20],
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(json_safe(ev), f, indent=1, sort_keys=True)
        f.write('\n')


if __name__ == '__main__':
    main()
