"""
Runs the scenarios of one property: explores paths, asks the solver, replays
counterexamples in a fresh process on the real code, writes the evidence.
"""
import argparse
import importlib
import json
import os
import subprocess
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor
import multiprocessing as mp

from symx import boot, core
from symx.core import (CexFound, CheckFailed, ConcreteWorld, Inconclusive, PathAbort, Stats,
                       SymWorld, SymxError)

VERIF = boot.VERIF
OUT = os.path.join(VERIF, 'evidence', 'replays')
MAX_PATHS = 4000


# ---------------------------------------------------------------- functions hit
class FunctionTrace:
    """Which functions of /repo/symfit were executed symbolically."""

    def __init__(self):
        self.hit = set()
        self.tool = 3

    def start(self):
        mon = sys.monitoring
        mon.use_tool_id(self.tool, 'symx')

        def on_start(code, off):
            fn = code.co_filename
            if '/symfit/' in fn and fn.startswith(boot.REPO):
                self.hit.add('%s:%s' % (os.path.relpath(fn, boot.REPO), code.co_qualname))
            return mon.DISABLE
        mon.register_callback(self.tool, mon.events.PY_START, on_start)
        mon.set_events(self.tool, mon.events.PY_START)

    def stop(self):
        mon = sys.monitoring
        mon.set_events(self.tool, 0)
        mon.free_tool_id(self.tool)


# ---------------------------------------------------------------- one run
def run_concrete(func, kwargs, assignment, skip=(), tol=1e-6):
    """-> (status, label, detail); status in ok / failed / exception."""
    W = ConcreteWorld(assignment, skip_labels=skip, tol=tol)
    core.CUR = W
    try:
        func(W, **kwargs)
        return 'ok', None, '%d checks' % W.n_checks
    except CheckFailed as e:
        return 'failed', e.label, e.detail
    except SymxError as e:
        return 'engine', type(e).__name__, str(e)
    except Exception as e:
        return 'exception', type(e).__name__, ''.join(traceback.format_exception(e))[-3000:]
    finally:
        core.CUR = None


UNDECIDED = ('inconclusive', 'path bound', 'time budget', 'exception on a path')


def others(W, n=3):
    """More models of a path on which the engine could not decide: any of them might show a failure."""
    out = []
    for seed in range(1, n + 1):
        a = W.model(seed=seed)
        if a is not None and a not in out:
            out.append(a)
    return out


def explore(name, func, kwargs, opts):
    """Explore one scenario symbolically.  Returns a result dict."""
    stats = Stats()
    res = dict(scenario=name, stats=stats, cex=None, error=None, known=[], samples=[], witnesses=[])
    work = [[]]
    skip = set(opts.get('skip', ()))
    t0 = time.time()
    trace = FunctionTrace()
    trace.start()
    dismissed = {}
    t_domain = 0.0
    try:
        while work:
            if stats['paths'] >= opts.get('max_paths', MAX_PATHS):
                res['error'] = 'path bound %d exceeded' % opts.get('max_paths', MAX_PATHS)
                break
            if time.time() - t0 > opts.get('budget_s', 600):
                res['error'] = 'time budget exhausted after %d paths' % stats['paths']
                break
            prefix = work.pop()
            W = SymWorld(prefix, stats, timeout_ms=opts.get('timeout_ms', 20000), skip_labels=skip)
            core.CUR = W
            try:
                func(W, **kwargs)
                W.flush()
                stats['paths'] += 1
            except PathAbort:
                stats['aborted'] += 1
            except CexFound as e:
                stats['paths'] += 1
                res['cex'] = dict(label=e.label, assignment=e.assignment, detail=str(e.detail)[:2000])
                break
            except Inconclusive as e:
                # last resort: a witness of the path might still show a failure
                a = W.model()
                res['error'] = 'inconclusive: %s' % e
                if a is not None:
                    res['cex'] = dict(label='inconclusive', assignment=a, detail=str(e), weak=True, others=others(W))
                break
            except Exception as e:
                stats['paths'] += 1
                tb = ''.join(traceback.format_exception(e))[-3000:]
                label = 'exception:%s' % type(e).__name__
                if label in skip:
                    work.extend(W.alternates)
                    continue
                a = W.model()
                if a is None:
                    res['error'] = 'exception on a path without a model: %s' % tb
                    break
                res['cex'] = dict(label=label, assignment=a, detail=tb, weak=True, others=others(W))
                break
            else:
                # vacuity guard / reachability twin: the path must be satisfiable
                if len(res['witnesses']) < opts.get('witnesses', 3) or stats['witnesses'] == 0:
                    a = W.model()
                    if a is not None:
                        stats['witnesses'] += 1
                        res['witnesses'].append(a)
                # inputs for which the code leaves the domain of its own arithmetic are executed
                t = time.time()
                for cond, a in (W.outside(dismissed) if t_domain < opts.get('domain_s', 40) else ()):
                    st, label, detail = run_concrete(func, kwargs, a, skip)
                    core.CUR = W
                    stats['outside'] = stats.get('outside', 0) + 1
                    if st in ('failed', 'exception'):
                        res['cex'] = dict(label='unless %s: %s' % (cond[:80], label), assignment=a, detail=str(detail)[:2000], weak=True)
                        break
                t_domain += time.time() - t
                if res['cex']:
                    break
                if len(res['samples']) < 2:
                    res['samples'].append('%s: path %s, %d constraints' % (
                        name, W.decisions, len(W.pc)))
            work.extend(W.alternates)
    finally:
        core.CUR = None
        trace.stop()
    res['functions'] = sorted(trace.hit)
    if res['cex'] is None and res['error'] is None:
        if stats['checks'] == 0:
            res['error'] = 'vacuous: no check was reached'
        elif not res['witnesses']:
            res['error'] = 'vacuous: no satisfiable path (witness twin failed)'
        else:
            # the encoding is validated on the real code: every witness is executed concretely
            for a in res['witnesses']:
                st, label, detail = run_concrete(func, kwargs, a, skip)
                stats['validated'] = stats.get('validated', 0) + 1
                if st != 'ok':
                    res['cex'] = dict(label='witness:%s' % label, assignment=a, detail=detail, weak=True)
                    break
    res['wall_s'] = time.time() - t0
    return res


def _job(args):
    modname, idx, tier, opts = args
    try:
        mod = importlib.import_module('harness.' + modname)
        name, func, kwargs = mod.scenarios(tier)[idx]
        o = dict(getattr(mod, 'OPTS', {}))
        o.update(opts)
        o['skip'] = set(o.get('skip', ())) | set(o.get('skip_by_scenario', {}).get(name, ()))
        return explore(name, func, kwargs, o)
    except BaseException as e:
        return dict(scenario='#%d' % idx, stats=Stats(), cex=None, known=[], samples=[], witnesses=[],
                    functions=[], wall_s=0.0,
                    error='engine: ' + ''.join(traceback.format_exception(e))[-3000:])


# ---------------------------------------------------------------- replay
def replay_file(path):
    with open(path) as f:
        r = json.load(f)
    boot.load_symfit()
    mod = importlib.import_module('harness.' + r['harness'])
    for tier in (r.get('tier', 'quick'), 'thorough'):
        for name, func, kwargs in mod.scenarios(tier):
            if name == r['scenario']:
                for a in [r['assignment']] + r.get('others', []):
                    st = run_concrete(func, kwargs, a, skip=set(r.get('skip', ())))
                    if st[0] in ('failed', 'exception'):
                        break
                return st
    return 'engine', 'no such scenario', r['scenario']


def spawn_replay(path):
    p = subprocess.run([sys.executable, '-B', '-m', 'symx.runner', '--replay', path],
                       cwd=VERIF, capture_output=True, text=True, timeout=300, env=dict(os.environ))
    for line in p.stdout.splitlines():
        if line.startswith('REPLAY '):
            return json.loads(line[7:])
    return ['engine', 'replay crashed', p.stderr[-2000:]]


# ---------------------------------------------------------------- known findings
def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop and k.get('status') == 'known']


# ---------------------------------------------------------------- main
def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--serial', action='store_true')
    ap.add_argument('--strict', action='store_true', help='undecided scenarios are errors')
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args(argv)
    if args.replay:
        st = replay_file(args.replay)
        print('REPLAY ' + json.dumps(list(st)))
        return 0 if st[0] == 'ok' else 1

    t0 = time.time()
    prop = args.property
    seed = int(os.environ.get('VERIF_SEED', '1'))
    boot.load_symfit()
    modname = prop.lower()
    mod = importlib.import_module('harness.' + modname)
    scen = mod.scenarios(args.tier)
    known = known_findings(prop)
    skip = {}
    for k in known:
        skip.setdefault(k['scenario'], set()).add(k['label'])
    # a quick run always answers within its time: what is not reached is reported as undecided
    deadline = 700 if args.tier == 'quick' else 6 * 3600
    opts = dict(budget_s=400 if args.tier == 'quick' else 3000, skip_by_scenario={k: sorted(v) for k, v in skip.items()})
    idxs = [i for i, s in enumerate(scen) if not args.only or args.only in s[0]]
    jobs = [(modname, i, args.tier, opts) for i in idxs]
    results = []
    nproc = min(len(jobs), os.cpu_count() or 4)
    if args.serial or nproc <= 1:
        results = [_job(j) for j in jobs]
    else:
        with mp.get_context('fork').Pool(nproc, maxtasksperchild=1) as pool:
            it = pool.imap_unordered(_job, jobs, chunksize=1)
            for _ in jobs:
                try:
                    results.append(it.next(timeout=max(1.0, t0 + deadline - time.time())))
                except mp.TimeoutError:
                    pool.terminate()
                    break
    done = {r['scenario'] for r in results}
    for i in idxs:
        if scen[i][0] not in done:
            results.append(dict(scenario=scen[i][0], stats=Stats(), cex=None, known=[], samples=[], witnesses=[],
                                functions=[], wall_s=0.0, error='time budget of the whole check exhausted'))
    results.sort(key=lambda r: r['scenario'])

    stats = Stats()
    functions, samples, violations, errors = set(), [], [], []
    undecided, to_replay = [], []
    os.makedirs(OUT, exist_ok=True)
    for r in results:
        stats.merge(r['stats'])
        functions.update(r['functions'])
        samples.extend(r['samples'][:1])
        if args.v:
            print('%-44s %6.1fs %s' % (r['scenario'], r['wall_s'], dict(r['stats'])))
        if r['cex']:
            c = r['cex']
            path = os.path.join(OUT, '%s-%s.json' % (prop, ''.join(
                ch if ch.isalnum() or ch in '-_.' else '_' for ch in r['scenario'])))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, harness=modname, scenario=r['scenario'], tier=args.tier,
                               label=c['label'], detail=c['detail'], assignment=c['assignment'], others=c.get('others', []),
                               skip=sorted(skip.get(r['scenario'], ()))), f, indent=1)
            to_replay.append((r['scenario'], c, path))
        elif r['error']:
            (undecided if r['error'].startswith(UNDECIDED) else errors).append((r['scenario'], r['error']))
    # every counterexample is executed on the real code in a fresh process
    with ThreadPoolExecutor(os.cpu_count() or 4) as pool:
        for (sc, c, path), st in zip(to_replay, pool.map(lambda t: spawn_replay(t[2]), to_replay[:24])):
            if st[0] in ('failed', 'exception'):
                violations.append((sc, c['label'], path, st))
            else:
                # the engine's encoding and the real code disagree, or the engine cannot express the code
                undecided.append((sc, 'counterexample for %s did not reproduce (%s): %s' % (
                    c['label'], st, c['detail'][-1500:])))
    for sc, c, path in to_replay[24:]:
        undecided.append((sc, 'counterexample for %s not replayed' % c['label']))

    # known findings: confirm each still fails, by running its own scenario unskipped
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))

    bounds = getattr(mod, 'BOUNDS', '')
    evidence = dict(
        property=prop, tier=args.tier, seed=seed, level='model_checking',
        coverage=dict(
            states=stats['paths'], transitions=stats['branches'],
            traces_validated_against_impl=stats.get('validated', 0),
            samples=samples[:8] or ['none'],
            scenarios=len(results), undecided_scenarios=[u[0] for u in undecided], checks=stats['checks'], obligations=stats['obligations'],
            closed_by_z3_normal_form=stats['trivial'], normal_form_confirmed_by_solver_paths=stats.get('batched', 0), solver_queries=stats['queries'],
            solver_seconds=round(stats['solver_s'], 3), aborted_paths=stats['aborted'],
            reachability_witnesses=stats['witnesses'], inputs_outside_the_domain_executed=stats.get('outside', 0),
            bounds=bounds, functions_encoded=sorted(functions),
            explanation='Bounded symbolic execution of the real functions of /repo/symfit: states are '
                        'symbolic paths, transitions are decided branches/choices, each check is a z3 '
                        'query over all values of the symbols of its path; every scenario has '
                        'satisfiable witness paths which are also executed on the real code with floats.'),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + [
            'floats are modelled as mathematical reals; rounding, overflow, NaN are outside the claim',
            'divisors, log arguments and radicands occurring in the reference are nonzero / positive / non-negative; '
            'where only those of the code under test are not, one such input found by the solver is executed'],
        wall_s=round(time.time() - t0, 3), violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    for sc, label, path, st in violations:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  scenario=%s check=%s replayed: %s %s' % (sc, label, st[1], str(st[2])[-600:]))
    for sc, msg in undecided:
        print('UNDECIDED scenario=%s %s' % (sc, msg), file=sys.stderr)
    for sc, msg in errors:
        print('ERROR scenario=%s %s' % (sc, msg), file=sys.stderr)
    print('%s %s: %d scenarios, %d paths, %d obligations, %d solver queries (%.2fs solver), '
          '%d violations, %d undecided, %d errors, %.1fs' % (
              prop, args.tier, len(results), stats['paths'], stats['obligations'], stats['queries'],
              stats['solver_s'], len(violations), len(undecided), len(errors), time.time() - t0))
    if violations:
        return 1
    if errors or len(undecided) >= len(results):
        return 2
    return 3 if undecided and args.strict else 0


if __name__ == '__main__':
    sys.exit(main())
