"""python -m symx.runner <property id> : run one check, write evidence, print the verdict."""
import importlib
import importlib.util
import json
import os
import select
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_REPO', '/repo')
VENV_PY = '/opt/venv/bin/python'


def load_check(pid, symbolic=False):
    path = os.path.join(HERE, 'checks', pid + '.py')
    spec = importlib.util.spec_from_file_location('check_' + pid, path)
    m = importlib.util.module_from_spec(spec)
    sys.modules['check_' + pid] = m
    spec.loader.exec_module(m)
    if symbolic:
        # third party C extensions must see the original numpy while they are imported
        for p in getattr(m, 'PRELOAD', []):
            try:
                importlib.import_module(p)
            except Exception as e:
                print('preload %s: %r' % (p, e), file=sys.stderr)
        from symx import patches
        patches.install()
        patches.hook_modules()
    return m


def setup_env(symbolic):
    for p in (REPO, HERE):
        if p not in sys.path:
            sys.path.insert(0, p)
    vt = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
    if vt not in sys.path:
        sys.path.append(vt)
    os.environ.update(MPLBACKEND='Agg', JAX_PLATFORMS='cpu', CUDA_VISIBLE_DEVICES='', TF_CPP_MIN_LOG_LEVEL='3',
                      PYTHONDONTWRITEBYTECODE='1', RAY_USAGE_STATS_ENABLED='0')
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    if symbolic:
        os.environ['NUMBA_DISABLE_JIT'] = '1'
    else:
        os.environ.pop('NUMBA_DISABLE_JIT', None)


class LineReader:
    """readline with a timeout on a pipe"""

    def __init__(self, f):
        self.fd = f.fileno()
        self.buf = b''

    def readline(self, end):
        """-> line, '' at end of file, None on timeout"""
        while b'\n' not in self.buf:
            r, _, _ = select.select([self.fd], [], [], max(0.1, end - time.time()))
            if not r:
                if time.time() >= end:
                    return None
                continue
            c = os.read(self.fd, 65536)
            if not c:
                return ''
            self.buf += c
        l, self.buf = self.buf.split(b'\n', 1)
        return l.decode('utf-8', 'replace') + '\n'


class Replayer:
    """persistent subprocess running the harness on the unpatched real code"""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.p = None
        self.n = 0

    def start(self):
        env = dict(os.environ)
        env.pop('NUMBA_DISABLE_JIT', None)
        env['PYTHONPATH'] = HERE
        self.p = subprocess.Popen([VENV_PY, '-m', 'symx.replay', '--worker', self.pid, self.tier], cwd=HERE, env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        self.rd = LineReader(self.p.stdout)

    def run(self, obligation, values, timeout=240):
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.n += 1
        try:
            self.p.stdin.write(json.dumps({'obligation': obligation, 'values': values}) + '\n')
            self.p.stdin.flush()
            end = time.time() + timeout
            while True:
                line = self.rd.readline(end)
                if line is None:
                    self.p.kill()
                    self.p = None
                    return 'error', 'replay timed out'
                if not line:
                    self.p = None
                    return 'error', 'replay process ended'
                if line.startswith('@@'):
                    d = json.loads(line[2:])
                    return d['status'], d['detail']
        except Exception as e:
            return 'error', repr(e)

    def close(self):
        if self.p is not None:
            self.p.kill()


def diverse_models(ctx):
    """a few models of the current path condition"""
    import z3
    out = []
    reals = [t for t in ctx.vars.values() if t.sort() == z3.RealSort()]
    ex = ctx.ex
    tries = []
    if reals:
        tries.append([z3.Distinct(*reals), z3.And([t != 0 for t in reals])] if len(reals) > 1 else [reals[0] != 0])
    tries.append([])
    for extra in tries:
        if ex.check(*extra) == z3.sat:
            out.append(ctx._fail_model(ex.solver.model()))
    return out


def run_obligation(ob, pid, tier, replayer, seed, log):
    from symx import core
    from symx.runtime import SymCtx, PathViolation
    t0 = time.time()
    ex = core.Explorer(max_paths=ob.max_paths, timeout_s=ob.thorough_timeout if tier == 'thorough' else ob.timeout,
                       query_ms=ob.query_ms, seed=seed)
    ctx = SymCtx(ex, tier)
    ctx.eps_mode = ob.eps
    res = {'obligation': ob.name, 'functions': ob.functions, 'bounds': ob.bounds, 'stubs': ob.stubs,
           'verdict': None, 'inconclusive': [], 'reached_end_paths': 0}
    state = {'fails': 0, 'violation': None, 'sample': None}

    from symx import patches
    core_hook = patches.hook_modules if patches._installed else None

    class Done(core.Steer):
        pass

    def try_models(label, models, kind):
        for m in models:
            st, detail = replayer.run(ob.name, m)
            log('  %s: %s -> replay %s' % (ob.name, label, st))
            if st == 'violated':
                state['violation'] = {'label': label, 'values': m, 'detail': detail}
                raise Done()
        state['fails'] += 1
        if len(res['inconclusive']) < 10:
            res['inconclusive'].append({'kind': kind, 'label': label[:500]})
        if state['fails'] >= 12:
            raise Done()

    def one():
        ctx._begin()
        if core_hook is not None:
            core_hook()
        try:
            ob.fn(ctx)
        except PathViolation as v:
            try_models(v.label, v.models, 'counterexample did not reproduce')
            return
        except core.Steer:
            raise
        except Exception as e:
            tb = traceback.format_exc()
            if os.environ.get('SYMX_TB'):
                print(tb)
            try_models('exception in the symbolic run: %s: %s | %s' % (type(e).__name__, e, ' < '.join(
                l.strip() for l in tb.splitlines()[-12:] if l.strip())), diverse_models(ctx), 'exception')
            return
        # end of path: vacuity guard (the path condition is satisfiable and the property was asserted)
        import z3
        r = ex.check()
        m = ex.solver.model() if r == z3.sat else None
        if r == z3.unknown and ctx.path_checks and not res['reached_end_paths']:
            ex.retry_model = None
            r = ex.retry()
            m = ex.retry_model
        if r == z3.sat:
            if ctx.path_checks:
                res['reached_end_paths'] += 1
            if state['sample'] is None and m is not None:
                state['sample'] = ctx._fail_model(m)

    try:
        ex.explore(one)
    except Done:
        pass
    except core.Budget as e:
        res['inconclusive'].append({'kind': 'budget', 'label': str(e)})
    res['solver'] = ex.stats.as_dict()
    res['checks_by_label'] = ctx.labels
    res['sample_input'] = state['sample']
    res['wall_s'] = round(time.time() - t0, 2)
    for l in ctx.unknown:
        res['inconclusive'].append({'kind': 'solver unknown', 'label': l})
    if state['violation']:
        res['verdict'] = 'violated'
        res['violation'] = state['violation']
    elif res['inconclusive']:
        res['verdict'] = 'inconclusive'
    elif res['reached_end_paths'] == 0:
        res['verdict'] = 'inconclusive'
        res['inconclusive'].append({'kind': 'vacuous', 'label': 'no path reached an assertion'})
    else:
        res['verdict'] = 'discharged'
    return res


def load_known():
    out = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                out.append(json.loads(l))
    return out


def main(argv=None):
    argv = argv or sys.argv[1:]
    pid = argv[0]
    only = argv[1:] or None
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    setup_env(True)
    jobs = int(os.environ.get('SYMX_JOBS', '6'))
    mod = load_check(pid, symbolic=jobs <= 1)
    obs = [o for o in mod.OBLIGATIONS if tier in o.tiers]
    if only:
        obs = [o for o in obs if o.name in only]
    if jobs > 1:
        jobs = max(2, min(jobs, getattr(mod, 'JOBS', jobs)))
    known = [k for k in load_known() if k.get('property') == pid and k.get('status') == 'known']

    def log(s):
        print(s, flush=True)

    results = []
    if jobs <= 1:
        rep = Replayer(pid, tier)
        for o in obs:
            results.append(run_obligation(o, pid, tier, rep, seed, log))
        rep.close()
        nrep = rep.n
    else:
        results, nrep = run_parallel(pid, obs, tier, seed, jobs, log)
    # ---- verdict
    rdir = os.path.join(HERE, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    exitcode = 0
    for r in results:
        s = r.get('solver', {})
        log('%-13s %s  paths=%s queries=%s solver=%.1fs wall=%.1fs' % (
            r['verdict'].upper(), r['obligation'], s.get('paths'), s.get('queries'), s.get('solver_s', 0), r.get('wall_s', 0)))
        for i in r['inconclusive'][:4]:
            log('    INCONCLUSIVE %s: %s' % (i['kind'], i['label'][:300]))
        if r['verdict'] == 'violated':
            v = r['violation']
            kf = [k for k in known if k.get('obligation') == r['obligation'] and k.get('label') in (None, v['label'])]
            path = os.path.join(rdir, '%s_%s.json' % (pid, r['obligation']))
            with open(path, 'w') as f:
                json.dump({'property': pid, 'obligation': r['obligation'], 'tier': tier, 'values': v['values'],
                           'label': v['label'], 'detail': v['detail'],
                           'command': 'cd %s && %s -m symx.replay %s' % (HERE, VENV_PY, path)}, f, indent=1)
            if kf:
                log('KNOWN-FINDING: property=%s %s: %s' % (pid, r['obligation'], kf[0].get('what', v['label'])))
                r['known_finding'] = True
                continue
            log('  broken: %s\n  %s' % (v['label'], v['detail']))
            log('VIOLATION property=%s replay=%s' % (pid, path))
            exitcode = 1
    disc = [r for r in results if r['verdict'] == 'discharged' or r.get('known_finding')]
    write_evidence(pid, mod, tier, seed, results, t0, nrep)
    if exitcode == 0 and not disc:
        log('ERROR: nothing could be decided')
        exitcode = 2
    return exitcode


def run_parallel(pid, obs, tier, seed, jobs, log):
    """one worker process per slot; obligations handed out one by one"""
    import queue
    import threading
    # longest first: obligations may carry a cost hint
    q = queue.Queue()
    for o in sorted(obs, key=lambda o: -getattr(o, 'cost', 1)):
        q.put(o)
    results = {}
    nrep = [0]
    lock = threading.Lock()

    def work():
        p = None
        while True:
            try:
                o = q.get_nowait()
            except queue.Empty:
                break
            if p is None or p.poll() is not None:
                env = dict(os.environ, PYTHONPATH=HERE)
                p = subprocess.Popen([VENV_PY, '-m', 'symx.obworker', pid, tier, str(seed)], cwd=HERE, env=env,
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=None if os.environ.get('SYMX_TB') else subprocess.DEVNULL, text=True)
                rd = LineReader(p.stdout)
            p.stdin.write(o.name + '\n')
            p.stdin.flush()
            r = None
            # hard limit in case a single solver call does not return
            hard = time.time() + (o.thorough_timeout if tier == 'thorough' else o.timeout) * 1.5 + 120
            while True:
                line = rd.readline(hard)
                if line is None:
                    p.kill()
                    break
                if not line:
                    break
                if line.startswith('@@R'):
                    d = json.loads(line[3:])
                    r = d['result']
                    with lock:
                        nrep[0] += d['replays']
                    break
                if line.startswith('  '):
                    with lock:
                        log(line.rstrip())
                elif os.environ.get('SYMX_TB'):
                    log(line.rstrip())
            if r is None:
                p = None
                r = {'obligation': o.name, 'functions': o.functions, 'bounds': o.bounds, 'stubs': o.stubs,
                     'verdict': 'inconclusive', 'inconclusive': [{'kind': 'worker died or timed out', 'label': ''}],
                     'solver': {}, 'wall_s': 0, 'reached_end_paths': 0}
            results[o.name] = r
        if p is not None and p.poll() is None:
            try:
                p.stdin.write('@@quit\n')
                p.stdin.flush()
                p.wait(5)
            except Exception:
                p.kill()

    ts = [threading.Thread(target=work) for _ in range(min(jobs, len(obs)))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return [results[o.name] for o in obs], nrep[0]


def write_evidence(pid, mod, tier, seed, results, t0, nrep):
    from symx import patches
    tot = {}
    for r in results:
        for k, v in r.get('solver', {}).items():
            tot[k] = round(tot.get(k, 0) + v, 3)
    level = getattr(mod, 'LEVEL', 'other')
    disc = sum(r['verdict'] == 'discharged' for r in results)
    samples = [{'obligation': r['obligation'], 'input_of_one_explored_path': r.get('sample_input')} for r in results]
    cov = {
        'explanation': 'Bounded symbolic execution of the real functions of /repo (imported from the working tree on '
                       'this run) with z3-backed proxy numbers; each obligation is decided by z3 over all values '
                       'within its stated bounds, on every feasible path. Floats are modelled as exact reals.',
        'obligations': len(results), 'discharged': disc,
        'violated': sum(r['verdict'] == 'violated' for r in results),
        'inconclusive': sum(r['verdict'] == 'inconclusive' for r in results),
        'functions_encoded': sorted({f for r in results for f in r['functions']}),
        'paths_explored': tot.get('paths', 0), 'solver_queries': tot.get('queries', 0),
        'property_queries': tot.get('checks', 0), 'unsat': tot.get('unsat', 0), 'sat': tot.get('sat', 0),
        'unknown': tot.get('unknown', 0), 'solver_s': tot.get('solver_s', 0.0),
        'paths_with_satisfiable_assertion_reached': sum(r.get('reached_end_paths', 0) for r in results),
        'counterexamples_replayed_on_real_code': nrep,
        'trusted': ['z3 5.3.2', 'symx proxies (/verif/symx)'] + patches.STUBS + list(getattr(mod, 'STUBS', [])),
        'outside_claim': getattr(mod, 'OUTSIDE', 'sizes beyond the bounds; floating point rounding'),
        'obligation_results': [{k: v for k, v in r.items() if k not in ('sample_input',)} for r in results],
        'samples': samples[:40],
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'wall_s': round(time.time() - t0, 2)}
    p = os.path.join(HERE, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(p), exist_ok=True)
    tmp = p + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, p)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
