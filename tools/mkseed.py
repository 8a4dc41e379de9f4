"""plant one seeded change: python3 mkseed.py SPEC.py   (SPEC defines id, prop, edits=[(file, old, new)], needs, breaks, demo)
writes /verif/seeded/<id>/, confirms it (tests pass, demo fails with / passes without), runs the check of the property.
SEED_REPO=DIR works on a copy of /repo at the same commit."""
import json, os, re, runpy, subprocess, sys
R = os.environ.get('SEED_REPO', '/repo')
run = lambda *a, **k: subprocess.run(a, capture_output=True, text=True, **k)
assert not run('git', '-C', R, 'status', '--short').stdout.strip(), 'repo not clean'
BASE = '8057154'


def original():
    """the removed lines of the working tree's diff that belong to the original repository"""
    own = tot = 0
    f = None
    for l in run('git', '-C', R, 'diff', '-U0').stdout.splitlines():
        if l.startswith('--- a/'):
            f = l[6:]
        m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
        if m and int(m.group(2) or 1):
            a, n = int(m.group(1)), int(m.group(2) or 1)
            for b in run('git', '-C', R, 'blame', '-s', '-l', '-L', '%d,+%d' % (a, n), 'HEAD', '--', f).stdout.splitlines():
                tot += 1
                own += b.lstrip('^').startswith(BASE)
    return own, tot


def tests():
    if R == '/repo':
        return run('bash', '/opt/vp/test.sh', '/tmp/seedtest.json').stdout.strip().splitlines()[-1:]
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', JAX_PLATFORMS='cpu', CUDA_VISIBLE_DEVICES='', TF_CPP_MIN_LOG_LEVEL='3',
             PYTHONHASHSEED='0', RAY_USAGE_STATS_ENABLED='0', PYTHONPATH=R)
    t = run('/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-W', 'ignore', '--tb=no', '--timeout=300', '--continue-on-collection-errors',
            '-o', 'python_files=test_*.py tests_stats.py big_data_tests.py', '--ignore=tests/test_boosters.py', '--ignore=tests/test_models.py',
            '--ignore=tests/test_nns.py', 'tests', cwd=R, env=e)
    run('rm', '-f', R + '/test_pickle_temp.pk')
    return t.stdout.strip().splitlines()[-1:]


for spec in sys.argv[1:]:
    s = runpy.run_path(spec)
    d = '/verif/seeded/%s' % s['id']
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.py', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONPATH="$PWD" MPLBACKEND=Agg JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    try:
        for f, a, b in s['edits']:
            p = R + '/pyforecaster/' + f
            t = open(p).read()
            assert t.count(a) == 1, (f, t.count(a), a)
            open(p, 'w').write(t.replace(a, b))
        open(d + '/patch.diff', 'w').write(run('git', '-C', R, 'diff').stdout)
        own, tot = original()
        print(s['id'], 'original lines changed: %d of %d' % (own, tot), '' if own else '  DOES NOT COUNT', flush=True)
        r = run('bash', d + '/demo.sh', cwd=R)
        print('   demo with patch:', r.returncode, (r.stderr or r.stdout).strip().splitlines()[-1:], flush=True)
        assert r.returncode != 0
        print('   tests:', tests(), flush=True)
        c = run('/verif/check.sh', s['prop'], cwd='/verif', env=dict(os.environ, SYMX_TB='0', SYMX_REPO=R))
        print('   check:', c.returncode, [l for l in c.stdout.splitlines() if 'VIOL' in l or 'INCONC' in l][:4], flush=True)
    finally:
        run('git', '-C', R, 'checkout', '--', '.')
    r = run('bash', d + '/demo.sh', cwd=R)
    print('   demo without patch:', r.returncode, '' if r.returncode == 0 else r.stderr[-500:], flush=True)
