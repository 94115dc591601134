#!/usr/bin/env python3
"""try one planted change in a scratch copy of /repo: builds, stable tests, demonstration with and without, checks
   python3 tools/seed.py seeded/<id> [--no-tests] [--all]      (never touches /repo)"""
import sys, os, subprocess, shutil, json, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.abspath(sys.argv[1])
opts = set(sys.argv[2:])
meta = json.load(open(d + '/meta.json'))
W = tempfile.mkdtemp(prefix='evfs-seed-')
R = W + '/repo'

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def vp():
    os.makedirs(W + '/vp', exist_ok=True)
    for f in ('build.sh', 'test.sh', 'run_tests.py', 'results.py'):
        s = open('/opt/vp/' + f).read().replace('/repo', R).replace('/opt/vp/build.sh', W + '/vp/build.sh').replace(
            '/opt/vp/run_tests.py', W + '/vp/run_tests.py').replace('/opt/vp/results.py', W + '/vp/results.py')
        open(W + '/vp/' + f, 'w').write(s)

ok = True
try:
    sh('cp -a /repo %s && rm -rf %s/_build' % (R, R))
    vp()
    def demo():
        k = W + '/elsewhere'
        shutil.rmtree(k, ignore_errors=True)
        shutil.copytree(d, k, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
        r = sh('timeout 300 bash %s/demo.sh' % k, cwd=R)
        return r.returncode, (r.stdout + r.stderr)[-600:]
    b = sh('bash %s/vp/build.sh' % W)
    if b.returncode:
        print('base build failed', b.stdout[-800:], b.stderr[-800:]); ok = False
    rc, out = demo()
    print('demo on unchanged tree: exit %d' % rc, '' if rc == 0 else out)
    ok &= rc == 0
    a = sh('git -C %s apply %s/patch.diff' % (R, d))
    if a.returncode:
        print('patch does not apply', a.stderr); ok = False
    if '--no-tests' in opts:
        b = sh('bash %s/vp/build.sh' % W)
        print('build', b.returncode)
        ok &= b.returncode == 0
    else:
        sh('bash %s/vp/test.sh %s/out.json' % (W, W))
        o = json.load(open(W + '/out.json'))
        st = json.load(open('/opt/vp/BASELINE.json'))['stable']
        miss = [t for t in st if t not in o['passed']]
        print('stable tests: %d of %d pass' % (len(st) - len(miss), len(st)), miss[:3])
        ok &= not miss
    rc, out = demo()
    print('demo with the change: exit %d %s' % (rc, out.strip()[-300:]))
    ok &= rc != 0
    ids = [meta['property']]
    if '--all' in opts:
        ids = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
    for i in ids:
        c = sh('python3 %s/sa/run.py %s --tier quick' % (V, i), env=dict(os.environ, EVFS_REPO=R, EVFS_EVIDENCE=W + '/evidence'))
        v = [l.strip() for l in c.stdout.split('\n') if l.startswith('  ') and '|' in l]
        print('%s exit %d %s' % (i, c.returncode, 'CAUGHT' if c.returncode == 1 else 'missed' if c.returncode == 0 else 'BROKEN ' + c.stdout[-300:] + c.stderr[-300:]))
        for x in v[:4]:
            print('    ', x)
finally:
    shutil.rmtree(W, ignore_errors=True)
print('VALID' if ok else 'NOT VALID')
