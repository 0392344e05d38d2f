"""Create and confirm planted bugs.

Each seed is a python file tools/seeds/<id>.py defining PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)...] and DEMO (python source).
usage: seed.py <id>...   (confirms in a scratch copy: builds, stable tests pass, demo passes without / fails with the change)
"""
import json, os, shutil, subprocess, sys, runpy, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PATH='/opt/venv/bin:/usr/bin:/bin', LANG='C.UTF-8', LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')


def sh(cmd, cwd, env=ENV, t=600):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)


def build(d):
    for n in ('explicit_indexer', 'hash_indexers', 'ngrams'):
        p = d + '/src/finalfusion/subword/' + n + '.c'
        if os.path.exists(p):
            os.remove(p)
    for f in os.listdir(d + '/src/finalfusion/subword'):
        if f.endswith('.so'):
            os.remove(d + '/src/finalfusion/subword/' + f)
    shutil.rmtree(d + '/build', ignore_errors=True)
    r = sh([PY, 'setup.py', 'build_ext', '--inplace'], d)
    return r.returncode == 0, r.stdout[-1500:] + r.stderr[-1500:]


def tests(d, env):
    base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', []) or json.load(open('/opt/vp/BASELINE.json')).get('passed', []))
    w = tempfile.mkdtemp(prefix='seedt')
    try:
        r = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-p', 'pytest_timeout', '--timeout=300', '--doctest-modules', '--basetemp=' + w + '/p',
                '--deselect', 'tests/test_storage.py::test_from_matrix'], d, env)
        ok = r.returncode == 0
        msg = r.stdout[-1200:]
        if ok:
            os.makedirs(w + '/cli')
            os.symlink(d + '/tests', w + '/cli/tests')
            for s in sorted(os.listdir(d + '/tests/integration')):
                if s.endswith('.sh') and s != 'all.sh':
                    q = sh(['bash', d + '/tests/integration/' + s], w + '/cli', env)
                    if q.returncode:
                        ok, msg = False, 'integration ' + s + q.stdout[-500:] + q.stderr[-500:]
        return ok, msg
    finally:
        shutil.rmtree(w, ignore_errors=True)


def make(sid, runtests=True):
    m = runpy.run_path(os.path.join(ROOT, 'tools', 'seeds', sid + '.py'))
    d = tempfile.mkdtemp(prefix='seed')
    try:
        r = d + '/r'
        sh(['cp', '-a', '/repo', r], '/')
        native = False
        for f, old, new in m['EDITS']:
            p = r + '/src/finalfusion/' + f if not f.startswith('src/') else r + '/' + f
            s = open(p).read()
            if s.count(old) != 1:
                return 'EDIT: %r occurs %d times in %s' % (old[:50], s.count(old), f)
            open(p, 'w').write(s.replace(old, new))
            native |= p.endswith(('.pyx', '.pxd', '.c', '.h'))
        diff = sh(['git', 'diff', '--', 'src'], r).stdout
        out = os.path.join(ROOT, 'seeded', sid)
        os.makedirs(out, exist_ok=True)
        open(out + '/demo.py', 'w').write(m['DEMO'].lstrip('\n'))
        open(out + '/demo.sh', 'w').write('#!/bin/sh\nexport PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': m['PROPERTY'], 'needs': m['NEEDS'], 'what_it_breaks': m['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
        open(out + '/patch.diff', 'w').write(diff)
        if native:
            ok, msg = build(r)
            if not ok:
                return 'BUILD ' + msg
        env = dict(ENV, PYTHONPATH=r + '/src')
        a = sh(['sh', out + '/demo.sh'], '/repo', ENV, 300)
        b = sh(['sh', out + '/demo.sh'], r, env, 300)
        if a.returncode != 0:
            return 'DEMO FAILS ON UNCHANGED: ' + a.stderr[-600:]
        if b.returncode == 0:
            return 'DEMO PASSES ON CHANGED'
        if runtests:
            ok, msg = tests(r, env)
            if not ok:
                return 'TESTS FAIL: ' + msg
        return 'OK (%s)' % (b.stderr.strip().split('\n') or [''])[-1][:150]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def caught(sid):
    m = json.load(open(os.path.join(ROOT, 'seeded', sid, 'meta.json')))
    d = tempfile.mkdtemp(prefix='seedc')
    try:
        sh(['cp', '-a', '/repo/src', d + '/src'], '/')
        q = sh(['patch', '-p1', '-i', os.path.join(ROOT, 'seeded', sid, 'patch.diff')], d)
        if q.returncode:
            return 'PATCH ' + q.stdout
        r = sh([PY, ROOT + '/run_check.py', m['property']], ROOT, dict(ENV, FFSA_REPO=d))
        return '%s %s %s' % (m['property'], 'CAUGHT' if r.returncode == 1 else 'MISSED(%d)' % r.returncode, [l.strip()[:160] for l in r.stdout.split('\n') if l.startswith('  ') or 'UNDEC' in l][:1])
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    a = sys.argv[1:]
    mode = make
    if a and a[0] == 'caught':
        mode, a = caught, a[1:]
        a = a or sorted(os.listdir(ROOT + '/seeded'))
    elif a and a[0] == 'all':
        a = sorted(x[:-3] for x in os.listdir(ROOT + '/tools/seeds') if x.endswith('.py'))
    with ThreadPoolExecutor(6) as ex:
        for s, r in zip(a, ex.map(mode, a)):
            print(s, r, flush=True)
