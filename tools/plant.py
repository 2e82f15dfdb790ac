#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: makes /verif/seeded/<ID>/ from a specification and confirms it in a scratch copy of /repo.

A specification defines PLANTS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)].
A plant is kept only if it applies, the stable tests pass with it, and its demo fails with it and passes without.
"""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = open(os.path.join(V, 'tools', 'plant', 'common.py')).read()
DEMO_SH = '''#!/bin/bash
# Run with cwd = the repository.  Exit 0: the property holds in this scenario; nonzero: it is broken.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$PWD:$here"
exec timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def tests(tree):
    d = tempfile.mkdtemp(prefix='plant_t')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=tree + ':/opt/vp',
               PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
    subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'pytest_timeout', '-p', 'vp_bootstrap', '-p',
                    'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors', '--rootdir=' + tree, '-o',
                    'python_files=test_*.py tests/__init__.py', '-o', 'junit_family=xunit2',
                    '--junitxml=' + d + '/junit.xml', 'cache_dependencies/tests', 'django_cache_dependencies/tests'],
                   cwd=tree, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', d + '/o.json', 'junit:' + d + '/junit.xml'],
                   stdout=subprocess.DEVNULL)
    try:
        r = json.load(open(d + '/o.json'))
    except IOError:
        r = {}
    shutil.rmtree(d)
    return r


def passed(r):
    for k in ('passed', 'pass'):
        if k in r:
            return set(r[k])
    return set()


def one(p, stable):
    tmp = tempfile.mkdtemp(prefix='plant_')
    tree = os.path.join(tmp, 'repo')
    subprocess.run(['cp', '-a', '/repo', tree], check=True)
    dst = os.path.join(V, 'seeded', p['id'])
    why = []
    try:
        for f, old, new in p['edits']:
            path = os.path.join(tree, f)
            s = open(path).read()
            if s.count(old) != 1:
                why.append('%s: %d matches of %r' % (f, s.count(old), old[:60]))
            s = s.replace(old, new, 1)
            open(path, 'w').write(s)
        demo = os.path.join(tmp, 'demo')
        os.mkdir(demo)
        open(demo + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(demo + '/demo.sh', 0o755)
        open(demo + '/common.py', 'w').write(COMMON)
        open(demo + '/demo.py', 'w').write(p['demo'].lstrip('\n'))
        diff = subprocess.run(['git', '-C', tree, 'diff'], stdout=subprocess.PIPE, check=True).stdout
        if not why:
            with_ = subprocess.run([demo + '/demo.sh'], cwd=tree, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            without = subprocess.run([demo + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if without.returncode != 0:
                why.append('demo fails on the unchanged tree:\n' + without.stdout.decode()[-400:])
            if with_.returncode == 0:
                why.append('demo passes with the change')
            elif b'BROKEN' not in with_.stdout:
                why.append('demo fails for another reason:\n' + with_.stdout.decode()[-400:])
            missing = stable - passed(tests(tree))
            if missing:
                why.append('tests fail: %s' % sorted(missing)[:5])
        if why:
            print('\n  '.join(['REJECTED ' + p['id']] + why), flush=True)
            return False
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(demo, dst)
        for x in os.listdir(dst):
            if x == '__pycache__':
                shutil.rmtree(os.path.join(dst, x))
        open(dst + '/patch.diff', 'wb').write(diff)
        json.dump({'property': p['property'], 'needs': ' '.join(p['needs'].split()),
                   'what_it_breaks': ' '.join(p['breaks'].split())}, open(dst + '/meta.json', 'w'), indent=1)
        print('kept', p['id'], flush=True)
        return True
    finally:
        shutil.rmtree(tmp)


def main():
    g = {}
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), g)
    only = sys.argv[2:]
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = next(set(base[k]) for k in ('stable', 'passed', 'pass', 'tests') if k in base)
    todo = [p for p in g['PLANTS'] if not only or p['id'] in only]
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        ok = list(ex.map(lambda p: one(p, stable), todo))
    return 0 if all(ok) else 1


if __name__ == '__main__':
    sys.exit(main())
