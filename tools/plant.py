"""plant.py ID PROP SPEC.py : make and confirm a planted bug in a scratch copy of /repo.

SPEC.py defines: edits = [(file, old, new)...], demo = "python source", needs, what_it_breaks.
Confirmed: compiles, stable tests pass, demo exits 0 without and nonzero with the change.
"""
import glob, json, os, runpy, shutil, subprocess, sys, tempfile
PY = '/opt/venv-pypy/bin/pypy3'
PROLOGUE = '''import os, sys, tempfile
sys.dont_write_bytecode = True
_tmp = tempfile.TemporaryDirectory()
W = _tmp.name
os.environ['HOME'] = os.path.join(W, 'home')
os.environ['LOGLEVEL'] = 'ERROR'
os.makedirs(os.environ['HOME'])
REPO = os.getcwd()
sys.path.insert(0, REPO)


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(text.encode() if isinstance(text, str) else text)


def bad(why):
    print('BROKEN:', why)
    sys.exit(1)


'''
SH = '''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken.  Everything happens in a temporary directory.
here=$(cd "$(dirname "$0")" && pwd)
exec timeout 250 /opt/venv-pypy/bin/pypy3 "$here/demo.py"
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)

def tests(d):
    w = tempfile.mkdtemp()
    env = dict(os.environ, HOME=w, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    try:
        r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=60', '--doctest-modules',
                '--continue-on-collection-errors', '--tb=no', '--show-capture=no', '-o', 'junit_family=xunit2',
                '--junitxml=' + w + '/r.xml'], d, env=env)
        o = w + '/o.json'
        sh(['/usr/bin/python3', '/opt/vp/results.py', o, 'junit:' + w + '/r.xml'], d)
        return json.load(open(o)), r.stdout.strip().split('\n')[-1]
    finally:
        shutil.rmtree(w)

def main():
    bid, prop, spec = sys.argv[1:4]
    s = runpy.run_path(spec)
    out = f'/verif/seeded/{bid}'
    d = tempfile.mkdtemp(prefix='plant') + '/repo'
    shutil.copytree('/repo', d, symlinks=True)
    try:
        os.makedirs(out, exist_ok=True)
        open(out + '/demo.py', 'w').write(PROLOGUE + s['demo'])
        open(out + '/demo.sh', 'w').write(SH)
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': s['needs'], 'what_it_breaks': s['what_it_breaks']},
                  open(out + '/meta.json', 'w'), indent=1)
        r0 = sh(['bash', out + '/demo.sh'], d)
        for f, o, n in s['edits']:
            p = d + '/codeprep/' + f
            t = open(p).read()
            assert t.count(o) == 1, (f, t.count(o), o)
            t = t.replace(o, n)
            compile(t, p, 'exec')
            open(p, 'w').write(t)
        diff = sh(['git', 'diff'], d).stdout
        open(out + '/patch.diff', 'w').write(diff)
        r1 = sh(['bash', out + '/demo.sh'], d)
        print('demo unchanged', r0.returncode, (r0.stdout + r0.stderr)[-300:] if r0.returncode else '')
        print('demo patched  ', r1.returncode, (r1.stdout + r1.stderr)[-300:])
        res, last = tests(d)
        base = json.load(open('/opt/vp/BASELINE.json'))
        def passed(x):
            return set(x.get('passed', []) if isinstance(x.get('passed'), list) else [k for k, v in x.items() if v in ('passed', True)])
        miss = [t for t in (base.get('stable') or base.get('passed') or base.get('tests') or []) if t not in passed(res)]
        print('tests', last, 'missing:', miss[:5], list(base)[:5])
        ok = r0.returncode == 0 and r1.returncode != 0 and not miss
        # lines added by our own fix commits may not be the changed ones
        own = sh(['git', 'diff', '--unified=0', 'bc03d2f', 'HEAD', '--', 'codeprep'], '/repo').stdout
        added = {l[1:].strip() for l in own.split('\n') if l.startswith('+') and not l.startswith('+++')}
        removed = [l[1:].strip() for l in diff.split('\n') if l.startswith('-') and not l.startswith('---')]
        print('touches own fix lines:', [l for l in removed if l and l in added][:3])
        c = sh(['python3', '/verif/check.py', '--repo=' + d, prop], '/verif')
        print('check', prop, 'exit', c.returncode, '\n'.join(l[:250] for l in c.stdout.strip().split('\n')[-3:]))
        print('CONFIRMED' if ok else 'NOT CONFIRMED')
    finally:
        shutil.rmtree(os.path.dirname(d))

main()
