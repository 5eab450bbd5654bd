"""refactor.py FILE PROPERTY...: apply the behaviour-preserving edits of FILE to a scratch copy of /repo, run the stable tests there and the
checks of the properties against it; everything has to stay quiet."""
import json, os, shutil, subprocess, sys, tempfile


def sh(cmd, cwd=None, **env):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=cwd, env=dict(os.environ, **env), stdin=subprocess.DEVNULL)


ns = {}
exec(open(sys.argv[1]).read(), ns)
base = json.load(open('/opt/vp/BASELINE.json'))['stable']
work = tempfile.mkdtemp(prefix='refactor.', dir='/tmp')
repo = work + '/repo'
try:
    sh('cp -a /repo %s && git -C %s checkout -q -- . && mkdir %s/home && : > %s/home/.pfa' % (repo, repo, work, work))
    env = dict(PYTHONPATH=repo, VC_REPO=repo, HOME=work + '/home', PYTHONDONTWRITEBYTECODE='1', VC_EVIDENCE=work)
    for f, old, new in ns['E']:
        p = repo + '/' + f
        t = open(p).read()
        if t.count(old) == 0:     # blank lines do not matter
            t = '\n'.join(l for l in t.split('\n') if l.strip()) + '\n'
            old = '\n'.join(l for l in old.split('\n') if l.strip())
            new = new.rstrip('\n')
        if t.count(old) != 1:
            print('old text occurs %d times in %s: %s' % (t.count(old), f, old[:200]))
            sys.exit(1)
        open(p, 'w').write(t.replace(old, new))
    if not os.environ.get('NOTEST'):
        sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -W ignore -o python_files='test*.py' "
           '-o junit_family=xunit2 --junitxml=%s/junit.xml test; /usr/bin/python3 /opt/vp/results.py %s/out.json junit:%s/junit.xml' % (work, work, work), cwd=repo, **env)
        print('stable tests broken:', sorted(set(base) - set(json.load(open(work + '/out.json'))['passed']))[:5])
    for P in sys.argv[2:]:
        r = sh('bash /verif/check.sh %s quick' % P, **env)
        print(P, 'rc', r.returncode, '\n' + r.stdout[-int(os.environ.get('H', '1500')):] if r.returncode else r.stdout.splitlines()[-1][:200], flush=True)
finally:
    shutil.rmtree(work)
