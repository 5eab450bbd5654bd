"""mkseed.py < spec.py: spec defines S = [dict(id, prop, file, old, new | edits=[(file, old, new)], demo, needs, breaks)]; writes
/verif/seeded/<id>/ and confirms each on a scratch copy of /repo: the demo passes there, fails with the patch, and the stable tests still
pass with the patch.  With CHECK=1 it also runs the property's check against the patched copy."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ns = {}
exec(sys.stdin.read(), ns)
base = json.load(open('/opt/vp/BASELINE.json'))['stable']


def sh(cmd, cwd=None, **env):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=cwd, env=dict(os.environ, **env), stdin=subprocess.DEVNULL)


def one(s):
    d = '/verif/seeded/' + s['id']
    work = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    repo = work + '/repo'
    try:
        sh('cp -a /repo %s && git -C %s checkout -q -- . && mkdir %s/home && : > %s/home/.pfa' % (repo, repo, work, work))
        os.makedirs(d, exist_ok=True)
        env = dict(PYTHONPATH=repo, VC_REPO=repo, HOME=work + '/home', PYTHONDONTWRITEBYTECODE='1')
        open(d + '/demo.py', 'w').write(s['demo'].lstrip())
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n# exits 0 when the property holds on this input, 1 when it does not\nexport PYTHONWARNINGS=ignore PYTHONDONTWRITEBYTECODE=1\n'
                                        'exec timeout 200 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        good = sh('bash %s/demo.sh' % d, cwd=repo, **env)
        for f, old, new in s.get('edits') or [(s['file'], s['old'], s['new'])]:
            p = repo + '/' + f
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                return '%s: old text occurs %d times in %s' % (s['id'], n, f)
            open(p, 'w').write(t.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % repo).stdout)
        bad = sh('bash %s/demo.sh' % d, cwd=repo, **env)
        sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -W ignore -o python_files='test*.py' "
           '-o junit_family=xunit2 --junitxml=%s/junit.xml test; /usr/bin/python3 /opt/vp/results.py %s/out.json junit:%s/junit.xml' % (work, work, work), cwd=repo, **env)
        failed = set(base) - set(json.load(open(work + '/out.json'))['passed'])
        res = ''
        if os.environ.get('CHECK'):
            r = sh('bash /verif/check.sh %s quick' % s['prop'], VC_REPO=repo, VC_EVIDENCE=work)
            res = '%s check rc %d %s\n' % (s['id'], r.returncode, [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')])
        res += '%s demo with patch rc=%d without rc=%d stable tests broken: %d' % (s['id'], bad.returncode, good.returncode, len(failed))
        if not bad.returncode or good.returncode or failed:
            res += '\n   NOT VALID %s %s %s' % (bad.stdout[-300:], good.stdout[-300:], sorted(failed)[:3])
        return res
    finally:
        shutil.rmtree(work)


with ThreadPoolExecutor(int(os.environ.get('JOBS', '2'))) as ex:
    for r in ex.map(one, ns['S']):
        print(r, flush=True)
