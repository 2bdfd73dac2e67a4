"""Confirms a planted bug: seed.py NAME  (reads /tmp/seeds/NAME/{edit.py,demo.sh,meta.json}); writes /verif/seeded/NAME.

edit.py defines EDITS = [(file, old, new), ...] relative to the repo root."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True)


def main(name):
    src = f'/tmp/seeds/{name}'
    ns = {}
    exec(open(f'{src}/edit.py').read(), ns)
    work = tempfile.mkdtemp(prefix='seed_')
    try:
        repo = f'{work}/repo'
        sh(f'git clone -q /repo {repo}')
        for f, old, new in ns['EDITS']:
            p = f'{repo}/{f}'
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', cwd=repo).stdout
        assert diff
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        for k in ('PYTHONPATH', 'PYTEST_ADDOPTS'):
            env.pop(k, None)
        r = sh(f'/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:xdist --disable-warnings --timeout=300 '
               f'--continue-on-collection-errors -o junit_family=xunit2 --junitxml={work}/j.xml', cwd=repo, env=env)
        bad = []
        tot = 0
        for tc in ET.parse(f'{work}/j.xml').getroot().iter('testcase'):
            tot += 1
            if any(c.tag in ('failure', 'error') for c in tc):
                bad.append(tc.get('classname') + '::' + tc.get('name'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        stable = json.dumps(base)
        badstable = [b for b in bad if b.split('::')[-1] in stable]
        print(name, 'tests', tot, 'failing', len(bad), 'of which maybe stable:', badstable[:5])
        if badstable:
            return 1
        # demo: sees repo as cwd
        demo = f'{work}/demo'
        shutil.copytree(src, demo, ignore=shutil.ignore_patterns('edit.py', 'meta.json'))
        # the demo names /repo: run it against the changed copy through a private mount-free substitution of the path
        d1 = sh(f'bash {demo}/demo.sh', cwd=repo, env=env)
        d0 = sh(f'bash {demo}/demo.sh', cwd='/repo', env=env)
        print('demo on clean:', d0.returncode, ' demo on bug:', d1.returncode)
        if d0.returncode != 0 or d1.returncode == 0:
            print(d0.stdout[-800:], d0.stderr[-800:], '\n---bug', d1.stdout[-800:], d1.stderr[-800:])
            return 1
        out = f'{V}/seeded/{name}'
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(src, out, ignore=shutil.ignore_patterns('edit.py'))
        open(f'{out}/patch.diff', 'w').write(diff)
        json.load(open(f'{out}/meta.json'))
        print('kept', out)
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


sys.exit(max(main(n) for n in sys.argv[1:]))
