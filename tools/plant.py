"""Development aid: turn a planted-bug definition into seeded/<id>/ after
verifying it in a scratch copy (patch applies, tests pass, demo distinguishes).

  python tools/plant.py DEFS.py [id ...]

DEFS.py defines BUGS = [dict(id=, property=, edits=[(file, old, new), ...],
needs=, breaks=, demo=<python source>), ...]
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero otherwise (cwd: the repository)
here="$(cd "$(dirname "$0")" && pwd)"
MPLBACKEND=Agg PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def one(b):
    d = tempfile.mkdtemp(prefix='plant', dir='/tmp')
    wt = os.path.join(d, 'repo')
    try:
        shutil.copytree('/repo', wt, symlinks=True)
        demo = os.path.join(d, 'demo')
        os.makedirs(demo)
        with open(os.path.join(demo, 'demo.py'), 'w') as f:
            f.write(b['demo'].lstrip('\n'))
        with open(os.path.join(demo, 'demo.sh'), 'w') as f:
            f.write(SH)
        os.chmod(os.path.join(demo, 'demo.sh'), 0o755)
        r = sh('bash %s/demo.sh' % demo, wt)
        if r.returncode != 0:
            return 'demo fails on the unchanged tree:\n' + r.stdout[-1500:]
        for path, old, new in b['edits']:
            p = os.path.join(wt, path)
            s = open(p).read()
            if s.count(old) != 1:
                return '%s: %d matches of %r' % (path, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git diff', wt).stdout
        t = sh('cd %s && /opt/venv/bin/python -W ignore -m pytest -q '
               'menpofit 2>&1 | tail -3' % wt, wt,
               env=dict(os.environ, PYTHONPATH=wt))
        if '11 passed' not in t.stdout or 'failed' in t.stdout:
            return 'tests: ' + t.stdout
        r = sh('bash %s/demo.sh' % demo, wt)
        if r.returncode == 0:
            return 'demo passes with the patch'
        out = os.path.join(VERIF, 'seeded', b['id'])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        for f in ('demo.py', 'demo.sh'):
            shutil.copy(os.path.join(demo, f), os.path.join(out, f))
        json.dump({'property': b['property'], 'needs': b['needs'],
                   'what_it_breaks': b['breaks']},
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        # would the check notice?
        env = dict(os.environ, PYTHONPATH=wt, VERIF_REPO=wt, VERIF_SEED='1')
        c = sh('./run %s quick' % b['property'], VERIF, env=env)
        lines = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
        ok = c.returncode == 1 and bool(lines)
        pj = os.path.join(VERIF, 'tools', 'design', 'planted.json')
        pl = json.load(open(pj)) if os.path.exists(pj) else {}
        pl[b['id']] = ('caught by %s' % b['property'] if ok else
                       'missed by %s' % b['property'])
        json.dump(pl, open(pj, 'w'), indent=1, sort_keys=True)
        return 'ok; check: %s %s' % (
            'CAUGHT' if ok else 'MISSED rc=%d'
            % c.returncode, c.stdout.strip().splitlines()[-2:][0][:200])
    finally:
        shutil.rmtree(d)


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    for b in bugs:
        if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]:
            continue
        print(b['id'], one(b), flush=True)


main()
