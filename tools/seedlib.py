'''Confirms a planted bug in a scratch copy and writes /verif/seeded/<id>/.'''
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds for the demonstrated history; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
work=$(mktemp -d) && cd "$work" || exit 3
timeout 250 python "$here/demo.py"
rc=$?
cd / && /bin/rm -rf "$work"
exit $rc
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          universal_newlines=True, **kw)


def seed(sid, prop, edits, needs, breaks, demo, check=True):
    '''edits: [(file, old, new)]'''
    work = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    copy = os.path.join(work, 'repo')
    sh('cp -a /repo {}'.format(copy))
    out = os.path.join(VERIF, 'seeded', sid)
    try:
        for path, old, new in edits:
            p = os.path.join(copy, path)
            s = open(p).read()
            if s.count(old) != 1:
                print(sid, 'ERROR: {} occurrences in {}'.format(s.count(old), path))
                return False
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git -C {} diff'.format(copy)).stdout
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(out + '/demo.sh', 0o755)
        open(out + '/demo.py', 'w').write(demo.lstrip('\n'))
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
                  open(out + '/meta.json', 'w'), indent=1)
        ok = True
        r = sh('bash {}/demo.sh'.format(out), cwd='/repo')
        if r.returncode != 0:
            print(sid, 'ERROR: demo fails on the unchanged tree\n', r.stdout[-1500:])
            ok = False
        r = sh('bash {}/demo.sh'.format(out), cwd=copy)
        if r.returncode == 0:
            print(sid, 'ERROR: demo passes with the patch')
            ok = False
        msg = r.stdout.strip().splitlines()[-1:]
        r = sh('bash {}/tools/stable.sh {}'.format(VERIF, copy))
        if r.returncode != 0:
            print(sid, 'ERROR: stable tests', r.stdout[-300:])
            ok = False
        if not ok:
            shutil.rmtree(out)
            return False
        caught = 'unchecked'
        if check:
            r = sh('MC_NO_EVIDENCE=1 MC_REPO={} bash {}/check.sh {} quick'.format(copy, VERIF, prop))
            lines = [l for l in r.stdout.splitlines() if l.startswith(('VIOLATION', prop, 'key'))]
            caught = 'CAUGHT' if r.returncode == 1 else 'MISSED rc={}'.format(r.returncode)
            caught += ' | ' + ' | '.join(lines)[:260]
        print(sid, prop, caught, '| demo:', msg)
        return True
    finally:
        shutil.rmtree(work, ignore_errors=True)
