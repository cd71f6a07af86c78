#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the table in seeds.py, after confirming
each planted bug in a scratch copy: the patch applies, the stable tests pass,
the demonstration passes without and fails with it, and it changes lines of the
original repository.   mkseed.py [-c] [id...]    (-c: also run the check)"""

import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeds import SEEDS      # noqa: E402

BASE = '18dbe88'
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True,
                          env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1',
                                   **env))


def original(path, lines):
    """Are these lines (1-based) of /repo's HEAD from the base commit?"""
    r = sh(['git', '-C', '/repo', 'blame', '-s', '-l', 'HEAD', '--', path],
           '/repo').stdout.splitlines()
    base = sh(['git', '-C', '/repo', 'rev-list', BASE], '/repo').stdout.split()
    base = set(base)
    return [r[i - 1].split()[0].lstrip('^')[:39] in {b[:39] for b in base}
            for i in lines]


def one(s, check):
    d = tempfile.mkdtemp(prefix='mkseed.')
    try:
        w = d + '/w'
        shutil.copytree('/repo', w, ignore=shutil.ignore_patterns(
            '__pycache__', '.pytest_cache'))
        for f, old, new in s['edits']:
            p = os.path.join(w, 'solver', f)
            t = open(p).read()
            if t.count(old) != 1:
                return 'pattern occurs %d times in %s: %r' % (
                    t.count(old), f, old[:70])
            open(p, 'w').write(t.replace(old, new))
        patch = sh(['git', 'diff'], w).stdout
        # original lines only
        path, n, bad = None, 0, 0
        removed = []
        for ln in patch.splitlines():
            if ln.startswith('--- '):
                path = ln[6:]
            elif ln.startswith('@@'):
                n = int(ln.split()[1][1:].split(',')[0])
            elif ln.startswith('-') and not ln.startswith('---'):
                removed.append((path, n))
                n += 1
            elif ln.startswith(' '):
                n += 1
        ok = [original(p, [i])[0] for p, i in removed]
        note = '' if ok and all(ok) else ' (changes %d of %d lines that ' \
            'are not original)' % (ok.count(False), len(ok))
        out = os.path.join(ROOT, 'seeded', s['id'])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + '/patch.diff', 'w').write(patch)
        open(out + '/demo.py', 'w').write(
            'import os\nimport sys\n\nsys.dont_write_bytecode = True\n'
            'sys.path.insert(0, os.getcwd())\n\n' + s['demo'].strip() + '\n')
        open(out + '/demo.sh', 'w').write(
            '#!/bin/bash\nexec %s "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'
            % PY)
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'],
                   'what_it_breaks': s['breaks']},
                  open(out + '/meta.json', 'w'), indent=1)
        open(out + '/meta.json', 'a').write('\n')
        a = sh(['bash', out + '/demo.sh'], '/repo')
        b = sh(['bash', out + '/demo.sh'], w)
        t = sh(['timeout', '60', PY, '-m', 'pytest', '-q', '-x', '-p',
                'no:cacheprovider', 'solver'], w)
        msg = []
        if a.returncode:
            msg.append('DEMO FAILS ON HEAD ' + a.stderr[-300:])
        if not b.returncode:
            msg.append('DEMO PASSES WITH PATCH')
        if t.returncode:
            msg.append('TESTS FAIL')
        if check:
            c = sh([sys.executable, ROOT + '/check.py', s['property']], ROOT,
                   VERIF_REPO=w, SA_EVIDENCE=d + '/ev')
            msg.append('caught' if c.returncode == 1 and 'VIOLATION' in c.stdout else
                       'MISSED (%d)' % c.returncode)
        return ' '.join(msg or ['ok']) + note
    finally:
        shutil.rmtree(d)


def main(argv):
    check = '-c' in argv
    ids = [a for a in argv if a != '-c']
    todo = [s for s in SEEDS if not ids or any(
        i in s['id'] or i == s['property'] for i in ids)]
    with ThreadPoolExecutor(8) as ex:
        for s, r in zip(todo, ex.map(lambda s: one(s, check), todo)):
            print('%-24s %s  %s' % (s['id'], s['property'], r), flush=True)


main(sys.argv[1:])
