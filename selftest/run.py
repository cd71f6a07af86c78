#!/usr/bin/env python3
"""Self-test of the rules: edits of the analysed sources, each in a scratch
copy, that break a property (the check must say so) or keep all of them (the
checks must stay quiet).

    run.py [-t] [name-substring...]     -t: also run the repository's tests

No check reads this directory."""

import ast
import warnings
import glob
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)


def load():
    out = []
    for p in sorted(glob.glob(os.path.join(HERE, 'm_*.py'))):
        ns = {}
        exec(compile(open(p).read(), p, 'exec'), ns)
        out += ns['EDITS']
    return out


def apply(d, edits):
    for f, old, new in edits:
        p = os.path.join(d, 'solver', f)
        s = open(p).read()
        if s.count(old) != 1:
            return 'pattern occurs %d times in %s: %r' % (
                s.count(old), f, old[:60])
        s = s.replace(old, new)
        ast.parse(s)
        open(p, 'w').write(s)


def one(e, tests):
    name, props, breaks, edits = e
    d = tempfile.mkdtemp(prefix='selftest.')
    try:
        shutil.copytree('/repo/solver', d + '/solver')
        err = apply(d, edits)
        if err:
            return name, 'BROKEN EDIT ' + err
        res = []
        good = True
        if tests:
            r = subprocess.run(
                ['timeout', '60', '/opt/venv/bin/python', '-m', 'pytest', '-q', '-x',
                 '-p', 'no:cacheprovider', 'solver'], cwd=d,
                capture_output=True, text=True,
                env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
            if r.returncode:
                res.append('TESTS-FAIL')
        for p in props:
            r = subprocess.run(
                ['timeout', '900', sys.executable,
                 os.path.join(ROOT, 'check.py'), p],
                capture_output=True, text=True,
                env=dict(os.environ, VERIF_REPO=d, SA_EVIDENCE=d + '/ev', SA_JOBS='1'))
            want = 1 if breaks else 0
            und = r.stdout.count('undecided: ')
            ok = r.returncode == want
            good &= ok
            res.append('%s:%s%s' % (p, r.returncode if ok else
                                    '%d(!)' % r.returncode,
                                    '/%du' % und if und else ''))
            if not ok or os.environ.get('SHOW'):
                res.append('\n      ' + r.stdout.strip()[-700:].replace(
                    '\n', '\n      ') + r.stderr[-300:])
        return name, ('ok   ' if good else 'MISS ' if breaks else
                      'ALARM ') + ' '.join(res)
    finally:
        shutil.rmtree(d)


def main(argv):
    tests = '-t' in argv
    pats = [a for a in argv if a != '-t']
    es = [e for e in load() if not pats or any(
        p in e[0] or p in e[1] for p in pats)]
    with ThreadPoolExecutor(8) as ex:
        bad = 0
        for name, r in ex.map(lambda e: one(e, tests), es):
            print('%-34s %s' % (name, r), flush=True)
            bad += not r.startswith('ok')
    print('%d of %d as expected' % (len(es) - bad, len(es)))


if __name__ == '__main__':
    main(sys.argv[1:])
