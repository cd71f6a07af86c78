#!/usr/bin/env python3
"""check.py <property>: decide one property of /repo's current sources."""

import importlib
import os
import pkgutil
import sys

sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from sa import report                     # noqa: E402
from sa.frontend import AnchorMissing     # noqa: E402
import sa.rules as rules                  # noqa: E402


def registry():
    out = {}
    for m in pkgutil.iter_modules(rules.__path__):
        mod = importlib.import_module('sa.rules.' + m.name)
        for k, f in getattr(mod, 'RULES', {}).items():
            out.setdefault(k, []).append(f)
    return out


def known(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            w = line.strip().split(None, 3)
            # finding: property=<id> obligation=<id> <what fails>
            if len(w) == 4 and w[0] == 'finding:' and \
                    w[1] == 'property=' + prop:
                out.append((w[2].split('=', 1)[1], w[3]))
    return out


def main(argv):
    prop = argv[1]
    reg = registry()
    if prop not in reg:
        print('no such property: ' + prop)
        return 2
    try:
        tier = 'thorough' if '--thorough' in argv[2:] else \
            os.environ.get('VERIF_TIER', 'quick')
        run = report.Run(prop, tier,
                         int(os.environ.get('VERIF_SEED', '1')))
        for f in reg[prop]:
            f(run)
        run.decide_all()
    except (AnchorMissing, SyntaxError) as e:
        print('analysis broken: %s: %s' % (type(e).__name__, e))
        return 2
    return run.finish(known(prop))


if __name__ == '__main__':
    try:
        rc = main(sys.argv)
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2          # an error of the check, no verdict
    sys.exit(rc)
