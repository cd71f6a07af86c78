"""Obligations of a property, their verdicts, the evidence file."""

import json
import os
import pickle
import select
import signal
import sys
import time
import traceback

from .frontend import Program, AnchorMissing
from .engine import Broken, Unsupported, Dead
from .decide import Verdict, decide, PROVED, UNKNOWN, REFUTED
from .lab import Lab
from .logic import *          # noqa: F401,F403
from . import logic as L

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Timeout(Exception):
    pass


class Obligation:
    def __init__(self, oid, rule, where):
        self.id, self.rule, self.where = oid, rule, where
        self.status = PROVED
        self.facts = 0          # conditions decided
        self.notes = []
        self.wall = 0.0


class Checker:
    """Handed to the body of an obligation."""

    def __init__(self, run, ob, shape=None):
        self.run, self.ob = run, ob
        self.shape = shape
        self.prog = run.prog

    def lab(self):
        lb = Lab(self.prog)
        lb.shape = self.shape
        self.run.labs.append(lb)
        return lb

    def note(self, v, what):
        self.ob.facts += 1
        if v.status == PROVED:
            return True
        if v.status == REFUTED or self.ob.status == PROVED:
            self.ob.status = v.status
        self.ob.notes.append((v.status, what, v.why))
        return False

    def valid(self, lab, pre, goal, what):
        """`goal` holds in every state satisfying `pre`."""
        return self.note(decide(lab.eng, pre, goal), what)

    def holds(self, lab, pre, strong, weak, what):
        """Discharged if `strong` holds, an alarm only if even `weak` does
        not (thresholds may differ by less than any user could tell)."""
        v = decide(lab.eng, pre, strong)
        if v.status != PROVED:
            w = decide(lab.eng, pre, weak)
            v = w if w.status == REFUTED else Verdict(
                UNKNOWN, v.why if v.status == UNKNOWN else
                'differs within the thresholds')
        return self.note(v, what)

    def iff(self, lab, pre, got, want, what):
        return self.valid(lab, pre, Iff(got, want), what)

    def never(self, lab, pre, bad, what):
        return self.valid(lab, pre, Not(bad), what)

    def fail(self, what, why=''):
        self.note(Verdict(REFUTED, why), what)

    def unknown(self, what, why=''):
        self.note(Verdict(UNKNOWN, why), what)

    def ok(self, n=1):
        self.ob.facts += n

    def that(self, cond, what, why=''):
        if cond:
            self.ob.facts += 1
        else:
            self.fail(what, why)
        return cond


class Run:
    shapes = ()

    def __init__(self, prop, tier='quick', seed=1):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.prog = Program()
        self.obs = []
        self.labs = []
        self.todo = []
        self.visited = set()
        self.sites = 0
        self.t0 = time.time()
        self.coverage = {}
        self.samples = []

    def where(self, qual):
        """file:line of `Class.method`, `Class` or `function`."""
        try:
            if '.' in qual:
                c, m = qual.split('.', 1)
                cls = self.prog.find_class(c)
                r = self.prog.find_member(cls, m)
                if r is None:
                    raise AnchorMissing(qual)
                mod, node = r[0].mod, r[2]
            else:
                try:
                    cls = self.prog.find_class(qual)
                    mod, node = cls.mod, cls.node
                except AnchorMissing:
                    mod, node = self.prog.find_func(qual)
        except AnchorMissing:
            raise
        return '%s:%d %s' % (os.path.relpath(mod.path, self.prog.root),
                             getattr(node, 'lineno', 0), qual)

    def ob(self, oid, rule, where, body, seconds=100, shapes=None):
        """An obligation to decide; see `decide_all`."""
        if only and not any(x in oid for x in only.split('|')):
            return
        ob = Obligation(oid, rule, self.where(where) if where else '')
        self.obs.append(ob)
        self.todo.append((ob, body, seconds, shapes))

    def decide_all(self):
        """The obligations are independent of each other: each is decided in
        a process of its own, a few at a time."""
        todo, self.todo = self.todo, []
        jobs = int(os.environ.get('SA_JOBS') or min(8, os.cpu_count() or 1))
        if debug or jobs < 2 or len(todo) < 2:
            for ob, body, seconds, shapes in todo:
                self.one(ob, body, seconds, shapes)
                self.gather()
                self.show(ob)
            return
        sys.stdout.flush()
        live = {}
        failed = None
        todo.reverse()
        while todo or live:
            while todo and len(live) < jobs and not failed:
                ob, body, seconds, shapes = todo.pop()
                r, w = os.pipe()
                pid = os.fork()
                if not pid:
                    os.close(r)
                    self.child(w, ob, body, seconds, shapes)
                os.close(w)
                live[r] = (pid, ob, [])
            ready, _, _ = select.select(list(live), [], [])
            for r in ready:
                pid, ob, data = live[r]
                d = os.read(r, 1 << 20)
                if d:
                    data.append(d)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del live[r]
                try:
                    res = pickle.loads(b''.join(data))
                except Exception:
                    self.undecided(ob, 'budget exhausted (process ended)')
                    continue
                if isinstance(res, str):
                    failed = res
                    todo = []
                    continue
                ob.status, ob.facts, ob.notes, ob.wall, vis, n = res
                self.visited |= vis
                self.sites += n
                self.show(ob)
        if failed:
            raise AnchorMissing(failed)

    def child(self, w, ob, body, seconds, shapes):
        try:
            try:
                self.one(ob, body, seconds, shapes)
                self.gather()
                res = (ob.status, ob.facts,
                       [(s, str(a), str(y)[:20000]) for s, a, y in ob.notes],
                       ob.wall, self.visited, self.sites)
            except AnchorMissing as e:
                res = str(e)
            with os.fdopen(w, 'wb') as fh:
                pickle.dump(res, fh)
        finally:
            os._exit(0)

    def gather(self):
        for lb in self.labs:
            self.visited |= lb.eng.visited
            self.sites += lb.eng.sites
        self.labs = []

    def show(self, ob):
        if debug or verbose:
            print('%-8s %5.1fs %-28s %s' % (ob.status, ob.wall, ob.id,
                                            ob.where))
            for s, w, y in ob.notes:
                print('      %s: %s -- %s' % (s, w, str(y)[:1500]))

    def one(self, ob, body, seconds, shapes):
        """Decide one obligation."""
        t = time.time()
        seconds = int(max(2, min(seconds, 600 - (t - self.t0))))

        def alarm(*_):
            raise Timeout()
        old = signal.signal(signal.SIGALRM, alarm)
        signal.alarm(seconds)
        try:
            shapes = self.shapes if shapes is None else shapes
            nl = len(self.labs)
            try:
                body(Checker(self, ob))
                if ob.status == PROVED and any(
                        lb.eng.memoised and not lb.from_start
                        for lb in self.labs[nl:]):
                    raise Unsupported('results are remembered from earlier '
                                      'calls')
                if ob.status == UNKNOWN:
                    self.shaped(ob, body, shapes)
            except Broken as e:
                Checker(self, ob).fail(e.what, e.why)
            except Unsupported:
                if ob.status != REFUTED:
                    self.shaped(ob, body, shapes)
                if ob.status != REFUTED:
                    raise
            if ob.facts == 0:
                raise Unsupported('nothing to decide')
        except AnchorMissing:
            raise
        except Unsupported as e:
            self.undecided(ob, 'outside of the abstraction: %s%s' % (
                e.why, ' (line %s)' % e.node.lineno
                if getattr(e.node, 'lineno', None) else ''))
        except Dead:
            self.undecided(ob, 'no execution reaches the end')
        except (L.Budget, Timeout, RecursionError) as e:
            if debug:
                traceback.print_exc(limit=-12)
            self.undecided(ob, 'budget exhausted (%s)' % type(e).__name__)
        except Exception as e:
            if debug:
                traceback.print_exc()
            self.undecided(ob, 'analysis error %s: %s' % (
                type(e).__name__, e))
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        ob.wall = time.time() - t

    def shaped(self, ob, body, shapes):
        """Where the general domain cannot decide: partition the entry states
        by size and look at the small ones, element by element."""
        for k in shapes:
            o2 = Obligation(ob.id, ob.rule, ob.where)
            try:
                body(Checker(self, o2, k))
            except (Unsupported, Broken, Dead, L.Budget,
                    RecursionError) as e:
                if debug:
                    print('    shape %d: %r' % (k, e))
                continue
            if debug:
                print('    shape %d: %s' % (k, o2.notes))
            if o2.status == REFUTED:
                ob.status = REFUTED
                ob.notes += [(s, w + ' (%d elements)' % k, y)
                             for s, w, y in o2.notes if s == REFUTED]
                return

    def undecided(self, ob, why):
        if ob.status != REFUTED:
            ob.status = UNKNOWN
        ob.notes.append((UNKNOWN, ob.rule, why))

    # ------------------------------------------------------------- results

    def finish(self, known=()):
        bad = [o for o in self.obs if o.status == REFUTED]
        und = [o for o in self.obs if o.status == UNKNOWN]
        viol = []
        for o in bad:
            k = [x for x in known if x[0] == o.id]
            if k:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k[0][1]))
            else:
                viol.append(o)
        cov = {
            'explanation':
                'Static analysis of the current sources: every obligation '
                'below is decided over the whole input space of the analysed '
                'functions (abstract interpretation / dataflow over the syntax '
                'tree; nothing is executed). `discharged` obligations hold in '
                'every abstract state, `undecided` ones are outside of the '
                'abstraction and raise no alarm.',
            'obligations': len(self.obs),
            'discharged': sum(o.status == PROVED for o in self.obs),
            'undecided': len(und),
            'refuted': len(bad),
            'conditions_decided': sum(o.facts for o in self.obs),
            'functions_analysed': sorted(self.visited),
            'call_sites_followed': self.sites,
            'files': self.prog.files,
            'rules': [{'id': o.id, 'rule': o.rule, 'where': o.where,
                       'status': o.status, 'conditions': o.facts,
                       'wall_s': round(o.wall, 2),
                       **({'notes': [' -- '.join(map(str, n))[:600]
                                     for n in o.notes]}
                          if o.notes else {})} for o in self.obs],
        }
        cov.update(self.coverage)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed,
              'level': 'other', 'coverage': cov,
              'assumptions': ASSUMPTIONS,
              'wall_s': round(time.time() - self.t0, 3),
              'violations': len(viol)}
        d = os.environ.get('SA_EVIDENCE') or os.path.join(
            VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, self.prop + '.json')
        with open(path, 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
        for o in und:
            print('undecided: %s (%s) %s: %s' % (
                o.id, o.where, o.rule, o.notes[-1][2] if o.notes else ''))
        for o in viol:
            print('%s: rule %s broken: %s' % (o.where, o.id, o.rule))
            for s, w, y in o.notes:
                if s == REFUTED:
                    print('    %s; %s' % (w, str(y)[:1500]))
        if viol:
            rp = os.path.join(d, self.prop + '.violation.txt')
            with open(rp, 'w') as fh:
                for o in viol:
                    fh.write('%s: rule %s broken: %s\n' % (
                        o.where, o.id, o.rule))
                    for s, w, y in o.notes:
                        fh.write('    %s: %s; %s\n' % (s, w, y))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        print('%s: %d obligations, %d discharged, %d undecided' % (
            self.prop, len(self.obs), cov['discharged'], len(und)))
        return 0


ASSUMPTIONS = [
    'Values used as vertices, variables and keys are hashable and have a '
    'lawful, side-effect free equality.',
    'User supplied methods, predicates and values do not reach into the '
    'private state of the objects that use them.',
    'Python and numpy primitives behave as documented; real arithmetic stands '
    'for floating point arithmetic.',
]

debug = bool(os.environ.get('SA_DEBUG'))
verbose = bool(os.environ.get('SA_VERBOSE'))
only = os.environ.get('SA_ONLY')
