"""Histories of small constraint graphs: many sequences of public operations
at once, compared with what a constraint graph should do."""

import copy

from ..logic import *          # noqa: F401,F403
from ..content import Content, Entry
from ..engine import Dead
from ..frontend import Module
from .mgsmall import Histories

NAMES = ('a', 'b', 'c', 'z', '')

# a constraint as users write them
STUB = """
from %s import Constraint


class Some_(Constraint):
    def __init__(self, *names):
        self.names = names

    def variables(self):
        return list(self.names)

    def satisfied(self, mapping):
        return True

    def __str__(self):
        return 'some'
"""

CONS = {
    'abc': ('PlusConstraint', tuple('abc')),
    'bab': ('PlusConstraint', tuple('bab')),
    'cz': ('Some_', ('c', 'z')),
    'none': ('Some_', ()),
    'a,': ('Some_', ('a', '')),
}


class World:
    __slots__ = ('vars', 'cons')
    open = False

    def __init__(self, vars=frozenset(), cons=frozenset()):
        self.vars, self.cons = vars, cons


class ConHistories(Histories):
    cls = 'ConstraintGraph'

    def program(self, prog):
        p = copy.copy(prog)
        p.mods = dict(prog.mods)
        p.mods['users_'] = Module('users_', 'users_.py',
                                  STUB % prog.find_class(
                                      'Constraint').mod.name)
        return p

    def first(self):
        return World()

    def objects(self, st, used):
        self.model = self
        for k, (c, args) in CONS.items():
            if k in used:
                o = self.good(self.lab.new(c, *[Const(x) for x in args],
                                           st=st), 'a constraint')
                st, self.objs[k] = o.st, o.val
        return st

    def step(self, st, ws, op, args, b, what, judge=True):
        self.model = Model
        return Histories.step(self, st, ws, op, args, b, what, judge)

    def observe(self, st, ws, what, deep=True):
        live = self.E.pcbits(st.pc)
        if not live:
            return
        t = st.fork()
        names = list(self.objs)
        on = lambda i, m, x: m in ws[i].cons and x in CONS[m][1]  # noqa: E731
        self.lists(t, what, 'variables', (), NAMES,
                   lambda i, x: x in ws[i].vars)
        self.lists(t, what, 'constraints', (), names,
                   lambda i, x: x in ws[i].cons)
        for x in NAMES:
            self.lists(t, what, 'get_constraints_on', (self.value(x),),
                       names, lambda i, m: on(i, m, x), repr(x))
        if not deep:
            return
        for xs in ((), ('a',), ('a', 'b'), ('b', 'b'), ('c', 'a'), ('z', 'b'),
                   ('a', 'b', 'c'), ('a', 'z', 'b'), ('', 'a')):
            v = TupleV([self.value(x) for x in xs])
            for q, some in (('get_constraints_on_all', all),
                            ('get_constraints_on_any', any)):
                self.lists(t, what, q, (v,), names, lambda i, m: bool(
                    xs) and some(on(i, m, x) for x in xs), ', '.join(xs))


class Model:
    @staticmethod
    def step(w, op, args):
        if op == 'add_variable':
            return World(w.vars | {args[0]}, w.cons), None
        if op == 'add_constraint':
            return World(w.vars | set(CONS[args[0]][1]) if args[0] not in
                         w.cons else w.vars, w.cons | {args[0]}), None
        if op == 'rem_constraint':
            return World(w.vars, w.cons - {args[0]}), None
        if op == 'rem_variable':
            return World(w.vars - {args[0]}, frozenset(
                m for m in w.cons if args[0] not in CONS[m][1])), None
        return w, None


V, A, R, D = 'add_variable', 'add_constraint', 'rem_variable', \
    'rem_constraint'
ADDED = [(V, ('a',), True), (A, ('abc',), True), (A, ('bab',), True),
         (A, ('cz',), True), (A, ('none',), True), (A, ('a,',), True)]
GONE = [(A, ('abc',), True), (A, ('cz',), False), (D, ('abc',), True),
        (A, ('bab',), True), (R, ('b',), True), (A, ('abc',), True)]


def warm(h, st):
    for q, xs in [('variables', ()), ('constraints', ())] + [
            ('get_constraints_on', (Const(x),)) for x in NAMES] + [
                (q, (TupleV([Const(x) for x in xs]),)) for q in (
                    'get_constraints_on_all', 'get_constraints_on_any')
                for xs in ('ab', 'a', 'cz')]:
        o = h.call(q, *xs, st=st)
        if o.st is not None:
            st = o.st
            st.pc = h.E.onepc(st.pc)
    return st


def battery(ck, script, ops, then=(), deep=True):
    ck.uses = {a for _, args in ops + list(then) for a in args}
    h = ConHistories(ck, script)
    st, ws = warm(h, h.st), h.ws
    h.observe(st, ws, 'at first', deep)
    for op, args in ops:
        try:
            t, w = h.step(st, ws, op, args, h.E.all, '')
        except Dead:
            continue
        at = 'after ' + h.text(op, args)
        h.observe(t, w, at, deep)
        t = warm(h, t)
        for o2, a2 in then:
            try:
                u, x = h.step(t, w, o2, a2, h.E.all, ' ' + at)
            except Dead:
                continue
            h.observe(u, x, 'after ' + h.text(o2, a2) + ' ' + at, deep)


OPS = [(V, ('a',)), (V, ('z',)), (A, ('abc',)), (A, ('bab',)), (A, ('cz',)),
       (D, ('abc',)), (D, ('bab',)), (D, ('none',)), (R, ('a',)),
       (R, ('b',)), (R, ('c',)), (R, ('',))]
THEN = [(A, ('abc',)), (R, ('a',)), (D, ('cz',)), (V, ('b',))]


def rules(prop, deep):
    def c(run):
        for name, script in (('history', ADDED), ('again', GONE)):
            def body(ck, script=script):
                th = ck.run.tier == 'thorough'
                battery(ck, script, OPS, OPS if th else THEN, deep)
            run.ob('%s.%s' % (prop, name), 'constraints and variables are '
                   'registered and listed as they should be, whatever was '
                   'done and asked before', 'ConstraintGraph', body)
    return c


c14 = rules('C14', False)


def c15(run):
    rules('C15', True)(run)

    def own(ck):
        ck.uses = set()
        h = ConHistories(ck, ADDED)
        E = h.E
        for q, xs in [('get_constraints_on', (Const('a'),)),
                      ('get_constraints_on', (Const('z'),)),
                      ('get_constraints_on_all', (TupleV((Const('a'),)),)),
                      ('get_constraints_on_any', (TupleV((Const('c'),)),)),
                      ('get_constraints_on_all', (TupleV(()),))]:
            o = h.call(q, *xs, st=h.st.fork())
            if o.st is None:
                continue

            def spoil(t, o=o):
                def one(v, s):
                    C = E.coll(v, s)
                    if isinstance(v, Ref) and C.kind in ('list', 'set'):
                        E.method(v, 'append' if C.kind == 'list' else 'add',
                                 [Const('spoilt')], {}, s, None)
                    return NONE
                return E.dist(o.val, t, one)
            t = h.lab.run(spoil, o.st)
            if t.st is not None:
                h.observe(t.st, h.ws, 'after the result of %s was changed'
                          % q)

        def kept(n, name):
            """The selection is as before."""
            def go(t):
                v = E.alloc(t, Content('list', [
                    Entry('add', (), True, (Const(x),)) for x in n]), 'sel')
                go.ref = v
                f = E.getattr_(h.g, name, t, None)
                return E.call(f, [v], {}, t, None)
            o = h.lab.run(go, h.st.fork())
            if o.st is None:
                return
            pos = E.as_positions(E.content(go.ref, o.st))
            b = E.pcbits(o.st.pc)
            for i, x in enumerate(n):
                same = 0
                for bb, y in (pos[i].values() if i < len(pos) else ()):
                    if y.key() == Const(x).key():
                        same |= bb
                h.bad(b & ~same, '%s changes the selection' % name)
            if len(pos) > len(n):
                h.bad(b & E.present(pos[len(n)]), '%s changes the selection'
                      % name)
        for name in ('get_constraints_on_all', 'get_constraints_on_any'):
            for n in ('ab', 'bb', 'cza', ''):
                kept(n, name)
    run.ob('C15.own', 'what is done to a result changes neither the graph '
           'nor later answers, and selections stay as they are',
           'ConstraintGraph', own)


RULES = {'C14': c14, 'C15': c15}
