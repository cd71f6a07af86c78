"""Histories of small method graphs: many sequences of public operations at
once, compared with what a method graph should do.

No assumption is made on how method graphs are stored, and whatever an
earlier operation left behind is seen by the later ones."""

import copy
import itertools

from ..logic import *          # noqa: F401,F403
from ..engine import Unsupported, Dead
from ..finite import FiniteMachine, Endless
from ..frontend import Module
from ..lab import Lab, start

REFUSED = {'det': 'MethodGraphDetermineException',
           'cyc': 'MethodGraphCycleException'}


class Meth:
    """One of the methods of the package, as the model sees it."""

    def __init__(self, cls, inputs, outputs, fn, args, old=False):
        self.cls, self.inputs, self.outputs = cls, inputs, outputs
        self.fn, self.args, self.old = fn, args, old


class World:
    """One method graph of the model (immutable from outside)."""

    __slots__ = ('vals', 'mets', 'chg', 'open')

    def __init__(self, vals=(), mets=(), chg=frozenset(), open_=False):
        self.vals, self.mets, self.chg = dict(vals), tuple(mets), chg
        # the order of the steps of a propagation shows in the result, or it
        # is not said what happens
        self.open = open_

    def key(self):
        return (tuple(sorted(self.vals.items(), key=repr)), self.mets,
                self.chg, self.open)

    def but(self, **kw):
        w = World(self.vals, self.mets, self.chg, self.open)
        for k, v in kw.items():
            setattr(w, k, v)
        return w


class Model:
    def __init__(self, meths):
        self.meths = meths
        self.memo = {}

    def run(self, vals, chg, m):
        m = self.meths[m]
        xs = [vals[v] for v in m.inputs]
        vals, chg = dict(vals), set(chg)
        none = any(x is None for x in xs)
        if m.old:
            xs += [vals[y] for y in m.outputs]
        out = {} if none else m.fn(*xs)
        for y in m.outputs:
            v = out.get(y)
            if y in out or vals[y] is not None:
                chg.add(y)
            vals[y] = v
        return vals, frozenset(chg)

    def propagate(self, w):
        """All the orders of the steps lead to the same values, or else."""
        k = w.key()
        if k in self.memo:
            return self.memo[k]
        ends, seen = set(), set()
        todo = [(tuple(sorted(w.vals.items())), w.chg)]
        while todo:
            s = todo.pop()
            if s in seen:
                continue
            seen.add(s)
            if len(seen) > 3000:
                ends = {1, 2}
                break
            vals, chg = s
            if not chg:
                ends.add(vals)
                continue
            for x in chg:
                ms = [m for m in w.mets if x in self.meths[m].inputs]
                for o in itertools.permutations(ms):
                    va, ch = dict(vals), chg
                    for m in o:
                        va, ch = self.run(va, ch, m)
                    todo.append((tuple(sorted(va.items())), ch - {x}))
        if len(ends) == 1:
            e, = ends
            r = w.but(vals=dict(e), chg=frozenset())
        else:
            r = w.but(open=True)
        self.memo[k] = r
        return r

    def cyclic(self, mets, y):
        """Is y determined by way of itself?"""
        seen, todo = set(), [y]
        while todo:
            x = todo.pop()
            for m in mets:
                if x in self.meths[m].inputs:
                    for z in self.meths[m].outputs:
                        if z == y:
                            return True
                        if z not in seen:
                            seen.add(z)
                            todo.append(z)
        return False

    def step(self, w, op, args):
        """(world afterwards, why it is refused)"""
        if op in ('variables', 'methods'):
            return w, None
        if op == 'add_variable':
            x = args[0]
            if x in w.vals:
                return w, None
            return w.but(vals=dict(w.vals, **{
                x: args[1] if len(args) > 1 else None})), None
        if op == 'set':
            x, v = args[:2]
            if x not in w.vals:
                return w, 'any'
            w = w.but(vals=dict(w.vals, **{x: v}), chg=w.chg | {x})
            return (w if args[2:] == (False,) else self.propagate(w)), None
        if op == 'add_method':
            m = self.meths[args[0]]
            if args[0] in w.mets:
                return w, None
            mets = w.mets + (args[0],)
            det = any(y in self.meths[n].outputs for n in w.mets
                      for y in m.outputs)
            cyc = any(self.cyclic(mets, y) for y in m.outputs)
            vals = dict(w.vals)
            for x in m.inputs + m.outputs:
                vals.setdefault(x, None)
            if det or cyc:
                # (variables may be declared all the same)
                return w.but(vals=vals), 'det' if det and not cyc else \
                    'cyc' if cyc and not det else 'both'
            va, chg = self.run(vals, w.chg, args[0])
            w = w.but(vals=va, chg=chg, mets=mets)
            return (w if args[1:] == (False,) else self.propagate(w)), None
        if op == 'execute':
            if args[0] not in w.mets:
                return w, 'any'
            va, chg = self.run(w.vals, w.chg, args[0])
            return self.propagate(w.but(vals=va, chg=chg)), None
        if op == 'propagate':
            return self.propagate(w), None
        if op == 'rem_method':
            if args[0] not in w.mets:
                return w, 'any'
            return w.but(mets=tuple(m for m in w.mets if m != args[0])), None
        if op == 'rem_variable':
            if args[0] not in w.vals:
                return w, 'any'
            return self.drop(w, args[0]), None
        if op == 'clear':
            for x in list(w.vals):
                w = self.drop(w, x)
            return w, None
        raise KeyError(op)

    def drop(self, w, x):
        vals = dict(w.vals)
        del vals[x]
        return w.but(vals=vals, chg=w.chg - {x}, mets=tuple(
            m for m in w.mets if x not in self.meths[m].inputs and
            x not in self.meths[m].outputs))


NAMES = ('a', 'b', 'c', 'z')

# methods as users write them
STUB = """
from %s import Method


class Spread_(Method):
    def __init__(self, a, b, c):
        super().__init__('spread', [a], [b, c])

    def execute(self, inmap):
        a, = self.inputs
        b, c = self.outputs
        return {b: inmap[a], c: inmap[a] + 1}


class Partial_(Method):
    def __init__(self, a, b, other):
        super().__init__('partial', [a], [b])
        self.other = other

    def execute(self, inmap):
        x = inmap.pop(self.inputs[0])
        inmap.clear()
        if x == 3:
            return {}
        return {self.outputs[0]: x, self.other: 99}


class Keep_(Method):
    def __init__(self, a, b, c):
        super().__init__('keep', [a, b], [c])

    def execute(self, inmap):
        a, b = self.inputs
        c = self.outputs[0]
        if inmap[a] is None or inmap[b] is None:
            return {c: 77}
        if inmap[c] is None:
            return {c: inmap[b]}
        return {c: inmap[c]}
"""


def methods():
    def f(y, fn):
        return lambda *xs: {y: fn(*xs)}
    same = lambda x: x                                     # noqa: E731
    add = lambda x, y: x + y                               # noqa: E731
    return {
        'b=a': Meth('AssignMethod', ('a',), ('b',), f('b', same), 'ba'),
        'c=a+b': Meth('AddMethod', ('a', 'b'), ('c',), f('c', add), 'abc'),
        'a=c': Meth('AssignMethod', ('c',), ('a',), f('a', same), 'ac'),
        'b=7': Meth('SetMethod', (), ('b',), f('b', lambda: 7), ('b', 7)),
        'c=b-a': Meth('SubMethod', ('b', 'a'), ('c',),
                      f('c', lambda x, y: x - y), 'bac'),
        'z=c': Meth('AssignMethod', ('c',), ('z',), f('z', same), 'zc'),
        'b,z=a,a+1': Meth('Spread_', ('a',), ('b', 'z'),
                          lambda x: {'b': x, 'z': x + 1}, 'abz'),
        'z=b unless 3': Meth('Partial_', ('b',), ('z',), lambda x: {} if
                             x == 3 else {'z': x}, 'bza'),
        'z=z or b': Meth('Keep_', ('a', 'b'), ('z',), lambda x, y, z: {
            'z': y if z is None else z}, 'abz', True),
    }


def with_stub(prog):
    p = copy.copy(prog)
    p.mods = dict(prog.mods)
    p.mods['users_'] = Module('users_', 'users_.py', STUB % prog.find_class(
        'Method').mod.name)
    return p


class Histories:
    """script: [(operation, arguments, optional?)]"""

    cls = 'MethodGraph'

    def __init__(self, ck, script):
        self.ck = ck
        lab = Lab.__new__(Lab)
        lab.prog = self.program(ck.prog)
        lab.from_start = True
        lab.eng = self.E = E = FiniteMachine(lab.prog)
        lab.st = start(lab.prog)
        ck.run.labs.append(lab)
        self.lab = lab
        self.n = n = sum(o for _, _, o in script)
        self.bitvars = [E.rel('V', Const('step%d' % i)) for i in range(n)]
        E.setup([], self.bitvars)
        self.objs = {}
        st = self.objects(lab.st, {k for _, args, _ in script for k in args
                                   if isinstance(k, str)} | set(ck.uses))
        o = self.good(lab.new(self.cls, st=st), 'a ' + self.cls)
        self.st, self.g = o.st, o.val
        self.words = [[] for _ in range(1 << n)]
        self.ws = [self.first() for _ in range(1 << n)]
        i = 0
        for op, args, opt in script:
            b = E.all
            if opt:
                b = E.bits(self.bitvars[i])
                i += 1
            self.st, self.ws = self.step(self.st, self.ws, op, args, b, '',
                                         False)
            for j in self.each(b):
                self.words[j].append(self.text(op, args))

    def program(self, prog):
        return with_stub(prog)

    def first(self):
        return World()

    def objects(self, st, used):
        self.model = Model(methods())
        for k, m in self.model.meths.items():
            if k not in used:
                continue
            o = self.good(self.lab.new(m.cls, *[
                self.value(x) for x in m.args], st=st), 'a method')
            st, self.objs[k] = o.st, o.val
        return st

    def each(self, b):
        while b:
            x = b & -b
            yield x.bit_length() - 1
            b ^= x

    def text(self, op, args):
        return '%s(%s)' % (op, ', '.join(map(str, args)))

    def value(self, x):
        if x is None:
            return NONE
        if isinstance(x, bool):
            return BoolV(x)
        if isinstance(x, int):
            return self.E.num(x)
        if x in getattr(self, 'objs', {}):
            return self.objs[x]
        return Const(x)

    def good(self, o, what):
        if o.st is None or any(self.E.pcbits(e.st.pc) for e in o.raised):
            raise Unsupported('%s cannot be built' % what)
        return o

    def pick(self, f):
        """The histories for which f(index)."""
        b = 0
        for i, w in enumerate(self.ws):
            if f(i):
                b |= 1 << i
        return b

    def bad(self, bits, what):
        if not bits:
            self.ck.ok()
            return
        i = min(itertools.islice(self.each(bits), 400),
                key=lambda j: len(self.words[j]))
        self.ck.fail(what, 'e.g. after ' + '; '.join(self.words[i]))

    def call(self, name, *args, st):
        try:
            return self.lab.call(self.g, name, *args, st=st)
        except Endless as x:
            self.bad(x.bits, '%s does not come to an end' % name)
            raise Dead()

    def step(self, st, ws, op, args, b, what, judge=True):
        """The state and the models after the operation in some histories."""
        E = self.E
        alive = E.pcbits(st.pc)
        b &= alive
        if not b:
            return st, ws
        new = list(ws)
        no = {}
        for i in self.each(b):
            new[i], why = self.model.step(ws[i], op, args)
            if why:
                no[why] = no.get(why, 0) | 1 << i
        t = st.fork(E.tt(b))
        o = self.call(op, *[self.value(x) for x in args], st=t)
        free = 0
        for i in self.each(b):
            if new[i].open:
                free |= 1 << i
        at = self.text(op, args) + what
        out = st.fork(E.tt(alive & ~b)) if alive & ~b else None
        ok = 0
        if o.st is not None:
            ok = E.pcbits(o.st.pc)
            out = E.merge(o.st, out) if out is not None else o.st
        rej = 0
        for x in o.raised:
            bb = E.pcbits(x.st.pc)
            if not bb:
                continue
            rej |= bb
            nm = getattr(x.val, 'name', '?')
            known = REFUSED.values()
            if judge:
                for why, w in no.items():
                    if why == 'any':
                        continue
                    self.bad(bb & w & ~free if nm not in known or
                             why in REFUSED and nm != REFUSED[why] else 0,
                             '%s is refused for the wrong reason' % at)
            x.st.env, x.st.stack = st.env, st.stack
            out = E.merge(out, x.st) if out is not None else x.st
        want = 0
        for w in no.values():
            want |= w
        if judge:
            self.bad(rej & ~want & ~free, at + ' fails')
            self.bad(want & ~rej & b & ~free, at + ' is not refused')
        # where things went wrong nothing more is said
        wrong = ((rej ^ want) & b | free) & ~(0 if judge else 0)
        for i in self.each(wrong):
            new[i] = new[i].but(open=True)
        if out is None:
            raise Dead()
        out.pc = E.onepc(out.pc)
        return out, new

    def by(self, f, bits):
        """{value of f: histories}"""
        d = {}
        for i in self.each(bits):
            k = f(i)
            d[k] = d.get(k, 0) | 1 << i
        return d

    def observe(self, st, ws, what):
        E = self.E
        live = E.pcbits(st.pc)
        for i in self.each(live):
            if ws[i].open:
                live &= ~(1 << i)
        if not live:
            return
        t = st.fork(E.tt(live))
        self.lists(t, what, 'variables', (), NAMES,
                   lambda i, x: x in ws[i].vals)
        self.lists(t, what, 'methods', (), list(self.objs),
                   lambda i, x: x in ws[i].mets)
        for x in NAMES:
            d = self.by(lambda i: (ws[i].vals[x],) if x in ws[i].vals
                        else None, live)
            o = self.call('get', self.value(x), st=t.fork())
            at = '%s: get(%s)' % (what, x)
            rej = 0
            for e in o.raised:
                rej |= E.pcbits(e.st.pc)
            self.bad(rej & ~d.get(None, 0), at + ' fails')
            if o.st is None:
                continue
            b = E.pcbits(o.st.pc)
            self.bad(b & d.get(None, 0), at + ' knows a variable that is '
                     'not there')
            for bb, v in E.tab(o.val, b):
                for k, w in d.items():
                    if k is None or not w & bb:
                        continue
                    f = E.bits(E.eq(v, self.value(k[0]), o.st))
                    self.bad(w & bb & ~f, at + ' is %s and not %s' % (
                        show(v), k[0]))

    def lists(self, t, what, q, args, names, has, text=''):
        """A query that lists some of the names; its outcome."""
        E = self.E
        o = self.call(q, *args, st=t.fork())
        at = '%s: %s(%s)' % (what, q, text)
        for x in o.raised:
            self.bad(E.pcbits(x.st.pc), at + ' fails')
        if o.st is None:
            return o
        b = E.pcbits(o.st.pc)
        got, dup, odd = self.listed(o, [self.value(x) for x in names], b)
        self.bad(odd, at + ' lists something unknown, or is no list')
        self.bad(dup & ~odd, at + ' lists something twice')
        for x in names:
            w = self.by(lambda i: has(i, x), b).get(True, 0)
            self.bad((got[self.value(x).key()] ^ w) & b & ~odd,
                     at + ' does not list exactly what it should (%s)' % x)
        return o

    def listed(self, o, names, live):
        E = self.E
        out = {x.key(): 0 for x in names}
        dup = odd = 0
        for b, x in E.tab(o.val, live):
            if isinstance(x, TupleV):
                pos = [{0: (E.all, y)} for y in x.items]
            else:
                C = E.coll(x, o.st)
                if C is None:
                    odd |= b
                    continue
                pos = E.as_positions(C)
            for p in pos:
                for bb, y in p.values():
                    bb &= b
                    for bc, z in E.tab(y, bb):
                        k = z.key()
                        if k not in out:
                            odd |= bc
                            continue
                        dup |= out[k] & bc
                        out[k] |= bc
        return out, dup, odd



def battery(ck, script, ops, then=()):
    """Everything is listed, something is done, everything is compared."""
    ck.uses = {a for _, args in ops + list(then) for a in args
               if isinstance(a, str)}
    h = Histories(ck, script)
    st, ws = h.st, h.ws
    h.observe(st, ws, 'at first')
    for q in ('variables', 'methods'):
        st, ws = h.step(st, ws, q, (), h.E.all, '', False)
    for op, args in ops:
        try:
            t, w = h.step(st, ws, op, args, h.E.all, '')
        except Dead:
            continue
        at = 'after ' + h.text(op, args)
        h.observe(t, w, at)
        for o2, a2 in then:
            try:
                u, x = h.step(t, w, o2, a2, h.E.all, ' ' + at)
            except Dead:
                continue
            h.observe(u, x, 'after ' + h.text(o2, a2) + ' ' + at)


V, A, S, M_ = 'add_variable', 'add_method', 'set', 'rem_method'

# (a history performs some of the steps)
LOUD = [(V, ('a', 3), True), (V, ('b', 0), True), (A, ('b=a',), True),
        (A, ('c=a+b',), True), (A, ('a=c',), True), (A, ('b=7',), True)]
QUIET = [(V, ('a', 3), True), (V, ('b',), True), (A, ('b=a', False), True),
         (A, ('c=a+b', False), True), (S, ('a', 4, False), True),
         (A, ('z=c', False), True)]
USERS = [(V, ('a', 3), True), (A, ('b,z=a,a+1',), True),
         (A, ('z=b unless 3',), True), (A, ('a=c',), True),
         (V, ('c', 0), False), (S, ('c', 5, False), True)]
OTHER = [(V, ('b', 2), True), (A, ('c=a+b',), True), (A, ('b=a',), True),
         (V, ('a', 0), True), (A, ('z=z or b',), True), (A, ('z=c',), True)]
BACK = [(V, ('a', 3), False), (A, ('b=a',), True), (A, ('c=a+b',), True),
        (M_, ('b=a',), True), (A, ('a=c',), True), (M_, ('c=a+b',), True),
        (A, ('a=c',), True)]


def rule(run, oid, what, where, script, ops, then=(), deep=()):
    def body(ck):
        more = list(deep) if run.tier == 'thorough' else []
        battery(ck, script, ops, list(then) + more)
    run.ob(oid, what, where, body)


def c08(run):
    adds = [(A, (m,)) for m in methods()]
    rule(run, 'C08.history', 'methods are accepted or refused as they should '
         'be, whatever was done before', 'MethodGraph.add_method', LOUD,
         adds, [(A, ('a=c',)), (A, ('b=a',)), (M_, ('c=a+b',))],
         adds + [(S, ('a', 8))])
    rule(run, 'C08.again', 'methods that were refused or removed before are '
         'accepted or refused as they should be', 'MethodGraph.add_method',
         BACK, adds, [(A, ('b=a',)), (S, ('a', 8))], adds)
    rule(run, 'C08.users', 'methods with several outputs are accepted or '
         'refused as they should be', 'MethodGraph.add_method', USERS, adds,
         [(A, ('z=c',)), (S, ('a', 8))], adds)


def c09(run):
    sets = [(S, ('a', 8)), (S, ('b', None))]
    rule(run, 'C09.history', 'values are up to date after a propagation, '
         'whatever was done before', 'MethodGraph.propagate', QUIET,
         [('propagate', ()), (S, ('a', 3)), (S, ('a', None)),
          (S, ('b', 0)), ('execute', ('b=a',)), (M_, ('b=a',)),
          (S, ('a', 5, False)), ('rem_variable', ('b',))],
         sets + [('propagate', ())],
         [(S, ('a', 3)), ('execute', ('c=a+b',))])
    rule(run, 'C09.other', 'values are up to date in whatever order '
         'methods were added', 'MethodGraph.propagate', OTHER,
         [('propagate', ()), (S, ('a', 3)), (S, ('a', None)),
          (S, ('b', 5)), (M_, ('b=a',))],
         sets + [('propagate', ())], [(S, ('a', 3))])
    rule(run, 'C09.users', 'values computed by methods that give several, '
         'or no, results are up to date', 'MethodGraph.propagate', USERS,
         [('propagate', ()), (S, ('a', 3)), (S, ('c', 6)), (S, ('b', 3)),
          (S, ('z', 2, False)), (M_, ('a=c',))],
         sets + [('propagate', ())],
         [(S, ('a', 3)), (S, ('c', None))])


def c10(run):
    rule(run, 'C10.other', 'methods get what is there, whatever was done '
         'before', 'MethodGraph.execute', OTHER,
         [(S, ('a', 4)), (S, ('a', None)), (S, ('b', None)), (S, ('z', 2)),
          ('execute', ('z=z or b',)), ('execute', ('c=a+b',)),
          (M_, ('b=a',))],
         [(S, ('b', 8)), ('execute', ('z=z or b',)), (S, ('a', 1))],
         [(S, ('b', None)), (S, ('z', None))])
    rule(run, 'C10.history', 'setting, declaring and executing do what they '
         'should, whatever was done before', 'MethodGraph.set', LOUD,
         [(S, ('a', 0)), (S, ('a', None)), (S, ('b', 3)), (S, ('c', 2)),
          (S, ('z', 2)), (V, ('a', 5)), (V, ('z', 5)), (V, ('z',)),
          ('execute', ('b=a',)), ('execute', ('c=a+b',)),
          ('execute', ('b=7',))],
         [(S, ('a', 8)), ('execute', ('c=a+b',)), ('execute', ('b=a',))],
         [(S, ('b', None)), (V, ('b', 1)), (S, ('c', 9))])


def c11(run):
    rems = [(M_, ('b=a',)), (M_, ('c=a+b',)), (M_, ('b=7',)),
            ('rem_variable', ('a',)), ('rem_variable', ('b',)),
            ('rem_variable', ('c',)), ('rem_variable', ('z',)),
            ('clear', ())]
    then = [(A, ('b=a',)), (S, ('a', 8)), (V, ('a', 1)), ('propagate', ())]
    deep = rems + [(A, ('c=a+b',)), (V, ('b', 2)), (S, ('b', 2))]
    rule(run, 'C11.history', 'removals remove exactly what they should, '
         'whatever was done before', 'MethodGraph.rem_variable', [
             x for x in LOUD if x[1] != ('b=7',)], rems, then, deep)
    rule(run, 'C11.pending', 'removals leave the other pending changes '
         'alone', 'MethodGraph.rem_variable', QUIET, rems, then, deep)
    rule(run, 'C11.users', 'methods with several outputs are removed as a '
         'whole', 'MethodGraph.rem_variable', USERS,
         [('rem_variable', ('a',)), ('rem_variable', ('z',)),
          (M_, ('b,z=a,a+1',)), ('clear', ())],
         [(A, ('b,z=a,a+1',)), (S, ('a', 8)), (V, ('z', 1))], deep)


RULES = {'C08': c08, 'C09': c09, 'C10': c10, 'C11': c11}
