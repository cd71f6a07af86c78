"""Histories of small graphs: every graph on two or three vertices at once,
built and changed by the public operations only.

Other than the rules that work on arbitrary entry states, these make no
assumption on how graphs are stored, and they see whatever an earlier
operation left behind."""

from ..logic import *          # noqa: F401,F403
from ..engine import Unsupported, Dead
from ..finite import FiniteMachine, Endless
from ..lab import Lab, start

QUERIES = ('vertices', 'edges', 'outgoing_vertices', 'ingoing_vertices',
           'adjacent_vertices', 'outgoing_edges', 'ingoing_edges',
           'adjacent_edges')
WHOLE = ('vertices', 'edges')


class Model:
    """What a graph should be: sets of graphs per vertex, edge and value."""

    def __init__(self, V=None, F=None, W=None):
        self.V, self.F, self.W = dict(V or {}), dict(F or {}), dict(W or {})

    def v(self, x):
        return self.V.get(x.key(), 0)

    def f(self, x, y):
        return self.F.get((x.key(), y.key()), 0)

    def w(self, x, y):
        return self.W.get((x.key(), y.key()), [])

    def add_vertex(self, x, b):
        self.V[x.key()] = self.v(x) | b

    def put(self, x, y, val, b):
        """Give the edge this value (in the graphs b)."""
        k = x.key(), y.key()
        self.W[k] = [(bb & ~b, u) for bb, u in self.w(x, y) if bb & ~b] + [
            (b, val)]
        self.F[k] = self.f(x, y) | b
        self.add_vertex(x, b)
        self.add_vertex(y, b)

    def add_edge(self, x, y, val, b):
        self.put(x, y, val, b & ~self.f(x, y))
        self.add_vertex(x, b)
        self.add_vertex(y, b)

    def cut(self, x, y, b):
        k = x.key(), y.key()
        self.F[k] = self.f(x, y) & ~b

    def drop(self, x, b, vs):
        self.V[x.key()] = self.v(x) & ~b
        for y in vs:
            self.cut(x, y, b)
            self.cut(y, x, b)

    def but(self):
        return Model(self.V, self.F, self.W)


class Small:
    def __init__(self, ck, k=3, extra=1):
        self.ck = ck
        lab = Lab.__new__(Lab)
        lab.prog = ck.prog
        lab.from_start = True
        lab.eng = self.E = E = FiniteMachine(ck.prog)
        lab.st = start(ck.prog)
        ck.run.labs.append(lab)
        self.lab = lab
        # (one vertex counts as false)
        self.vs = [E.num(0), Const('a'), Const('b'), Const('c')][:k]
        self.out = [Const('x'), Const('y')][:extra]
        self.all = self.vs + self.out
        V = {x.key(): E.rel('V', x) for x in self.vs}
        F = {(x.key(), y.key()): E.rel('F', x, y) for x in self.vs
             for y in self.vs}
        E.setup(self.all, list(V.values()) + list(F.values()))
        vals = [E.num(0), NONE, Const('p'), Const(''), Const('q'), E.num(1)]
        m = Model()
        o = self.good(lab.new('Graph'), 'an empty graph')
        st, self.g = o.st, o.val
        n = 0
        for x in self.vs:
            b = E.bits(V[x.key()])
            for y in self.vs:
                b |= E.bits(F[x.key(), y.key()]) | E.bits(
                    F[y.key(), x.key()])
            st = self.when(st, b, 'add_vertex', x)
            m.add_vertex(x, b)
        for x in self.vs:
            for y in self.vs:
                b = E.bits(F[x.key(), y.key()])
                st = self.when(st, b, 'add_edge', x, y, vals[n % len(vals)])
                m.add_edge(x, y, vals[n % len(vals)], b)
                n += 1
        self.st, self.m = st, m

    def good(self, o, what):
        for e in o.raised:
            if self.E.pcbits(e.st.pc):
                raise Unsupported('%s cannot be built: %s' % (
                    what, getattr(e.val, 'name', '?')))
        if o.st is None:
            raise Unsupported('%s cannot be built' % what)
        return o

    def when(self, st, b, name, *args):
        """The state after an operation in some of the graphs only."""
        E = self.E
        t = st.fork(E.tt(b))
        o = self.good(self.lab.call(self.g, name, *args, st=t), name)
        rest = st.fork(E.tt(E.all & ~b)) if E.all & ~b else None
        s = E.merge(o.st, rest) if rest is not None else o.st
        s.pc = E.onepc(s.pc)
        return s

    # ------------------------------------------------------- observation

    def bad(self, bits, what):
        if not bits:
            self.ck.ok()
            return False
        E = self.E
        i = (bits & -bits).bit_length() - 1
        best, b = i, bits
        for _ in range(500):
            if not b:
                break
            t = (b & -b).bit_length() - 1
            if bin(t).count('1') < bin(best).count('1'):
                best = t
            b &= b - 1
        at = 1 << best
        vs = [show(x) for x in self.vs if self.m.v(x) & at]
        es = ['%s->%s' % (show(x), show(y)) for x in self.vs for y in self.vs
              if self.m.f(x, y) & at]
        self.ck.fail(what, 'e.g. starting from the graph with the vertices '
                     '%s and the edges %s' % (', '.join(vs) or '(none)',
                                              ', '.join(es) or '(none)'))
        return True

    def call(self, g, name, *args, st=None, **kw):
        try:
            return self.lab.call(g, name, *args, st=st, **kw)
        except Endless as x:
            self.bad(x.bits, '%s does not come to an end' % name)
            raise Dead()

    def spoilt(self, o, how):
        """The state after something else is done to the result (None: it
        cannot be changed)."""
        E = self.E
        if o.st is None:
            return None
        st, done = o.st, False
        for b, v in E.tab(o.val, self.live(o)):
            C = E.coll(v, st) if isinstance(v, Ref) else None
            b &= E.pcbits(st.pc)
            if C is None or C.kind not in ('list', 'set') or C.frozen or \
                    not b:
                continue

            def spoil(t, v=v, kind=C.kind):
                if how == 'clear':
                    E.method(v, 'clear', [], {}, t, None)
                else:
                    E.method(v, 'append' if kind == 'list' else 'add',
                             [Const('spoilt')], {}, t, None)
                return NONE
            rest = E.pcbits(st.pc) & ~b
            t = self.lab.run(spoil, st.fork(E.tt(b)))
            if t.st is None:
                continue
            done = True
            s = t.st if not rest else E.merge(t.st, st.fork(E.tt(rest)))
            s.pc = E.onepc(s.pc)
            s.env, s.stack = st.env, st.stack
            st = s
        return st if done else None

    def refused(self, o):
        b = 0
        for e in o.raised:
            b |= self.E.pcbits(e.st.pc)
        return b

    def live(self, o):
        return 0 if o.st is None else self.E.pcbits(o.st.pc)

    def listed(self, o, keys, what):
        """{key: graphs in which it is listed}, graphs with duplicates; None
        if the result is no list."""
        E = self.E
        out = {k: 0 for k in keys}
        dup = odd = 0
        for b, x in E.tab(o.val, self.live(o)):
            if isinstance(x, TupleV):
                pos = [{0: (E.all, y)} for y in x.items]
            else:
                C = E.coll(x, o.st)
                if C is None or isinstance(x, SnapV) and x.what == 'iter':
                    odd |= b
                    continue
                pos = E.as_positions(C)
            for p in pos:
                for bb, y in p.values():
                    bb &= b
                    for bc, z in self.rows(y, bb):
                        k = z.key()
                        if k not in out:
                            odd |= bc
                            continue
                        dup |= out[k] & bc
                        out[k] |= bc
        return out, dup, odd

    def rows(self, y, b):
        """Alternatives of an element; pairs without alternatives in them."""
        return [(bb, z) for bb, z in self.E.tuples_of(y, b) if bb]

    def observe(self, g, st, m, what, b=None, queries=QUERIES, values=True,
                absent=False):
        """Compare everything that can be asked with the model."""
        E = self.E
        bits = E.pcbits(st.pc) if b is None else b
        if not bits:
            return
        vs = self.all
        for x in vs:
            self.flag(g, st, bits, 'has_vertex', (x,), m.v(x), what)
        for x in vs:
            for y in vs:
                f, r = m.f(x, y), m.f(y, x)
                self.flag(g, st, bits, 'has_edge', (x, y), f, what)
                if values:
                    self.value(g, st, bits, x, y, m, what)
        if 'has_bi_edge' in queries:
            for x in vs:
                for y in vs:
                    f, r = m.f(x, y), m.f(y, x)
                    self.flag(g, st, bits, 'has_bi_edge', (x, y), f & r, what)
                    self.flag(g, st, bits, 'has_any_edge', (x, y), f | r,
                              what)
        for q in queries:
            if q in ('has_bi_edge', 'has_any_edge'):
                continue
            for x in ([None] if q in WHOLE else vs):
                self.query(g, st, bits, q, x, m, what)

    def flag(self, g, st, bits, name, args, want, what):
        E = self.E
        o = self.call(g, name, *args, st=st.fork(E.tt(bits)))
        at = '%s: %s(%s)' % (what, name, ', '.join(map(show, args)))
        self.bad(self.refused(o), at + ' fails')
        if o.st is None:
            return
        t = E.bits(E.truth(o.val, o.st))
        b = self.live(o)
        self.bad((t ^ want) & b, at + ' answers wrongly')

    def value(self, g, st, bits, x, y, m, what):
        E = self.E
        have = m.f(x, y) & bits
        if not have:
            return
        o = self.call(g, 'get', x, y, st=st.fork(E.tt(have)))
        at = '%s: get(%s, %s)' % (what, show(x), show(y))
        self.bad(self.refused(o), at + ' fails')
        if o.st is None:
            return
        wrong = 0
        for b, v in E.tab(o.val, self.live(o)):
            for bb, u in m.w(x, y):
                bb &= b & m.f(x, y)
                if bb:
                    wrong |= bb & ~E.bits(E.eq(v, u, o.st))
        self.bad(wrong, at + ' is not the value stored last')

    def want(self, q, x, m):
        """{key of an element: graphs that list it}"""
        vs = self.all
        if q == 'vertices':
            return {y.key(): m.v(y) for y in vs}
        if q == 'edges':
            return {TupleV((y, z)).key(): m.f(y, z) for y in vs for z in vs}
        if q == 'outgoing_vertices':
            return {y.key(): m.f(x, y) for y in vs}
        if q == 'ingoing_vertices':
            return {y.key(): m.f(y, x) for y in vs}
        if q == 'adjacent_vertices':
            return {y.key(): m.f(x, y) | m.f(y, x) for y in vs}
        out = {TupleV((y, z)).key(): 0 for y in vs for z in vs}
        for y in vs:
            if q != 'ingoing_edges':
                out[TupleV((x, y)).key()] |= m.f(x, y)
            if q != 'outgoing_edges':
                out[TupleV((y, x)).key()] |= m.f(y, x)
        return out

    def query(self, g, st, bits, q, x, m, what, own=False):
        E = self.E
        have = bits if x is None else bits & m.v(x)
        if not have:
            return None
        args = () if x is None else (x,)
        o = self.call(g, q, *args, st=st.fork(E.tt(have)))
        at = '%s: %s(%s)' % (what, q, ', '.join(map(show, args)))
        self.bad(self.refused(o), at + ' fails')
        if o.st is None:
            return None
        b = self.live(o)
        want = self.want(q, x, m)
        got, dup, odd = self.listed(o, want, at)
        self.bad(odd, at + ' lists something that is not there, or is no list')
        for k, w in want.items():
            self.bad((got[k] ^ w) & b & ~odd, at + ' does not list exactly '
                     'what it should')
        if q != 'adjacent_edges':
            self.bad(dup, at + ' lists an element twice')
        return o

    def unknown(self, g, st, m, what):
        """Questions about vertices that are not there change nothing."""
        E = self.E
        for q in QUERIES[2:]:
            for x in (self.vs[0], self.out[0]):
                b = E.pcbits(st.pc) & ~m.v(x)
                if not b:
                    continue
                t = st.fork(E.tt(b))
                o = self.call(g, q, x, st=t)
                for u in [e.st for e in o.raised] + [o.st]:
                    if u is None or not E.pcbits(u.pc):
                        continue
                    u.env, u.stack = t.env, t.stack
                    self.observe(g, u, m, '%s: after %s of an unknown vertex'
                                 % (what, q), queries=WHOLE, values=False)

    # ------------------------------------------------------------ changes

    def calls(self, full=False):
        """(operation, arguments) that differ in more than names"""
        a, b = self.vs[0], self.vs[1]
        x = self.out[0]
        n = Const('n')
        pairs = [(a, b), (a, a), (b, x), (x, a)]
        if full:
            pairs += [(b, a), (x, x)]
        out = [('add_vertex', (a,)), ('add_vertex', (x,)),
               ('remove_vertex', (a,)), ('remove_vertex', (b,))]
        for p in pairs:
            out += [('add_edge', p + (n,)), ('set', p + (n,))]
            if x not in p:
                out.append(('remove_edge', p))
            if p[0] is not p[1] or full:
                out += [('add_bi_edge', p + (n,)), ('set_bi_edge', p + (n,))]
            if p[0] is not p[1] and x not in p:
                out.append(('remove_bi_edge', p))
        return out

    def apply(self, m, name, args, b):
        """The model after the operation (in the graphs b), the graphs in
        which it has to be refused, and whether a refusal changes nothing."""
        m = m.but()
        no = 0
        if name == 'add_vertex':
            m.add_vertex(args[0], b)
        elif name == 'remove_vertex':
            no = ~m.v(args[0]) & b
            m.drop(args[0], b & ~no, self.all)
        elif name == 'add_edge':
            m.add_edge(*args, b)
        elif name == 'set':
            m.put(*args, b)
        elif name == 'add_bi_edge':
            x, y, v = args
            m.add_edge(x, y, v, b)
            m.add_edge(y, x, v, b)
        elif name == 'set_bi_edge':
            x, y, v = args
            m.put(x, y, v, b)
            m.put(y, x, v, b)
        elif name == 'remove_edge':
            no = ~m.f(*args) & b
            m.cut(*args, b & ~no)
        elif name == 'remove_bi_edge':
            x, y = args
            no = ~(m.f(x, y) & m.f(y, x)) & b
            m.cut(x, y, b & ~no)
            m.cut(y, x, b & ~no)
        return m, no

    def change(self, g, st, m, name, args, what, judge=True):
        """Outcome of a change: [(state, model)]"""
        E = self.E
        b = E.pcbits(st.pc)
        o = self.call(g, name, *args, st=st)
        want, no = self.apply(m, name, args, b)
        r = self.refused(o)
        at = '%s(%s)%s' % (name, ', '.join(map(show, args)), what)
        if judge:
            self.bad(r & ~no, at + ' fails')
            self.bad(no & ~r & b, at + ' is not refused')
        out = []
        if o.st is not None and self.live(o) & ~no:
            s = o.st.fork(E.tt(E.all & ~no))
            s.pc = E.onepc(s.pc)
            out.append((s, want, 'after ' + at))
        if name != 'remove_bi_edge':
            for e in o.raised:
                if E.pcbits(e.st.pc) & no:
                    s = e.st.fork(E.tt(no))
                    s.pc = E.onepc(s.pc)
                    s.env, s.stack = st.env, st.stack
                    out.append((s, m, 'after the refused ' + at))
        return out

    def warm(self, g, st, m):
        """The state after everything has been asked once (so that whatever
        answers are kept, are)."""
        E = self.E
        for q in QUERIES:
            for x in ([None] if q in WHOLE else self.all):
                have = E.pcbits(st.pc) & (E.all if x is None else m.v(x))
                if not have:
                    continue
                t = st.fork(E.tt(have))
                o = self.call(g, q, *(() if x is None else (x,)), st=t)
                rest = E.pcbits(st.pc) & ~have
                if o.st is None:
                    continue
                s = o.st
                if rest:
                    s = E.merge(s, st.fork(E.tt(rest)))
                s.pc = E.onepc(s.pc)
                st = s
        return st


# ------------------------------------------------------------------ rules

ADDS = ('add_vertex', 'add_edge', 'add_bi_edge', 'set', 'set_bi_edge')
VIEWS = ('vertices', 'edges', 'outgoing_vertices', 'ingoing_vertices')


def histories(ck, which, queries, values, k=3, second=None,
              unknown=False):
    """Everything is asked, something is changed, everything is compared."""
    deep = ck.run.tier == 'thorough'
    s = Small(ck, 4 if deep and not second else k)
    st = s.warm(s.g, s.st, s.m)
    s.observe(s.g, st, s.m, 'at first', queries=queries, values=values)
    for name, args in s.calls(deep):
        if name in ADDS and 'add' not in which or \
                name not in ADDS and 'remove' not in which:
            if not (second and name not in ADDS):
                continue
        for t, m, at in s.change(s.g, st, s.m, name, args, ''):
            s.observe(s.g, t, m, at, queries=queries, values=values)
            if unknown:
                s.unknown(s.g, t, m, at)
            if not second:
                continue
            t = s.warm(s.g, t, m)
            more = [(n2, tuple(s.vs[i] if isinstance(i, int) else Const(i)
                               for i in a2)) for n2, a2 in second]
            if deep:
                more += [c for c in s.calls() if (c[0] in ADDS) == (
                    second[0][0] in ADDS)]
            for n2, a2 in more:
                for u, m2, at2 in s.change(s.g, t, m, n2, a2, ' ' + at):
                    s.observe(s.g, u, m2, at2, queries=queries,
                              values=values)


def c01(run):
    def body(ck):
        histories(ck, ('add', 'remove'), VIEWS, False)
    run.ob('C01.history', 'the views agree after every change, whatever was '
           'asked before', 'Graph', body)


def c02(run):
    def body(ck):
        histories(ck, ('add',), ('vertices', 'edges'), True)
    run.ob('C02.history', 'additions do exactly what they should, whatever '
           'was asked before', 'Graph', body)

    def again(ck):
        histories(ck, ('add', 'remove'), ('edges', 'ingoing_vertices'), True,
                  second=[('add_edge', (0, 1, 'm')), ('set', (1, 0, 'm')),
                          ('add_vertex', (0,))])
    run.ob('C02.again', 'additions after any other change do exactly what '
           'they should', 'Graph', again)


def c03(run):
    def body(ck):
        histories(ck, ('remove',), VIEWS, True)
    run.ob('C03.history', 'removals do exactly what they should, whatever '
           'was asked before', 'Graph', body)

    def again(ck):
        histories(ck, ('add', 'remove'), ('edges', 'ingoing_vertices'),
                  False, second=[('remove_vertex', (0,)),
                                 ('remove_edge', (0, 1)),
                                 ('remove_bi_edge', (0, 1))])
    run.ob('C03.again', 'removals after any other change do exactly what '
           'they should', 'Graph', again)


def c05(run):
    def body(ck):
        histories(ck, ('add', 'remove'), QUERIES + ('has_bi_edge',), True,
                  unknown=True)
    run.ob('C05.history', 'answers are right after every change, whatever '
           'was asked before', 'Graph', body)

    def own(ck):
        s = Small(ck)
        E = s.E
        for q in QUERIES:
            for x in ([None] if q in WHOLE else s.all):
                o = s.query(s.g, s.st, E.pcbits(s.st.pc), q, x, s.m,
                            'at first')
                if o is None:
                    continue
                t = s.spoilt(o, 'add')
                if t is None:
                    continue
                s.observe(s.g, t, s.m, 'after the result of %s was '
                          'changed' % q, values=False)
    run.ob('C05.own', 'what is done to a result changes neither the graph nor '
           'later answers', 'Graph', own)


def c04(run):
    def derive(s, how, st):
        E = s.E
        if how == 'Graph(graph)':
            return s.lab.new('Graph', s.g, st=st), lambda x: True
        if how == 'subgraph':
            xs = [s.vs[0], s.vs[-1], s.out[0]] if len(s.vs) > 2 else [
                s.vs[1], s.out[0]]

            def go(t):
                v = E.new_list(t, xs)
                f = E.getattr_(s.g, 'subgraph', t, None)
                return E.call(f, [v], {}, t, None)
            return s.lab.run(go, st), lambda x: any(
                x.key() == y.key() for y in xs)
        return s.lab.call(s.g, how, st=st), lambda x: True

    def mk(how):
        def body(ck):
            s = Small(ck)
            E = s.E
            st = s.warm(s.g, s.st, s.m)
            o, keep = derive(s, how, st)
            s.bad(s.refused(o), how + ' fails')
            if o.st is None:
                return
            m = Model()
            for x in s.vs:
                if keep(x):
                    m.add_vertex(x, s.m.v(x))
            for x in s.vs:
                for y in s.vs:
                    if keep(x) and keep(y):
                        a, b = (y, x) if how == 'reverse' else (x, y)
                        for bb, u in s.m.w(x, y):
                            m.put(a, b, u, bb & s.m.f(x, y))
            for b, h in E.tab(o.val, s.live(o)):
                if not isinstance(h, ObjV):
                    s.bad(b, how + ' does not return a graph')
                    continue
                t = o.st.fork(E.tt(b))
                s.observe(h, t, m, 'result of ' + how)
                s.observe(s.g, t, s.m, 'original after ' + how, values=True)
                t = s.warm(h, t, m)
                for name, args in s.calls():
                    for g1, m1, g2, m2, w in (
                            (s.g, s.m, h, m, 'the original is changed by '),
                            (h, m, s.g, s.m, 'the result is changed by ')):
                        for u, mm, at in s.change(g1, t, m1, name, args, '',
                                                  False):
                            s.observe(g2, u, m2, '%s: %s%s' % (
                                how, w, name), queries=VIEWS, values=True)
        run.ob('C04.%s.history' % how, 'the derived graph is right and shares '
               'nothing with the original, whatever was asked before',
               {'Graph(graph)': 'Graph.__init__'}.get(how, 'Graph.' + how),
               body)
    for how in ('copy', 'reverse', 'subgraph', 'Graph(graph)'):
        mk(how)


# ------------------------------------------------- paths and connections

def closure(s, m, ing, out):
    """{(x, y): graphs in which y is reached from x over at least one edge}"""
    r = {}
    for x in s.all:
        for y in s.all:
            b = m.f(x, y) if out else 0
            if ing:
                b |= m.f(y, x)
            r[x.key(), y.key()] = b
    for z in s.all:
        for x in s.all:
            for y in s.all:
                r[x.key(), y.key()] |= r[x.key(), z.key()] & \
                    r[z.key(), y.key()]
    return r


def ask_path(s, g, st, m, at, pairs):
    """Paths are made of edges and found exactly if there are any."""
    E = s.E
    r = closure(s, m, False, True)
    results = []
    for x, y in pairs:
        have = E.pcbits(st.pc) & m.v(x) & m.v(y)
        if not have:
            continue
        o = s.call(g, 'path', x, y, st=st.fork(E.tt(have)))
        w = '%s: path(%s, %s)' % (at, show(x), show(y))
        s.bad(s.refused(o), w + ' fails')
        if o.st is None:
            continue
        results.append((o, have))
        con = r[x.key(), y.key()]
        for b, v in E.tab(o.val, s.live(o)):
            C = E.coll(v, o.st)
            if C is None or C.kind != 'list':
                if not isinstance(v, TupleV):
                    s.bad(b, w + ' is no list')
                    continue
                pos = [{0: (E.all, z)} for z in v.items]
            else:
                pos = E.positions(C)
            pr = [b & E.present(p) for p in pos] + [0, 0]
            s.bad(b & con & ~pr[0], w + ' does not find the path there is')
            s.bad(pr[0] & ~con, w + ' finds a path that is not there')
            good = pr[0] & con

            def at_(p, z):
                return sum_(bb for bb, u in p.values() if u.key() == z.key())
            s.bad(good & ~pr[1], w + ' has no edges')
            if not pos:
                continue
            s.bad(good & ~at_(pos[0], x), w + ' does not begin at the start')
            end = bad = 0
            for j, p in enumerate(pos):
                end |= pr[j] & ~pr[j + 1] & at_(p, y)
                if j + 1 < len(pos):
                    ok = 0
                    for u in s.all:
                        for z in s.all:
                            ok |= at_(p, u) & at_(pos[j + 1], z) & m.f(u, z)
                    bad |= pr[j + 1] & ~ok
            s.bad(good & ~end, w + ' does not lead to the end')
            s.bad(good & bad, w + ' follows something that is no edge')
    return results


def sum_(xs):
    r = 0
    for x in xs:
        r |= x
    return r


WAYS = (('connected', True, True), ('connected_via_outgoing', False, True),
        ('connected_via_ingoing', True, False))


def ask_connected(s, g, st, m, at, starts):
    """Exactly the vertices that are reached are connected."""
    E = s.E
    results = []
    for name, ing, out in WAYS:
        r = closure(s, m, ing, out)
        for x in starts:
            have = E.pcbits(st.pc) & m.v(x)
            if not have:
                continue
            o = s.call(g, name, x, st=st.fork(E.tt(have)))
            w = '%s: %s(%s)' % (at, name, show(x))
            s.bad(s.refused(o), w + ' fails')
            if o.st is None:
                continue
            results.append((o, have))
            b = s.live(o)
            want = {y.key(): r[x.key(), y.key()] if y is not x else 0
                    for y in s.all}
            got, dup, odd = s.listed(o, want, w)
            s.bad(odd & b, w + ' lists something that is no vertex')
            s.bad(dup & b, w + ' lists a vertex twice')
            for y in s.all:
                s.bad((got[y.key()] ^ want[y.key()]) & b & ~odd, w +
                      ' is not right about %s' % show(y))
    return results


def ask_subsets(s, g, st, m, at):
    """The vertices are split into their connected subsets."""
    E = s.E
    b0 = E.pcbits(st.pc)
    o = s.call(g, 'connected_subsets', st=st)
    w = at + ': connected_subsets()'
    s.bad(s.refused(o), w + ' fails')
    if o.st is None:
        return []
    r = closure(s, m, True, True)
    for b, v in E.tab(o.val, s.live(o)):
        C = E.coll(v, o.st)
        if C is None or C.kind not in ('set', 'list'):
            raise Unsupported('subsets of another kind')
        seen = {y.key(): 0 for y in s.all}
        for e in C.log:
            if e.op != 'add' or e.B:
                raise Unsupported('result outside of the finite domain')
            for gg, x in E.tab(e.key[0], b & E.bits(e.g)):
                D = E.coll(x, o.st)
                if D is None:
                    s.bad(gg, w + ': a subset is no collection')
                    continue
                i = {y.key(): gg & E.bits(E.mem(D, (y,))) for y in s.all}
                s.bad(gg & ~sum_(i.values()), w + ': an empty subset')
                for y in s.all:
                    seen[y.key()] |= i[y.key()]
                    for z in s.all:
                        if y is z:
                            continue
                        con = r[y.key(), z.key()]
                        s.bad(i[y.key()] & con & ~i[z.key()],
                              w + ': connected vertices are apart')
                        s.bad(i[y.key()] & i[z.key()] & ~con,
                              w + ': vertices of a subset are not connected')
        for y in s.all:
            s.bad(b & (seen[y.key()] ^ (m.v(y) & b0)), w + ' is not made of '
                  'exactly the vertices')
    return [(o, b0)]


def reaching(ask, size, every):
    """Everything is asked, something is changed, it is asked again."""
    def body(ck):
        s = Small(ck, size)
        E = s.E
        m = s.m
        results = ask(s, s.g, s.st, m, 'at first')
        st = s.st
        st = remember(s, st, m, every)
        ask(s, s.g, st, m, 'asked again')
        for name, args in s.calls(True):
            for t, m2, at in s.change(s.g, st, m, name, args, '', False):
                ask(s, s.g, t, m2, at)
        for o, have in results:
            t = s.spoilt(o, 'clear')
            if t is not None:
                ask(s, s.g, t, m, 'after a result was changed')
    return body


def remember(s, st, m, every):
    """The state after all of the questions."""
    E = s.E
    for name, args in every(s):
        have = E.pcbits(st.pc)
        for x in args:
            have &= m.v(x)
        if not have:
            continue
        o = s.call(s.g, name, *args, st=st.fork(E.tt(have)))
        rest = E.pcbits(st.pc) & ~have
        if o.st is None:
            continue
        t = o.st
        if rest:
            t = E.merge(t, st.fork(E.tt(rest)))
        t.pc = E.onepc(t.pc)
        t.env, t.stack = st.env, st.stack
        st = t
    return st


def c06(run):
    def pairs(s):
        a, b = s.vs[0], s.vs[1]
        return [(a, b), (a, a), (b, a), (s.vs[-1], b)]
    run.ob('C06.history', 'paths are right after every change, whatever was '
           'asked before', 'Graph.path', reaching(
               lambda s, g, st, m, at: ask_path(s, g, st, m, at, pairs(s)),
               3, lambda s: [('path', p) for p in pairs(s)]), seconds=500)


def c07(run):
    def starts(s):
        return [s.vs[0], s.vs[-1]]

    run.ob('C07.history', 'connected vertices are right after every change, '
           'whatever was asked before', 'Graph.connected', reaching(
               lambda s, g, st, m, at: ask_connected(
                   s, g, st, m, at, starts(s)),
               3, lambda s: [(w[0], (x,)) for w in WAYS
                             for x in starts(s)]), seconds=500)
    run.ob('C07.subsets.history', 'connected subsets are right after every '
           'change, whatever was asked before', 'Graph.connected_subsets',
           reaching(lambda s, g, st, m, at: ask_subsets(s, g, st, m, at),
                    3, lambda s: [('connected_subsets', ())]), seconds=500)


RULES = {'C06': c06, 'C07': c07, 'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05}
