"""Paths and connected vertices of a graph."""

from ..logic import *          # noqa: F401,F403
from ..content import Content, Entry
from ..engine import Unsupported
from ..finite import FiniteMachine, Endless
from ..lab import Lab, start
from ..decide import PROVED
from .graph import elements


# Larger graphs of a few kinds: (edges that may be there, edges that are)

def chain(n):
    """A chain, broken anywhere, with an edge back and a shortcut."""
    return ([(i, i + 1) for i in range(n - 1)] + [(n - 1, 0), (n // 2, 1),
                                                  (1, n - 2)], [])


def star(n):
    """One vertex with many neighbours, each of which may lead on."""
    return ([(i, n - 1) for i in range(1, n - 1)] + [(n - 1, 0)],
            [(0, i) for i in range(1, n - 1)])


def ladder(n):
    """Two chains side by side, with edges across."""
    m = n // 2
    return ([(2 * i, 2 * i + 1) for i in range(m)] + [(n - 2, 0)] +
            [(2 * i + 1, 2 * i + 3) for i in range(m - 1)],
            [(2 * i, 2 * i + 2) for i in range(m - 1)])


def long(n):
    """A long chain that may be interrupted, with edges back and forth."""
    m = n // 2
    return ([(m, m + 1), (n - 1, 0), (2, n - 4), (n - 3, 1), (0, 0)],
            [(i, i + 1) for i in range(n - 1) if i != m])


def wide(n):
    """A vertex with very many neighbours, some of which may lead on."""
    m = n // 2
    return ([(m, n - 1), (1, n - 1), (n - 2, n - 1), (n - 1, 0), (m, m - 1)],
            [(0, i) for i in range(1, n - 1)])


FLAGS = ((True, True), (False, True), (True, False), (False, False))


class Few:
    """Every graph on k vertices at once."""

    def __init__(self, ck, k):
        shape = None
        if isinstance(k, tuple):
            shape, k = k
        lab = Lab.__new__(Lab)
        lab.prog = ck.prog
        lab.eng = FiniteMachine(ck.prog)
        lab.st = start(ck.prog)
        ck.run.labs.append(lab)
        self.lab, self.E, self.ck = lab, lab.eng, ck
        E = self.E
        self.vs = elements(k)
        # (five vertices: graphs without edges from a vertex to itself)
        self.pairs = [(a, b) for a in self.vs for b in self.vs
                      if k < 5 or a is not b]
        fixed = []
        if shape:
            self.pairs, fixed = [[(self.vs[i], self.vs[j]) for i, j in x]
                                 for x in shape(k)]
        E.setup(self.vs, [E.rel('F', a, b) for a, b in self.pairs])
        E.true.add('V')
        E.false = {E.rel('F', a, b).key for a in self.vs for b in self.vs} - \
            {E.rel('F', a, b).key for a, b in self.pairs}
        o = lab.new('Graph')
        lab.st, self.g = o.st, o.val
        # built by the public operations, however graphs are stored
        st = lab.st
        for v in self.vs:
            st = self.done(lab.call(self.g, 'add_vertex', v, st=st))
        for a, b in fixed:
            st = self.done(lab.call(self.g, 'add_edge', a, b, st=st))
        for a, b in self.pairs:
            t = E.fold(E.rel('F', a, b))
            u = self.done(lab.call(self.g, 'add_edge', a, b, st=st.fork(t)))
            st = E.merge(u, st.fork(Not(t)))
            st.pc = E.onepc(st.pc)
        lab.st = st
        self.edge = {(a.key(), b.key()): E.bits(E.rel('F', a, b))
                     for a, b in self.pairs}
        for a, b in fixed:
            self.edge[a.key(), b.key()] = E.all
        self.fixed = fixed

    def done(self, o):
        if o.st is None or any(self.E.pcbits(e.st.pc) for e in o.raised):
            raise Unsupported('a graph cannot be built')
        o.st.env, o.st.stack = o.before.env, o.before.stack
        return o.st

    def e(self, a, b):
        return self.edge.get((a.key(), b.key()), 0)

    def closure(self, step):
        """graphs in which b is reached from a over at least one step"""
        r = {(a.key(), b.key()): step(a, b) for a in self.vs
             for b in self.vs}
        for m in self.vs:
            for a in self.vs:
                for b in self.vs:
                    r[a.key(), b.key()] |= r[a.key(), m.key()] & \
                        r[m.key(), b.key()]
        return r

    def call(self, name, *args, **kw):
        try:
            return self.lab.call(self.g, name, *args, **kw)
        except Endless as x:
            self.bad(x.bits, '%s does not come to an end' % name)
            return None

    def graph(self, bits):
        """One of the graphs, in words."""
        i = (bits & -bits).bit_length() - 1
        # the one with the fewest edges says most
        best, b, j = None, bits, 0
        while b and j < 4000:
            t = (b & -b).bit_length() - 1
            if best is None or bin(t).count('1') < bin(best).count('1'):
                best = t
            b &= b - 1
            j += 1
        i = best if best is not None else i
        es = ['%s->%s' % (show(x), show(y)) for n, (x, y) in
              enumerate(self.pairs) if i >> n & 1] + [
                  '%s->%s' % (show(x), show(y)) for x, y in self.fixed]
        return 'e.g. in the graph with the vertices %s and the edges %s' % (
            ', '.join(map(show, self.vs)), ', '.join(es) or '(none)')

    def bad(self, bits, what):
        if bits:
            self.ck.fail(what, self.graph(bits))
        else:
            self.ck.ok()

    def entry(self, o, what):
        """Outcome without exceptions."""
        if o is None:
            return None
        for x in o.raised:
            self.bad(self.E.pcbits(x.st.pc), '%s fails with %s' % (
                what, getattr(x.val, 'name', '?')))
        if o.st is None:
            self.ck.fail(what + ' never returns')
            return None
        return o

    def colls(self, v, st):
        """[(graphs, content)] of a collection"""
        out = []
        for b, x in self.E.tab(v, self.E.pcbits(st.pc)):
            if isinstance(x, TupleV):
                C = Content('list', [Entry('add', (), True, (y,))
                                     for y in x.items])
            else:
                C = self.E.coll(x, st)
            if C is None:
                out.append((b, None))
            else:
                out.append((b, C))
        return out


def growing(body, ks):
    """Small graphs first."""
    def go(ck):
        for k in ks:
            body(ck, k)
            if ck.ob.status != PROVED:
                return
    return go


def reach(run, ks, larger):
    def path(i, shapes=None):
        def body(ck, k):
            F = Few(ck, k)
            E, s = F.E, F.vs[0]
            t = F.vs[i]
            o = F.entry(F.call('path', s, t), 'path')
            if o is None:
                return
            r = F.closure(F.e)
            con = r[s.key(), t.key()]
            for b, C in F.colls(o.val, o.st):
                if C is None or C.kind != 'list':
                    F.bad(b, 'a path is no list')
                    continue
                pos = E.positions(C)
                pr = [b & E.present(p) for p in pos] + [0]
                some = pr[0]
                F.bad(b & con & ~some, 'no path is found although there is '
                      'one')
                F.bad(some & ~con, 'a path is found although there is none')
                good = some & con
                F.bad(good & ~pr[1] if len(pr) > 1 else good,
                      'a path does not consist of edges')
                at = lambda p, v: sum_(x for x, y in p.values()  # noqa
                                       if y.key() == v.key())
                F.bad(good & ~at(pos[0], s) if pos else 0,
                      'a path does not begin at the start')
                end = bad = 0
                for j, p in enumerate(pos):
                    last = pr[j] & ~pr[j + 1]
                    end |= last & at(p, t)
                    if j + 1 < len(pos):
                        ok = 0
                        for x in F.vs:
                            for y in F.vs:
                                ok |= at(p, x) & at(pos[j + 1], y) & \
                                    F.e(x, y)
                        bad |= pr[j + 1] & ~ok
                F.bad(good & ~end, 'a path does not lead to the end')
                F.bad(good & bad, 'a path follows something that is no edge')
        return growing(body, shapes or (
            ks if i else [k for k in ks if k < 5]))
    for shape, ns in larger:
        run.ob('C06.path.' + shape.__name__, 'a path consists of edges from '
               'the start to the end, and is found exactly if there is one '
               '(larger graphs: %s)' % shape.__doc__.rstrip('.').lower(),
               'Graph.path', path(-1, [(shape, n) for n in ns]), seconds=500)
    for i, nm in ((1, 'other'), (0, 'cycle')):
        run.ob('C06.path.%s' % nm, 'a path consists of edges from the start '
               'to the end, and is found exactly if there is one (%s)' % (
                   'distinct ends' if i else 'cycles'), 'Graph.path',
               path(i), seconds=500)


def sum_(xs):
    r = 0
    for x in xs:
        r |= x
    return r


def connected(run, ks, larger):
    def mk(call, step, what, small=False, shapes=None):
        def body(ck, k):
            F = Few(ck, k)
            E, s = F.E, F.vs[0]
            o = F.entry(call(F, s), what)
            if o is None:
                return
            r = F.closure(lambda a, b: step(F, a, b))
            for b, C in F.colls(o.val, o.st):
                if C is None:
                    F.bad(b, 'no collection is returned')
                    continue
                for v in F.vs:
                    m = b & E.bits(E.mem(C, (v,)))
                    if v is s:
                        F.bad(m, 'the vertex itself is part of the result')
                        continue
                    want = r[s.key(), v.key()]
                    F.bad(b & want & ~m, 'a connected vertex is missing')
                    F.bad(m & ~want, 'a vertex that is not connected is '
                          'returned')
                if C.kind == 'list':
                    twice = 0
                    pos = E.positions(C)
                    for j, p in enumerate(pos):
                        for q in pos[:j]:
                            for x, y in p.values():
                                for x2, y2 in q.values():
                                    if y.key() == y2.key():
                                        twice |= x & x2
                    F.bad(b & twice, 'a vertex is listed twice')
        return growing(body, shapes or (ks[:2] if small else ks))

    def step(ing, out):
        def f(F, a, b):
            r = 0
            if out:
                r |= F.e(a, b)
            if ing:
                r |= F.e(b, a)
            return r
        return f
    for ing, out in FLAGS:
        nm = {(1, 1): 'both', (0, 1): 'outgoing', (1, 0): 'ingoing',
              (0, 0): 'none'}[int(ing), int(out)]
        run.ob('C07.connected.' + nm, 'exactly the vertices reached over %s '
               'edges are connected' % nm, 'Graph.connected', mk(
                   lambda F, s, ing=ing, out=out: F.call(
                       'connected', s, ingoing=BoolV(ing),
                       outgoing=BoolV(out)), step(ing, out), 'connected'))
        for shape, ns in larger:
            if not (ing or out):
                continue
            run.ob('C07.connected.%s.%s' % (nm, shape.__name__), 'exactly '
                   'the vertices reached over %s edges are connected (larger '
                   'graphs: %s)' % (nm, shape.__doc__.rstrip('.').lower()),
                   'Graph.connected', mk(
                       lambda F, s, ing=ing, out=out: F.call(
                           'connected', s, ingoing=BoolV(ing),
                           outgoing=BoolV(out)), step(ing, out), 'connected',
                       shapes=[(shape, n) for n in ns]), seconds=500)
    run.ob('C07.connected.default', 'edges are followed in both directions '
           'unless told otherwise', 'Graph.connected', mk(
               lambda F, s: F.call('connected', s), step(True, True),
               'connected'))
    for nm, ing, out in (('connected_via_outgoing', False, True),
                         ('connected_via_ingoing', True, False)):
        run.ob('C07.' + nm, 'exactly the vertices reached over these edges '
               'are connected', 'Graph.' + nm, mk(
                   lambda F, s, nm=nm: F.call(nm, s), step(ing, out), nm))

        def named(F, s, nm=nm):
            kw = F.lab.named(F.lab.member('Graph', nm), [s],
                             F.lab.member('Graph', 'connected'))
            if kw is None:
                raise Unsupported('arguments by position only')
            return F.call(nm, **kw)
        run.ob('C07.%s.keyword' % nm, 'the vertex may be given by keyword',
               'Graph.' + nm, mk(named, step(ing, out), nm, small=True))

    def subsets(ck, k):
        F = Few(ck, k)
        E = F.E
        o = F.entry(F.call('connected_subsets'), 'connected_subsets')
        if o is None:
            return
        r = F.closure(lambda a, b: F.e(a, b) | F.e(b, a))
        for b, C in F.colls(o.val, o.st):
            if C is None or C.kind not in ('set', 'list'):
                F.bad(b, 'no collection is returned')
                continue
            seen = {v.key(): 0 for v in F.vs}
            for e in C.log:
                if e.op != 'add' or e.B:
                    raise Unsupported('result outside of the finite domain')
                for g, x in E.tab(e.key[0], b & E.bits(e.g)):
                    D = E.coll(x, o.st)
                    if D is None:
                        F.bad(g, 'a subset is no collection')
                        continue
                    m = {v.key(): g & E.bits(E.mem(D, (v,)))
                         for v in F.vs}
                    F.bad(g & ~sum_(m.values()), 'a subset is empty')
                    for u in F.vs:
                        if C.kind == 'list':
                            F.bad(seen[u.key()] & m[u.key()],
                                  'a vertex is in two subsets')
                        seen[u.key()] |= m[u.key()]
                        for v in F.vs:
                            if u is v:
                                continue
                            con = r[u.key(), v.key()]
                            F.bad(m[u.key()] & con & ~m[v.key()],
                                  'connected vertices are in different '
                                  'subsets')
                            F.bad(m[u.key()] & m[v.key()] & ~con,
                                  'vertices of one subset are not connected')
            for v in F.vs:
                F.bad(b & ~seen[v.key()], 'a vertex is in no subset')
    run.ob('C07.subsets', 'the vertices are split into their connected '
           'subsets', 'Graph.connected_subsets', growing(subsets, ks), seconds=500)
    for shape, ns in larger:
        run.ob('C07.subsets.' + shape.__name__, 'the vertices are split into '
               'their connected subsets (larger graphs: %s)'
               % shape.__doc__.rstrip('.').lower(), 'Graph.connected_subsets',
               growing(subsets, [(shape, n) for n in ns]), seconds=500)


def sizes(run):
    return (2, 3, 4, 5) if run.tier == 'thorough' else (2, 3, 4)


def larger(run):
    t = run.tier == 'thorough'
    return ((chain, (6, 8) if t else (6,)), (star, (6, 10)),
            (ladder, (6, 10)), (long, (12, 60 if t else 40)),
            (wide, (12, 60 if t else 40)))


def c06(run):
    reach(run, sizes(run), larger(run))


def c07(run):
    connected(run, sizes(run), larger(run))


RULES = {'C06': c06, 'C07': c07}
