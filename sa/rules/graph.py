"""Graphs: views, updates, removals, derived graphs, queries."""

import ast
import itertools

from ..logic import *          # noqa: F401,F403
from ..content import Content, Entry, NESTED
from ..engine import needed, Unsupported, UNBOUND
from ..lab import Lab
from ..contracts import GraphContract
from ..decide import decide, PROVED
from .. import logic as L

P, Q = Sym('p'), Sym('q')
A, B, C = Sym('a'), Sym('b'), Sym('c')


# --------------------------------------------------------- entry states

def roles(lab, gst, g):
    """The containers behind the outgoing and the ingoing view, with the kind
    of container they hold per vertex."""
    E = lab.eng
    d = {n: v for (o, n), v in gst.fields.items() if o == g.oid}
    if any(not isinstance(v, Ref) for v in d.values()) or len(d) != 2:
        raise Unsupported('graphs are not made of two mappings: %s'
                          % ', '.join(sorted(d)))
    o = lab.call(g, 'add_edge', Sym('a0'), Sym('b0'), st=gst)
    needed(o, 'edges cannot be added to the empty graph')
    kinds = {n: E.content(v, o.st).sub for n, v in d.items()}
    if any(k not in ('dict', 'set') for k in kinds.values()):
        raise Unsupported('vertices do not map to sets or mappings')
    # which of the two does the outgoing view read?
    x, y = Sym('x!'), Sym('y!')
    s = gst.fork()
    for n, v in d.items():
        s.heap[v.loc] = Content('dict', [
            Entry('add', (x,), E.rel('vert', x), (x,), NESTED),
            Entry('add', (x, y), E.rel('role:' + n, x, y), (x, y),
                  App('rv', [x, y]) if kinds[n] == 'dict' else None)],
            kinds[n])
    r = {}
    for view in ('outgoing_vertices', 'ingoing_vertices'):
        o = lab.call(g, view, P, st=s)
        needed(o, '%s never returns' % view)
        f = members(lab, o.val, o.st, Q)
        used = {a.args[0] for a in atoms_of(f).values() if a.kind == 'rel'
                and a.args[0].startswith('role:')}
        if len(used) != 1:
            return None
        r[view] = used.pop()[5:]
    if r['outgoing_vertices'] == r['ingoing_vertices']:
        return None
    info = d, kinds, r['outgoing_vertices'], r['ingoing_vertices']
    return info + (both_store(lab, gst, g, info),)


def both_store(lab, gst, g, info):
    """Do both views keep the value of an edge (of the first one)?"""
    E = lab.eng
    d, kinds, fwd, rev = info[:4]
    if kinds[fwd] != 'dict' or kinds[rev] != 'dict':
        return False
    a, b, v = Sym('a0'), Sym('b0'), Sym('v0')
    o = lab.call(g, 'add_edge', a, b, v, st=gst)
    if o.st is None:
        return False
    return all(decide(E, o.normal(), E.eq(E.lookup(E.content(
        d[n], o.st), k), v)).status == PROVED
        for n, k in ((fwd, (a, b)), (rev, (b, a))))


def stored(lab, info, st):
    """Formula: both views hold the same value for an edge (p, q)."""
    E = lab.eng
    d, kinds, fwd, rev = info[:4]
    F, R = E.content(d[fwd], st), E.content(d[rev], st)
    return Implies(And(E.mem(F, (P, Q)), E.mem(R, (Q, P))), E.eq(
        E.lookup(F, (P, Q)), E.lookup(R, (Q, P))))


def graph_content(E, kind, mirror, V, F, w, both=False):
    x, y = Sym('x!'), Sym('y!')
    key = (y, x) if mirror else (x, y)
    v = None
    if kind == 'dict':
        v = App(w, [x, y]) if not mirror or both else \
            Opaque('reverse value', (x, y))
    return Content('dict', [
        Entry('add', (x,), E.rel(V, x), (x,), NESTED),
        Entry('add', (x, y), E.rel(F, x, y), key, v)], kind)


def install(lab, st, g, V='V', F='F', w='w', info=None):
    """Give the (fresh, empty) graph g the vertices V, the edges F and the
    edge values w."""
    E = lab.eng
    info = info or roles(lab, st, g)
    if info is None:
        # the views do not read what the updates write; leave it to the
        # empty graph rules
        raise Unsupported('outgoing and ingoing views are not told apart')
    d, kinds, fwd, rev, both = info
    for view, mirror in ((fwd, False), (rev, True)):
        C = graph_content(E, kinds[view], mirror, V, F, w, both)
        if lab.shape:
            C = materialise(E, C, elements(lab.shape))
        st.heap[d[view].loc] = C
    if lab.shape:
        E.schemas[V] = [lambda x: Or(*[E.eq(x, e) for e in elements(
            lab.shape)])]
    E.schemas[F] = [lambda x, y: And(E.rel(V, x), E.rel(V, y))]
    return info


def elements(k, hint='v'):
    return [Const('%s%d' % (hint, i)) for i in range(k)]


def materialise(E, C, elems, alive=None):
    """The contents over a universe of known elements, one by one."""
    log = []
    for e in C.log:
        for xs in itertools.product(elems, repeat=len(e.B)):
            m = dict(zip(e.B, xs))
            g = E.subst(e.g, m)
            if alive is not None:
                g = alive(g)
            if g is False:
                continue
            log.append(e.but(B=(), g=g, key=tuple(E.subst(k, m)
                                                  for k in e.key),
                             val=None if e.val is None else
                             E.subst(e.val, m)))
    return C.but(log=log)


def nothing_else(lab, g, st):
    """The attributes a new object has are all that it ever gets."""
    kept = {n for (oid, n) in st.fields if oid == g.oid}
    for c in lab.prog.mro(g.cls):
        for m in ast.walk(c.node):
            # state that earlier operations may leave behind
            if isinstance(m, ast.Attribute) and isinstance(m.ctx, (
                    ast.Store, ast.Del)) and m.attr not in kept or \
                    isinstance(m, ast.Call) and isinstance(
                        m.func, ast.Name) and m.func.id in (
                            'setattr', 'delattr', 'vars') or isinstance(
                                m, ast.Attribute) and m.attr in (
                                    '__dict__', '__setattr__'):
                raise Unsupported('%s keeps more than its constructor '
                                  'creates' % g.cls.name)


def graph_lab(ck, contract=False):
    """A graph in an arbitrary state; with `contract`, graphs created by the
    analysed code are represented by their contract."""
    lab = ck.lab()
    o = lab.new('Graph')
    needed(o, 'an empty graph cannot be created')
    lab.st = o.st
    g = o.val
    nothing_else(lab, g, o.st)
    lab.info = install(lab, lab.st, g)
    if contract:
        lab.contract = GraphContract(lab.eng)
    return lab, g


# ------------------------------------------------------------ observations

def members(lab, v, st, key):
    """Formula: key is an element of the collection v."""
    E = lab.eng
    if isinstance(v, IteV):
        return Or(And(v.c, members(lab, v.a, st, key)),
                  And(Not(v.c), members(lab, v.b, st, key)))
    if isinstance(v, TupleV):
        return Or(*[E.eq(x, key) for x in v.items])
    Cn = E.coll(v, st)
    if Cn is None:
        raise Unsupported('not a collection: %s' % show(v))
    E.freeze(key, st)
    return E.mem(Cn, (key,))


def duplicates(lab, v, st):
    """Formula: some element is listed twice."""
    E = lab.eng
    if isinstance(v, IteV):
        return Or(And(v.c, duplicates(lab, v.a, st)),
                  And(Not(v.c), duplicates(lab, v.b, st)))
    if isinstance(v, TupleV):
        return Or(*[E.eq(x, y) for i, x in enumerate(v.items)
                    for y in v.items[:i]])
    Cn = E.coll(v, st)
    if Cn.distinct or Cn.kind != 'list':
        return False
    if Cn.lost:
        return atom('opq', Opaque('dup'))
    out = []
    es = Cn.log
    for i, e in enumerate(es):
        if e.op != 'add':
            return atom('opq', Opaque('dup'))
        if e.B:
            if not e.setlike:
                return atom('opq', Opaque('dup'))
            e2 = E.rename(e)
            same = And(*[E.eq(a, b) for a, b in zip(e.B, e2.B)])
            out.append(E.exists(e.B + e2.B, And(
                e.g, e2.g, E.eq(e.key[0], e2.key[0]), Not(same))))
        for o in es[:i]:
            a, b = E.rename(e), E.rename(o)
            out.append(E.exists(a.B + b.B, And(
                a.g, b.g, E.eq(a.key[0], b.key[0]))))
    return Or(*out)


class View:
    """Public view of a graph in some state."""

    def __init__(self, lab, g, st):
        self.lab, self.g, self.st = lab, g, st
        self.E = lab.eng

    def flag(self, name, *args):
        o = self.lab.call(self.g, name, *args, st=self.st)
        if o.st is None:
            raise Unsupported('%s never returns' % name)
        return self.E.truth(o.val, o.st), o.raises()

    def vertex(self, p):
        f, r = self.flag('has_vertex', p)
        return And(f, Not(r))

    def edge(self, p, q):
        f, r = self.flag('has_edge', p, q)
        return And(f, Not(r))

    def get(self, p, q):
        o = self.lab.call(self.g, 'get', p, q, st=self.st)
        return (o.val if o.st is not None else None), o.raises()

    def out(self, p, q):
        return self.side('outgoing_vertices', p, q)

    def inn(self, p, q):
        return self.side('ingoing_vertices', p, q)

    def side(self, name, p, q):
        o = self.lab.call(self.g, name, p, st=self.st)
        if o.st is None:
            return False
        return And(Not(o.raises()), members(self.lab, o.val, o.st, q))


def same_view(ck, lab, g, pre, st0, st1, what):
    """The graph looks the same in both states."""
    u, v = View(lab, g, st0), View(lab, g, st1)
    ck.iff(lab, pre, v.vertex(P), u.vertex(P), what + ': vertices')
    ck.iff(lab, pre, v.edge(P, Q), u.edge(P, Q), what + ': edges')
    ck.iff(lab, pre, v.inn(Q, P), u.inn(Q, P), what + ': ingoing edges')
    a, _ = u.get(P, Q)
    b, _ = v.get(P, Q)
    if a is not None and b is not None:
        ck.valid(lab, And(pre, u.edge(P, Q)), lab.eng.eq(a, b),
                 what + ': edge values')


def check_exact(ck, lab, g, st, pre, V, F, w, what):
    """The graph has exactly the vertices V(p), edges F(p,q), values w(p,q)."""
    v = View(lab, g, st)
    ck.iff(lab, pre, v.vertex(P), V(P), what + ': the set of vertices')
    ck.iff(lab, pre, v.edge(P, Q), F(P, Q), what + ': the set of edges')
    ck.iff(lab, pre, v.inn(Q, P), F(P, Q),
           what + ': the set of ingoing edges')
    val, _ = v.get(P, Q)
    if val is None:
        ck.fail(what + ': edge values cannot be read')
    else:
        ck.valid(lab, And(pre, F(P, Q)), lab.eng.eq(val, w(P, Q)),
                 what + ': the edge values')


def check_views(ck, lab, g, st, pre, what):
    v = View(lab, g, st)
    E = lab.eng
    ck.iff(lab, pre, v.out(P, Q), v.inn(Q, P),
           what + ': outgoing and ingoing views mirror each other')
    ck.iff(lab, pre, v.edge(P, Q), v.out(P, Q),
           what + ': an edge exists iff it is in the outgoing view')
    ck.valid(lab, pre, Implies(v.edge(P, Q), And(v.vertex(P), v.vertex(Q))),
             what + ': edges connect vertices of the graph')
    for nm in ('outgoing_vertices', 'ingoing_vertices'):
        o = lab.call(g, nm, P, st=st)
        ck.valid(lab, And(pre, v.vertex(P)), Not(o.raises()),
                 what + ': every vertex has ' + nm)
    _, r = v.get(P, Q)
    ck.valid(lab, And(pre, v.edge(P, Q)), Not(r),
             what + ': every edge has a value')


def pc_of(st, before):
    return And(*st.pc[len(before.pc):])


MUTATORS = {
    'add_vertex': [A], 'add_edge': [A, B, C], 'add_bi_edge': [A, B, C],
    'set': [A, B, C], 'set_bi_edge': [A, B, C],
    'remove_vertex': [A], 'remove_edge': [A, B], 'remove_bi_edge': [A, B],
}


def c01(run):
    run.shapes = (2,)
    def empty(ck):
        lab = ck.lab()
        o = lab.new('Graph')
        E = lab.eng
        v = View(lab, o.val, o.st)
        ck.never(lab, True, v.vertex(P), 'a new graph has no vertices')
        ck.never(lab, True, v.edge(P, Q), 'a new graph has no edges')
        o2 = lab.call(o.val, 'add_edge', A, B, C, st=o.st)
        if o2.st is None:
            ck.fail('an edge cannot be added to an empty graph')
            return
        check_views(ck, lab, o.val, o2.st, True, 'first edge')
        u = View(lab, o.val, o2.st)
        ck.iff(lab, True, u.out(P, Q), And(E.eq(P, A), E.eq(Q, B)),
               'outgoing view of a graph with one edge')
        ck.iff(lab, True, u.inn(P, Q), And(E.eq(P, B), E.eq(Q, A)),
               'ingoing view of a graph with one edge')
    run.ob('C01.empty', 'a new graph is empty; its first edge shows up in both '
           'views', 'Graph.__init__', empty)

    def mk(name, args):
        def body(ck):
            lab, g = graph_lab(ck)
            o = lab.call(g, name, *args)
            if o.st is not None:
                check_views(ck, lab, g, o.st, o.normal(), 'after ' + name)
            for e in o.raised:
                if lab.eng.sat(pc_of(e.st, lab.st)):
                    check_views(ck, lab, g, e.st, pc_of(e.st, lab.st),
                                'after a refused ' + name)
            if o.st is not None and lab.info[4]:
                ck.valid(lab, o.normal(), stored(lab, lab.info, o.st),
                         'after %s: both views hold the same value' % name)
        return body
    for n, a in MUTATORS.items():
        run.ob('C01.' + n, 'outgoing view, ingoing view, edge test and vertex '
               'set stay consistent', 'Graph.' + n, mk(n, a))

    def derived(what, make, where):
        def body(ck):
            lab, g = graph_lab(ck, True)
            o, h = make(lab, g)
            if o.st is None:
                ck.fail('no graph is returned')
                return
            if not isinstance(h, ObjV):
                raise Unsupported('result is not one object')
            check_views(ck, lab, h, o.st, o.normal(), what)
        run.ob('C01.' + what, 'views of a derived graph are consistent',
               where, body)
    derive_all(derived)


def derive_all(reg):
    def subgraph(lab, g):
        C = Content('list', [
            Entry('add', (Sym('s!'),), lab.eng.rel('S', Sym('s!')),
                  (Sym('s!'),), setlike=False)])
        if lab.shape:
            C = materialise(lab.eng, C, elements(lab.shape))
            lab.eng.schemas['S'] = lab.eng.schemas['V']
        S = lab.eng.alloc(lab.st, C, 'S')
        o = lab.call(g, 'subgraph', S)
        return o, o.val

    def copy(lab, g):
        o = lab.call(g, 'copy')
        return o, o.val

    def reverse(lab, g):
        o = lab.call(g, 'reverse')
        return o, o.val

    def ctor(lab, g):
        # the constructor itself, building its own object by the contract
        E, K = lab.eng, lab.contract
        cls = lab.cls('Graph')
        h = ObjV(E.fresh('Graph'), cls)
        m = lab.prog.find_member(cls, '__init__')
        st = lab.st.fork()
        K.adopt(st, h, sealed=False)
        n = set(st.heap)

        def go(s):
            E.call(E.bind(h, m), [g], {}, s, None)
            for (o, f), v in s.fields.items():
                if o == h.oid and f[0] != '!':
                    C = E.coll(v, s)
                    if C is None or C.log or (
                            isinstance(v, Ref) and v.loc in n):
                        raise Unsupported('constructor fills in %s' % f)
            return h
        o = lab.run(go, st)
        return o, h
    reg('subgraph', subgraph, 'Graph.subgraph')
    reg('copy', copy, 'Graph.copy')
    reg('reverse', reverse, 'Graph.reverse')
    reg('Graph(graph)', ctor, 'Graph.__init__')


def rels(lab):
    E = lab.eng
    return (lambda p: E.rel('V', p), lambda p, q: E.rel('F', p, q),
            lambda p, q: App('w', [p, q]))


def c02(run):
    run.shapes = (2,)
    def spec(name, args, V, F, w, kw=0):
        def body(ck):
            lab, g = graph_lab(ck)
            E = lab.eng
            v, f, ww = rels(lab)
            if kw:
                named = lab.named(lab.member('Graph', name), args,
                                  lab.member('Graph', 'add_edge'))
                if named is None:
                    raise Unsupported('arguments by position only')
                named = dict(list(named.items())[kw:])
                o = lab.call(g, name, *args[:kw], **named)
            else:
                o = lab.call(g, name, *args)
            ck.never(lab, True, o.raises(), name + ' raises')
            if o.st is None:
                return
            check_exact(ck, lab, g, o.st, True,
                        lambda p: V(E, v, p),
                        lambda p, q: F(E, f, p, q),
                        lambda p, q: w(E, f, ww, p, q), name)
        tag = name if len(args) != 2 else name + ' (default value)'
        if kw:
            tag += ' (keyword)'
        run.ob('C02.' + tag.replace(' ', '_'), 'exactly the requested vertices '
               'and edges are added; everything else keeps its value',
               'Graph.' + name, body)

    def addv(E, v, p):
        return Or(v(p), E.eq(p, A))

    def addab(E, v, p):
        return Or(v(p), E.eq(p, A), E.eq(p, B))

    def ab(E, p, q):
        return And(E.eq(p, A), E.eq(q, B))

    def ba(E, p, q):
        return And(E.eq(p, B), E.eq(q, A))

    def keep(c):
        def w(E, f, ww, p, q):
            return ite(f(p, q), ww(p, q), c(E))
        return w
    spec('add_vertex', [A], addv, lambda E, f, p, q: f(p, q),
         lambda E, f, w, p, q: w(p, q))
    one = lambda E, f, p, q: Or(f(p, q), ab(E, p, q))
    both = lambda E, f, p, q: Or(f(p, q), ab(E, p, q), ba(E, p, q))
    spec('add_edge', [A, B, C], addab, one, keep(lambda E: C))
    spec('add_edge', [A, B], addab, one, keep(lambda E: E.num(1)))
    spec('add_bi_edge', [A, B, C], addab, both, keep(lambda E: C))
    spec('add_edge', [A, B, C], addab, one, keep(lambda E: C), 2)
    spec('add_bi_edge', [A, B, C], addab, both, keep(lambda E: C), 2)
    spec('add_bi_edge', [A, B], addab, both, keep(lambda E: E.num(1)))
    spec('set', [A, B, C], addab, one,
         lambda E, f, w, p, q: ite(ab(E, p, q), C, w(p, q)))
    spec('set_bi_edge', [A, B, C], addab, both,
         lambda E, f, w, p, q: ite(Or(ab(E, p, q), ba(E, p, q)), C, w(p, q)))


def c03(run):
    run.shapes = (2,)
    def spec(name, args, refuse, V, F, pre=None, atomic=True):
        def body(ck):
            lab, g = graph_lab(ck)
            E = lab.eng
            v, f, ww = rels(lab)
            p0 = pre(E) if pre else True
            o = lab.call(g, name, *args)
            ck.iff(lab, p0, o.raises(), refuse(E, v, f),
                   name + ' is refused iff there is nothing to remove')
            if o.st is not None:
                check_exact(ck, lab, g, o.st, And(p0, o.normal()),
                            lambda p: V(E, v, p), lambda p, q: F(E, f, p, q),
                            ww, name)
            if not atomic:
                return
            for e in o.raised:
                pc = And(p0, pc_of(e.st, lab.st))
                if E.sat(pc):
                    same_view(ck, lab, g, pc, lab.st, e.st,
                              'refused ' + name + ' leaves the graph alone')
        run.ob('C03.' + name, 'exactly the requested vertex or edges are '
               'removed, and removal of something absent is refused',
               'Graph.' + name, body)
    spec('remove_vertex', [A], lambda E, v, f: Not(v(A)),
         lambda E, v, p: And(v(p), Not(E.eq(p, A))),
         lambda E, f, p, q: And(f(p, q), Not(E.eq(p, A)), Not(E.eq(q, A))))
    spec('remove_edge', [A, B], lambda E, v, f: Not(f(A, B)),
         lambda E, v, p: v(p),
         lambda E, f, p, q: And(f(p, q), Not(And(E.eq(p, A), E.eq(q, B)))))
    spec('remove_bi_edge', [A, B],
         lambda E, v, f: Not(And(f(A, B), f(B, A))),
         lambda E, v, p: v(p),
         lambda E, f, p, q: And(f(p, q), Not(And(E.eq(p, A), E.eq(q, B))),
                                Not(And(E.eq(p, B), E.eq(q, A)))),
         lambda E: Not(E.eq(A, B)), atomic=False)


def c04(run):
    run.shapes = (2,)
    def reg(what, make, where):
        def body(ck):
            lab, g = graph_lab(ck, True)
            E = lab.eng
            v, f, w = rels(lab)
            before = lab.st
            o, h = make(lab, g)
            ck.never(lab, True, o.raises(), what + ' raises')
            if o.st is None:
                ck.fail('no graph is returned')
                return
            if not isinstance(h, ObjV):
                raise Unsupported('result is not one object')
            S = lambda p: True
            if what == 'subgraph':
                S = lambda p: E.rel('S', p)
            if what == 'reverse':
                V, F, W = v, lambda p, q: f(q, p), lambda p, q: w(q, p)
            else:
                V = lambda p: And(v(p), S(p))
                F = lambda p, q: And(f(p, q), S(p), S(q))
                W = w
            check_exact(ck, lab, h, o.st, True, V, F, W, what)
            same_view(ck, lab, g, True, before, o.st,
                      what + ' leaves the original alone')
            # independence, in both directions
            for x, y, t in ((h, g, 'changing the result leaves the original '
                             'alone'), (g, h, 'changing the original leaves '
                                        'the result alone')):
                for m in ('add_edge', 'set', 'remove_vertex'):
                    o2 = lab.call(x, m, *MUTATORS[m], st=o.st)
                    if o2.st is None:
                        continue
                    same_view(ck, lab, y, pc_of(o2.st, lab.st), o.st, o2.st,
                              '%s: %s (%s)' % (what, t, m))
        run.ob('C04.' + what, 'the derived graph has exactly the right '
               'vertices, edges and values and shares nothing with the '
               'original', where, body)
    derive_all(reg)


def fresh_result(ck, lab, o, what):
    """The result is a collection of its own, not a view of the graph."""
    v = o.val
    for c, x in leaves(v):
        if isinstance(x, ViewV):
            ck.fail(what + ': the result is a live view of the graph '
                    '(it changes, or breaks iteration, when the graph does)')
        elif isinstance(x, Ref) and (x.pre or lab.eng.resolve(
                x, o.st).loc in o.before.heap):
            ck.fail(what + ': the result is the graph\'s own container')
        elif isinstance(x, SnapV) and x.what == 'iter':
            ck.fail(what + ': the result is an iterator, not a list (it is '
                    'used up by the first look at it)')
        elif isinstance(x, (Ref, TupleV, SnapV)):
            ck.ok()
        else:
            raise Unsupported('not a collection: %s' % show(x))


def leaves(v, c=True):
    if isinstance(v, IteV):
        return leaves(v.a, And(c, v.c)) + leaves(v.b, And(c, Not(v.c)))
    return [(c, v)]


def c05(run):
    run.shapes = (2,)
    def query(name, args, key, want, pre=lambda E: True, dup=True):
        def body(ck):
            lab, g = graph_lab(ck)
            E = lab.eng
            v, f, w = rels(lab)
            p0 = pre(E)
            o = lab.call(g, name, *args)
            ck.never(lab, p0, o.raises(), name + ' raises')
            if o.st is None:
                ck.fail(name + ' never returns')
                return
            ck.iff(lab, p0, members(lab, o.val, o.st, key),
                   want(E, v, f), name + ': exactly the right elements')
            other = Sym('other')
            if isinstance(key, TupleV):
                ck.never(lab, And(p0, Not(E.eq(other, key))) if False else p0,
                         False, '')
            if dup:
                ck.never(lab, p0, duplicates(lab, o.val, o.st),
                         name + ': an element is listed twice')
            fresh_result(ck, lab, o, name)
            same_view(ck, lab, g, p0, o.before, o.st,
                      name + ' changes the graph')
        run.ob('C05.' + name, 'the query lists exactly the right elements, '
               'once, in a list of its own', 'Graph.' + name, body)

    def hasx(E):
        return E.rel('V', A)
    query('vertices', [], P, lambda E, v, f: v(P))
    query('edges', [], TupleV([P, Q]), lambda E, v, f: f(P, Q))
    query('outgoing_vertices', [A], P, lambda E, v, f: f(A, P), hasx)
    query('ingoing_vertices', [A], P, lambda E, v, f: f(P, A), hasx)
    query('adjacent_vertices', [A], P,
          lambda E, v, f: Or(f(A, P), f(P, A)), hasx)
    query('outgoing_edges', [A], TupleV([P, Q]),
          lambda E, v, f: And(E.eq(P, A), f(P, Q)), hasx)
    query('ingoing_edges', [A], TupleV([P, Q]),
          lambda E, v, f: And(E.eq(Q, A), f(P, Q)), hasx)
    query('adjacent_edges', [A], TupleV([P, Q]),
          lambda E, v, f: And(f(P, Q), Or(E.eq(Q, A), E.eq(P, A))), hasx,
          dup=False)

    def test(name, args, want):
        def body(ck):
            lab, g = graph_lab(ck)
            E = lab.eng
            v, f, w = rels(lab)
            o = lab.call(g, name, *args)
            ck.never(lab, True, o.raises(), name + ' raises')
            if o.st is None:
                return
            ck.iff(lab, True, E.truth(o.val, o.st), want(v, f),
                   name + ' answers correctly')
            same_view(ck, lab, g, True, o.before, o.st,
                      name + ' changes the graph')
        run.ob('C05.' + name, 'the test is true exactly when it should be',
               'Graph.' + name, body)
    test('has_vertex', [A], lambda v, f: v(A))
    test('has_edge', [A, B], lambda v, f: f(A, B))
    test('has_bi_edge', [A, B], lambda v, f: And(f(A, B), f(B, A)))
    test('has_any_edge', [A, B], lambda v, f: Or(f(A, B), f(B, A)))

    def get(ck):
        lab, g = graph_lab(ck)
        E = lab.eng
        v, f, w = rels(lab)
        o = lab.call(g, 'get', A, B)
        ck.iff(lab, True, o.raises(), Not(f(A, B)),
               'the value of an absent edge is refused, others are found')
        if o.st is not None:
            ck.valid(lab, f(A, B), E.eq(o.val, w(A, B)), 'value of the edge')
    run.ob('C05.get', 'the value of an edge is the one stored last',
           'Graph.get', get)


RULES = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05}
