"""Contract of Graph (decided by the graph rules) as call summaries.

Code that uses graphs is analysed against this contract, in which every
operation is one update of two relations: vertices and valued edges."""

import itertools

from .logic import *          # noqa: F401,F403
from .content import Content, Entry
from .engine import Unsupported

SELF_V, SELF_E = '!V', '!E'


class GraphContract:
    def __init__(self, eng):
        self.eng = eng
        self.cls = eng.prog.find_class('Graph')
        self.objs = set()
        q = self.cls.qual
        for n in dir(self):
            if n.startswith('g_'):
                m = self.cls.methods.get(n[2:])
                if m is not None:
                    eng.summaries[q + '.' + n[2:]] = self.hook(n)
        eng.summaries['new:' + q] = self.new
        self.names = [n[2:] for n in dir(self) if n.startswith('g_')]

    def hook(self, n):
        fn = getattr(self, n)

        def h(eng, args, kwargs, st, node):
            if not args or not isinstance(args[0], ObjV) or \
                    args[0].oid not in self.objs:
                return None
            m = self.cls.methods[n[2:]]
            fv = FuncV(m, self.cls.mod, None, self.cls, 'x')
            if kwargs or m.args.defaults:
                if m.args.vararg or m.args.kwarg:
                    ordered = list(args)
                    if kwargs:
                        nm = ['self', 'v1', 'v2', 'value'][len(args):]
                        for k in nm:
                            if k in kwargs:
                                ordered.append(kwargs[k])
                    args = ordered
                else:
                    env = eng.bind_args(fv, m.args, args, kwargs, st, node)
                    if env is None:
                        eng.implicit('TypeError', st, node, True)
                    args = [env[a.arg] for a in m.args.args]
            most = fn.__code__.co_argcount - 4
            if not most - len(fn.__defaults__) + 1 <= len(args) - 1 <= most:
                eng.implicit('TypeError', st, node, True)
            r = fn(st, args[0], *args[1:], node=node)
            return NONE if r is None else r
        return h

    # containers

    def make(self, st, V=None, E=None):
        eng = self.eng
        o = ObjV(eng.fresh('Graph'), self.cls)
        self.adopt(st, o, V, E)
        return o

    def adopt(self, st, o, V=None, E=None, sealed=True):
        eng = self.eng
        eng.sealed[o.oid] = sealed
        self.objs.add(o.oid)
        st.fields[(o.oid, SELF_V)] = eng.alloc(
            st, V or Content('set'), 'gv')
        st.fields[(o.oid, SELF_E)] = eng.alloc(
            st, E or Content('dict'), 'ge')

    def new(self, eng, args, kwargs, st, node):
        o = self.make(st)
        src = list(args) + list(kwargs.values())
        if src and src[0].key() != NONE.key():
            s = src[0]
            if not (isinstance(s, ObjV) and s.oid in self.objs):
                raise Unsupported('graph built from something else', node)
            self.fill(st, o, self.V(st, s), self.E(st, s))
        return o

    def fill(self, st, o, V, E):
        eng = self.eng
        x, y = eng.bsym('x'), eng.bsym('y')
        st.heap[st.fields[(o.oid, SELF_V)].loc] = Content('set', [
            Entry('add', (x,), eng.mem(V, (x,)), (x,))])
        st.heap[st.fields[(o.oid, SELF_E)].loc] = Content('dict', [
            Entry('add', (x, y), eng.mem(E, (x, y)), (x, y),
                  eng.lookup(E, (x, y)))])

    def refs(self, st, o):
        return st.fields[(o.oid, SELF_V)], st.fields[(o.oid, SELF_E)]

    def V(self, st, o):
        return self.eng.content(st.fields[(o.oid, SELF_V)], st)

    def E(self, st, o):
        return self.eng.content(st.fields[(o.oid, SELF_E)], st)

    def has(self, st, o, *k):
        C = self.V(st, o) if len(k) == 1 else self.E(st, o)
        return self.eng.mem(C, k)

    universe = ()

    def out(self, st, kind, entries, distinct=True):
        if self.universe:
            m, entries = entries, []
            for e in m:
                for xs in itertools.product(self.universe, repeat=len(e.B)):
                    d = dict(zip(e.B, xs))
                    g = self.eng.subst(e.g, d)
                    if g is not False:
                        entries.append(e.but(B=(), g=g, key=tuple(
                            self.eng.subst(k, d) for k in e.key)))
        return self.eng.alloc(st, Content(kind, entries, distinct=distinct),
                              'q')

    def need(self, st, o, v, node):
        self.eng.implicit('KeyError', st, node, Not(self.has(st, o, v)))

    def refuse(self, st, cond, node):
        self.eng.do_raise(ExcV('Exception', node), st, node, cond)

    # updates

    def g_add_vertex(self, st, o, v, node=None):
        V, E = self.refs(st, o)
        self.eng.write(V, st, Entry('add', (), True, (v,), node=node))

    def g_add_edge(self, st, o, a, b, value=None, node=None):
        V, E = self.refs(st, o)
        value = self.eng.num(1) if value is None else value
        self.eng.write(V, st, Entry('add', (), True, (a,), node=node),
                       Entry('add', (), True, (b,), node=node))
        self.eng.write(E, st, Entry('setd', (), True, (a, b), value,
                                    node=node))

    def g_add_bi_edge(self, st, o, a, b, value=None, node=None):
        self.g_add_edge(st, o, a, b, value, node)
        self.g_add_edge(st, o, b, a, value, node)

    def g_set(self, st, o, a, b, value, node=None):
        V, E = self.refs(st, o)
        self.eng.write(V, st, Entry('add', (), True, (a,), node=node),
                       Entry('add', (), True, (b,), node=node))
        self.eng.write(E, st, Entry('add', (), True, (a, b), value,
                                    node=node))

    def g_set_bi_edge(self, st, o, a, b, value, node=None):
        self.g_set(st, o, a, b, value, node)
        self.g_set(st, o, b, a, value, node)

    def g_remove_vertex(self, st, o, v, node=None):
        self.refuse(st, Not(self.has(st, o, v)), node)
        V, E = self.refs(st, o)
        x = self.eng.bsym('x')
        self.eng.write(V, st, Entry('rem', (), True, (v,), node=node))
        y = self.eng.bsym('x')
        self.eng.write(E, st, Entry('rem', (x,), True, (x, v), node=node),
                       Entry('rem', (y,), True, (v, y), node=node))

    def g_remove_edge(self, st, o, a, b, node=None):
        self.refuse(st, Not(self.has(st, o, a, b)), node)
        self.eng.write(self.refs(st, o)[1], st,
                       Entry('rem', (), True, (a, b), node=node))

    def g_remove_bi_edge(self, st, o, a, b, node=None):
        self.g_remove_edge(st, o, a, b, node)
        self.g_remove_edge(st, o, b, a, node)

    # queries

    def g_has_vertex(self, st, o, v, node=None):
        return BoolV(self.has(st, o, v))

    def g_has_edge(self, st, o, a, b, node=None):
        return BoolV(self.has(st, o, a, b))

    def g_has_bi_edge(self, st, o, a, b, node=None):
        return BoolV(And(self.has(st, o, a, b), self.has(st, o, b, a)))

    def g_has_any_edge(self, st, o, a, b, node=None):
        return BoolV(Or(self.has(st, o, a, b), self.has(st, o, b, a)))

    def g_get(self, st, o, a, b, node=None):
        self.eng.implicit('KeyError', st, node, Not(self.has(st, o, a, b)))
        return self.eng.lookup(self.E(st, o), (a, b))

    def g_vertices(self, st, o, node=None):
        x = self.eng.bsym('n')
        return self.out(st, 'list', [Entry('add', (x,), self.has(st, o, x),
                                           (x,))])

    def g_edges(self, st, o, node=None):
        x, y = self.eng.bsym('n'), self.eng.bsym('m')
        return self.out(st, 'list', [Entry(
            'add', (x, y), self.has(st, o, x, y), (TupleV([x, y]),))])

    def side(self, st, o, v, fn, key, node):
        self.need(st, o, v, node)
        x = self.eng.bsym('n')
        return self.out(st, 'list', [Entry('add', (x,), fn(x), (key(x),))])

    def g_outgoing_vertices(self, st, o, v, node=None):
        return self.side(st, o, v, lambda x: self.has(st, o, v, x),
                         lambda x: x, node)

    def g_ingoing_vertices(self, st, o, v, node=None):
        return self.side(st, o, v, lambda x: self.has(st, o, x, v),
                         lambda x: x, node)

    def g_adjacent_vertices(self, st, o, v, node=None):
        return self.side(st, o, v, lambda x: Or(self.has(st, o, x, v),
                                                self.has(st, o, v, x)),
                         lambda x: x, node)

    def g_outgoing_edges(self, st, o, v, node=None):
        return self.side(st, o, v, lambda x: self.has(st, o, v, x),
                         lambda x: TupleV([v, x]), node)

    def g_ingoing_edges(self, st, o, v, node=None):
        return self.side(st, o, v, lambda x: self.has(st, o, x, v),
                         lambda x: TupleV([x, v]), node)

    def g_adjacent_edges(self, st, o, v, node=None):
        self.need(st, o, v, node)
        x, y = self.eng.bsym('n'), self.eng.bsym('n')
        return self.out(st, 'list', [
            Entry('add', (x,), self.has(st, o, x, v), (TupleV([x, v]),)),
            Entry('add', (y,), self.has(st, o, v, y), (TupleV([v, y]),))],
            distinct=False)

    # derived graphs

    def g_subgraph(self, st, o, vs, node=None):
        eng = self.eng
        C = eng.coll(vs, st)
        if C is None:
            raise Unsupported('subgraph of an unknown collection', node)
        g = self.make(st)
        x, y = eng.bsym('x'), eng.bsym('y')
        V, E = self.V(st, o), self.E(st, o)
        st.heap[st.fields[(g.oid, SELF_V)].loc] = Content('set', [Entry(
            'add', (x,), And(eng.mem(V, (x,)), eng.mem(C, (x,))), (x,))])
        st.heap[st.fields[(g.oid, SELF_E)].loc] = Content('dict', [Entry(
            'add', (x, y), And(eng.mem(E, (x, y)), eng.mem(C, (x,)),
                               eng.mem(C, (y,))), (x, y),
            eng.lookup(E, (x, y)))])
        return g

    def g_copy(self, st, o, node=None):
        g = self.make(st)
        self.fill(st, g, self.V(st, o), self.E(st, o))
        return g

    def g_reverse(self, st, o, node=None):
        eng = self.eng
        g = self.make(st)
        x, y = eng.bsym('x'), eng.bsym('y')
        V, E = self.V(st, o), self.E(st, o)
        st.heap[st.fields[(g.oid, SELF_V)].loc] = Content('set', [Entry(
            'add', (x,), eng.mem(V, (x,)), (x,))])
        st.heap[st.fields[(g.oid, SELF_E)].loc] = Content('dict', [Entry(
            'add', (x, y), eng.mem(E, (x, y)), (y, x),
            eng.lookup(E, (x, y)))])
        return g

    # reachability: lists that depend on the edges only

    def edgekey(self, st, o):
        eng = self.eng
        x, y = Sym('$ex'), Sym('$ey')
        f = eng.canon(self.has(st, o, x, y))
        reg = eng.serial.setdefault('edgesets', [])
        for g, k in reg:
            if fkey(g) == fkey(f) or (set(syms_in(g)) == set(syms_in(f)) and
                                      eng.equivalent(g, f)):
                return k
        reg.append((f, len(reg)))
        return len(reg) - 1

    def reach(self, st, o, name, *args):
        eng = self.eng
        k = self.edgekey(st, o)
        n = eng.bsym('n')
        return self.out(st, 'list', [Entry(
            'add', (n,), eng.rel('%s%d' % (name, k), *(args + (n,))), (n,),
            setlike=name != 'path')], distinct=name != 'path')

    def g_path(self, st, o, a, b, node=None):
        self.need(st, o, a, node)
        return self.reach(st, o, 'path', a, b)

    def g_connected(self, st, o, v, ingoing=None, outgoing=None, node=None):
        self.need(st, o, v, node)
        d = []
        for x in (ingoing, outgoing):
            f = True if x is None else self.eng.truth(x, st)
            if not isinstance(f, bool):
                raise Unsupported('unknown direction', node)
            d.append('10'[not f])
        if d == ['0', '0']:
            return self.out(st, 'list', [])
        return self.reach(st, o, 'conn%s' % ''.join(d), v)
