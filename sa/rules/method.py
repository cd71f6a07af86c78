"""Method graphs: validation, propagation, gating, removal, basic methods."""

import ast
import itertools

from ..logic import *          # noqa: F401,F403
from ..content import Content, Entry, NESTED
from ..engine import needed, Unsupported, Flow, Dead
from ..contracts import GraphContract
from ..frontend import AnchorMissing
from ..decide import decide
from .graph import members, pc_of, leaves, fresh_result
from . import graph as G

P, Q, R_ = Sym('p'), Sym('q'), Sym('r')
M = Sym('m', 'elem')
X = Sym('x')
U = Sym('u', 'uval')


class MG:
    """A method graph in an arbitrary valid state."""

    def __init__(self, ck, tag=''):
        self.ck = ck
        lab = self.lab = ck.lab()
        E = self.E = lab.eng
        # small universes of variables and methods, if any
        self.vs = G.elements(lab.shape, 'v') if lab.shape else ()
        self.ms = G.elements(lab.shape, 'm') if lab.shape else ()
        self.K = GraphContract(E)
        self.K.universe = tuple(self.vs) + tuple(self.ms)
        self.exec_stacks = []
        E.user_ops = {'val', 'item', 'retv', 'outval'}
        E.summaries['iter'] = self.iterate
        E.summaries['call:execute'] = self.executed
        o = lab.new('MethodGraph')
        needed(o, 'an empty method graph cannot be created')
        lab.st = o.st
        self.g = o.val
        G.nothing_else(lab, o.val, o.st)
        self.fields()
        self.st0 = lab.st.fork()
        self.install(lab.st)
        self.axioms()

    def iterate(self, eng, v, st):
        if isinstance(v, App) and v.op in ('attr:inputs', 'attr:outputs'):
            b = eng.bsym('i')
            r = 'inp' if v.op == 'attr:inputs' else 'outp'
            C = Content('list', [Entry('add', (b,), eng.rel(
                r, v.args[0], b), (b,), setlike=False)])
            return G.materialise(eng, C, self.vs) if self.vs else C
        return None

    def executed(self, eng, recv, args, kwargs, st, node):
        """The method of a user runs: any mapping may come back."""
        if kwargs or len(args) != 1:
            return None
        self.exec_stacks.append(list(eng.callstack))
        eng.event(st, 'call:execute', [recv, eng.snap(args[0], st)], args,
                  node)
        x = eng.bsym('x')
        return eng.alloc(st, Content('dict', [Entry(
            'add', (x,), eng.rel('ret', recv, x), (x,),
            App('retv', [recv, x]))], distinct=True), 'result')

    def fields(self):
        lab, g = self.lab, self.g
        d = {n: v for (o, n), v in lab.st.fields.items() if o == g.oid}
        gs = [v for v in d.values() if isinstance(v, ObjV) and
              v.oid in self.K.objs]
        cs = {n: v for n, v in d.items() if isinstance(v, Ref)}
        if len(gs) != 1 or len(gs) + len(cs) != len(d) or len(cs) != 3:
            raise Unsupported('method graphs are not made of a graph and '
                              'three collections')
        self.graph = gs[0]
        E = self.E
        s = lab.st.fork()
        x = Sym('x!')
        self.kinds = {}
        for n, v in cs.items():
            C = E.content(v, s)
            self.kinds[n] = C.kind
            s.heap[v.loc] = self.coll_of(C.kind, 'role:' + n, 'rval:' + n)

        def used(f):
            return {a.args[0][5:] for a in atoms_of(f).values()
                    if a.kind == 'rel' and a.args[0].startswith('role:')}
        o = lab.call(g, 'get', P, st=s)
        mp = used(o.raises())
        o = lab.call(g, 'methods', st=s)
        me = used(members(lab, o.val, o.st, P)) if o.st is not None else ()
        if len(mp) != 1 or len(me) != 1 or mp == me:
            raise Unsupported('variables and methods are not told apart')
        self.map, = mp
        self.met, = me
        self.chg, = set(cs) - mp - me
        self.ref = {k: cs[getattr(self, k)] for k in ('map', 'met', 'chg')}

    def coll_of(self, kind, rel, val=None):
        x = Sym('x!')
        C = Content(kind, [Entry(
            'add', (x,), self.E.rel(rel, x), (x,),
            (App(val, [x]) if val else None) if kind == 'dict' else None)],
            distinct=True)
        u = self.vs if rel.startswith(('var', 'chg')) else \
            self.ms if rel.startswith('met') else ()
        return G.materialise(self.E, C, u) if u else C

    def install(self, st, s='', keep=()):
        """Replace the contents by the relations var, met, chg (suffix s)."""
        E = self.E
        var = 'var' if 'var' in keep else 'var' + s
        met = 'met' if 'met' in keep else 'met' + s
        st.heap[self.ref['map'].loc] = self.coll_of(
            self.kinds[self.map], var, 'val' + s)
        st.heap[self.ref['met'].loc] = self.coll_of(
            self.kinds[self.met], met, 'one')
        st.heap[self.ref['chg'].loc] = self.coll_of(
            self.kinds[self.chg], 'chg' + s, 'one')
        x, y = Sym('x!'), Sym('y!')
        V, Ed = self.K.refs(st, self.graph)
        if self.vs:
            st.heap[V.loc] = Content('set', [
                Entry('add', (), E.rel(r, c), (c,)) for r, cs in (
                    (var, self.vs), (met, self.ms)) for c in cs])
            st.heap[Ed.loc] = Content('dict', [
                Entry('add', (), And(E.rel(met, m), E.rel(r, m, c)), k,
                      App('w', list(k))) for m in self.ms for c in self.vs
                for r, k in (('inp', (c, m)), ('outp', (m, c)))])
            if s:
                E.user_ops = E.user_ops | {'val' + s}
                self.axioms(s, keep)
            return
        st.heap[V.loc] = Content('set', [
            Entry('add', (x,), Or(E.rel(var, x), E.rel(met, x)),
                  (x,))])
        st.heap[Ed.loc] = Content('dict', [
            Entry('add', (x, y), self.edge(x, y, met), (x, y),
                  App('w', [x, y]))])
        if s:
            E.user_ops = E.user_ops | {'val' + s}
            self.axioms(s, keep)

    def edge(self, x, y, met='met'):
        E = self.E
        return Or(And(E.rel(met, y), E.rel('inp', y, x)),
                  And(E.rel(met, x), E.rel('outp', x, y)))

    def axioms(self, s='', keep=()):
        E = self.E
        r = E.rel
        var = 'var' if 'var' in keep else 'var' + s
        E.schemas['chg' + s] = [lambda x: r(var, x)]
        if var == 'var' and s:
            return
        E.schemas['met' + s] = [lambda m: Not(r('var' + s, m))]
        if self.vs:
            among = lambda x, u: Or(*[E.eq(x, e) for e in u])   # noqa: E731
            E.schemas['var' + s] = [lambda x: among(x, self.vs)]
            E.schemas['met' + s].append(lambda m: among(m, self.ms))
            if not s:
                for q in ('inp', 'outp'):
                    E.schemas[q] = [lambda m, x: among(x, self.vs)]
        # every variable of a registered method is known; it is determined
        # by one method; methods do not feed themselves
        E.schemas.setdefault('inp', []).append(lambda m, x: Implies(
            r('met' + s, m), And(r('var' + s, x), Not(r('outp', m, x)))))
        E.schemas.setdefault('outp', []).append(lambda m, y: Implies(
            r('met' + s, m), And(r('var' + s, y),
                                 E.eq(m, App('det' + s, [y])),
                                 Not(r('inp', m, y)))))

    # observations of a state

    def c(self, what, st):
        return self.E.content(self.ref[what], st)

    def has(self, what, st, x):
        return self.E.mem(self.c(what, st), (x,))

    def val(self, st, x):
        return self.E.lookup(self.c('map', st), (x,))

    def gv(self, st, x):
        return self.K.has(st, self.graph, x)

    def ge(self, st, x, y):
        return self.K.has(st, self.graph, x, y)

    def events(self, st, name=None):
        """[(guard with binders, binders, event value)]"""
        out = []
        for e in self.E.content(Ref('!events'), st).log:
            v = e.key[0]
            if isinstance(v, TupleV) and (
                    name is None or v.items[0].key() == Const(name).key()):
                out.append(e)
        return out

    def happened(self, st, name, *args, last=False):
        """Formula: an event (name, args...) is recorded."""
        fs = []
        for e in self.events(st, name):
            e = self.E.rename(e)
            it = e.key[0].items[1:]
            fs.append(self.E.exists(e.B, And(e.g, *[
                self.E.eq(a, b) for a, b in zip(it, args)])))
        return Or(*fs)

    def any_event(self, st, name):
        return Or(*[self.E.exists(e.B, e.g) for e in self.events(st, name)])

    def check_valid(self, st, pre, what):
        """The state invariants hold."""
        ck, lab, E = self.ck, self.lab, self.E
        ck.iff(lab, pre, self.gv(st, P),
               Or(self.has('var' if False else 'map', st, P),
                  self.has('met', st, P)),
               what + ': the structure knows exactly the variables and '
               'methods')
        ck.iff(lab, pre, self.ge(st, P, Q),
               Or(And(self.has('met', st, Q), E.rel('inp', Q, P)),
                  And(self.has('met', st, P), E.rel('outp', P, Q))),
               what + ': the structure connects exactly the registered '
               'methods with their variables')
        ck.valid(lab, pre, Implies(self.has('chg', st, P),
                                   self.has('map', st, P)),
                 what + ': only variables of the graph are pending')

    def same(self, st, pre, what, keys=('map', 'met', 'chg', 'val')):
        ck, lab, E = self.ck, self.lab, self.E
        names = {'map': 'variables', 'met': 'methods',
                 'chg': 'pending changes'}
        for k in keys:
            if k == 'val':
                ck.valid(lab, And(pre, E.rel('var', P)),
                         E.eq(self.val(st, P), App('val', [P])),
                         what + ': values unchanged')
            else:
                ck.iff(lab, pre, self.has(k, st, P),
                       self.has(k, lab.st, P), what + ': %s unchanged'
                       % names[k])

    def no_propagation(self):
        """Treat propagation as one recorded step."""
        self.at_prop = []
        q = self.prop_qual()

        def h(eng, args, kwargs, st, node):
            self.at_prop.append(st.fork())
            eng.event(st, 'propagate', [], [], node)
            return NONE
        self.E.summaries[q] = h

    def propagates(self, o, pre, prop):
        ck, lab, E = self.ck, self.lab, self.E
        ev = self.any_event(o.st, 'propagate')
        if prop:
            ck.valid(lab, And(pre, self.has('chg', o.st, Q)), ev,
                     'the change is propagated when asked for')
        else:
            ck.never(lab, pre, ev, 'propagated although not asked for')

    def propagated_last(self, o, pre, what):
        """Nothing changes after the propagation."""
        ck, lab, E = self.ck, self.lab, self.E
        evs = self.events(o.st, 'propagate')
        if len(self.at_prop) != 1 or len(evs) != 1 or evs[0].B:
            return
        s, = self.at_prop
        pre = And(pre, evs[0].g)
        for k in ('map', 'met', 'chg'):
            ck.iff(lab, pre, self.has(k, o.st, Q), self.has(k, s, Q),
                   what + ': propagated before the change is complete')
        ck.valid(lab, And(pre, self.has('map', s, Q)),
                 E.eq(self.val(o.st, Q), self.val(s, Q)),
                 what + ': propagated before the change is complete')

    def prop_qual(self):
        m = self.lab.prog.find_member(self.g.cls, 'propagate')
        if m is None:
            raise AnchorMissing('MethodGraph.propagate')
        return m[0].qual + '.propagate'


def distinct(E, *xs):
    return And(*[Not(E.eq(a, b)) for i, a in enumerate(xs) for b in xs[:i]])


# ---------------------------------------------------------------- C08

def fresh_method(mg, registered=False):
    """Entry assumption: m is new and no variable; its inputs and outputs
    are no methods."""
    E = mg.E
    E.facts.append(Not(E.rel('var', M)))
    E.schemas['inp'].append(lambda m, x: Implies(E.eq(m, M), And(
        Not(E.rel('met', x)), Not(E.eq(x, M)))))
    E.schemas['outp'].append(lambda m, x: Implies(E.eq(m, M), And(
        Not(E.rel('met', x)), Not(E.eq(x, M)))))
    if registered is False:
        E.facts.append(Not(E.rel('met', M)))
    return Not(E.rel('met', M))



def c08(run):
    run.shapes = (2,)

    def spec(mg, st0):
        """Formulas: m is over-determining / closes a cycle."""
        E = mg.E
        b, n = E.bsym('y'), E.bsym('n')
        y = E.bsym('y')
        multi = E.exists((b, n), And(
            E.rel('outp', M, b), E.rel('met', n), E.rel('outp', n, b)))
        # the structure with m added
        s = st0.fork()
        V, Ed = mg.K.refs(s, mg.graph)
        x = E.bsym('x')
        E.write(V, s, Entry('add', (), True, (M,)),
                Entry('add', (x,), Or(E.rel('inp', M, x),
                                      E.rel('outp', M, x)), (x,)))
        x, z = E.bsym('x'), E.bsym('x')
        E.write(Ed, s, Entry('setd', (x,), E.rel('inp', M, x), (x, M), E.num(
            1)), Entry('setd', (z,), E.rel('outp', M, z), (M, z), E.num(1)))
        o = mg.lab.call(mg.graph, 'path', y, y, st=s)
        cyc = E.exists((y,), And(E.rel('outp', M, y), E.nonempty(
            E.coll(o.val, o.st))))
        return multi, cyc

    def refused(prop):
        def body(ck):
            mg = MG(ck)
            mg.no_propagation()
            lab, E = mg.lab, mg.E
            new = fresh_method(mg)
            o = lab.call(mg.g, 'add_method', M, BoolV(prop))
            multi, cyc = spec(mg, lab.st)
            ck.iff(lab, new, Not(o.normal()),
                   Or(multi, cyc), 'a method is refused iff it determines a '
                   'variable a second time or closes a cycle')
            ck.never(lab, And(new, Not(multi)),
                     o.raises('MethodGraphDetermineException'),
                     'over-determination reported without a second method')
            ck.never(lab, And(new, Not(cyc)),
                     o.raises('MethodGraphCycleException'),
                     'cycle reported without a cycle')
            for e in o.raised:
                pc = And(new, pc_of(e.st, lab.st))
                if e.implicit or not isinstance(e.val, ExcV):
                    if not e.implicit:
                        continue
                    if E.sat(pc):
                        ck.never(lab, new, pc_of(e.st, lab.st),
                                 'internal %s' % e.val.name)
                    continue
                if not e.val.name.startswith('MethodGraph'):
                    ck.never(lab, new, pc_of(e.st, lab.st),
                             'unexpected %s' % e.val.name)
                    continue
                if not E.sat(pc):
                    continue
                ck.never(lab, pc, mg.any_event(e.st, 'call:execute'),
                         'a method that is refused was executed')
                ck.never(lab, pc, mg.any_event(e.st, 'propagate'),
                         'changes are propagated before the method is '
                         'refused')
                w = 'refused method'
                mg.same(e.st, pc, w, ('met', 'chg', 'val'))
                ck.iff(lab, pc, mg.has('map', e.st, P),
                       Or(E.rel('var', P), E.rel('inp', M, P), E.rel(
                           'outp', M, P)) if False else
                       mg.has('map', e.st, P), w)
                ck.valid(lab, And(pc, E.rel('var', P)),
                         mg.has('map', e.st, P), w + ': no variable is lost')
                ck.valid(lab, And(pc, mg.has('map', e.st, P)),
                         Or(E.rel('var', P), E.rel('inp', M, P),
                            E.rel('outp', M, P)),
                         w + ': no foreign variable appears')
                ck.valid(lab, And(pc, mg.has('map', e.st, P),
                                  Not(E.rel('var', P))),
                         E.eq(mg.val(e.st, P), NONE),
                         w + ': its new variables have no value')
                mg.check_valid(e.st, pc, w)
        return body
    for prop in (True, False):
        run.ob('C08.refused%s' % ('' if prop else '_quiet'),
               'a method that would determine a variable twice or close a '
               'cycle is refused before anything runs, and leaves no trace',
               'MethodGraph.add_method', refused(prop))

    def accepted(prop):
        def body(ck):
            mg = MG(ck)
            mg.no_propagation()
            lab, E = mg.lab, mg.E
            new = fresh_method(mg)
            o = lab.call(mg.g, 'add_method', M, BoolV(prop))
            if o.st is None:
                ck.fail('no method is ever accepted')
                return
            pre = And(new, o.normal())
            ck.iff(lab, pre, mg.has('met', o.st, P),
                   Or(E.rel('met', P), E.eq(P, M)), 'accepted method is '
                   'registered')
            ck.iff(lab, pre, mg.has('map', o.st, P),
                   Or(E.rel('var', P), E.rel('inp', M, P),
                      E.rel('outp', M, P)),
                   'its variables are declared')
            mg.check_valid(o.st, pre, 'accepted method')
            ck.valid(lab, And(pre, E.rel('var', P),
                              Not(E.rel('outp', M, P))),
                     E.eq(mg.val(o.st, P), App('val', [P])),
                     'values of other variables are kept')
            ck.valid(lab, And(pre, Not(E.rel('var', P)), E.rel('inp', M, P)),
                     E.eq(mg.val(o.st, P), NONE),
                     'new input variables have no value')
            mg.propagates(o, pre, prop)
            # already registered: nothing happens
            ck.valid(lab, E.rel('met', M), Not(o.raises()),
                     'registering twice is no error')
            if E.sat(And(E.rel('met', M), o.normal())):
                mg.same(o.st, And(E.rel('met', M), o.normal()),
                        'registered twice')
                ck.never(lab, And(E.rel('met', M), o.normal()),
                         mg.any_event(o.st, 'call:execute'),
                         'a method that is registered already is executed')
        return body
    for prop in (True, False):
        run.ob('C08.accepted%s' % ('' if prop else '_quiet'),
               'an accepted method is registered and connected with its '
               'variables, nothing else changes',
               'MethodGraph.add_method', accepted(prop))


# ---------------------------------------------------------------- C10

def arg_content(e):
    """The collection handed to the recorded call."""
    it = e.key[0].items[2:]
    return it[0].content if len(it) == 1 and isinstance(it[0], SnapV) else None


def nones(mg, m, bv):
    E = mg.E
    x = E.bsym('x')
    return E.exists((x,), And(E.rel('inp', m, x), E.eq(bv(x), NONE)))


def gated(mg, o, pre, new=False):
    """The method M was executed exactly if it could be, and its result is
    stored; `new`: it was added by the operation."""
    ck, lab, E = mg.ck, mg.lab, mg.E

    def bvar(x):
        if not new:
            return E.rel('var', x)
        return Or(E.rel('var', x), E.rel('inp', M, x), E.rel('outp', M, x))

    def bv(x):
        v = App('val', [x])
        return ite(E.rel('var', x), v, NONE) if new else v

    def bmet(x):
        return Or(E.rel('met', x), E.eq(x, M)) if new else E.rel('met', x)
    none = nones(mg, M, bv)
    evs = mg.events(o.st, 'call:execute')
    if any(e.B for e in evs):
        raise Unsupported('executed from a loop')
    ck.iff(lab, pre, Or(*[e.g for e in evs]), Not(none),
           'a method runs exactly if none of its inputs is missing')
    for i, a in enumerate(evs):
        ck.valid(lab, And(pre, a.g), E.eq(a.key[0].items[1], M),
                 'another method is run')
        for b in evs[:i]:
            ck.never(lab, pre, And(a.g, b.g), 'run twice')
        C = arg_content(a)
        if C is None or C.kind != 'dict':
            ck.unknown('not called with a mapping')
            continue
        p2 = And(pre, a.g)
        ck.iff(lab, p2, E.mem(C, (P,)),
               Or(E.rel('inp', M, P), E.rel('outp', M, P)),
               'the method is handed its inputs and outputs, nothing else')
        ck.valid(lab, And(p2, Or(E.rel('inp', M, P),
                                 E.rel('outp', M, P))),
                 E.eq(E.lookup(C, (P,)), bv(P)),
                 'the method is handed the current values')
    # effects on values
    ck.iff(lab, pre, mg.has('map', o.st, P), bvar(P),
           'variables unchanged')
    ck.iff(lab, pre, mg.has('met', o.st, P), bmet(P),
           'methods unchanged')
    new = mg.val(o.st, P)
    var = And(pre, bvar(P))
    ck.valid(lab, And(var, Not(E.rel('outp', M, P))),
             E.eq(new, bv(P)),
             'values of other variables are untouched')
    out = And(var, E.rel('outp', M, P))
    ck.valid(lab, And(out, none), E.eq(new, NONE),
             'an output of a method that cannot run has no value')
    ch = mg.has('chg', o.st, P)
    ck.valid(lab, And(var, E.rel('chg', P)), ch,
             'pending changes are kept')
    ck.valid(lab, And(var, ch), Or(E.rel('chg', P), E.rel('outp', M, P)),
             'nothing but outputs is marked as changed')
    ck.valid(lab, And(out, none, Not(E.eq(bv(P), NONE))), ch,
             'an output that loses its value is marked as changed')
    if evs:
        has = E.rel('ret', M, P)
        run_ = And(out, Not(none))
        ck.valid(lab, And(run_, Not(has)), E.eq(new, NONE),
                 'an output the method does not provide has no value')
        ck.valid(lab, And(run_, has), E.eq(new, App('retv', [M, P])),
                 'an output gets the value the method provides')
        ck.valid(lab, And(run_, has, Not(E.eq(
            bv(P), App('retv', [M, P])))), ch,
            'an output that gets a new value is marked as changed')
        ck.valid(lab, And(run_, Not(has), Not(E.eq(
            bv(P), NONE))), ch,
            'an output that loses its value is marked as changed')


def c10(run):
    run.shapes = (2,)

    def gate(ck):
        mg = MG(ck)
        mg.no_propagation()
        lab, E = mg.lab, mg.E
        o = lab.call(mg.g, 'execute', M)
        pre = E.rel('met', M)
        ck.valid(lab, Not(pre), Not(o.normal()),
                 'executing an unknown method is accepted')
        for e in o.raised:
            ck.never(lab, And(pre, pc_of(e.st, lab.st)), True,
                     'executing a method fails by itself')
            pc = pc_of(e.st, lab.st)
            mg.same(e.st, And(pc, Not(pre)), 'unknown method')
        if o.st is None:
            ck.fail('no method can be executed')
            return
        pre = And(pre, o.normal())
        gated(mg, o, pre)
        mg.propagates(o, pre, True)
        mg.propagated_last(o, pre, 'execution')
    def added(prop):
        def body(ck):
            mg = MG(ck)
            mg.no_propagation()
            lab, E = mg.lab, mg.E
            new = fresh_method(mg)
            o = lab.call(mg.g, 'add_method', M, BoolV(prop))
            if o.st is None:
                ck.fail('no method can be added')
                return
            gated(mg, o, And(new, o.normal()), True)
            mg.propagated_last(o, And(new, o.normal()), 'new method')
        return body
    for prop in (True, False):
        run.ob('C10.added%s' % ('' if prop else '_quiet'),
               'a new method runs exactly when no input is missing, on the '
               'current values, and its result is stored',
               'MethodGraph.add_method', added(prop))
    run.ob('C10.execute', 'executing a method runs it exactly when no input '
           'is missing, on the current values, and stores exactly its result',
           'MethodGraph.execute', gate)

    def sets(prop):
        def body(ck):
            mg = MG(ck)
            mg.no_propagation()
            lab, E = mg.lab, mg.E
            o = lab.call(mg.g, 'set', P, U, BoolV(prop))
            var = E.rel('var', P)
            ck.iff(lab, True, Not(o.normal()), Not(var),
                   'setting is refused exactly for unknown variables')
            for e in o.raised:
                pc = pc_of(e.st, lab.st)
                mg.ck.never(lab, pc, mg.any_event(e.st, 'propagate'),
                            'propagated although refused')
                for k in ('map', 'met', 'chg'):
                    ck.iff(lab, pc, mg.has(k, e.st, Q), mg.has(k, lab.st, Q),
                           'refused set changes nothing')
                ck.valid(lab, And(pc, E.rel('var', Q)), E.eq(
                    mg.val(e.st, Q), App('val', [Q])),
                    'refused set changes nothing')
            if o.st is None:
                ck.fail('nothing can be set')
                return
            pre = And(o.normal(), var)
            for k in ('map', 'met'):
                ck.iff(lab, pre, mg.has(k, o.st, Q), mg.has(k, lab.st, Q),
                       'setting adds and removes nothing')
            ck.valid(lab, pre, E.eq(mg.val(o.st, P), U), 'the value is set')
            ck.valid(lab, And(pre, E.rel('var', Q), Not(E.eq(P, Q))), E.eq(
                mg.val(o.st, Q), App('val', [Q])), 'other values are kept')
            ck.valid(lab, And(pre, Not(E.eq(App('val', [P]), U))),
                     mg.has('chg', o.st, P), 'the change is pending')
            ck.iff(lab, And(pre, Not(E.eq(P, Q))), mg.has('chg', o.st, Q),
                   E.rel('chg', Q), 'other pending changes are kept')
            mg.propagates(o, pre, prop)
            mg.propagated_last(o, pre, 'setting')
            g = lab.call(mg.g, 'get', P, st=o.st)
            ck.valid(lab, pre, Not(g.raises()), 'a value can be read')
            ck.valid(lab, And(pre, g.normal()), E.eq(g.val, U),
                     'the value that was set is read')
        return body
    for prop in (True, False):
        run.ob('C10.set%s' % ('' if prop else '_quiet'),
               'setting a known variable stores the value and marks it as '
               'changed, setting an unknown one is refused without effect',
               'MethodGraph.set', sets(prop))

    def declare(ck):
        mg = MG(ck)
        mg.no_propagation()
        lab, E = mg.lab, mg.E
        E.facts.append(Not(E.rel('met', P)))
        o = lab.call(mg.g, 'add_variable', P, U)
        ck.never(lab, True, o.raises(), 'declaring a variable fails')
        if o.st is None:
            ck.fail('no variable can be declared')
            return
        pre = o.normal()
        var = E.rel('var', P)
        ck.iff(lab, pre, mg.has('map', o.st, Q), Or(E.rel('var', Q),
                                                    E.eq(P, Q)),
               'the variable is declared')
        ck.valid(lab, And(pre, E.rel('var', Q)), E.eq(
            mg.val(o.st, Q), App('val', [Q])), 'existing values are kept')
        ck.valid(lab, And(pre, Not(var)), E.eq(mg.val(o.st, P), U),
                 'the initial value is stored')
        for k in ('met',):
            ck.iff(lab, pre, mg.has(k, o.st, Q), mg.has(k, lab.st, Q),
                   'nothing else changes')
        ck.valid(lab, And(pre, E.rel('chg', Q)), mg.has('chg', o.st, Q),
                 'pending changes are kept')
        mg.check_valid(o.st, pre, 'declared variable') if False else None
        ck.iff(lab, pre, mg.gv(o.st, Q), Or(mg.has('map', o.st, Q),
                                            mg.has('met', o.st, Q)),
               'the structure knows exactly the variables and methods')
        ck.iff(lab, pre, mg.ge(o.st, Q, R_), mg.ge(lab.st, Q, R_),
               'dependencies are kept')
    run.ob('C10.declare', 'declaring a variable keeps existing ones',
           'MethodGraph.add_variable', declare)


# ---------------------------------------------------------------- C09

def step_name(ck):
    """Qualified name of the operation that executes one method without
    propagating, as `execute` uses it."""
    mg = MG(ck)
    mg.no_propagation()
    mg.E.facts.append(mg.E.rel('met', M))
    mg.lab.call(mg.g, 'execute', M)
    ss = {s[1] if len(s) > 1 else None for s in mg.exec_stacks}
    if len(ss) != 1 or None in ss:
        raise Unsupported('no operation that executes a single method')
    return ss.pop()


class HeadLoop:
    """Summarises a `while` loop by its invariant: the state at its head is an
    arbitrary valid method graph."""

    def __init__(self, mg, keep=()):
        self.mg = mg
        self.keep = keep
        self.rounds = []        # (head state with the test, end, raised)

    def __call__(self, eng, n, st):
        mg = self.mg
        if n.orelse or len(self.rounds) > 3:
            raise Unsupported('while loop', n)
        mine = {r.loc for r in mg.ref.values()}
        mine |= {r.loc for r in mg.K.refs(st, mg.graph)} | {'!events'}
        suffix = str(len(self.rounds) + 1)
        head = st.fork()
        mg.install(head, suffix, self.keep)
        names = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and
                 isinstance(x.ctx, ast.Store)}
        for k in names & set(head.env):
            head.env[k] = Opaque('loop:' + k)
        body = head.fork()
        t = eng.truth(eng.eval(n.test, body), body)
        body.pc = body.pc + ((t,) if t is not True else ())
        outer_w = eng.writes
        eng.writes = set()
        eng.raise_stack.append([])
        h0 = dict(body.heap)
        start = body.fork()
        try:
            try:
                fl = eng.block(n.body, body)
            except Dead:
                fl = Flow(None)
        finally:
            raised = eng.raise_stack.pop()
            w, eng.writes = eng.writes, outer_w
            if outer_w is not None:
                outer_w |= w
        bad = {x for x in w if x in st.heap and x not in mine}
        if bad:
            raise Unsupported('while loop over its own work list', n)
        end, exits, brk = fl.next, [], []
        for e in fl.exits:
            if e.kind == 'continue':
                end = eng.merge(end, e.st)
            elif e.kind == 'break':
                brk.append(e.st)
            else:
                exits.append(e)
        self.rounds.append((start, t, end, raised, suffix))
        for e in raised:
            eng.raise_stack[-1].append(e)
        after = head.fork()
        for k in names & set(after.env):
            after.env[k] = Opaque('loop:' + k)
        t2 = eng.truth(eng.eval(n.test, after), after)
        nxt = None
        if t2 is not True:
            nxt = after.fork(Not(t2))
        for b in brk:
            nxt = eng.merge(nxt, b)
        return Flow(nxt, exits)


def c09(run):
    run.shapes = (2,)

    def loop(ck):
        step = step_name(ck)
        mg = MG(ck)
        lab, E = mg.lab, mg.E
        E.schemas['mark'] = [lambda m, y: E.rel('outp', m, y)]
        E.user_ops = E.user_ops | {'stepval'}
        q0 = Sym('q0')

        def h(eng, args, kwargs, st, node):
            if len(args) != 2 or kwargs or args[0].key() != mg.g.key():
                raise Unsupported('unknown use of a method step', node)
            m = args[1]
            eng.event(st, 'step', [m, BoolV(mg.has('chg', st, q0))], [],
                      node)
            for k, v in (('map', App('stepval', [m, Sym('y!')])),
                         ('chg', E.num(1))):
                y = eng.bsym('y')
                d = eng.content(mg.ref[k], st).kind == 'dict'
                eng.write(mg.ref[k], st, Entry(
                    'setd' if d else 'add', (y,), eng.rel('mark', m, y),
                    (y,), App('stepval', [m, y]) if k == 'map' else
                    eng.num(1) if d else None))
            return NONE
        E.summaries[step] = h
        W = HeadLoop(mg, ('var', 'met'))
        E.whiles.append(W)
        o = lab.call(mg.g, 'propagate')
        if o.st is None:
            ck.fail('propagation never ends')
            return
        ck.never(lab, o.normal(), mg.has('chg', o.st, P),
                 'propagation ends although changes are pending')
        for e in o.raised:
            ck.never(lab, True, pc_of(e.st, lab.st), 'propagation fails by '
                     'itself (%s)' % (e.val.name if isinstance(e.val, ExcV)
                                      else '?'))
        for k in ('map', 'met'):
            ck.iff(lab, o.normal(), mg.has(k, o.st, P),
                   mg.has(k, lab.st, P), 'propagation adds or removes nothing')
        if len(W.rounds) != 1:
            ck.unknown('not a single loop')
            return
        head, t, end, raised, sfx = W.rounds[0]
        if end is None:
            ck.fail('no change is ever propagated')
            return
        pre = pc_of(end, lab.st)
        chg = lambda x: E.rel('chg' + sfx, x)       # noqa: E731
        gone = lambda x: And(chg(x), Not(mg.has('chg', end, x)))   # noqa
        ran = lambda m: Or(*[E.exists(e.B, And(e.g, E.eq(          # noqa: E731
            e.key[0].items[1], m))) for e in map(
                E.rename, mg.events(end, 'step'))])
        ck.valid(lab, And(pre, gone(P), E.rel('met', M),
                          E.rel('inp', M, P)), ran(M),
                 'a change is dropped before every method that depends on it '
                 'has run')
        ck.valid(lab, And(pre, ran(M)), E.rel('met', M),
                 'something that is no method of the graph is run')
        x = E.bsym('x')
        ck.valid(lab, And(pre, ran(M)), E.exists((x,), And(
            chg(x), E.rel('inp', M, x))),
            'a method runs although none of its inputs changed')
        ck.valid(lab, And(pre, ran(M), E.rel('mark', M, Q)),
                 mg.has('chg', end, Q),
                 'the change of an output is not propagated further')
        x = E.bsym('x')
        ck.valid(lab, pre, E.exists((x,), gone(x)),
                 'a pending change is never taken off')
        for k in ('map', 'met'):
            ck.iff(lab, pre, mg.has(k, end, P), mg.has(k, head, P),
                   'propagation adds or removes nothing')
        m = E.bsym('m')
        ck.valid(lab, And(pre, E.rel('var', P), Not(E.exists(
            (m,), And(ran(m), E.rel('mark', m, P))))),
            E.eq(mg.val(end, P), mg.val(head, P)),
            'propagation changes values by itself')
        one = decide(E, And(pre, gone(P), gone(Q)), E.eq(P, Q))
        if one.status == 'PROVED':
            bad = Or(*[E.exists(e.B, And(e.g, E.eq(e.key[0].items[1], M),
                                         Not(e.key[0].items[2].f)))
                       for e in map(E.rename, mg.events(end, 'step'))])
            ck.never(lab, And(pre, chg(q0), E.rel('inp', M, q0), gone(q0)),
                     bad, 'a change is no longer pending while the methods '
                     'that depend on it still run')
    run.ob('C09.propagate', 'propagation takes a change off only after every '
           'method depending on it has run, keeps the changes this causes, '
           'and ends only when nothing is pending',
           'MethodGraph.propagate', loop)


# ---------------------------------------------------------------- C11

def mg2_valid(mg, st, pre, what):
    ck, lab, E = mg.ck, mg.lab, mg.E
    ck.iff(lab, pre, mg.gv(st, Q), Or(mg.has('map', st, Q),
                                      mg.has('met', st, Q)),
           what + ': the structure knows exactly the variables and '
           'methods')
    ck.iff(lab, pre, mg.ge(st, Q, R_),
           Or(And(mg.has('met', st, R_), E.rel('inp', R_, Q)),
              And(mg.has('met', st, Q), E.rel('outp', Q, R_))),
           what + ': the structure connects exactly the registered '
           'methods with their variables')


def c11(run):
    run.shapes = (2,)

    def remove_method(ck):
        mg = MG(ck)
        mg.no_propagation()
        lab, E = mg.lab, mg.E
        o = lab.call(mg.g, 'rem_method', M)
        met = E.rel('met', M)
        ck.iff(lab, True, Not(o.normal()), Not(met),
               'removal is refused exactly for unknown methods')
        for e in o.raised:
            pc = pc_of(e.st, lab.st)
            mg.same(e.st, pc, 'refused removal')
            ck.iff(lab, pc, mg.gv(e.st, P), mg.gv(lab.st, P),
                   'refused removal changes the structure')
        if o.st is None:
            ck.fail('no method can be removed')
            return
        pre = And(met, o.normal())
        mg.same(o.st, pre, 'removal of a method', ('map', 'chg', 'val'))
        ck.iff(lab, pre, mg.has('met', o.st, P), And(
            E.rel('met', P), Not(E.eq(P, M))), 'exactly the method is removed')
        mg.check_valid(o.st, pre, 'removal of a method')
        ck.never(lab, pre, mg.any_event(o.st, 'call:execute'),
                 'something is executed')
    run.ob('C11.rem_method', 'removing a method removes exactly that method',
           'MethodGraph.rem_method', remove_method)

    def remove_variable(ck):
        mg = MG(ck)
        mg.no_propagation()
        lab, E = mg.lab, mg.E
        o = lab.call(mg.g, 'rem_variable', P)
        var = E.rel('var', P)
        ck.iff(lab, True, Not(o.normal()), Not(var),
               'removal is refused exactly for unknown variables')
        for e in o.raised:
            pc = pc_of(e.st, lab.st)
            for k in ('map', 'met', 'chg'):
                ck.iff(lab, And(pc, Not(var)), mg.has(k, e.st, Q),
                       mg.has(k, lab.st, Q), 'refused removal has an effect')
        if o.st is None:
            ck.fail('no variable can be removed')
            return
        pre = And(var, o.normal())
        ck.iff(lab, pre, mg.has('map', o.st, Q), And(
            E.rel('var', Q), Not(E.eq(P, Q))),
            'exactly the variable is removed')
        ck.iff(lab, pre, mg.has('met', o.st, M), And(
            E.rel('met', M), Not(E.rel('inp', M, P)),
            Not(E.rel('outp', M, P))),
            'exactly the methods on the variable are removed')
        ck.iff(lab, pre, mg.has('chg', o.st, Q), And(
            E.rel('chg', Q), Not(E.eq(P, Q))),
            'the variable is no longer pending, others are')
        ck.valid(lab, And(pre, E.rel('var', Q), Not(E.eq(P, Q))),
                 E.eq(mg.val(o.st, Q), App('val', [Q])),
                 'other values are kept')
        mg2_valid(mg, o.st, pre, 'removal of a variable')
    run.ob('C11.rem_variable', 'removing a variable removes it and exactly the '
           'methods on it', 'MethodGraph.rem_variable', remove_variable)

    def clear(ck):
        mg = MG(ck)
        mg.no_propagation()
        lab, E = mg.lab, mg.E
        W = HeadLoop(mg)
        E.whiles.append(W)
        o = lab.call(mg.g, 'clear')
        if o.st is None:
            ck.fail('clearing never ends')
            return
        pre = o.normal()
        ck.never(lab, pre, mg.has('map', o.st, P), 'a variable is left')
        ck.never(lab, pre, mg.has('chg', o.st, P), 'a change is left pending')
        ck.never(lab, And(pre, mg.has('met', o.st, M)), Or(
            E.rel('inp', M, P), E.rel('outp', M, P)),
            'a method on a removed variable is left')
        mg2_valid(mg, o.st, pre, 'clearing')
        for e in o.raised:
            ck.never(lab, True, pc_of(e.st, lab.st), 'clearing fails')
        for head, t, end, raised, sfx in W.rounds:
            if end is None:
                continue
            pre = pc_of(end, lab.st)
            mg2_valid(mg, end, pre, 'a round of clearing')
            ck.valid(lab, And(pre, mg.has('chg', end, Q)),
                     mg.has('map', end, Q), 'a round of clearing: pending '
                     'changes of unknown variables')
            x = E.bsym('x')
            ck.valid(lab, pre, E.exists((x,), And(
                mg.has('map', head, x), Not(mg.has('map', end, x)))),
                'a round of clearing removes nothing')
    run.ob('C11.clear', 'clearing leaves no variable, no method on one and no '
           'pending change', 'MethodGraph.clear', clear)

    def lists(ck):
        mg = MG(ck)
        lab, E = mg.lab, mg.E
        for op, r in (('variables', 'var'), ('methods', 'met')):
            o = lab.call(mg.g, op)
            ck.never(lab, True, o.raises(), op + '() fails')
            ck.iff(lab, True, members(lab, o.val, o.st, P), E.rel(r, P),
                   op + '() does not list exactly the ' + op)
            mg.same(o.st, True, op + '()')
        o = lab.call(mg.g, 'get', P)
        ck.iff(lab, True, o.raises(), Not(E.rel('var', P)),
               'reading is refused exactly for unknown variables')
        if o.st is not None:
            ck.valid(lab, And(E.rel('var', P), o.normal()),
                     E.eq(o.val, App('val', [P])), 'a wrong value is read')
    run.ob('C11.lists', 'the variables, methods and values that are reported '
           'are those of the graph', 'MethodGraph.variables', lists)


# ---------------------------------------------------------------- C12

def inmap(E, st, tag=''):
    """An arbitrary mapping of variables to values."""
    x = E.bsym('x')
    return E.alloc(st, Content('dict', [Entry(
        'add', (x,), E.rel('given' + tag, x), (x,), App('val' + tag, [x]))],
        distinct=True), 'inmap')


A_, B_, C_ = Sym('a'), Sym('b'), Sym('c')


def c12(run):
    def setup(ck):
        lab = ck.lab()
        E = lab.eng
        E.user_ops = {'val'}
        return lab, E

    def declared(ck, lab, o, ins, outs, what):
        E = lab.eng
        for nm, want in (('inputs', ins), ('outputs', outs)):
            r = lab.getattr(o.val, nm, o.st)
            C = E.coll(r.val, r.st)
            xs = C.exact() if C is not None else None
            if xs is None:
                ck.unknown('the %s of %s' % (nm, what))
                continue
            if len(xs) != len(want):
                ck.fail('%s does not declare its %s' % (what, nm))
                continue
            for x, w in zip(xs, want):
                ck.valid(lab, True, E.eq(x, w),
                         '%s declares other %s' % (what, nm))

    def kept(ck, lab, ref, st, pre, what):
        E = lab.eng
        C = E.content(ref, st)
        ck.iff(lab, pre, E.mem(C, (P,)), E.rel('given', P),
               what + ' changes the mapping it is handed')
        ck.valid(lab, And(pre, E.rel('given', P)), E.eq(
            E.lookup(C, (P,)), App('val', [P])),
            what + ' changes the mapping it is handed')

    def outcome(ck, lab, out, pre, key, val, has, what):
        """The result maps `key` to `val` if `has`, and nothing else."""
        E = lab.eng
        if out.st is None or lab.kinds(out.val, out.st) != {'dict'}:
            ck.unknown(what + ' does not return a mapping')
            return
        pre = And(pre, out.normal())
        ck.valid(lab, And(pre, lab.mem(out.val, out.st, P)), And(has, E.eq(P, key)),
                 what + ' provides something that is not its output or '
                 'cannot be computed')
        ck.valid(lab, And(pre, has), lab.mem(out.val, out.st, key),
                 what + ' does not provide its output')
        if val is not None:
            ck.valid(lab, And(pre, has), E.eq(
                lab.lookup(out.val, out.st, key), val),
                     what + ' provides a wrong value')

    def arith(cls, op):
        def body(ck):
            lab, E = setup(ck)
            o = lab.new(cls, A_, B_, C_)
            ck.never(lab, True, o.raises(), cls + ' cannot be created')
            if o.st is None:
                return
            declared(ck, lab, o, [A_, B_], [C_], cls)
            st = o.st.fork()
            m = inmap(E, st)
            out = lab.call(o.val, 'execute', m, st=st)
            has = And(*[And(E.rel('given', v), Not(E.eq(App('val', [v]),
                                                        NONE)))
                        for v in (A_, B_)])
            ck.never(lab, True, out.raises(), cls + ' fails')
            s2 = st.fork()
            s2.pc = s2.pc + (has,)
            want = E.binop(op, App('val', [A_]), App('val', [B_]), s2, None)
            outcome(ck, lab, out, True, C_, want, has, cls)
            kept(ck, lab, m, out.st, out.normal(), cls)
        return body
    run.ob('C12.add', 'the sum of the two inputs is assigned to the output '
           'whenever both are there', 'AddMethod.execute',
           arith('AddMethod', '+'))
    run.ob('C12.sub', 'the first input less the second one is assigned to the '
           'output whenever both are there', 'SubMethod.execute',
           arith('SubMethod', '-'))

    def setm(ck):
        lab, E = setup(ck)
        o = lab.new('SetMethod', A_, U)
        declared(ck, lab, o, [], [A_], 'SetMethod')
        st = o.st.fork()
        m = inmap(E, st)
        out = lab.call(o.val, 'execute', m, st=st)
        ck.never(lab, True, out.raises(), 'SetMethod fails')
        outcome(ck, lab, out, True, A_, U, True, 'SetMethod')
        kept(ck, lab, m, out.st, out.normal(), 'SetMethod')
    run.ob('C12.set', 'the constant is assigned to the output',
           'SetMethod.execute', setm)

    def assign(ck):
        lab, E = setup(ck)
        o = lab.new('AssignMethod', A_, B_)
        declared(ck, lab, o, [B_], [A_], 'AssignMethod')
        st = o.st.fork()
        m = inmap(E, st)
        out = lab.call(o.val, 'execute', m, st=st)
        ck.never(lab, True, out.raises(), 'AssignMethod fails')
        given = E.rel('given', B_)
        some = And(given, Not(E.eq(App('val', [B_]), NONE)))
        outcome(ck, lab, out, Or(Not(given), some), A_, App('val', [B_]),
                some, 'AssignMethod')
        kept(ck, lab, m, out.st, out.normal(), 'AssignMethod')
    run.ob('C12.assign', 'the value of the input is assigned to the output',
           'AssignMethod.execute', assign)


# ---------------------------------------------------------------- C13

def c13(run):
    def setup(ck, kinds, out_multi=True, nout=1):
        """A multi-valued method with inputs of the given kinds, and what
        happens when it is created."""
        lab = ck.lab()
        E = lab.eng
        cls = lab.cls('SumProdMethod')
        st = lab.st
        vs = []
        for i, k in enumerate(kinds):
            if k:
                o = lab.new('MultiVariable', Sym('name%d' % i))
                lab.st = o.st
                vs.append(o.val)
            else:
                vs.append(Const('in%d' % i))
        outs = []
        for i in range(nout):
            if out_multi:
                o = lab.new('MultiVariable', Sym('out%d' % i))
                lab.st = o.st
                outs.append(o.val)
            else:
                outs.append(Const('out%d' % i))
        obj = ObjV(E.fresh('multi'), cls)
        owner, _, node = lab.prog.find_member(
            lab.cls('MultiMethod'), '__init__')[:3]

        def go(s):
            i = E.new_list(s, vs)
            j = E.new_list(s, outs)
            f = E.bind(obj, lab.prog.find_member(lab.cls('MultiMethod'),
                                                 '__init__'))
            return E.call(f, [Sym('nm'), i, j], {}, s, None)
        o = lab.run(go)
        return lab, E, obj, vs, outs, o

    run.shapes = (1, 2)

    def given(lab, i):
        return G.elements(lab.shape, 'value%d.' % i)

    def product(kinds):
        def body(ck):
            lab, E, obj, vs, outs, o = setup(ck, kinds)
            ck.never(lab, True, o.raises(), 'the method cannot be created')
            if o.st is None:
                return
            q = lab.prog.find_member(obj.cls, 'multi_execute')
            qual = q[0].qual + '.multi_execute'
            seen = []

            def h(eng, args, kwargs, st, node):
                C = eng.coll(args[1], st)
                if C is None or C.kind != 'dict':
                    raise Unsupported('multi_execute without mapping', node)
                vals = []
                for v in vs:
                    vals.append(ite(eng.mem(C, (v,)), eng.lookup(C, (v,)),
                                    Const('<missing>')))
                seen.append((C, st))
                b = eng.bsym('v')
                return eng.alloc(st, Content('list', [Entry(
                    'add', (b,), eng.rel('possible', TupleV(vals), b), (b,),
                    setlike=False)]), 'possible')
            E.summaries[qual] = h
            st = o.st.fork()
            es = []
            for i, (v, k) in enumerate(zip(vs, kinds)):
                if k and lab.shape:
                    # a set of that many values
                    val = E.alloc(st, Content('set', [
                        Entry('add', (), True, (e,))
                        for e in given(lab, i)], distinct=True), 'vals')
                else:
                    val = Sym('vals%d' % i) if k else Sym('val%d' % i)
                es.append(Entry('add', (), True, (v,), val))
            x = E.bsym('x')
            others = Entry('add', (x,), And(E.rel('given', x), *[
                Not(E.eq(x, v)) for v in vs]), (x,), App('val', [x]))
            m = E.alloc(st, Content('dict', [others] + es, distinct=True),
                        'inmap')
            out = lab.call(obj, 'execute', m, st=st)
            ck.never(lab, True, out.raises(), 'the method fails')
            judge(ck, lab, E, vs, outs, kinds, m, st, out)
            if out.st is not None and sum(kinds) < 2:
                # the method itself is as before: it can be executed again
                st = out.st.fork()
                m = E.alloc(st, Content('dict', [others] + es, distinct=True),
                            'inmap')
                out = lab.call(obj, 'execute', m, st=st)
                ck.never(lab, True, out.raises(), 'the method fails when it '
                         'is executed again')
                judge(ck, lab, E, vs, outs, kinds, m, st, out)

        def judge(ck, lab, E, vs, outs, kinds, m, st, out):
            if out.st is None or lab.kinds(out.val, out.st) != {'dict'}:
                ck.unknown('execute does not return a mapping')
                return
            pre = out.normal()
            ck.iff(lab, pre, lab.mem(out.val, out.st, P), E.eq(P, outs[0]),
                   'provides something else than its output')
            R = lab.lookup(out.val, out.st, outs[0])
            bs, fs, vals = [], [], []
            for i, k in enumerate(kinds):
                if k:
                    b = E.bsym('u')
                    bs.append(b)
                    fs.append(Or(*[E.eq(b, e) for e in given(lab, i)])
                              if lab.shape else
                              E.rel('in', Sym('vals%d' % i), b))
                    vals.append(b)
                else:
                    vals.append(Sym('val%d' % i))
            want = E.exists(tuple(bs), And(*fs, E.rel(
                'possible', TupleV(vals), U)))
            ck.iff(lab, pre, lab.mem(R, out.st, U), want, 'the output does not hold exactly the values for all '
                   'combinations of the values of the inputs')
            C2 = E.content(m, out.st)
            ck.iff(lab, pre, E.mem(C2, (P,)), E.mem(E.content(m, st), (P,)),
                   'the mapping that is handed in is changed')
            for v in vs:
                ck.valid(lab, pre, E.eq(E.lookup(C2, (v,)), E.lookup(
                    E.content(m, st), (v,)), out.st),
                    'the mapping that is handed in is changed')
        return body
    for n in (1, 2, 3):
        for kinds in itertools.product((False, True), repeat=n):
            run.ob('C13.' + ''.join('m' if k else 's' for k in kinds),
                   'the output holds the results for every combination of '
                   'values of the multi-valued inputs',
                   'MultiMethod.execute', product(kinds))

    def keyword(ck):
        lab, E, obj, vs, outs, o = setup(ck, (True, False))
        m = lab.member('MultiMethod', '__init__')
        i, j = E.new_list(lab.st, vs), E.new_list(lab.st, outs)
        kw = lab.named(m, [Sym('nm'), i, j], lab.member('Method', '__init__'))
        if kw is None:
            raise Unsupported('arguments by position only')
        p = lab.run(lambda s: E.call(E.bind(obj, lab.prog.find_member(
            lab.cls('MultiMethod'), '__init__')), [], kw, s, None))
        ck.never(lab, True, p.raises(), 'a method with its variables given '
                 'by keyword cannot be created')
    run.ob('C13.keyword', 'a multi-valued method can be created with its '
           'variables given by keyword', 'MultiMethod.__init__', keyword)

    def outputs(ck):
        for multi, n, ok in ((True, 1, True), (False, 1, False),
                             (True, 2, False), (True, 0, False)):
            lab, E, obj, vs, outs, o = setup(ck, (False,), multi, n)
            ck.iff(lab, True, Not(o.normal()), not ok,
                   'a multi-valued method is %s although it has %d %s '
                   'output(s)' % ('refused' if ok else 'accepted', n,
                                  'multi-valued' if multi else
                                  'single-valued'))
    run.ob('C13.outputs', 'a multi-valued method has exactly one output, '
           'a multi-valued one', 'MultiMethod.__init__', outputs)

    def sumprod(ck):
        lab = ck.lab()
        E = lab.eng
        o = lab.new('MultiVariable', Sym('n'))
        o = lab.new('SumProdMethod', A_, B_, o.val, st=o.st)
        E.facts.append(Not(E.eq(A_, B_)))
        st = o.st.fork()
        x, y = Sym('x1'), Sym('y1')
        m = E.alloc(st, Content('dict', [
            Entry('add', (), True, (A_,), x),
            Entry('add', (), True, (B_,), y)], distinct=True), 'inmap')
        out = lab.call(o.val, 'multi_execute', m, st=st)
        ck.never(lab, True, out.raises(), 'fails')
        C = E.coll(out.val, out.st) if out.st is not None else None
        if C is None:
            ck.unknown('no collection of values')
            return
        s = out.st
        want = [E.binop('+', x, y, s, None), E.binop('*', x, y, s, None)]
        ck.iff(lab, out.normal(), E.mem(C, (U,)) if C.kind != 'dict'
               else False, Or(*[E.eq(U, w) for w in want]),
               'the values are not the sum and the product')
    run.ob('C13.sumprod', 'sum and product of the inputs',
           'SumProdMethod.multi_execute', sumprod)


RULES = {'C08': c08, 'C09': c09, 'C10': c10, 'C11': c11, 'C12': c12,
         'C13': c13}
