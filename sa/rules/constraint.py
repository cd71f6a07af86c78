"""Constraint graphs: registry and incidence, queries, constraints."""

import itertools

from ..logic import *          # noqa: F401,F403
from ..content import Content, Entry
from ..engine import needed, Unsupported
from ..contracts import GraphContract
from .graph import members, pc_of, fresh_result, duplicates
from . import graph as G
from .geometry import Geo, NEAR

P, Q, R_ = Sym('p'), Sym('q'), Sym('r')
M = Sym('m', 'elem')


class CG:
    """A constraint graph in an arbitrary valid state."""

    def __init__(self, ck):
        self.ck = ck
        lab = self.lab = ck.lab()
        E = self.E = lab.eng
        self.vs = G.elements(lab.shape, 'v') if lab.shape else ()
        self.ms = G.elements(lab.shape, 'm') if lab.shape else ()
        self.K = GraphContract(E)
        self.K.universe = tuple(self.vs) + tuple(self.ms)
        E.summaries['call:variables'] = self.declared
        o = lab.new('ConstraintGraph')
        needed(o, 'an empty constraint graph cannot be created')
        lab.st = o.st
        self.g = o.val
        G.nothing_else(lab, o.val, o.st)
        self.empty = lab.st.fork()
        self.fields()
        self.install(lab.st)
        self.axioms()

    def declared(self, eng, recv, args, kwargs, st, node):
        """The variables of a constraint, as a new list."""
        if args or kwargs:
            return None
        b = eng.bsym('i')
        C = Content('list', [Entry('add', (b,), eng.rel('on', recv, b), (b,),
                                   setlike=False)])
        if self.vs:
            C = G.materialise(eng, C, self.vs)
        return eng.alloc(st, C, 'declared')

    def fields(self):
        lab, g, E = self.lab, self.g, self.E
        d = {n: v for (o, n), v in lab.st.fields.items() if o == g.oid}
        gs = [v for v in d.values() if isinstance(v, ObjV) and
              v.oid in self.K.objs]
        cs = {n: v for n, v in d.items() if isinstance(v, Ref)}
        if len(gs) != 1 or len(gs) + len(cs) != len(d) or len(cs) != 2:
            raise Unsupported('constraint graphs are not made of a graph and '
                              'two collections')
        self.graph = gs[0]
        s = lab.st.fork()
        self.kinds = {}
        for n, v in cs.items():
            C = E.content(v, s)
            if C.kind not in ('dict', 'set', 'list'):
                raise Unsupported('collections of another kind')
            self.kinds[n] = C.kind
            s.heap[v.loc] = self.coll_of(C.kind, 'role:' + n)

        def used(f):
            return {a.args[0][5:] for a in atoms_of(f).values()
                    if a.kind == 'rel' and a.args[0].startswith('role:')}
        r = []
        for nm in ('variables', 'constraints'):
            o = lab.call(g, nm, st=s)
            r.append(used(members(lab, o.val, o.st, P))
                     if o.st is not None else set())
        if len(r[0]) != 1 or len(r[1]) != 1 or r[0] == r[1]:
            raise Unsupported('variables and constraints are not told apart')
        self.role = {'var': r[0].pop(), 'con': r[1].pop()}
        self.ref = {k: cs[n] for k, n in self.role.items()}

    def coll_of(self, kind, rel):
        x = Sym('x!')
        C = Content(kind, [Entry(
            'add', (x,), self.E.rel(rel, x), (x,),
            App('one', [x]) if kind == 'dict' else None)], distinct=True)
        u = self.vs if rel == 'var' else self.ms if rel == 'con' else ()
        return G.materialise(self.E, C, u) if u else C

    def install(self, st):
        E = self.E
        r = E.rel
        for k in ('var', 'con'):
            st.heap[self.ref[k].loc] = self.coll_of(
                self.kinds[self.role[k]], k)
        V, Ed = self.K.refs(st, self.graph)
        x, y = Sym('x!'), Sym('y!')
        if self.vs:
            st.heap[V.loc] = Content('set', [
                Entry('add', (), r(k, c), (c,)) for k, cs in (
                    ('var', self.vs), ('con', self.ms)) for c in cs])
            st.heap[Ed.loc] = Content('dict', [
                Entry('add', (), And(r('con', m), r('on', m, c)), (c, m),
                      App('w', [c, m])) for m in self.ms for c in self.vs])
            return
        st.heap[V.loc] = Content('set', [
            Entry('add', (x,), Or(r('var', x), r('con', x)), (x,))])
        st.heap[Ed.loc] = Content('dict', [
            Entry('add', (x, y), And(r('con', y), r('on', y, x)), (x, y),
                  App('w', [x, y]))])

    def axioms(self):
        E = self.E
        r = E.rel
        E.schemas['con'] = [lambda m: Not(r('var', m))]
        E.schemas['on'] = [lambda m, x: Implies(r('con', m), r('var', x))]
        if self.vs:
            among = lambda x, u: Or(*[E.eq(x, e) for e in u])   # noqa: E731
            E.schemas['var'] = [lambda x: among(x, self.vs)]
            E.schemas['con'].append(lambda m: among(m, self.ms))
            E.schemas['on'].append(lambda m, x: among(x, self.vs))

    # observations: through the public queries

    def has(self, what, st, x):
        o = self.lab.call(self.g, {'var': 'variables',
                                   'con': 'constraints'}[what], st=st)
        if o.st is None:
            return False
        return And(o.normal(), members(self.lab, o.val, o.st, x))

    def on(self, st, x, m):
        """m is listed as a constraint on x."""
        o = self.lab.call(self.g, 'get_constraints_on', x, st=st)
        if o.st is None:
            return False
        return And(o.normal(), members(self.lab, o.val, o.st, m))

    def exactly(self, st, pre, var, con, what):
        ck, lab, E = self.ck, self.lab, self.E
        ck.iff(lab, pre, self.has('var', st, Q), var(Q),
               what + ': exactly the right variables')
        ck.iff(lab, pre, self.has('con', st, R_), con(R_),
               what + ': exactly the right constraints')
        ck.iff(lab, And(pre, Not(con(Q))), self.on(st, Q, R_),
               And(con(R_), E.rel('on', R_, Q)),
               what + ': the constraints on a variable are those registered '
               'that constrain it')
        # the structure underneath, which the next change starts from
        ck.iff(lab, pre, self.K.has(st, self.graph, Q),
               Or(var(Q), con(Q)), what + ': the structure knows exactly '
               'the variables and the constraints')
        ck.iff(lab, pre, self.K.has(st, self.graph, Q, R_),
               And(con(R_), E.rel('on', R_, Q)), what + ': the structure '
               'connects variables with their constraints')

    def old(self, k):
        return lambda x: self.E.rel(k, x)

    def same(self, st, pre, what):
        self.exactly(st, pre, self.old('var'), self.old('con'), what)


def c14(run):
    run.shapes = (2, 3)

    def empty(ck):
        cg = CG(ck)
        for nm in ('variables', 'constraints'):
            o = cg.lab.call(cg.g, nm, st=cg.empty)
            ck.never(cg.lab, True, Or(o.raises(), And(o.normal(), members(
                cg.lab, o.val, o.st, P))), 'a new graph has ' + nm)
    run.ob('C14.empty', 'a new constraint graph is empty',
           'ConstraintGraph.__init__', empty)

    def add_variable(ck):
        cg = CG(ck)
        E, lab = cg.E, cg.lab
        pre = Not(E.rel('con', P))
        o = lab.call(cg.g, 'add_variable', P)
        ck.never(lab, pre, o.raises(), 'a variable is refused')
        if o.st is None:
            ck.fail('no variable can be added')
            return
        cg.exactly(o.st, And(pre, o.normal()), lambda x: Or(
            E.rel('var', x), E.eq(x, P)), cg.old('con'), 'adding a variable')
    run.ob('C14.add_variable', 'adding a variable adds it and nothing else',
           'ConstraintGraph.add_variable', add_variable)

    def add_constraint(ck):
        cg = CG(ck)
        E, lab = cg.E, cg.lab
        E.schemas['on'].append(lambda m, x: Implies(E.eq(m, M), And(
            Not(E.rel('con', x)), Not(E.eq(x, M)))))
        pre = Not(E.rel('var', M))
        o = lab.call(cg.g, 'add_constraint', M)
        ck.never(lab, pre, o.raises(), 'a constraint is refused')
        if o.st is None:
            ck.fail('no constraint can be added')
            return
        cg.exactly(o.st, And(pre, o.normal()), lambda x: Or(
            E.rel('var', x), E.rel('on', M, x)), lambda x: Or(
                E.rel('con', x), E.eq(x, M)), 'adding a constraint')
    run.ob('C14.add_constraint', 'adding a constraint adds it, the variables '
           'it is on, and nothing else', 'ConstraintGraph.add_constraint',
           add_constraint)

    def rem_variable(ck):
        cg = CG(ck)
        E, lab = cg.E, cg.lab
        o = lab.call(cg.g, 'rem_variable', P)
        ck.never(lab, True, o.raises(), 'removing a variable fails')
        if o.st is None:
            ck.fail('no variable can be removed')
            return
        var = E.rel('var', P)
        cg.exactly(o.st, And(var, o.normal()), lambda x: And(
            E.rel('var', x), Not(E.eq(x, P))), lambda x: And(
                E.rel('con', x), Not(E.rel('on', x, P))),
            'removing a variable')
        cg.same(o.st, And(Not(var), o.normal()),
                'removing an unknown variable')
    run.ob('C14.rem_variable', 'removing a variable removes it with exactly '
           'the constraints on it; an unknown one is left alone',
           'ConstraintGraph.rem_variable', rem_variable)

    def rem_constraint(ck):
        cg = CG(ck)
        E, lab = cg.E, cg.lab
        o = lab.call(cg.g, 'rem_constraint', M)
        ck.never(lab, True, o.raises(), 'removing a constraint fails')
        if o.st is None:
            ck.fail('no constraint can be removed')
            return
        cg.exactly(o.st, o.normal(), cg.old('var'), lambda x: And(
            E.rel('con', x), Not(E.eq(x, M))), 'removing a constraint')
    run.ob('C14.rem_constraint', 'removing a constraint removes it and nothing '
           'else; an unknown one is left alone',
           'ConstraintGraph.rem_constraint', rem_constraint)


def c15(run):
    run.shapes = (2, 3)

    def query(ck, cg, name, arg, want, pre=True):
        E, lab = cg.E, cg.lab
        o = lab.call(cg.g, name, arg)
        ck.never(lab, pre, o.raises(), name + ' fails')
        if o.st is None:
            ck.fail(name + ' never returns')
            return
        pre = And(pre, o.normal())
        ck.iff(lab, pre, members(lab, o.val, o.st, R_), want(R_),
               name + ': exactly the right constraints')
        ck.never(lab, pre, duplicates(lab, o.val, o.st),
                 name + ' lists a constraint twice')
        fresh_result(ck, lab, o, name)
        cg.same(o.st, pre, name + ' changes the graph')
        if isinstance(arg, Ref):
            ck.iff(lab, pre, members(lab, arg, o.st, Q),
                   members(lab, arg, lab.st, Q),
                   name + ' changes the variables it is given')

    def on(ck):
        cg = CG(ck)
        E = cg.E
        query(ck, cg, 'get_constraints_on', P, lambda m: And(
            E.rel('con', m), E.rel('on', m, P)), Not(E.rel('con', P)))
    run.ob('C15.on', 'the constraints on a variable are exactly the '
           'registered ones that constrain it, none for unknown variables',
           'ConstraintGraph.get_constraints_on', on)

    def sharing(name, some):
        def want(cg, vs):
            E = cg.E

            def f(m):
                on = [And(E.rel('con', m), E.rel('on', m, v)) for v in vs]
                return (Or if some else And)(*on) if on else False
            return f

        def listed(k):
            def body(ck):
                cg = CG(ck)
                E, lab = cg.E, cg.lab
                vs = [Sym('v%d!' % i) for i in range(k)]
                ref = E.alloc(lab.st, Content('list', [
                    Entry('add', (), True, (v,)) for v in vs]), 'vs')
                query(ck, cg, name, ref, want(cg, vs), And(*[
                    Not(E.rel('con', v)) for v in vs]))
            return body
        for k in range(4):
            run.ob('C15.%s.%d' % ('any' if some else 'all', k),
                   'the constraints %s %d variables are exactly the '
                   'registered ones that constrain %s of them, listed once'
                   % (('on any of', k, 'one') if some else
                      ('shared by', k, 'all')), 'ConstraintGraph.' + name,
                   listed(k))

        def general(ck):
            cg = CG(ck)
            E, lab = cg.E, cg.lab
            x = Sym('x!')
            ref = E.alloc(lab.st, Content('list', [Entry(
                'add', (x,), E.rel('asked', x), (x,), setlike=False)]), 'vs')
            E.schemas['asked'] = [lambda x: Not(E.rel('con', x))]

            def f(m):
                y = E.bsym('y')
                if some:
                    return And(E.rel('con', m), E.exists((y,), And(
                        E.rel('asked', y), E.rel('on', m, y))))
                return And(E.rel('con', m), Not(E.exists((y,), And(
                    E.rel('asked', y), Not(E.rel('on', m, y))))))
            y = E.bsym('y')
            query(ck, cg, name, ref, f, True if some else
                  E.exists((y,), E.rel('asked', y)))
        run.ob('C15.%s.n' % ('any' if some else 'all'),
               'the constraints %s any number of variables' % (
                   'on' if some else 'shared by'),
               'ConstraintGraph.' + name, general, shapes=())
    sharing('get_constraints_on_all', False)
    sharing('get_constraints_on_any', True)


# --------------------------------------------------------------- C16

FUNCTION = 'FunctionConstraint'
NEGATED = {'NotClockwiseConstraint': 'is_clockwise',
           'NotCounterClockwiseConstraint': 'is_counterclockwise',
           'NotObtuseConstraint': 'is_obtuse',
           'NotAcuteConstraint': 'is_acute'}


def c16(run):
    def made(ck, lab, cls, *args):
        o = lab.new(cls, *args)
        needed(o, 'no %s can be created' % cls)
        ck.never(lab, True, o.raises(), cls + ' cannot be created')
        lab.st = o.st
        lab.st.pc = ()
        return o.val

    def given(lab, st, vs):
        return lab.eng.alloc(st, Content('list', [
            Entry('add', (), True, (v,)) for v in vs]), 'vs')

    def listed(ck, lab, c, vs, st, what):
        """The variables of c are vs, in this order, in a list of its own."""
        o = lab.call(c, 'variables', st=st)
        ck.never(lab, True, o.raises(), what + ': variables() fails')
        if o.st is None:
            return None
        E = lab.eng
        xs = E.exact_items(o.val, o.st)
        if xs is None:
            ck.unknown(what + ': variables')
            return None
        if len(xs) != len(vs):
            ck.fail(what + ': another number of variables')
            return None
        for x, v in zip(xs, vs):
            ck.valid(lab, True, E.eq(x, v), what + ': other variables, or in '
                     'another order')
        return o

    def variables(cls, k, make):
        def body(ck):
            lab = ck.lab()
            E = lab.eng
            vs = [Sym('v%d' % i) for i in range(k)]
            args = make(lab, vs)
            c = made(ck, lab, cls, *args)
            o = listed(ck, lab, c, vs, lab.st, cls)
            if o is None:
                return
            fresh_result(ck, lab, o, 'variables()')
            # neither the result nor the arguments are the constraint's own
            for r in [o.val] + [a for a in args if isinstance(a, Ref)]:
                if isinstance(r, Ref):
                    s = o.st.fork()
                    E.write(r, s, Entry('add', (), True, (Sym('more'),)))
                    listed(ck, lab, c, vs, s, cls + ', after somebody '
                           'extended that list')
        return body

    f = Sym('fn')
    run.ob('C16.variables.Plus', 'a constraint lists its variables in order; '
           'the list is a copy', 'PlusConstraint',
           variables('PlusConstraint', 3, lambda lab, vs: vs))
    for n in NEGATED:
        run.ob('C16.variables.' + n, 'a constraint lists its variables in '
               'order; the list is a copy', n,
               variables(n, 3, lambda lab, vs: vs))
    for k in range(4):
        run.ob('C16.variables.Function.%d' % k, 'a constraint lists its '
               'variables in order; the list is a copy', FUNCTION,
               variables(FUNCTION, k, lambda lab, vs: [
                   f, given(lab, lab.st, vs)]))

    def mapping(lab, tag='given'):
        E = lab.eng
        x = E.bsym('x')
        return E.alloc(lab.st, Content('dict', [Entry(
            'add', (x,), E.rel(tag, x), (x,), App('pt', [x]))],
            distinct=True), 'mapping')

    def unchanged(ck, lab, ref, o):
        E = lab.eng
        a, b = E.content(ref, lab.st), E.content(ref, o.st)
        if a is b:
            ck.ok()
            return
        ck.iff(lab, o.normal(), E.mem(b, (Q,)), E.mem(a, (Q,)),
               'the mapping is changed')
        ck.valid(lab, And(o.normal(), E.mem(a, (Q,))), E.eq(
            E.lookup(b, (Q,)), E.lookup(a, (Q,))), 'the mapping is changed')

    def function(k):
        def body(ck):
            lab = ck.lab()
            E = lab.eng
            calls = []

            def user(eng, recv, args, kwargs, st, node):
                if recv.key() != f.key():
                    return None
                calls.append((args, kwargs, st.fork()))
                return BoolV(atom('user', Sym('result')))
            E.summaries['call:()'] = user
            vs = [Sym('v%d' % i) for i in range(k)]
            c = made(ck, lab, FUNCTION, f, given(lab, lab.st, vs))
            m = mapping(lab)
            pre = And(*[E.rel('given', v) for v in vs])
            o = lab.call(c, 'satisfied', m)
            ck.never(lab, pre, o.raises(), 'satisfied() fails')
            if o.st is None:
                ck.fail('satisfied() never returns')
                return
            if len(calls) != 1:
                ck.fail('the function is called %d times' % len(calls))
                return
            args, kwargs, st = calls[0]
            ck.valid(lab, pre, pc_of(st, lab.st), 'the function is not '
                     'always called')
            if kwargs or len(args) != k:
                ck.fail('the function is called with other arguments')
                return
            for a, v in zip(args, vs):
                ck.valid(lab, pre, E.eq(a, App('pt', [v])), 'the function '
                         'does not get the points of the variables in order')
            ck.iff(lab, And(pre, o.normal()), E.truth(o.val, o.st),
                   atom('user', Sym('result')),
                   'satisfied() is not what the function says')
            unchanged(ck, lab, m, o)
        return body
    for k in range(4):
        run.ob('C16.function.%d' % k, 'a function constraint is satisfied '
               'exactly if the function says so for the values of its '
               'variables, in order', FUNCTION + '.satisfied', function(k))

    def plus(ck):
        g = Geo(ck)
        E, lab = g.E, g.lab
        names = [Const(n) for n in 'abc']
        vals = [g.real(n) for n in 'xyz']
        c = made(ck, lab, 'PlusConstraint', *names)
        m = E.alloc(lab.st, Content('dict', [Entry(
            'add', (), True, (n,), v) for n, v in zip(names, vals)],
            distinct=True), 'mapping')
        o = lab.call(c, 'satisfied', m)
        ck.never(lab, True, o.raises(), 'satisfied() fails')
        x, y, z = [v.r for v in vals]
        ck.iff(lab, o.normal(), E.truth(o.val, o.st), g.zero(x + y - z),
               'the third value is not the sum of the others')
        unchanged(ck, lab, m, o)
    run.ob('C16.plus', 'a plus constraint is satisfied exactly if the third '
           'value is the sum of the others', 'PlusConstraint.satisfied', plus)

    def negated(cls, pred):
        def body(ck):
            g = Geo(ck, samples=NEAR)
            E, lab = g.E, g.lab
            names = [Const(n) for n in 'abc']
            c = made(ck, lab, cls, *names)
            ps = [g.vec('p%d' % i) for i in (1, 2, 3)]
            m = E.alloc(lab.st, Content('dict', [Entry(
                'add', (), True, (n,), v) for n, v in zip(names, ps)],
                distinct=True), 'mapping')
            o = lab.call(c, 'satisfied', m)
            if not g.never(o, 'satisfied'):
                return
            w = g.func(pred, *ps)
            if w.st is None:
                raise Unsupported(pred)
            ck.iff(lab, And(o.normal(), w.normal()), E.truth(o.val, o.st),
                   Not(g.truth(w)), 'satisfied() is not the opposite of ' +
                   pred)
            g.unchanged(o, 'satisfied')
            unchanged(ck, lab, m, o)
        return body
    for cls, pred in NEGATED.items():
        run.ob('C16.' + cls, 'satisfied exactly if %s does not hold for the '
               'points of the three variables, in order' % pred,
               cls + '.satisfied', negated(cls, pred))


RULES = {'C14': c14, 'C15': c15, 'C16': c16}
