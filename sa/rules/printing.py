"""Printing: every object can be printed whatever its variables are, and the
text mentions them."""

from ..logic import *          # noqa: F401,F403
from ..content import Content, Entry
from ..engine import needed, Unsupported
from . import graph as G
from .graph import graph_lab
from .method import MG
from .constraint import CG
from .cluster import Cl, variables
from .geometry import Geo

P, Q = Sym('p'), Sym('q')
OPQ = Opaque('text')


def mentioned(E, v, st, x):
    """Formula: the text contains that of the value x."""
    if isinstance(v, IteV):
        return Or(And(v.c, mentioned(E, v.a, st, x)),
                  And(Not(v.c), mentioned(E, v.b, st, x)))
    if isinstance(v, StrV):
        return Or(*[mentioned(E, p, st, x) for p in v.parts])
    if isinstance(v, Opaque):
        return Or(atom('opq', v), *[mentioned(E, a, st, x) for a in v.args
                                    if isinstance(a, Val)])
    if isinstance(v, TupleV):
        return Or(*[mentioned(E, p, st, x) for p in v.items])
    if isinstance(v, (Ref, SnapV, ViewV)):
        C = E.coll(v, st)
        if C is None or C.lost:
            return atom('opq', OPQ)
        fs = []
        for e in C.log:
            if e.op not in ('add', 'setd'):
                continue
            f = Or(*[mentioned(E, k, st, x) for k in e.key],
                   *([mentioned(E, e.val, st, x)]
                     if e.val is not None else []))
            fs.append(E.exists(e.B, And(e.g, f)))
        if any(e.op not in ('add', 'setd') for e in C.log):
            # entries removed later on: what is left is asked for by key
            return Or(atom('opq', OPQ), *fs)
        return Or(*fs)
    if isinstance(v, Const) and isinstance(x, Const):
        return v.key() == x.key() or (
            isinstance(v.v, str) and isinstance(x.v, str) and x.v in v.v)
    if isinstance(v, Const):
        return v.key() == x.key()
    return E.eq(v, x)


def printed(ck, lab, obj, name, what, pre=True, st=None):
    o = lab.call(obj, name, st=st)
    ck.never(lab, pre, o.raises(), what + ' cannot be printed')
    if o.st is None:
        return None
    ck.valid(lab, And(pre, o.normal()), lab.eng.istext(o.val),
             what + ': the text is no string')
    return o


def made(ck, lab, cls, *args):
    o = lab.new(cls, *args)
    needed(o, 'no %s can be created' % cls)
    lab.eng.facts.append(o.normal())
    lab.st = o.st
    lab.st.pc = ()
    return o.val


def c36(run):
    def graph(ck):
        lab, g = graph_lab(ck)[:2]
        E = lab.eng
        o = printed(ck, lab, g, '__str__', 'a graph')
        if o is None:
            return
        v = G.View(lab, g, lab.st)
        ck.valid(lab, And(o.normal(), v.vertex(P)), mentioned(
            E, o.val, o.st, P), 'the text leaves out a vertex')
        w, _ = v.get(P, Q)
        if w is not None:
            ck.valid(lab, And(o.normal(), v.edge(P, Q)), mentioned(
                E, o.val, o.st, w), 'the text leaves out the value of an edge')
        G.same_view(ck, lab, g, o.normal(), lab.st, o.st,
                    'printing a graph')
    run.ob('C36.graph', 'graphs can be printed; the text mentions every '
           'vertex and the value of every edge', 'Graph.__str__', graph,
           shapes=(2, 3))

    def method(cls, args, vs):
        def body(ck):
            lab = ck.lab()
            m = made(ck, lab, cls, *args(lab))
            o = printed(ck, lab, m, '__str__', 'a method')
            if o is None:
                return
            for x in vs:
                ck.valid(lab, o.normal(), mentioned(lab.eng, o.val, o.st, x),
                         'the text leaves out a variable')
        run.ob('C36.' + cls, 'the method can be printed whatever its '
               'variables are; the text mentions them', cls + '.__str__',
               body)
    a, b, c = Sym('a'), Sym('b'), Sym('c')
    method('AddMethod', lambda lab: (a, b, c), (a, b, c))
    method('SubMethod', lambda lab: (a, b, c), (a, b, c))
    method('SetMethod', lambda lab: (a, b), (a, b))
    method('AssignMethod', lambda lab: (a, b), (a, b))

    def multi(ck):
        for name in (None, a):
            for how in ('__str__', '__repr__'):
                lab = ck.lab()
                v = made(ck, lab, 'MultiVariable', *([name] if name else []))
                o = printed(ck, lab, v, how, 'a variable')
                if o is not None and name is not None:
                    # a variable without a name is identified otherwise
                    ck.valid(lab, And(o.normal(), Not(lab.eng.eq(
                        name, NONE))), mentioned(lab.eng, o.val, o.st, name),
                        'the text leaves out the name')
    run.ob('C36.MultiVariable', 'a variable of multiple values can be '
           'printed whatever its name is', 'MultiVariable.__str__', multi)

    def mg(ck):
        m = MG(ck)
        lab = m.lab
        o = printed(ck, lab, m.g, '__str__', 'a method graph')
        if o is None:
            return
        ck.valid(lab, And(o.normal(), m.has('map', lab.st, P)), mentioned(
            lab.eng, o.val, o.st, P), 'the text leaves out a variable')
        ck.valid(lab, And(o.normal(), m.has('met', lab.st, P)), mentioned(
            lab.eng, o.val, o.st, P), 'the text leaves out a method')
        m.same(o.st, o.normal(), 'printing')
    run.ob('C36.MethodGraph', 'method graphs can be printed; the text '
           'mentions every variable and every method', 'MethodGraph.__str__',
           mg, shapes=(1, 2))

    def cg(ck):
        m = CG(ck)
        lab = m.lab
        o = printed(ck, lab, m.g, '__str__', 'a constraint graph')
        if o is None:
            return
        for name, what in (('variables', 'variable'),
                           ('constraints', 'constraint')):
            q = lab.call(m.g, name)
            if q.st is None:
                raise Unsupported(name)
            ck.valid(lab, And(o.normal(), G.members(lab, q.val, q.st, P)),
                     mentioned(lab.eng, o.val, o.st, P),
                     'the text leaves out a ' + what)
    run.ob('C36.ConstraintGraph', 'constraint graphs can be printed; the '
           'text mentions every variable and every constraint',
           'ConstraintGraph.__str__', cg, shapes=(1, 2))

    def cluster(kind):
        def body(ck):
            lab = ck.lab()
            E = lab.eng
            cl = Cl(lab, kind, 'A')
            o = printed(ck, lab, cl.obj, '__str__', 'a cluster')
            if o is None:
                return
            ck.valid(lab, And(o.normal(), cl.has(P)), mentioned(
                E, o.val, o.st, P), 'the text leaves out a variable')
        run.ob('C36.' + kind, 'clusters can be printed whatever their '
               'variables are; the text mentions them', kind + '.__str__',
               body, shapes=(2, 3))
    for kind in ('Rigid', 'Hedgehog', 'Balloon'):
        cluster(kind)

    def relation(cls, vs):
        method(cls, lambda lab: vs, vs)
    relation('Distance', (a, b))
    relation('Angle', (a, b, c))

    method('PlusConstraint', lambda lab: (a, b, c), (a, b, c))
    for cls in ('NotClockwiseConstraint', 'NotCounterClockwiseConstraint',
                'NotObtuseConstraint', 'NotAcuteConstraint'):
        method(cls, lambda lab: (a, b, c), (a, b, c))

    def function(ck):
        for named in (0, 1):
            lab = ck.lab()
            E = lab.eng
            ref = variables(lab, lab.st, 'A')
            args = [Sym('f'), ref] + ([Sym('n')] if named else [])
            m = made(ck, lab, 'FunctionConstraint', *args)
            o = printed(ck, lab, m, '__str__', 'a constraint')
            if o is None:
                return
            ck.valid(lab, And(o.normal(), E.rel('A', P)), mentioned(
                E, o.val, o.st, P), 'the text leaves out a variable')
            if named:
                ck.valid(lab, o.normal(), mentioned(E, o.val, o.st, Sym('n')),
                         'the text leaves out the name')
    run.ob('C36.FunctionConstraint', 'constraints of any callable can be '
           'printed whatever their variables are; the text mentions them',
           'FunctionConstraint.__str__', function, shapes=(1, 2))

    def configuration(ck):
        for how in ('__str__', '__repr__'):
            g = Geo(ck)
            lab, E = g.lab, g.E
            vs = [Sym('v%d' % i, 'elem') for i in range(2)]
            ps = [g.vec('p%d' % i) for i in range(2)]
            m = E.alloc(lab.st, Content('dict', [Entry(
                'add', (), True, (n,), v) for n, v in zip(vs, ps)]),
                'mapping')
            c = made(ck, lab, 'Configuration', m)
            o = printed(ck, lab, c, how, 'a configuration')
            if o is None:
                return
            for x in vs:
                ck.valid(lab, o.normal(), mentioned(E, o.val, o.st, x),
                         'the text leaves out a variable')
    run.ob('C36.Configuration', 'configurations can be printed whatever '
           'their variables are; the text mentions them',
           'Configuration.__str__', configuration)

    def vector(ck):
        for how in ('__str__', '__repr__'):
            g = Geo(ck)
            v = g.vec('v')
            o = printed(ck, g.lab, v, how, 'a vector')
            if o is None:
                continue
            for t in g.xy(v, g.lab.st):
                ck.valid(g.lab, o.normal(), mentioned(
                    g.E, o.val, o.st, Num(t) if not isinstance(t, Val)
                    else t), 'the text leaves out a coordinate')
            g.unchanged(o, how)
    run.ob('C36.Vector', 'vectors can be printed; the text mentions both '
           'coordinates', 'Vector.__str__', vector)

    def matrix(ck):
        for h, w in ((1, 1), (2, 3), (3, 2)):
            g = Geo(ck)
            lab, E = g.lab, g.E
            vals = [[g.real('m%d%d' % (i, j)) for j in range(w)]
                    for i in range(h)]
            rows = E.new_list(lab.st, [E.new_list(lab.st, r) for r in vals])
            m = made(ck, lab, 'Matrix', rows)
            o = printed(ck, lab, m, '__repr__', 'a matrix')
            if o is None:
                return
            for r in vals:
                for x in r:
                    ck.valid(lab, o.normal(), mentioned(E, o.val, o.st, x),
                             'the text leaves out an element')
    run.ob('C36.Matrix', 'matrices can be printed; the text mentions every '
           'element', 'Matrix.__repr__', matrix)


RULES = {'C36': c36}
