"""Clusters and relations: shapes, intersections, common constraints, counts,
equality of relations."""

import itertools

from ..logic import *          # noqa: F401,F403
from ..content import Content, Entry
from ..engine import needed, Unsupported
from ..num import Rat
from .graph import members, duplicates, pc_of, materialise, elements

P, Q, R = Sym('p'), Sym('q'), Sym('r')
KINDS = ('Rigid', 'Hedgehog', 'Balloon')


def variables(lab, st, name):
    """An arbitrary list of variables (duplicates included)."""
    x = Sym('x!')
    C = Content('list', [Entry('add', (x,), lab.eng.rel(name, x), (x,),
                               setlike=False)])
    if lab.shape:
        C = materialise(lab.eng, C, elements(lab.shape))
        lab.eng.schemas[name] = [lambda x: Or(*[
            lab.eng.eq(x, e) for e in elements(lab.shape)])]
    return lab.eng.alloc(st, C, name)


class Cl:
    """A cluster with arbitrary variables."""

    def __init__(self, lab, kind, tag):
        self.lab, self.kind, self.tag = lab, kind, tag
        E = self.E = lab.eng
        ref = variables(lab, lab.st, tag)
        self.arg = ref
        args = [ref]
        if kind == 'Hedgehog':
            self.c = Sym('c' + tag)
            args = [self.c, ref]
        o = lab.new(kind, *args)
        needed(o, 'no %s can be created' % kind)
        self.made = o
        lab.st = o.st.fork()
        E.facts.append(o.normal())
        lab.st.pc = ()
        # nothing but the arguments decides whether a cluster can be created
        self.obj = o.val

    def given(self, x):
        return self.E.rel(self.tag, x)

    def x(self, x):
        """The non-central variables."""
        f = self.given(x)
        if self.kind == 'Hedgehog':
            f = And(f, Not(self.E.eq(x, self.c)))
        return f

    def has(self, x):
        """The variables that were asked for."""
        f = self.given(x)
        if self.kind == 'Hedgehog':
            f = Or(f, self.E.eq(x, self.c))
        return f

    def set(self, st, fn):
        x = self.E.bsym('v')
        return Content('set', [Entry('add', (x,), fn(x), (x,))],
                       distinct=True)


def attr(lab, v, name, st):
    o = lab.getattr(v, name, st)
    if o.st is None or o.raised:
        raise Unsupported('%s cannot be read' % name)
    return o.val


def alts(lab, v, st, pre):
    """[(condition, value)] of a conditional value."""
    if isinstance(v, IteV):
        return alts(lab, v.a, st, And(pre, v.c)) + \
            alts(lab, v.b, st, And(pre, Not(v.c)))
    if not lab.eng.sat(pre):
        return []
    return [(pre, v)]


def at_least(E, fn, k):
    """Formula: at least k things satisfy fn."""
    x = E.bsym('v')
    return E.count_ge(Content('set', [Entry('add', (x,), fn(x), (x,))],
                              distinct=True), k)


def unchanged(ck, lab, cl, st, pre, what):
    E = lab.eng
    ck.iff(lab, pre, members(lab, attr(lab, cl.obj, 'vars', st), st, P),
           cl.has(P), what + ' changes the variables of a cluster')
    if cl.kind == 'Hedgehog':
        ck.iff(lab, pre, members(lab, attr(lab, cl.obj, 'x_vars', st), st, P),
               cl.x(P), what + ' changes the variables of a hedgehog')
        ck.valid(lab, pre, E.eq(attr(lab, cl.obj, 'c_var', st), cl.c),
                 what + ' changes the central variable')


# --------------------------------------------------------------- C18

def c18(run):
    run.shapes = (2, 3)

    def shape(kind, low):
        def body(ck):
            lab = ck.lab()
            E = lab.eng
            ref = variables(lab, lab.st, 'A')
            args = [ref]
            c = Sym('c')
            if kind == 'Hedgehog':
                args = [c, ref]
            o = lab.new(kind, *args)

            def x(v):
                f = E.rel('A', v)
                return And(f, Not(E.eq(v, c))) if kind == 'Hedgehog' else f

            def has(v):
                return Or(x(v), E.eq(v, c)) if kind == 'Hedgehog' else x(v)
            enough = at_least(E, x, low) if low else True
            ck.iff(lab, True, o.normal(), enough,
                   'clusters are created iff they have enough variables')
            for e in o.raised:
                pc = pc_of(e.st, lab.st)
                if E.sat(pc):
                    ck.that(isinstance(e.val, ExcV) and
                            e.val.name == 'ValueError',
                            'too few variables are not reported as '
                            'ValueError', show(e.val))
            if o.st is None:
                ck.fail('no cluster can be created')
                return
            pre = o.normal()
            vs = attr(lab, o.val, 'vars', o.st)
            ck.iff(lab, pre, members(lab, vs, o.st, P), has(P),
                   'the variables of the cluster')
            if lab.kinds(vs, o.st) != {'set'}:
                ck.never(lab, pre, duplicates(lab, vs, o.st),
                         'a variable is there twice')
            ck.valid(lab, pre, Not(E.truth(attr(
                lab, o.val, 'overconstrained', o.st), o.st)),
                'a new cluster is overconstrained')
            if kind == 'Hedgehog':
                ck.valid(lab, pre, E.eq(attr(lab, o.val, 'c_var', o.st), c),
                         'the central variable')
                ck.iff(lab, pre, members(lab, attr(
                    lab, o.val, 'x_vars', o.st), o.st, P), x(P),
                    'the other variables')
            # independent of its arguments
            s = o.st.fork()
            E.write(ref, s, Entry('add', (), True, (Sym('new'),)))
            ck.iff(lab, And(pre, Not(has(Sym('new')))),
                   members(lab, attr(lab, o.val, 'vars', s), s, P), has(P),
                   'the cluster shares the list it was created from')
            l = lab.call(o.val, 'var_list', st=o.st)
            ck.never(lab, pre, l.raises(), 'listing the variables fails')
            if l.st is not None:
                ck.iff(lab, pre, members(lab, l.val, l.st, P), has(P),
                       'the list of variables')
                ck.never(lab, pre, duplicates(lab, l.val, l.st),
                         'a variable is listed twice')
                xs = E.coll(l.val, l.st)
                if kind == 'Hedgehog' and xs is not None and xs.log:
                    e = xs.log[0]
                    if not e.B and e.g is True and e.op == 'add':
                        ck.valid(lab, pre, E.eq(e.key[0], c),
                                 'the central variable is not listed first')
        return body
    for kind, low in (('Rigid', 0), ('Hedgehog', 2), ('Balloon', 3)):
        run.ob('C18.' + kind, '%s: created exactly from enough distinct '
               'variables, and keeps exactly these' % kind, kind,
               shape(kind, low))

    def keyword(kind):
        def body(ck):
            lab = ck.lab()
            ref = variables(lab, lab.st, 'A')
            args = [ref] if kind != 'Hedgehog' else [Sym('c'), ref]
            kw = lab.named(lab.member(kind, '__init__'), args,
                           lab.member('Cluster', '__init__'))
            if kw is None:
                raise Unsupported('arguments by position only')
            a, b = lab.new(kind, *args), lab.new(kind, **kw)
            ck.iff(lab, True, a.normal(), b.normal(), 'whether a cluster can '
                   'be created depends on whether its variables are given by '
                   'position or by keyword')
            if a.st is not None and b.st is not None:
                ck.iff(lab, And(a.normal(), b.normal()), members(
                    lab, attr(lab, a.val, 'vars', a.st), a.st, P), members(
                    lab, attr(lab, b.val, 'vars', b.st), b.st, P),
                    'the variables of a cluster created by keyword')
        return body
    for kind in KINDS:
        run.ob('C18.%s.keyword' % kind, '%s: the variables may be given by '
               'keyword' % kind, kind, keyword(kind))


# --------------------------------------------------------------- C17

def expected(E, a, b):
    """[(condition, kind, central variable, variables)] of an intersection;
    None otherwise."""
    def shared(x):
        return And(a.has(x), b.has(x))
    two = at_least(E, shared, 2)
    if a.kind == b.kind == 'Rigid':
        return [(two, 'Rigid', None, shared)]
    if 'Hedgehog' not in (a.kind, b.kind):
        return [(at_least(E, shared, 3), 'Balloon', None, shared)]
    if a.kind == b.kind == 'Hedgehog':
        def x(v):
            return And(a.x(v), b.x(v))
        return [(And(two, E.eq(a.c, b.c), at_least(E, x, 2)), 'Hedgehog',
                 a.c, x)]
    h, o = (a, b) if a.kind == 'Hedgehog' else (b, a)

    def x(v):
        return And(h.x(v), o.has(v))
    return [(And(two, o.has(h.c), at_least(E, x, 2)), 'Hedgehog', h.c, x)]


def c17(run):
    run.shapes = (3,)

    def inter(ka, kb):
        def body(ck):
            lab = ck.lab()
            E = lab.eng
            a, b = Cl(lab, ka, 'A'), Cl(lab, kb, 'B')
            o = lab.call(a.obj, 'intersection', b.obj)
            (cond, kind, c, vs), = expected(E, a, b)
            ck.never(lab, True, o.raises(), 'intersecting fails')
            if o.st is None:
                return
            n = o.normal()
            none = False
            for pre, v in alts(lab, o.val, o.st, n):
                if v.key() == NONE.key():
                    none = Or(none, pre)
                    continue
                if not isinstance(v, ObjV):
                    raise Unsupported('result %s' % show(v))
                ck.valid(lab, pre, v.cls.qual.split('.')[-1] == kind,
                         'the intersection is no %s' % kind)
                if v.cls.qual.split('.')[-1] != kind:
                    continue
                ck.that(v.key() not in (a.obj.key(), b.obj.key()),
                        'an operand itself is returned')
                ck.iff(lab, And(pre, cond), members(lab, attr(
                    lab, v, 'vars', o.st), o.st, P),
                    Or(vs(P), E.eq(P, c)) if c else vs(P),
                    'the variables of the intersection')
                if c:
                    ck.valid(lab, And(pre, cond), E.eq(attr(
                        lab, v, 'c_var', o.st), c),
                        'the central variable of the intersection')
                    ck.iff(lab, And(pre, cond), members(lab, attr(
                        lab, v, 'x_vars', o.st), o.st, P), vs(P),
                        'the other variables of the intersection')
            ck.iff(lab, n, Not(none), cond, 'there is an intersection exactly '
                   'if the clusters share enough')
            for cl in (a, b):
                unchanged(ck, lab, cl, o.st, n, 'intersecting')
        return body
    for ka, kb in itertools.product(KINDS, repeat=2):
        run.ob('C17.%s_%s' % (ka, kb), 'intersection of a %s with a %s' % (
            ka, kb), 'Cluster.intersection', inter(ka, kb))


# --------------------------------------------------------------- C19

def angle_spec(E, a, b, p, q, r):
    """(p, q, r) is an angle, with apex q, that both clusters know."""
    out = [Not(E.eq(p, q)), Not(E.eq(q, r)), Not(E.eq(p, r))]
    for k in (a, b):
        if k.kind == 'Hedgehog':
            out += [E.eq(q, k.c), k.x(p), k.x(r)]
        else:
            out += [k.has(p), k.has(q), k.has(r)]
    return And(*out)


def relation(lab, st, cls, *pts):
    o = lab.new(cls, *pts, st=st)
    needed(o, '%s cannot be created' % cls)
    if o.raised:
        raise Unsupported('%s cannot be created' % cls)
    return o.val, o.st


def c19(run):
    run.shapes = (3,)

    def common(ka, kb, op):
        def body(ck):
            lab = ck.lab()
            E = lab.eng
            a, b = Cl(lab, ka, 'A'), Cl(lab, kb, 'B')
            o = lab.call(a.obj, op, b.obj)
            ck.never(lab, True, o.raises(), op + ' fails')
            if o.st is None:
                return
            n = o.normal()
            ang, st = relation(lab, o.st, 'Angle', P, Q, R)
            dis, st = relation(lab, st, 'Distance', P, Q)
            both_r = ka == kb == 'Rigid'
            spec = And(both_r, Not(E.eq(P, Q)), a.has(P), b.has(P),
                       a.has(Q), b.has(Q))
            asp = angle_spec(E, a, b, P, Q, R)
            if op == 'common_distances':
                asp = False
            if op == 'common_angles':
                spec = False
            C = o.val
            d3 = And(Not(E.eq(P, Q)), Not(E.eq(Q, R)), Not(E.eq(P, R)))
            if not lab.kinds(C, st) <= {'set', 'list'}:
                raise Unsupported('result %s' % show(C))
            if op != 'common_distances':
                ck.iff(lab, And(n, d3), members(lab, C, st, ang), asp,
                       'the angles both clusters know')
            if op != 'common_angles':
                ck.iff(lab, And(n, Not(E.eq(P, Q))), members(
                    lab, C, st, dis), spec,
                    'the distances both clusters know')
            # nothing but proper relations
            for c, K in lab.alts(C, st):
                for e in K.log:
                    if e.op != 'add':
                        raise Unsupported('result is thinned out')
                    e = E.rename(e)
                    v = e.key[0]
                    if not isinstance(v, ObjV) or v.cls.qual.split('.')[
                            -1] not in ('Angle', 'Distance'):
                        ck.never(lab, And(n, c), e.g if not e.B else
                                 E.exists(e.B, e.g),
                                 'something that is no relation is returned')
                        continue
                    pts = E.coll(attr(lab, v, 'points', st), st)
                    xs = pts.exact() if pts is not None else None
                    if xs is None:
                        ck.unknown('the points of a relation')
                        continue
                    ck.never(lab, And(n, c, e.g), Or(*[
                        E.eq(x, y) for x, y in itertools.combinations(
                            xs, 2)]), 'a relation of a point with itself')
            for cl in (a, b):
                unchanged(ck, lab, cl, o.st, n, op)
        return body
    for ka, kb in itertools.product(KINDS, repeat=2):
        for op in ('common_distances', 'common_angles',
                   'common_constraints'):
            run.ob('C19.%s.%s_%s' % (op.split('_')[1], ka, kb),
                   '%s of a %s and a %s: exactly those both know' % (
                       op, ka, kb), 'Cluster.common_constraints',
                   common(ka, kb, op))


# --------------------------------------------------------------- C20

def c20(run):
    def counts(kind):
        def body(ck):
            lab = ck.lab()
            E = lab.eng
            a = Cl(lab, kind, 'A')
            n = E.length(a.set(lab.st, a.x))
            n = E.tonum(n)
            if n is None:
                raise Unsupported('number of variables')
            one, two = E.num(1), E.num(2)
            pairs = E.num(n.r * (n.r - one.r) / two.r)
            trip = E.num(n.r * (n.r - one.r) * (n.r - two.r) / two.r)
            want = {'Rigid': (pairs, trip), 'Balloon': (E.num(0), trip),
                    'Hedgehog': (E.num(0), pairs)}[kind]
            want = want + (E.num(want[0].r + want[1].r),)
            for op, w in zip(('n_distances', 'n_angles', 'n_constraints'),
                             want):
                o = lab.call(a.obj, op)
                ck.never(lab, True, o.raises(), op + ' fails')
                if o.st is None:
                    continue
                for pre, v in alts(lab, o.val, o.st, o.normal()):
                    x = E.tonum(v)
                    if x is None:
                        ck.unknown(op, show(v))
                        continue
                    d = x.r - w.r
                    if d.is_zero():
                        ck.ok()
                    elif x.r.atoms() <= n.r.atoms() and differs(d, n, kind):
                        ck.fail('%s is %s instead of %s' % (op, show(x),
                                                            show(w)))
                    else:
                        ck.valid(lab, pre, E.eq(x, w), op)
                unchanged(ck, lab, a, o.st, o.normal(), op)
        return body
    for kind in KINDS:
        run.ob('C20.' + kind, 'a %s counts every distance and angle it '
               'determines once' % kind, 'Cluster.n_constraints',
               counts(kind))


def differs(d, n, kind):
    """A difference of polynomials in the number of variables that is not
    zero for some admissible number."""
    from fractions import Fraction
    at = n.r.atoms()
    if len(at) != 1 or d.atoms() - at:
        return False
    low = {'Rigid': 0, 'Hedgehog': 2, 'Balloon': 3}[kind]
    (i,) = at
    for k in range(low, low + 6):
        v = d.subst({i: type(d).const(d.ctx, Fraction(k))}).as_const()
        if v not in (None, 0):
            return True
    return False


# --------------------------------------------------------------- C21

def c21(run):
    def make(ck, cls, pts, st=None, lab=None):
        lab = lab or ck.lab()
        o = lab.new(cls, *pts, st=st)
        needed(o, '%s cannot be created' % cls)
        return lab, o

    S, T, U = Sym('s'), Sym('t'), Sym('u')

    def equal(cls, pts, qts, spec, what):
        def body(ck):
            lab, o = make(ck, cls, pts)
            E = lab.eng
            ck.never(lab, True, o.raises(), 'creating a relation fails')
            lab, o2 = make(ck, cls, qts, o.st, lab)
            a, b, st = o.val, o2.val, o2.st
            r = E.truth(E.call(E.getattr_(a, '__eq__', st, None), [b], {},
                               st, None), st)
            ck.iff(lab, True, r, spec(E), what)
            ha = hashed(lab, a, st)
            hb = hashed(lab, b, st)
            if ha is None or hb is None:
                ck.fail('%s cannot be hashed' % cls)
            else:
                same_hash(ck, lab, r, ha, hb,
                          'equal relations have different hashes')
            for x, want in ((a, pts), (b, qts)):
                xs = E.coll(attr(lab, x, 'points', st), st)
                xs = xs.exact() if xs is not None else None
                if xs is None or len(xs) != len(want):
                    ck.unknown('the points of a relation')
                    continue
                for y, z in zip(xs, want):
                    ck.valid(lab, True, E.eq(y, z),
                             'a relation keeps its points in order')
        return body

    def sets_equal(E, xs, ys):
        return And(*[Or(*[E.eq(x, y) for y in ys]) for x in xs],
                   *[Or(*[E.eq(x, y) for y in xs]) for x in ys])
    run.ob('C21.distance', 'distances are equal exactly if they relate the '
           'same points, in any order, and then have equal hashes',
           'Distance.__eq__', equal('Distance', [P, Q], [S, T], lambda E:
                                    sets_equal(E, [P, Q], [S, T]),
                                    'equality of distances'))

    def angle_eq(E):
        d = And(Not(E.eq(P, Q)), Not(E.eq(Q, R)), Not(E.eq(P, R)))
        return And(E.eq(Q, T), sets_equal(E, [P, Q, R], [S, T, U])), d

    def angles(ck):
        lab, o = make(ck, 'Angle', [P, Q, R])
        E = lab.eng
        lab, o2 = make(ck, 'Angle', [S, T, U], o.st, lab)
        a, b, st = o.val, o2.val, o2.st
        r = E.truth(E.call(E.getattr_(a, '__eq__', st, None), [b], {}, st,
                           None), st)
        spec, d = angle_eq(E)
        d2 = And(Not(E.eq(S, T)), Not(E.eq(T, U)), Not(E.eq(S, U)))
        ck.iff(lab, And(d, d2), r, spec, 'angles between three points are '
               'equal exactly if apex and arms are')
        ha, hb = hashed(lab, a, st), hashed(lab, b, st)
        if ha is None or hb is None:
            ck.fail('angles cannot be hashed')
        else:
            same_hash(ck, lab, And(d, d2, r), ha, hb,
                      'equal relations have different hashes')
        # reflexive and symmetric
        r2 = E.truth(E.call(E.getattr_(b, '__eq__', st, None), [a], {}, st,
                            None), st)
        ck.iff(lab, True, r, r2, 'equality is not symmetric')
        for x, want in ((a, [P, Q, R]), (b, [S, T, U])):
            xs = E.coll(attr(lab, x, 'points', st), st)
            xs = xs.exact() if xs is not None else None
            if xs is None or len(xs) != len(want):
                ck.unknown('the points of a relation')
                continue
            for y, z in zip(xs, want):
                ck.valid(lab, True, E.eq(y, z),
                         'a relation keeps its points in order')
    run.ob('C21.angle', 'angles are equal exactly if they have the same apex '
           'and the same arms, in any order, and then have equal hashes',
           'Angle.__eq__', angles)

    def kinds(ck):
        lab, o = make(ck, 'Angle', [P, Q, R])
        E = lab.eng
        lab, o2 = make(ck, 'Distance', [S, T], o.st, lab)
        st = o2.st
        for a, b in ((o.val, o2.val), (o2.val, o.val), (o.val, Sym('other')),
                     (o2.val, Sym('other')), (o.val, NONE), (o2.val, NONE)):
            f = lab.run(lambda s: E.call(E.getattr_(
                a, '__eq__', s, None), [b], {}, s, None), st)
            ck.never(lab, True, f.raises(), 'comparing fails')
            if f.st is not None and not isinstance(b, Sym):
                v = f.val
                if isinstance(v, ExtV) or 'NotImplemented' in show(v):
                    ck.ok()
                    continue
                ck.never(lab, f.normal(), E.truth(v, f.st),
                         'relations of different kinds are equal')
    run.ob('C21.kinds', 'a relation equals no relation of another kind and '
           'nothing else', 'Angle.__eq__', kinds)


def hashed(lab, v, st):
    """(value, state) of the hash of v; None if it has none."""
    E = lab.eng
    o = lab.run(lambda s: E.b_hash([v], {}, s, None), st)
    if o.st is None or o.raised:
        return None
    return o.val, o.st


def same_hash(ck, lab, pre, a, b, what):
    """Equal hashes, given that hash() agrees on equal arguments."""
    E = lab.eng
    (x, s1), (y, s2) = a, b
    nx, ny = E.tonum(x), E.tonum(y)
    if nx is None or ny is None:
        ck.unknown(what, show(x))
        return

    def hashes(n):
        out = []
        for i in sorted(n.r.atoms()):
            pay = E.ctx.info[i][2]
            if isinstance(pay, App) and pay.op == 'hash':
                out.append((pay.args[0], E.num(Rat.sym(
                    E.ctx, E.ctx.info[i][1], 'val', pay))))
        return out
    ax = []
    for u, hu in hashes(nx):
        for v, hv in hashes(ny):
            ax.append(Implies(E.eq(u, v, s1), E.eq(hu, hv)))
    ck.valid(lab, And(pre, *ax), E.eq(nx, ny), what)


RULES = {'C17': c17, 'C18': c18, 'C19': c19, 'C20': c20, 'C21': c21}
