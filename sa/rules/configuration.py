"""Configurations: equality, derived configurations, merging.

Points have arbitrary coordinates; what needs coordinates is analysed for
configurations of up to three points (and all orders in which the shared
variables can be enumerated), what only moves points around for every size."""

from fractions import Fraction
import itertools

from ..logic import *          # noqa: F401,F403
from ..content import Content, Entry
from ..engine import needed, Unsupported
from ..num import Rat
from .geometry import Geo, Grid, sq, matrices, got_none
from .graph import members
from .cluster import attr

P, Q = Sym('p'), Sym('q')
EPS = Fraction(1, 10**6)
SPOTS = [0, 1, -1, 2, 3, -2, 0, 5, 1 + Fraction(1, 10**3), Fraction(1, 2), 4]
TINY = [0, Fraction(1, 10**9), Fraction(-1, 10**9), Fraction(1, 10**3), 1, 0,
        Fraction(1, 10**5), 3]
ORDERS = {'as built': lambda l: l, 'reversed': lambda l: l[::-1],
          'rotated': lambda l: l[1:] + l[:1]}


class Conf(Geo):
    """Configurations of known variables, points with any coordinates."""

    def __init__(self, ck, order='as built', **kw):
        kw.setdefault('samples', [SPOTS, TINY])
        Geo.__init__(self, ck, **kw)
        self.E.setorder = ORDERS[order]
        self.owner = {}

    def assume(self, f):
        """Only states with f are looked at."""
        st = self.lab.st
        for x in f[1] if isinstance(f, tuple) and f[0] == '&' else [f]:
            if x is not True:
                st.pc = st.pc + (x,)

    def build(self, names, pts):
        """A configuration with the given vectors."""
        C = Content('dict', [Entry('add', (), True, (Const(n),), p)
                             for n, p in zip(names, pts)])
        ref = self.E.alloc(self.lab.st, C, 'mapping')
        o = self.lab.new('Configuration', ref)
        needed(o, 'no configuration can be created')
        self.made = o
        self.lab.st = o.st
        return o.val

    def conf(self, names, tag, flag=None, pts=None):
        """A configuration, its points (pairs of numbers) by variable."""
        vs = pts or [self.vec(tag + n) for n in names]
        c = self.build(names, vs)
        if flag is not None:
            o = self.lab.run(lambda s: self.E.setattr_(
                c, 'underconstrained', BoolV(flag), s, None))
            if o.st is None or o.raised:
                raise Unsupported('the flag cannot be set')
            self.lab.st = o.st
        d = {n: (x.r, y.r) for n, (_, x, y) in zip(
            names, self.given[-len(names):] if names else ())} \
            if pts is None else None
        self.owner[c.oid] = names, d
        return c, d

    def moved(self, d, names, phi, tx, ty):
        """Vectors: the points turned and shifted."""
        c, s = phi.trig()
        out = []
        for n in names:
            x, y = d[n]
            o = self.lab.new('Vector', self.num(c * x - s * y + tx),
                             self.num(s * x + c * y + ty))
            needed(o, 'no vector can be created')
            if o.raised:
                raise Unsupported('no vector can be created')
            self.lab.st = o.st
            out.append(o.val)
        return out

    def points(self, c, names, st):
        """{variable: value} as `get` returns them."""
        out = {}
        for n in names:
            o = self.lab.call(c, 'get', Const(n), st=st)
            if o.st is None:
                return None
            out[n] = o.val
        return out

    def coords(self, pre, c, names, st):
        """[(condition, {variable: (x, y)})]"""
        pts = self.points(c, names, st)
        if pts is None:
            return None
        flat = []
        for n in names:
            flat += self.xy(pts[n], st)
        out = []
        for q, vs in self.leaves(flat, pre):
            ns = [self.E.tonum(v) for v in vs]
            if None in ns:
                raise Unsupported('coordinates')
            out.append((q, {n: (ns[2 * i].r, ns[2 * i + 1].r)
                            for i, n in enumerate(names)}))
        return out

    def names_of(self, pre, c, names, st, what):
        """The configuration has exactly these variables."""
        o = self.lab.call(c, 'vars', st=st)
        if o.st is None:
            self.ck.fail(what + ': no variables')
            return
        self.ck.iff(self.lab, And(pre, o.normal()), members(
            self.lab, o.val, o.st, P), Or(*[self.E.eq(P, Const(n))
                                            for n in names]),
            what + ': wrong variables')

    def dist2(self, p, q):
        return sq(p[0] - q[0]) + sq(p[1] - q[1])

    def kept(self, o, what):
        """The configurations that were handed in are what they were."""
        if o.st is None:
            return
        self.unchanged(o, what)
        for (c, (names, d)), obj in zip(self.owner.items(), self.objs()):
            self.names_of(o.normal(), obj, names, o.st, what +
                          ' changes a configuration it is given')
            for n, v in (self.points(obj, names, o.st) or {}).items():
                w = self.points(obj, names, self.lab.st)[n]
                if isinstance(v, ObjV) and isinstance(w, ObjV) and \
                        v.oid == w.oid:
                    self.ck.ok()
                    continue
                was = self.xy(w, self.lab.st)
                for cc, xs in self.leaves(self.xy(v, o.st) + was, o.normal()):
                    for t, r in zip(xs[:2], xs[2:]):
                        t, r = self.E.tonum(t), self.E.tonum(r)
                        if t is None or r is None:
                            self.ck.unknown('coordinates')
                            continue
                        t = t.r - r.r
                        self.ck.holds(self.lab, cc, self.zero(t),
                                      self.within(t, EPS), what +
                                      ' changes a configuration')
            for s0, s1 in ((self.lab.st, o.st),):
                a = attr(self.lab, obj, 'underconstrained', s0)
                b = attr(self.lab, obj, 'underconstrained', s1)
                self.ck.iff(self.lab, o.normal(), self.E.truth(a, s0),
                            self.E.truth(b, s1), what + ' changes the flag '
                            'of a configuration it is given')

    def objs(self):
        return [ObjV(k, self.lab.cls('Configuration')) for k in self.owner]


def off(r):
    """|r| is a distance that counts (10^-8 is the tolerance)."""
    return r


def far(g, d2, k=1):
    """Squared distance beyond the tolerance."""
    return g.pos(d2 - g.R(Fraction(k, 10**8) ** 2))


def near(g, d2, k=1):
    return g.le(d2, Fraction(k, 10**8) ** 2)


# --------------------------------------------------------------- C22

def c22(run):
    def congruent(names, order, twin=None):
        def body(ck):
            g = Conf(ck, order)
            a, d = g.conf(names, 'p')
            if twin:
                # two points that coincide
                (i, j), names2 = twin, names
                vs = [p for p, _, _ in g.given]
                vs[names.index(j)] = vs[names.index(i)]
                d = dict(d)
                d[j] = d[i]
                a, _ = g.conf(names, 'p', pts=vs)
            phi, tx, ty = [g.real(n).r for n in ('phi', 'tx', 'ty')]
            other = names[1:] + names[:1]
            b, _ = g.conf(other, 'q', pts=g.moved(d, other, phi, tx, ty))
            pre = And(*[far(g, g.dist2(d[m], d[n])) for m, n in
                        itertools.combinations(names, 2)
                        if not twin or {m, n} != set(twin)])
            g.assume(pre)
            for x, y in ((a, b), (b, a), (a, a)):
                o = g.lab.call(x, '__eq__', y)
                if not g.never(o, 'comparison', pre):
                    return
                q = And(pre, o.normal())
                ck.valid(g.lab, q, g.E.truth(o.val, o.st),
                         'a configuration and one that is turned and shifted '
                         'are not equal')
                g.kept(o, 'comparison')
        return body
    for names in ('', 'a', 'ab', 'abc'):
        for order in ORDERS if len(names) == 3 else \
                list(ORDERS)[:max(1, len(names))]:
            run.ob('C22.congruent.%d.%s' % (len(names), order.split()[0]),
                   'configurations that a rotation and a translation map onto '
                   'each other are equal (%d points, shared variables %s)' % (
                       len(names), order), 'Configuration.__eq__',
                   congruent(names, order))
    for order in ORDERS:
        run.ob('C22.twins.' + order.split()[0], 'this includes configurations '
               'in which two points coincide (shared variables %s)' % order,
               'Configuration.__eq__', congruent('abc', order, 'ab'))
    run.ob('C22.twins.2', 'this includes configurations of two points that '
           'coincide', 'Configuration.__eq__',
           congruent('ab', 'as built', 'ab'))

    def different(names, order):
        def body(ck):
            g = Conf(ck, order, tries=600)
            a, p = g.conf(names, 'p')
            b, q = g.conf(names[1:] + names[:1], 'q')
            pre = And(*[far(g, g.dist2(d[m], d[n])) for m, n in
                        itertools.combinations(names, 2) for d in (p, q)])
            g.assume(pre)
            o = g.lab.call(a, '__eq__', b)
            if not g.never(o, 'comparison', pre):
                return
            eq = g.E.truth(o.val, o.st)
            # equal ones have the same distances and the same orientation
            close = []
            for m, n in itertools.combinations(names, 2):
                u, v = g.dist2(p[m], p[n]), g.dist2(q[m], q[n])
                close.append(g.within(u - v, EPS * (1 + 100)))
            small = And(*[g.within(t, 6) for d in (p, q)
                          for xy in d.values() for t in xy])
            weak = Implies(small, And(*close))
            if len(names) == 3:
                def area(d):
                    i, j, k = [d[n] for n in names]
                    return (j[0] - i[0]) * (k[1] - i[1]) - \
                        (j[1] - i[1]) * (k[0] - i[0])
                weak = And(weak, Implies(small, g.within(
                    area(p) - area(q), EPS * 100)))
            # exactly: the coordinates within the frame of two points agree
            strong = False
            for m, n in itertools.permutations(names, 2):
                l1 = g.dist2(p[m], p[n]).sqrt()
                l2 = g.dist2(q[m], q[n]).sqrt()
                # the turn that takes one direction to the other
                d1 = [t - s for t, s in zip(p[n], p[m])]
                d2 = [t - s for t, s in zip(q[n], q[m])]
                co = dot(d1, d2) / (l1 * l2)
                si = cross(d2, d1) / (l1 * l2)
                same = []
                for k in names:
                    x, y = [t - s for t, s in zip(q[k], q[m])]
                    img = (co * x - si * y + p[m][0],
                           si * x + co * y + p[m][1])
                    same.append(Not(g.pos(g.dist2(img, p[k]).sqrt() -
                                          g.R(Fraction(1, 10**8)))))
                strong = Or(strong, And(*same))
            ck.holds(g.lab, And(pre, o.normal(), eq), strong, weak,
                     'configurations with different distances or '
                     'orientations are equal')
        return body
    for names in ('ab', 'abc'):
        run.ob('C22.different.%d' % len(names), 'configurations are equal '
               'only if their distances and orientations are (%d points)' %
               len(names), 'Configuration.__eq__', different(names,
                                                             'as built'))

    def degenerate(ck):
        g = Conf(ck, tries=600)
        v = g.vec('p')
        a, _ = g.conf('ab', 'p', pts=[v, v])
        b, q = g.conf('ab', 'q')
        apart = g.dist2(q['a'], q['b'])
        for x, y in ((a, b), (b, a)):
            o = g.lab.call(x, '__eq__', y)
            if not g.never(o, 'comparison'):
                return
            eq = g.E.truth(o.val, o.st)
            ck.holds(g.lab, And(o.normal(), far(g, apart)), Not(eq), Implies(
                far(g, apart, 10**6), Not(eq)), 'two points that coincide '
                'equal two points that do not')
    run.ob('C22.degenerate', 'two points that coincide do not equal two points '
           'that do not', 'Configuration.__eq__', degenerate)

    def names(ck):
        for one, two in (('a', 'b'), ('ab', 'a'), ('a', 'ab'), ('', 'a'),
                         ('ab', 'ac'), ('ab', 'cd'), ('a', ''),
                         ('abc', 'abd')):
            g = Conf(ck)
            a, _ = g.conf(one, 'p')
            b, _ = g.conf(two, 'q')
            o = g.lab.call(a, '__eq__', b)
            if not g.never(o, 'comparison'):
                continue
            ck.never(g.lab, o.normal(), g.E.truth(o.val, o.st),
                     'configurations of %s and of %s are equal' % (
                         list(one), list(two)))
    run.ob('C22.names', 'configurations of different variables are not equal',
           'Configuration.__eq__', names)

    def others(ck):
        g = Conf(ck)
        a, _ = g.conf('ab', 'p')
        for x, what in ((NONE, 'None'), (Const('text'), 'text'),
                        (g.num(3), 'a number'), (g.vec('w'), 'a vector'),
                        (TupleV([Const('a')]), 'a tuple')):
            o = g.lab.call(a, '__eq__', x)
            if not g.never(o, 'comparison with ' + what):
                continue
            if is_not_implemented(o.val):
                ck.ok()
                continue
            ck.never(g.lab, o.normal(), g.E.truth(o.val, o.st),
                     'a configuration equals ' + what)
    run.ob('C22.others', 'a configuration can be compared with anything, and '
           'equals configurations only', 'Configuration.__eq__', others)

    def hashes(ck):
        for order in ORDERS:
            for names in ('', 'a', 'ab', 'abc'):
                g = Conf(ck, order)
                a, _ = g.conf(names, 'p')
                ns = names[1:] + names[:1]
                b, _ = g.conf(ns, 'q')
                hs = []
                st = g.lab.st
                for x in (a, b):
                    o = g.lab.run(lambda s, x=x: g.E.b_hash([x], {}, s, None),
                                  st)
                    if not g.never(o, 'hashing'):
                        return
                    hs.append(o.val)
                    st = o.st
                ck.valid(g.lab, True, g.E.eq(*hs), 'configurations of the '
                         'same variables have different hash values')
    run.ob('C22.hash', 'equal configurations have equal hash values, in '
           'whatever order their variables are given',
           'Configuration.__hash__', hashes)


def is_not_implemented(v):
    return isinstance(v, Const) and 'NotImplemented' in repr(v.v) or \
        isinstance(v, (ExtV, Opaque)) and 'NotImplemented' in show(v)


# --------------------------------------------------------------- C23

def arbitrary(g, tag):
    """A configuration of any size with any points."""
    E = g.E
    x = Sym('x!')
    C = Content('dict', [Entry('add', (x,), E.rel(tag, x), (x,),
                               App('pt' + tag, [x]))])
    ref = E.alloc(g.lab.st, C, tag)
    o = g.lab.new('Configuration', ref)
    needed(o, 'no configuration can be created')
    ck = g.ck
    ck.never(g.lab, True, o.raises(), 'configurations cannot be created')
    g.lab.st = o.st
    return o.val, ref


def c23(run):
    def image(ck, g, o, obj, has, pt, what, pre=True):
        """obj maps every x with has(x) to pt(x), and nothing else."""
        lab, E = g.lab, g.E
        if not isinstance(obj, ObjV) or obj.cls.name != 'Configuration':
            ck.fail(what + ': the result is no configuration')
            return
        pre = And(pre, o.normal())
        v = lab.call(obj, 'vars', st=o.st)
        if v.st is None:
            ck.fail(what + ': no variables')
            return
        ck.iff(lab, pre, members(lab, v.val, v.st, P), has(P),
               what + ': wrong variables')
        r = lab.call(obj, 'get', P, st=o.st)
        if r.st is None:
            ck.fail(what + ': no points')
            return
        q = And(pre, has(P))
        ck.never(lab, q, r.raises(), what + ': a point is missing')
        ck.valid(lab, And(q, r.normal()), E.eq(r.val, pt(P)),
                 what + ': wrong point')

    def create(ck):
        g = Geo(ck)
        E, lab = g.E, g.lab
        a, ref = arbitrary(g, 'A')
        o = lab.run(lambda s: NONE)
        A = lambda x: E.rel('A', x)
        pt = lambda x: App('ptA', [x])
        image(ck, g, o, a, A, pt, 'a new configuration')
        ck.never(lab, True, E.truth(attr(lab, a, 'underconstrained', o.st),
                                    o.st), 'a new configuration is '
                 'underconstrained')
        # the mapping it was created from belongs to the caller
        s = lab.run(lambda s: E.setitem(ref, Q, Sym('other'), s, None))
        image(ck, g, s, a, A, pt, 'changing the mapping it was created from')
        r = lab.call(a, 'get', P)
        ck.iff(lab, True, r.raises('KeyError'), Not(A(P)), 'points are found '
               'exactly for the variables of a configuration')
    run.ob('C23.create', 'a configuration has exactly the points it is created '
           'from, whatever happens to that mapping later',
           'Configuration.__init__', create)

    def check_kept(ck, g, o, objs, what):
        for obj, tag in objs:
            image(ck, g, o, obj, lambda x, tag=tag: g.E.rel(tag, x),
                  lambda x, tag=tag: App('pt' + tag, [x]),
                  what + ' changes a configuration')

    def copy(ck):
        g = Geo(ck)
        E, lab = g.E, g.lab
        a, _ = arbitrary(g, 'A')
        f = atom('user', Sym('flag'))
        o = lab.run(lambda s: E.setattr_(a, 'underconstrained', BoolV(f), s,
                                         None))
        lab.st = o.st
        o = lab.call(a, 'copy')
        if not g.never(o, 'copy'):
            return
        if isinstance(o.val, ObjV) and o.val.oid == a.oid:
            ck.ok()       # configurations are immutable
        image(ck, g, o, o.val, lambda x: E.rel('A', x),
              lambda x: App('ptA', [x]), 'copy')
        ck.iff(lab, o.normal(), E.truth(attr(
            lab, o.val, 'underconstrained', o.st), o.st), f,
            'a copy does not know whether it is underconstrained')
        check_kept(ck, g, o, [(a, 'A')], 'copy')
    run.ob('C23.copy', 'a copy has the same points and the same flag',
           'Configuration.copy', copy)

    def add(ck):
        g = Geo(ck)
        E, lab = g.E, g.lab
        a, _ = arbitrary(g, 'A')
        b, _ = arbitrary(g, 'B')
        for x, y, s, t in ((a, b, 'A', 'B'), (a, a, 'A', 'A')):
            o = lab.call(x, 'add', y)
            if not g.never(o, 'add'):
                return
            image(ck, g, o, o.val, lambda v: Or(E.rel(s, v), E.rel(t, v)),
                  lambda v: ite(E.rel(s, v), App('pt' + s, [v]),
                                App('pt' + t, [v])), 'add')
            check_kept(ck, g, o, [(a, 'A'), (b, 'B')], 'add')
            if isinstance(o.val, ObjV) and o.val.oid in (a.oid, b.oid) and \
                    x is not y:
                ck.fail('add returns one of the two')
    run.ob('C23.add', 'a configuration that is extended by another one keeps '
           'its own points and takes the missing ones', 'Configuration.add',
           add)

    def add_known(ck):
        for one, two in (('', 'a'), ('a', ''), ('ab', 'cb'), ('ab', 'ba')):
            g = Conf(ck)
            a, p = g.conf(one, 'p')
            b, q = g.conf(two, 'q')
            o = g.lab.call(a, 'add', b)
            if not g.never(o, 'add'):
                return
            names = list(one) + [n for n in two if n not in one]
            g.names_of(o.normal(), o.val, names, o.st, 'add')
            for c, e in g.coords(o.normal(), o.val, names, o.st) or []:
                for n in names:
                    for t, w in zip(e[n], p[n] if n in one else q[n]):
                        ck.holds(g.lab, c, g.zero(t - w), g.within(
                            t - w, EPS), 'a wrong point')
            g.kept(o, 'add')
    run.ob('C23.add.known', 'a configuration that is extended by another one '
           'keeps its own points and takes the missing ones, which stay '
           'where they are', 'Configuration.add', add_known)

    def select(ck):
        g = Geo(ck)
        E, lab = g.E, g.lab
        a, _ = arbitrary(g, 'A')
        x = Sym('x!')
        for kind in ('list', 'set'):
            C = Content(kind, [Entry('add', (x,), E.rel('W', x), (x,),
                                     setlike=kind == 'set')],
                        distinct=kind == 'set')
            ref = E.alloc(lab.st, C, 'W')
            o = lab.call(a, 'select', ref)
            y = E.bsym('y')
            sub = Not(E.exists([y], And(E.rel('W', y), Not(E.rel('A', y)))))
            ck.never(lab, sub, o.raises(), 'selecting variables of a '
                     'configuration fails')
            ck.never(lab, o.normal(), And(E.rel('W', P), Not(E.rel('A', P))),
                     'variables that are not there can be selected')
            if o.st is None:
                continue
            image(ck, g, o, o.val, lambda v: E.rel('W', v),
                  lambda v: App('ptA', [v]), 'select', sub)
            check_kept(ck, g, o, [(a, 'A')], 'select')
    run.ob('C23.select', 'selecting takes the points of exactly the selected '
           'variables', 'Configuration.select', select)

    def transform(ck):
        for names in ('', 'a', 'abc'):
            g = Conf(ck)
            a, d = g.conf(names, 'p')
            G = Grid(g)
            m = G.symbols(3, 3, 'm')
            M = G.make(m)
            o = g.lab.call(a, 'transform', M)
            w = {n: m[2][0].r * x + m[2][1].r * y + m[2][2].r
                 for n, (x, y) in d.items()}
            pre = And(*[Or(g.pos(t), g.pos(-t)) for t in w.values()])
            if not g.never(o, 'transform', pre):
                return
            c = o.val
            if not isinstance(c, ObjV) or c.cls.name != 'Configuration':
                ck.fail('the result is no configuration')
                return
            g.names_of(And(pre, o.normal()), c, names, o.st, 'transform')
            for q, e in g.coords(And(pre, o.normal()), c, names, o.st) or []:
                for n in names:
                    x, y = d[n]
                    for i in (0, 1):
                        want = (m[i][0].r * x + m[i][1].r * y + m[i][2].r
                                ) / w[n]
                        t = e[n][i] - want
                        ck.holds(g.lab, q, g.zero(t), Implies(
                            far(g, sq(w[n]), 10**6), g.within(t, EPS)),
                            'a point is not where the transformation takes '
                            'it')
            G.same(o.normal(), M, o.st, m, 'the transformation is changed')
            g.kept(o, 'transform')
    run.ob('C23.transform', 'transforming applies the matrix to every point, '
           'in homogeneous coordinates', 'Configuration.transform', transform)


# --------------------------------------------------------------- C24, C25

PAIRS = [('', ''), ('', 'a'), ('a', ''), ('a', 'b'), ('ab', 'cd'), ('a', 'a'),
         ('a', 'ba'), ('ab', 'a'), ('ab', 'bc'), ('ab', 'ba'), ('abc', 'dba'),
         ('ab', 'bac'), ('abc', 'cab')]


def order_of(shared):
    return list(ORDERS) if len(shared) > 2 else list(ORDERS)[:len(shared)] \
        or ['as built']


def c24(run):
    def flag(one, two, order):
        def body(ck):
            g = Conf(ck, order)
            E = g.E
            f1, f2 = atom('user', Sym('flag1')), atom('user', Sym('flag2'))
            a, p = g.conf(one, 'p', f1)
            b, q = g.conf(two, 'q', f2)
            shared = [n for n in one if n in two]
            o = g.lab.call(a, 'merge', b)
            if not g.never(o, 'merge'):
                return
            for c, v in g._leaves(o.val, o.normal()):
                xs = g.E.exact_items(v, o.st)
                if xs is None or len(xs) != 2:
                    ck.fail('merge does not return a configuration and a flag')
                    return
                m, fl = xs
                got = E.truth(fl, o.st)
                own = Or(f1, f2)
                if len(shared) == 0:
                    lo = hi = True
                elif len(shared) == 1:
                    lo = hi = Or(own, len(one) > 1 and len(two) > 1)
                else:
                    prs = list(itertools.combinations(shared, 2))

                    def apart(k):
                        return [And(far(g, g.dist2(p[m], p[n]), k),
                                    far(g, g.dist2(q[m], q[n]), k))
                                for m, n in prs]
                    ap = apart(1)
                    ok = [And(*[Or(*[t for (m, n), t in zip(prs, apart(100))
                                     if v1 in (m, n)]) for v1 in shared])]
                    # hi: may be flagged; lo: has to be
                    hi = Or(own, Not(And(*ap)))
                    if len(prs) > 1:
                        by = []
                        for v1 in shared:
                            by.append(And(*[Not(t) for (m, n), t in
                                            zip(prs, ap) if v1 in (m, n)]))
                        hi = Or(own, *by)
                    lo = Or(own, And(*[Not(t) for t in ap]))
                ck.valid(g.lab, And(c, lo), got, 'a merge that is not unique '
                         'is not flagged') if len(shared) < 2 else ck.holds(
                    g.lab, And(c, lo), got, Implies(Or(own, And(*[Or(
                        g.le(g.dist2(p[m], p[n]), Fraction(8, 10**9) ** 2),
                        g.le(g.dist2(q[m], q[n]), Fraction(8, 10**9) ** 2))
                        for m, n in prs])), got),
                    'a merge that is not unique is not flagged')
                ck.valid(g.lab, And(c, Not(hi)), Not(got), 'a unique merge is '
                         'flagged') if len(shared) < 2 else ck.holds(
                    g.lab, And(c, Not(hi)), Not(got), Implies(And(
                        Not(own), *ok), Not(got)),
                    'a unique merge is flagged')
                u = attr(g.lab, m, 'underconstrained', o.st)
                ck.iff(g.lab, c, E.truth(u, o.st), got, 'the merged '
                       'configuration does not know the flag')
            g.kept(o, 'merge')
        return body
    for one, two in PAIRS:
        shared = [n for n in one if n in two]
        for order in order_of(shared):
            run.ob('C24.%s_%s.%s' % (one or '0', two or '0',
                                     order.split()[0]),
                   'merging configurations of %s and %s is underconstrained '
                   'exactly if the shared points do not determine it or one '
                   'of the two was (shared variables %s)' % (
                       list(one), list(two), order), 'Configuration.merge',
                   flag(one, two, order))


def c25(run):
    def merged(one, two, order):
        def body(ck):
            g = Conf(ck, order)
            a, p = g.conf(one, 'p')
            b, q = g.conf(two, 'q')
            shared = [n for n in one if n in two]
            names = list(one) + [n for n in two if n not in one]
            o = g.lab.call(a, 'merge', b)
            if not g.never(o, 'merge'):
                return
            for c0, v in g._leaves(o.val, o.normal()):
                xs = g.E.exact_items(v, o.st)
                if xs is None or not isinstance(xs[0], ObjV):
                    ck.fail('merge does not return a configuration')
                    return
                m = xs[0]
                g.names_of(c0, m, names, o.st, 'merge')
                own = g.points(m, one, o.st)
                was = g.points(a, one, g.lab.st)
                if own is None:
                    ck.fail('points of the configuration are missing')
                    return
                for n in one:
                    for c, x in g._leaves(own[n], c0):
                        if isinstance(x, ObjV) and isinstance(
                                was[n], ObjV) and x.oid == was[n].oid:
                            ck.ok()
                            continue
                        for cc, (i, j) in g.leaves(g.xy(x, o.st), c):
                            for t, w in zip((i, j), p[n]):
                                t = g.E.tonum(t)
                                if t is None:
                                    ck.unknown('coordinates')
                                    continue
                                ck.holds(g.lab, cc, g.zero(t.r - w), g.within(
                                    t.r - w, EPS), 'a point of the first '
                                    'configuration is moved')
                rest = [n for n in two if n not in one]
                for c, e in g.coords(c0, m, rest, o.st) or []:
                    place(ck, g, c, p, q, e, shared, rest)
            g.kept(o, 'merge')
        return body

    def place(ck, g, c, p, q, e, shared, rest):
        """The points of the second configuration, at e, are moved rigidly
        and fit the points that are shared."""
        def same(t, what, lim=EPS):
            ck.holds(g.lab, c, g.zero(t), g.within(t, lim), what)
        for m, n in itertools.combinations(rest, 2):
            same(g.dist2(e[m], e[n]) - g.dist2(q[m], q[n]),
                 'the points that are added are not moved rigidly')
        if not shared:
            return
        # one of the shared points is where it was in the first configuration
        cands = []
        for v1 in shared:
            fs = []
            for n in rest:
                fs.append(g.dist2(e[n], p[v1]) - g.dist2(q[n], q[v1]))
            cands.append(fs)
        st = [And(*[g.zero(t) for t in fs]) for fs in cands]
        wk = [And(*[g.within(t, EPS) for t in fs]) for fs in cands]
        ck.holds(g.lab, c, Or(*st), Or(*wk), 'the distance of an added point '
                 'from the shared point is not kept')
        if len(shared) < 2:
            return
        # ... and another one in the same direction, on the same side
        st, wk = [], []
        for v1, v2 in itertools.permutations(shared, 2):
            d1 = [t - s for t, s in zip(p[v2], p[v1])]
            d2 = [t - s for t, s in zip(q[v2], q[v1])]
            l1 = (sq(d1[0]) + sq(d1[1])).sqrt()
            l2 = (sq(d2[0]) + sq(d2[1])).sqrt()
            ok = And(far(g, sq(l1)), far(g, sq(l2)))
            fs, ws = [], []
            for n in rest:
                u = [t - s for t, s in zip(e[n], p[v1])]
                w = [t - s for t, s in zip(q[n], q[v1])]
                for x, y in ((dot(d1, u), dot(d2, w)),
                             (cross(d1, u), cross(d2, w))):
                    t = x * l2 - y * l1
                    fs.append(g.zero(t))
                    ws.append(g.within(t, EPS))
            st.append(And(ok, *fs))
            wk.append(And(*ws))
        lone = And(*[Not(And(far(g, g.dist2(p[m], p[n])),
                             far(g, g.dist2(q[m], q[n]))))
                     for m, n in itertools.combinations(shared, 2)])
        clear = And(*[And(far(g, g.dist2(p[m], p[n]), 100),
                          far(g, g.dist2(q[m], q[n]), 100))
                      for m, n in itertools.combinations(shared, 2)])
        if len(shared) > 2:
            for v1 in shared:
                lone = Or(lone, And(*[Not(And(
                    far(g, g.dist2(p[v1], p[n])),
                    far(g, g.dist2(q[v1], q[n])))) for n in shared
                    if n != v1]))
        ck.holds(g.lab, c, Or(lone, *st), Implies(clear, Or(*wk)),
                 'the added points are turned away from, or mirrored at, the '
                 'line of the shared points')
    for one, two in PAIRS:
        shared = [n for n in one if n in two]
        for order in order_of(shared):
            run.ob('C25.%s_%s.%s' % (one or '0', two or '0',
                                     order.split()[0]),
                   'merging configurations of %s and %s keeps the points of '
                   'the first one and moves the second one rigidly onto the '
                   'shared points (shared variables %s)' % (
                       list(one), list(two), order), 'Configuration.merge',
                   merged(one, two, order))


def dot(u, v):
    return u[0] * v[0] + u[1] * v[1]


def cross(u, v):
    return u[0] * v[1] - u[1] * v[0]


RULES = {'C22': c22, 'C23': c23, 'C24': c24, 'C25': c25}
