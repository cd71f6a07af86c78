"""Plane geometry: orientation, angles, tolerances, intersections, frames,
vectors and matrices.

The functions are run over an algebraic domain: coordinates are symbols, every
number the code computes is a quotient of polynomials over them (with square
roots and trigonometric functions as further symbols), every branch a sign
condition on such a number."""

from fractions import Fraction
import itertools

from ..logic import *          # noqa: F401,F403
from ..content import Content, Entry
from ..engine import needed, Unsupported
from ..num import Rat
from ..frontend import AnchorMissing

TINY = [0, 1, -1, 2, -2, 3, Fraction(1, 2), 5, -3, Fraction(-1, 2), 7, 10]
NEAR = [0, 1, -1, Fraction(1, 2 * 10**8), Fraction(-1, 2 * 10**8), 2,
        Fraction(2, 10**8), Fraction(-2, 10**8), 1 + Fraction(2, 10**8),
        1 + Fraction(1, 2 * 10**8), -2, 3, Fraction(1, 10**6),
        Fraction(1, 2), 5, 1 + Fraction(1, 10**6)]
WIDE = [0, 1, -1, 450, -450, 30, -30, 370, 1000, -1000, 180, -200, 2,
        Fraction(1, 100), Fraction(-1, 100), 90, -90, 12345, -54321]
TOUCH = [0, 2, 1, 0, 1 - Fraction(1, 10**7), 1 + Fraction(1, 10**7), -2, -1, 1]
# what is no zero next to what is taken for one
EDGE = [0, 1, 10**9, Fraction(1, 10**9), 0, -10**9, Fraction(-1, 10**9), -1, 2]
ABS = Fraction(1, 10**8)


class Geo:
    """Numbers and points that can be anything."""

    def __init__(self, ck, tries=400, samples=None):
        self.ck = ck
        self.lab = lab = ck.lab()
        self.E = lab.eng
        self.E.tries = tries
        self.E.samples = samples
        self.E.wide = WIDE
        self.given = []

    def R(self, n):
        return n if isinstance(n, Rat) else Rat.const(self.E.ctx, n) \
            if isinstance(n, (int, Fraction)) else n.r

    def num(self, r):
        return self.E.num(self.R(r))

    def real(self, n):
        return self.E.num(Rat.sym(self.E.ctx, n))

    def nonneg(self, n):
        return self.E.num(Rat.sym(self.E.ctx, n, 'abs'))

    def vec(self, n):
        x, y = self.real(n + 'x'), self.real(n + 'y')
        o = self.lab.new('Vector', x, y)
        needed(o, 'no vector can be created')
        if o.raised:
            raise Unsupported('no vector can be created')
        self.lab.st = o.st
        self.given.append((o.val, x, y))
        return o.val

    def xy(self, v, st):
        """Coordinates of a vector."""
        out = []
        for nm in 'xy':
            o = self.lab.getattr(v, nm, st)
            if o.st is None or o.raised:
                raise Unsupported('a vector without coordinates')
            out.append(o.val)
        return out

    def leaves(self, vs, c=True):
        """[(condition, numbers)] of conditional numbers."""
        out = [(c, [])]
        for v in vs:
            nxt = []
            for c0, done in out:
                for c1, x in self._leaves(v, c0):
                    nxt.append((c1, done + [x]))
            out = nxt
        return out

    def _leaves(self, v, c):
        if isinstance(v, IteV):
            return self._leaves(v.a, And(c, v.c)) + \
                self._leaves(v.b, And(c, Not(v.c)))
        if c is False or not self.E.sat(c):
            return []
        return [(c, v)]

    # ------------------------------------------------------- conditions

    def pos(self, r):
        return self.E.pos(self.R(r))

    def le(self, a, b):
        return Not(self.pos(self.R(a) - self.R(b)))

    def lt(self, a, b):
        return self.pos(self.R(b) - self.R(a))

    def within(self, r, t):
        """|r| <= t"""
        r, t = self.R(r), self.R(t)
        return And(self.le(r, t), self.le(-r, t))

    def zero(self, r):
        r = self.R(r)
        if r.is_zero():
            return True
        return self.within(r, 0)

    def tolz(self, r):
        return self.within(r, ABS)

    def tolgt(self, r):
        r = self.R(r)
        return And(self.pos(r), Not(self.tolz(r)))

    # ------------------------------------------------------- obligations

    def never(self, o, what, pre=True):
        self.ck.never(self.lab, pre, o.raises(), what + ' fails')
        return o.st is not None

    def unchanged(self, o, what):
        """The vectors that were handed in keep their coordinates."""
        if o.st is None:
            return
        for v, x, y in self.given:
            a, b = self.xy(v, o.st)
            for got, want in ((a, x), (b, y)):
                for c, g in self.leaves([got], o.normal()):
                    g, = g
                    if not isinstance(g, Num):
                        self.ck.unknown(what + ': coordinate')
                        continue
                    d = g.r - want.r
                    self.ck.holds(self.lab, c, self.zero(d), self.within(
                        d, Fraction(1, 10**9)), what +
                        ' changes a vector that is handed in')

    def equal(self, pre, got, want, what, tol=Fraction(1, 10**6),
              scale=None):
        """The (conditional) number is `want`."""
        want = self.R(want)
        t = self.R(tol)
        if scale is not None:
            t = t * scale
        for c, (g,) in self.leaves([got], pre):
            g = self.E.tonum(g) if isinstance(g, Val) and not isinstance(
                g, (ObjV, Ref, Opaque)) else None
            if g is None:
                if got_none(got):
                    self.ck.fail(what + ' is not a number')
                else:
                    self.ck.unknown(what, 'not understood')
                continue
            d = g.r - want
            self.ck.holds(self.lab, c, self.zero(d), self.within(d, t), what)

    def truth(self, o):
        """Formula: the result is true."""
        return self.E.truth(o.val, o.st)

    def func(self, name, *args, **kw):
        return self.lab.func(name, *args, **kw)

    def points(self, o):
        """[(condition, vector)] of a returned list of points."""
        out = []
        for c, C in self.lab.alts(o.val, o.st):
            if C.lost or C.kind not in ('list', 'tuple'):
                raise Unsupported('the result is no list of points')
            for e in C.log:
                if e.op != 'add' or e.B:
                    raise Unsupported('points of a loop')
                g = And(c, e.g)
                if g is False:
                    continue
                out.append((g, e.key[0]))
        return out


def got_none(v):
    if isinstance(v, IteV):
        return got_none(v.a) or got_none(v.b)
    return v is NONE or v.key() == NONE.key()


def sq(v):
    return v * v


# --------------------------------------------------------------- C26

def c26(run):
    def body(name, sign):
        def go(ck):
            g = Geo(ck, samples=NEAR)
            p1, p2, p3 = map(g.vec, ('p1', 'p2', 'p3'))
            (_, x1, y1), (_, x2, y2), (_, x3, y3) = [
                (v, x.r, y.r) for v, x, y in g.given]
            cross = (x2 - x1) * (y3 - y2) - (y2 - y1) * (x3 - x2)
            o = g.func(name, p1, p2, p3)
            if not g.never(o, name):
                return
            want = g.tolz(cross) if sign == 0 else g.tolgt(
                cross if sign > 0 else -cross)
            ck.iff(g.lab, o.normal(), g.truth(o), want,
                   {0: 'flat', 1: 'counter-clockwise', -1: 'clockwise'}[sign]
                   + ' is not decided by the sign of the turn')
            g.unchanged(o, name)
        return go
    for name, sign in (('is_clockwise', -1), ('is_counterclockwise', 1),
                       ('is_flat', 0)):
        run.ob('C26.' + name, 'the orientation of three points is the sign of '
               'the turn at the second one, within the tolerance', name,
               body(name, sign))

    def three(ck):
        g = Geo(ck, samples=NEAR)
        ps = [g.vec('p%d' % i) for i in (1, 2, 3)]
        fs = []
        for name in ('is_clockwise', 'is_counterclockwise', 'is_flat'):
            o = g.func(name, *ps)
            if o.st is None:
                return
            fs.append(g.truth(o))
        ck.valid(g.lab, True, Or(*fs), 'three points have no orientation')
        for a, b in itertools.combinations(fs, 2):
            ck.never(g.lab, True, And(a, b),
                     'three points have two orientations')
    run.ob('C26.exclusive', 'three points are clockwise, counter-clockwise or '
           'flat, and only one of these', 'is_flat', three)

    def mirror(ck):
        g = Geo(ck, samples=NEAR)
        p1, p2, p3 = [g.vec('p%d' % i) for i in (1, 2, 3)]
        a = g.truth(g.func('is_clockwise', p1, p2, p3))
        for qs in ((p3, p2, p1), (p2, p1, p3), (p1, p3, p2)):
            b = g.truth(g.func('is_counterclockwise', *qs))
            ck.iff(g.lab, True, a, b, 'exchanging two points does not reverse '
                   'the orientation')
        for qs in ((p2, p3, p1), (p3, p1, p2)):
            b = g.truth(g.func('is_clockwise', *qs))
            ck.iff(g.lab, True, a, b, 'the orientation depends on the point '
                   'that comes first')
    run.ob('C26.mirror', 'the orientation survives cyclic exchanges and is '
           'reversed by swapping two points', 'is_clockwise', mirror)


# --------------------------------------------------------------- C27

def angle_setup(ck, samples=None, tries=400):
    g = Geo(ck, tries, samples)
    ps = [g.vec('p%d' % i) for i in (1, 2, 3)]
    (x1, y1), (x2, y2), (x3, y3) = [(x.r, y.r) for _, x, y in g.given]
    a, b = x1 - x2, y1 - y2
    c, d = x3 - x2, y3 - y2
    g.l1, g.l3 = sq(a) + sq(b), sq(c) + sq(d)
    g.dot = a * c + b * d
    g.cross = a * d - b * c         # > 0: from p2p1 to p2p3 is a left turn
    g.turn = (x2 - x1) * (y3 - y2) - (y2 - y1) * (x3 - x2)
    return g, ps


def cauchy(g):
    """The cosine of an angle is between -1 and 1."""
    n = g.l1.sqrt() * g.l3.sqrt()
    return And(Not(g.pos(g.dot - n)), Not(g.pos(-g.dot - n)))


def c27(run):
    def degenerate(ck):
        g, ps = angle_setup(ck, NEAR)
        o = g.func('angle_3p', *ps)
        if not g.never(o, 'angle_3p', cauchy(g)):
            return
        none = Or(*[c for c, v in g._leaves(o.val, o.normal())
                    if v.key() == NONE.key()])
        r1, r3 = g.l1.sqrt(), g.l3.sqrt()
        strong = Iff(none, Or(g.tolz(r1), g.tolz(r3)))
        k = Fraction(8, 10**9), Fraction(12, 10**9)
        weak = And(Implies(Or(g.le(g.l1, sq(k[0])), g.le(g.l3, sq(k[0]))),
                           none),
                   Implies(And(g.lt(sq(k[1]), g.l1), g.lt(sq(k[1]), g.l3)),
                           Not(none)))
        ck.holds(g.lab, And(o.normal(), cauchy(g)), strong, weak,
                 'there is no angle exactly if two points coincide')
        g.unchanged(o, 'angle_3p')
    run.ob('C27.degenerate', 'an angle is undefined exactly if the second '
           'point coincides with another one (within the tolerance)',
           'angle_3p', degenerate)

    def value(ck):
        g, ps = angle_setup(ck)
        o = g.func('angle_3p', *ps)
        if o.st is None:
            return
        E = g.E
        n = g.l1.sqrt() * g.l3.sqrt()
        T = g.num(g.dot / n)
        A = E.funcnum('acos', (T,))
        left = g.tolgt(g.turn)
        # (the arc cosines of 1 and -1)
        ends = And(Or(g.pos(n - g.dot), g.zero(A.r)), Or(
            g.pos(n + g.dot), g.zero(A.r - Rat.sym(E.ctx, 'pi', 'len',
                                                   None))))
        for c, v in g._leaves(o.val, And(o.normal(), cauchy(g), ends,
                                         g.tolgt(g.l1.sqrt()),
                                         g.tolgt(g.l3.sqrt()))):
            if v.key() == NONE.key():
                continue
            v = E.tonum(v)
            if v is None:
                ck.unknown('the angle is not understood')
                continue
            strong = And(Implies(left, g.zero(v.r + A.r)),
                         Implies(Not(left), g.zero(v.r - A.r)))
            eps = Fraction(1, 1000)
            clear = g.lt(eps, sq(g.turn))
            weak = Implies(clear, And(
                Implies(g.pos(g.turn), g.within(v.r + A.r, eps)),
                Implies(g.pos(-g.turn), g.within(v.r - A.r, eps))))
            flat = g.le(sq(g.turn), Fraction(1, 10**20))
            weak = And(weak, Implies(flat, Or(
                g.within(v.r - A.r, eps), g.within(v.r + A.r, eps))))
            ck.holds(g.lab, c, strong, weak, 'the angle is not the one '
                     'between the directions to the other points, counted '
                     'clockwise')
    run.ob('C27.value', 'the angle is the one between the directions from the '
           'second point to the others, positive if the points are clockwise',
           'angle_3p', value)

    def guarded(ck):
        g, ps = angle_setup(ck)
        o = g.func('angle_3p', *ps)
        # rounding may lift the cosine above one, so the code has to make
        # sure: this is decided without assuming that it stays below one
        n = g.l1.sqrt() * g.l3.sqrt()
        eps = Fraction(1, 1000)
        pi = Rat.sym(g.E.ctx, 'pi', 'len', None)
        far = And(g.lt(eps, g.l1), g.lt(eps, g.l3))
        for c, v in g._leaves(o.val, And(o.normal(), far)):
            v = g.E.tonum(v) if v.key() != NONE.key() else None
            if v is None:
                continue
            for over, want in ((g.dot - n, g.R(0)), (-g.dot - n, pi)):
                c2 = And(c, g.pos(over))
                if not g.E.sat(c2):
                    continue
                # (as symbols the two numbers are independent)
                ok = [w for w in (v.r, -v.r) if (w - want).is_zero()]
                if not ok and not free(g, v.r):
                    ck.fail('a cosine that rounding lifted above one is not '
                            'taken as one', show(v))
        exits = [e for e in o.raised if e.val.name == 'ValueError']
        for e in exits:
            f = And(*e.st.pc)
            if E_sat(g, f):
                ck.fail('rounding can lead to the arc cosine of a number '
                        'above one', show_short(f))
        ck.ok()
    run.ob('C27.domain', 'the argument of the arc cosine is limited to its '
           'domain', 'angle_3p', guarded)

    def acute(name, sg):
        def body(ck):
            g, ps = angle_setup(ck)
            ang = g.func('angle_3p', *ps)
            o = g.func(name, *ps)
            if not g.never(o, name, cauchy(g)):
                return
            pre = And(o.normal(), ang.normal(), cauchy(g))
            t = g.truth(o)
            pi2 = Rat.sym(g.E.ctx, 'pi', 'len', None) / \
                Rat.const(g.E.ctx, 2)
            eps = Fraction(1, 1000)
            n = g.l1 * g.l3
            d = g.dot if sg > 0 else -g.dot
            for c, v in g._leaves(ang.val, pre):
                if v.key() == NONE.key():
                    ck.never(g.lab, c, t, 'there is no angle at all')
                    continue
                v = g.E.tonum(v)
                if v is None:
                    ck.unknown('the angle is not understood')
                    continue
                far = g.lt(eps, n)
                weak = And(
                    Implies(And(far, g.lt(n * g.R(eps), d)), t),
                    Implies(And(far, g.lt(n * g.R(eps), -d)), Not(t)),
                    Implies(And(far, g.zero(d)), Not(t)))
                strong = [(pi2 - w) if sg > 0 else (w - pi2)
                          for w in (v.r, -v.r)]
                # |angle| is v or -v, whichever is positive
                tl = Rat.const(g.E.ctx, ABS) + pi2 * Rat.const(
                    g.E.ctx, Fraction(1, 10**5))
                isneg = g.pos(-v.r)
                want = Or(And(Not(isneg), g.pos(strong[0]),
                              g.lt(tl, strong[0])),
                          And(isneg, g.pos(strong[1]),
                              g.lt(tl, strong[1])))
                ck.holds(g.lab, c, Iff(t, want), weak,
                         'the angle is not compared with a right angle')
        return body
    run.ob('C27.acute', 'acute: less than a right angle', 'is_acute',
           acute('is_acute', 1))
    run.ob('C27.obtuse', 'obtuse: more than a right angle', 'is_obtuse',
           acute('is_obtuse', -1))


# --------------------------------------------------------------- C28

def scalar(g, name, *args, **kw):
    """Outcome of a class method of Scalar."""
    cls = g.lab.cls('Scalar')
    if g.lab.prog.find_member(cls, name) is None:
        raise AnchorMissing('Scalar.' + name)

    def go(s):
        f = g.E.getattr_(ClassV(cls), name, s, None)
        return g.E.call(f, list(args), kw, s, None)
    return g.lab.run(go)


TOLPOOL = [0, 1, 2, Fraction(1, 2), 3, Fraction(1, 4), 5, Fraction(3, 2), 10,
           -1, -2, -5, Fraction(-1, 2), Fraction(1, 10)]


TINYPOOL = [0, Fraction(1, 2 * 10**8), 1, Fraction(1, 10**9),
            1 + Fraction(1, 10**6), 1 + Fraction(1, 10**9),
            Fraction(-1, 2 * 10**8), Fraction(1, 2), Fraction(2, 10**8)]


def c28(run):
    names = ('tol_eq', 'tol_gt', 'tol_lt', 'tol_ge', 'tol_le')

    def spec(g, name, a, b, rel, ab):
        m = []          # |b| by cases
        for c, mag in ((Not(g.pos(-b)), b), (g.pos(-b), -b)):
            m.append(And(c, g.within(a - b, ab + rel * mag)))
        eq = Or(*m)
        gt, lt = g.pos(a - b), g.pos(b - a)
        return {'tol_eq': eq, 'tol_gt': And(gt, Not(eq)),
                'tol_lt': And(lt, Not(eq)), 'tol_ge': Or(gt, eq),
                'tol_le': Or(lt, eq)}[name]

    def setup(ck, how):
        g = Geo(ck, tries=800, samples=NEAR if how == 'default' else [
            TOLPOOL, TINYPOOL])
        a, b = g.real('a'), g.real('b')
        kw = {}
        cls = g.lab.cls('Scalar')

        def default(nm):
            o = g.lab.run(lambda s: g.E.getattr_(ClassV(cls), nm, s, None))
            return g.E.tonum(o.val).r
        rel, ab = default('rel_tol'), default('abs_tol')
        pre = True
        if how in ('rel', 'both'):
            kw['rel_tol'] = g.nonneg('rel')
            rel = kw['rel_tol'].r
        if how in ('abs', 'both'):
            kw['abs_tol'] = g.nonneg('abs')
            ab = kw['abs_tol'].r
        return g, a, b, rel, ab, kw, pre

    def body(name, how):
        def go(ck):
            g, a, b, rel, ab, kw, pre = setup(ck, how)
            o = scalar(g, name, a, b, **kw)
            ck.never(g.lab, pre, o.raises(), name + ' fails')
            if o.st is None:
                return
            ck.iff(g.lab, And(pre, o.normal()), g.truth(o),
                   spec(g, name, a.r, b.r, rel, ab),
                   '%s with %s tolerances differs from |a - b| <= abs + '
                   'rel |b|' % (name, how))
            if how == 'both' :
                o = scalar(g, name, a, b, kw['rel_tol'], kw['abs_tol'])
                if o.st is None:
                    ck.fail(name + ' takes no tolerances by position')
                    return
                ck.iff(g.lab, And(pre, o.normal()), g.truth(o),
                       spec(g, name, a.r, b.r, rel, ab),
                       '%s with tolerances given by position' % name)
        return go
    for name in names:
        for how in ('default', 'rel', 'abs', 'both'):
            run.ob('C28.%s.%s' % (name, how), 'comparisons with tolerance: '
                   '|a - b| <= abs + rel |b|, with the tolerances that are '
                   'given', 'Scalar.' + name, body(name, how))

    def zero(ck):
        for how in ('default', 'rel', 'abs', 'both'):
            g, a, b, rel, ab, kw, pre = setup(ck, how)
            o = scalar(g, 'tol_zero', a, **kw)
            ck.never(g.lab, pre, o.raises(), 'tol_zero fails')
            if o.st is not None:
                ck.iff(g.lab, And(pre, o.normal()), g.truth(o),
                       g.within(a.r, ab), 'tol_zero with %s tolerances '
                       'differs from |a| <= abs' % how)
            if how != 'both':
                continue
            o = scalar(g, 'tol_zero', a, kw['rel_tol'], kw['abs_tol'])
            if o.st is None:
                ck.fail('tol_zero takes no tolerances by position')
                continue
            ck.iff(g.lab, And(pre, o.normal()), g.truth(o),
                   g.within(a.r, ab), 'tol_zero with tolerances given by '
                   'position')
    run.ob('C28.tol_zero', 'a number is zero within the tolerance: |a| <= '
           'abs', 'Scalar.tol_zero', zero)

    def exclusive(ck):
        for how in ('default', 'both'):
            g, a, b, rel, ab, kw, pre = setup(ck, how)
            t = {}
            for name in names:
                o = scalar(g, name, a, b, **kw)
                if o.st is None:
                    return
                t[name] = g.truth(o)
            three = [t['tol_lt'], t['tol_eq'], t['tol_gt']]
            ck.valid(g.lab, pre, Or(*three), 'two numbers are neither less, '
                     'equal nor greater')
            for x, y in itertools.combinations(three, 2):
                ck.never(g.lab, pre, And(x, y), 'two of less, equal and '
                         'greater at once')
            ck.iff(g.lab, pre, t['tol_le'], Not(t['tol_gt']),
                   'less or equal is not the opposite of greater')
            ck.iff(g.lab, pre, t['tol_ge'], Not(t['tol_lt']),
                   'greater or equal is not the opposite of less')
            o = scalar(g, 'tol_eq', a, a, **kw)
            if o.st is not None:
                ck.valid(g.lab, pre, g.truth(o), 'a number differs from '
                         'itself')
    run.ob('C28.trichotomy', 'exactly one of less, equal and greater; the '
           'others are their negations', 'Scalar.tol_eq', exclusive)

    def sign(ck):
        g = Geo(ck)
        a = g.real('a')
        o = scalar(g, 'sign', a)
        ck.never(g.lab, True, o.raises(), 'sign fails')
        if o.st is None:
            return
        g.equal(And(o.normal(), g.pos(a)), o.val, 1, 'sign of positive '
                'numbers')
        g.equal(And(o.normal(), g.pos(-a.r)), o.val, -1, 'sign of negative '
                'numbers')
        for c, (v,) in g.leaves([o.val], o.normal()):
            k = g.E.constint(v)
            ck.that(k in (1, -1), 'a sign that is neither 1 nor -1')
    run.ob('C28.sign', 'the sign of a number is 1 or -1', 'Scalar.sign', sign)

    def vectors(ck):
        for how in ('default', 'rel', 'abs', 'both'):
            g, a, b, rel, ab, kw, pre = setup(ck, how)
            v, w = g.vec('v'), g.vec('w')
            (_, x1, y1), (_, x2, y2) = g.given
            o = g.lab.call(v, 'tol_eq', w, **kw)
            ck.never(g.lab, pre, o.raises(), 'comparison of vectors fails')
            if o.st is None:
                return
            ck.iff(g.lab, And(pre, o.normal()), g.truth(o),
                   And(spec(g, 'tol_eq', x1.r, x2.r, rel, ab),
                       spec(g, 'tol_eq', y1.r, y2.r, rel, ab)),
                   'vectors with %s tolerances are not compared coordinate '
                   'by coordinate' % how)
            if how != 'both':
                continue
            o = g.lab.call(v, 'tol_eq', w, kw['rel_tol'], kw['abs_tol'])
            if o.st is None:
                ck.fail('vectors take no tolerances by position')
                continue
            ck.iff(g.lab, And(pre, o.normal()), g.truth(o),
                   And(spec(g, 'tol_eq', x1.r, x2.r, rel, ab),
                       spec(g, 'tol_eq', y1.r, y2.r, rel, ab)),
                   'vectors with tolerances given by position')
    run.ob('C28.vectors', 'vectors are equal within the tolerance if both '
           'coordinates are', 'Vector.tol_eq', vectors)


# --------------------------------------------------------------- C29, C30

EPS = Fraction(1, 10**4)


def scale_of(g, *extra):
    t = Rat.const(g.E.ctx, 1)
    for _, x, y in g.given:
        t = t + sq(x.r) + sq(y.r)
    for r in extra:
        t = t + sq(r)
    return t


class Curve:
    def __init__(self, g, p, q):
        """A line, ray (point, direction) or circle (centre, radius)."""
        self.g = g
        o = {id(v): (x.r, y.r) for v, x, y in g.given}
        self.p = o[id(p)]
        self.v = o.get(id(q))
        self.r = None if self.v else q.r

    def residual(self, x, y):
        px, py = self.p
        if self.v:
            return (x - px) * self.v[1] - (y - py) * self.v[0]
        return sq(x - px) + sq(y - py) - sq(self.r)

    def along(self, x, y):
        return (x - self.p[0]) * self.v[0] + (y - self.p[1]) * self.v[1]


ARGS = {'cc_int': ('circle', 'circle'), 'cl_int': ('circle', 'line'),
        'cr_int': ('circle', 'ray'), 'll_int': ('line', 'line'),
        'lr_int': ('line', 'ray'), 'rr_int': ('ray', 'ray')}


def intersect(ck, name, tries=600, samples=None):
    g = Geo(ck, tries, samples)
    args, curves = [], []
    for i, kind in enumerate(ARGS[name]):
        p = g.vec('p%d' % (i + 1))
        q = g.nonneg('r%d' % (i + 1)) if kind == 'circle' else \
            g.vec('v%d' % (i + 1))
        args += [p, q]
        curves.append(Curve(g, p, q))
    g.args, g.curves = args, curves
    return g


def solved(g, name):
    o = g.func(name, *g.args)
    if o.st is None:
        return o, []
    pts = []
    for c, v in g.points(o):
        c = And(o.normal(), c)
        if not isinstance(v, (ObjV, IteV)):
            raise Unsupported('a point that is no vector')
        x, y = g.xy(v, o.st)
        pts.append((c, x, y, v))
    return o, pts


def point_leaves(g, pts):
    for c, x, y, v in pts:
        for c2, (a, b) in g.leaves([x, y], c):
            a, b = g.E.tonum(a), g.E.tonum(b)
            if a is None or b is None:
                raise Unsupported('coordinates that are not understood')
            yield c2, a.r, b.r, v


def count_ge(pts, k):
    return Or(*[And(*[p[0] for p in S])
                for S in itertools.combinations(pts, k)])


def tolerated(g, name, res, k):
    """Ways in which the code is allowed to be inexact."""
    if name == 'cc_int':
        A, B = g.curves
        kk = sq(B.p[0] - A.p[0]) + sq(B.p[1] - A.p[1])
        d = kk.sqrt()
        u = ((sq(A.r) - sq(B.r)) / d + d) / g.R(2)
        a, b = sq(A.r), sq(u)
        return Or(g.within(res, g.R(ABS) + b * g.R(Fraction(1, 10**5))),
                  And(g.tolz(u), g.zero(res - d * u * g.R(2))),
                  And(g.tolz(u), g.zero(res + d * u * g.R(2))),
                  And(g.tolz((sq((B.p[0] - A.p[0]) * u / d) +
                              sq((B.p[1] - A.p[1]) * u / d)).sqrt()),
                      Or(g.zero(res - d * u * g.R(2)),
                         g.zero(res + d * u * g.R(2)))))
    if name in ('cl_int', 'cr_int'):
        A, B = g.curves
        D = B.residual(*A.p)
        d2 = sq(B.v[0]) + sq(B.v[1])
        E = sq(A.r) * d2 - sq(D)
        return And(g.tolz(E), g.zero(res + E / d2))
    return False


def c29(run):
    def lies(name):
        def body(ck):
            g = intersect(ck, name)
            o, pts = solved(g, name)
            if o.st is None:
                ck.fail('never ends')
                return
            big = scale_of(g, *[c.r for c in g.curves if c.r is not None])
            for c, x, y, v in point_leaves(g, pts):
                for i, cv in enumerate(g.curves):
                    res = cv.residual(x, y)
                    ck.holds(g.lab, c, Or(g.zero(res), tolerated(
                        g, name, res, i)), g.within(res, big * g.R(EPS)),
                        'a point that is returned is not on the %s %s' % (
                            ('first', 'second')[i], ARGS[name][i]))
            ck.ok()
        return body
    for name in ARGS:
        run.ob('C29.%s.on' % name, 'every point that is returned lies on both '
               'curves', name, lies(name))

    def distinct(name):
        def body(ck):
            g = intersect(ck, name)
            o, pts = solved(g, name)
            tiny = Fraction(1, 10**14)
            for P, Q in itertools.combinations(pts, 2):
                for c, (a, b, x, y) in g.leaves(
                        [P[1], P[2], Q[1], Q[2]], And(P[0], Q[0])):
                    if not all(isinstance(t, Num) for t in (a, b, x, y)):
                        raise Unsupported('coordinates')
                    d = sq(a.r - x.r) + sq(b.r - y.r)
                    ck.holds(g.lab, c, g.pos(d), g.lt(tiny, d),
                             'one and the same point is returned twice')
            ck.ok()
        return body
    for name in ARGS:
        run.ob('C29.%s.distinct' % name, 'the points that are returned are '
               'different', name, distinct(name))

    def circles(ck):
        g = intersect(ck, 'cc_int')
        o, pts = solved(g, 'cc_int')
        A, B = g.curves
        k = sq(B.p[0] - A.p[0]) + sq(B.p[1] - A.p[1])
        d = k.sqrt()
        u = ((sq(A.r) - sq(B.r)) / d + d) / g.R(2)
        a, b = sq(A.r), sq(u)
        H = a - b
        # the tolerated difference of the squares
        near = g.R(ABS) + b * g.R(Fraction(1, 10**5))
        far = g.tolgt(d)
        apart = g.lt(near, b - a)
        touch = And(Not(apart), g.lt(a, b))
        n1, n2 = count_ge(pts, 1), count_ge(pts, 2)
        pre = o.normal()
        clear = And(g.lt(Fraction(1, 1000), k))
        big = scale_of(g, A.r, B.r)
        m = big * g.R(EPS)
        ck.holds(g.lab, pre, Implies(Not(far), Not(n1)),
                 Implies(g.zero(k), Not(n1)), 'concentric circles intersect')
        ck.holds(g.lab, pre, Implies(And(far, apart), Not(n1)),
                 Implies(And(clear, g.lt(H, -m)), Not(n1)),
                 'circles that are apart intersect')
        ck.holds(g.lab, pre, Implies(And(far, Not(apart)), n1),
                 Implies(And(clear, Or(g.lt(m, H), g.zero(H))), n1),
                 'circles that meet do not intersect')
        # two points as long as they can be told apart
        # (a circle that is tiny compared with the distance counts as a
        # point)
        ck.holds(g.lab, pre, Implies(And(far, g.lt(near, H), g.lt(
            k * g.R(Fraction(1, 10**16)), a)), n2),
            Implies(And(clear, g.lt(m, H)), n2),
            'circles that cross do not intersect twice')
        ck.holds(g.lab, pre, Implies(And(g.zero(H), g.lt(sq(ABS), b)),
                                     Not(n2)),
                 Implies(And(clear, g.lt(Fraction(1, 1000), a), g.zero(H)),
                         Not(n2)), 'circles that touch intersect twice')
    run.ob('C29.cc_int.number', 'two circles intersect in two points if they '
           'cross, one if they touch, none if they are apart or concentric',
           'cc_int', circles)

    def circleline(ck):
        g = intersect(ck, 'cl_int')
        o, pts = solved(g, 'cl_int')
        A, B = g.curves
        D = B.residual(*A.p)
        d2 = sq(B.v[0]) + sq(B.v[1])
        E = sq(A.r) * d2 - sq(D)
        n1, n2 = count_ge(pts, 1), count_ge(pts, 2)
        pre = o.normal()
        m = scale_of(g, A.r) * g.R(EPS)
        ck.holds(g.lab, pre, Implies(g.zero(d2), Not(n1)),
                 Implies(g.zero(d2), Not(n1)),
                 'a line without direction is intersected')
        ck.holds(g.lab, pre, Implies(And(g.pos(-E), Not(g.tolz(E))),
                                     Not(n1)),
                 Implies(g.lt(E, -m), Not(n1)),
                 'a line intersects a circle that it misses')
        ck.holds(g.lab, pre, Implies(And(g.tolgt(d2), g.tolgt(E)), n2),
                 Implies(And(g.lt(EPS, d2), g.lt(m, E)), n2),
                 'a line that crosses a circle has not two points with it')
        ck.holds(g.lab, pre, Implies(And(g.pos(d2), g.tolz(E)),
                                     And(n1, Not(n2))),
                 Implies(And(g.lt(EPS, d2), g.zero(E)), And(n1, Not(n2))),
                 'a line that touches a circle has not one point with it')
    run.ob('C29.cl_int.number', 'a line intersects a circle in two points if '
           'it crosses it, in one if it touches it', 'cl_int', circleline)

    def lines(ck):
        g = intersect(ck, 'll_int', samples=NEAR)
        o, pts = solved(g, 'll_int')
        A, B = g.curves
        c = A.v[0] * B.v[1] - A.v[1] * B.v[0]
        n1, n2 = count_ge(pts, 1), count_ge(pts, 2)
        pre = o.normal()
        ck.holds(g.lab, pre, And(Iff(n1, Not(g.tolz(c))), Not(n2)),
                 And(Implies(g.within(c, Fraction(8, 10**9)), Not(n1)),
                     Implies(g.lt(Fraction(12, 10**9) ** 2, sq(c)), n1),
                     Not(n2)),
                 'lines have not one point exactly if they are not parallel')
    run.ob('C29.ll_int.number', 'two lines intersect in one point unless they '
           'are parallel (within the tolerance)', 'll_int', lines)

    def rays(name, base):
        def body(ck):
            g = intersect(ck, name, tries=1000)
            o, pts = solved(g, name)
            ob, full = solved(g, base)
            ray = [c for c, k in zip(g.curves, ARGS[name]) if k == 'ray']
            pre = And(o.normal(), ob.normal())
            m = scale_of(g, *[c.r for c in g.curves if c.r is not None]) * \
                g.R(EPS)
            for c, x, y, v in point_leaves(g, pts):
                for r in ray:
                    w = r.along(x, y)
                    ck.holds(g.lab, And(c, pre), Or(Not(g.pos(-w)),
                                                    g.tolz(w)),
                             Not(g.lt(w, -m)),
                             'a point behind the start of a ray is returned')
            got = list(point_leaves(g, pts))
            for c, x, y, v in point_leaves(g, full):
                on = And(*[Or(Not(g.pos(-r.along(x, y))),
                              g.tolz(r.along(x, y))) for r in ray])
                clear = And(*[g.lt(m, r.along(x, y)) for r in ray])
                same = Or(*[And(c2, g.zero(x2 - x), g.zero(y2 - y))
                            for c2, x2, y2, _ in got])
                close = Or(*[And(c2, g.within(x2 - x, EPS),
                                 g.within(y2 - y, EPS))
                             for c2, x2, y2, _ in got])
                ck.holds(g.lab, And(c, pre), Implies(on, same),
                         Implies(clear, close), 'a point on the ray is not '
                         'returned')
            ck.ok()
        return body
    for name, base in (('cr_int', 'cl_int'), ('lr_int', 'll_int'),
                       ('rr_int', 'll_int')):
        run.ob('C29.%s.ray' % name, 'the intersections with a ray are those '
               'of its line that do not lie behind its start', name,
               rays(name, base))


def c30(run):
    def body(name):
        def go(ck):
            g = intersect(ck, name, tries=4500, samples=[TINY, TOUCH, EDGE])
            o = g.func(name, *g.args)
            if not g.never(o, name):
                return
            for c, v in g._leaves(o.val, o.normal()):
                if v.key() == NONE.key() or isinstance(v, (Num, BoolV, ObjV)):
                    ck.fail(name + ' does not return a list', show(v))
                    return
            kinds = g.lab.kinds(o.val, o.st)
            ck.that(kinds == {'list'}, name + ' does not return a list')
            g.unchanged(o, name)
            olds = [v for v, _, _ in g.given]
            for c, v in g.points(o):
                for c2, p in g._leaves(v, And(c, o.normal())):
                    if not isinstance(p, ObjV):
                        ck.unknown('a point that is no vector')
                        continue
                    ck.that(all(p.oid != q.oid for q in olds), 'a vector '
                            'that was handed in is returned')
        return go
    for name in ARGS:
        run.ob('C30.' + name, 'intersections never fail, whatever the curves '
               'are (coinciding, without direction or extent), and change '
               'nothing', name, body(name))

    def three(name):
        def go(ck):
            g, ps = angle_setup(ck)
            o = g.func(name, *ps)
            if g.never(o, name, cauchy(g)):
                g.unchanged(o, name)
        return go
    for name in ('angle_3p', 'is_clockwise', 'is_counterclockwise', 'is_flat',
                 'is_acute', 'is_obtuse'):
        run.ob('C30.' + name, 'never fails, whatever the points are, and '
               'changes nothing', name, three(name))

    def same(name, args):
        def go(ck):
            # one and the same vector in several places
            g = Geo(ck)
            p, q = g.vec('p'), g.vec('q')
            m = {'p': p, 'q': q, 'r': g.nonneg('r')}
            for how in args:
                o = g.func(name, *[m[k] for k in how])
                if g.never(o, name):
                    g.unchanged(o, name)
        return go
    for name, args in (('cc_int', ('prpr', 'prqr')),
                       ('cl_int', ('prpq', 'prqp', 'prpp')),
                       ('ll_int', ('pppp', 'pqpq', 'pqqp', 'pppq')),
                       ('rr_int', ('pppp', 'pqpq', 'pqqp')),
                       ('angle_3p', ('ppp', 'ppq', 'pqq', 'pqp')),
                       ('make_hcs', ('pp', 'pq'))):
        run.ob('C30.%s.same' % name, 'never fails for coinciding arguments',
               name, same(name, args))

    def two(name):
        def go(ck):
            g = Geo(ck)
            p, q = g.vec('p'), g.vec('q')
            o = g.func(name, p, q)
            if g.never(o, name):
                g.unchanged(o, name)
        return go
    for name in ('distance_2p', 'make_hcs', 'make_hcs_scaled'):
        run.ob('C30.' + name, 'never fails, whatever the points are, and '
               'changes nothing', name, two(name))


# --------------------------------------------------------------- C31

class Grid:
    """Matrices and their entries."""

    def __init__(self, g, st=None):
        self.g = g

    def make(self, rows, cls='Matrix', st=None):
        g = self.g
        s = st or g.lab.st
        E = g.E

        def go(s):
            m = E.new_list(s, [E.new_list(s, r) for r in rows])
            return E.instantiate(g.lab.cls(cls), [m], {}, s, None)
        o = g.lab.run(go, s)
        needed(o, 'no matrix can be created')
        if o.raised:
            raise Unsupported('no matrix can be created')
        g.lab.st = o.st
        return o.val

    def symbols(self, n, m, name):
        return [[self.g.real('%s%d%d' % (name, i, j)) for j in range(m)]
                for i in range(n)]

    def entries(self, M, st):
        """Rows of entries of a matrix."""
        g = self.g
        o = g.lab.getattr(M, 'elements', st)
        if o.st is None:
            raise Unsupported('a matrix without elements')
        rows = g.E.exact_items(o.val, o.st)
        if rows is None:
            raise Unsupported('rows of a matrix')
        out = []
        for r in rows:
            xs = g.E.exact_items(r, o.st)
            if xs is None:
                raise Unsupported('entries of a matrix')
            out.append(xs)
        return out

    def same(self, pre, M, st, want, what, **kw):
        """The matrix has the entries `want`."""
        got = self.entries(M, st)
        if len(got) != len(want) or any(
                len(a) != len(b) for a, b in zip(got, want)):
            self.g.ck.fail(what + ': wrong shape')
            return
        for i, (a, b) in enumerate(zip(got, want)):
            for j, (x, y) in enumerate(zip(a, b)):
                self.g.equal(pre, x, y, '%s: entry %d,%d' % (what, i, j),
                             **kw)


def matrices(g, o, pre=True):
    """[(condition, object)] of results that are matrices or vectors."""
    return [(c, v) for c, v in g._leaves(o.val, And(o.normal(), pre))]


def c31(run):
    def frame(name, scale, kw=None):
        def body(ck):
            g = Geo(ck)
            a, b = g.vec('a'), g.vec('b')
            (_, ax, ay), (_, bx, by) = g.given
            ax, ay, bx, by = [t.r for t in (ax, ay, bx, by)]
            if kw == 'names':
                k = g.lab.named(g.lab.prog.find_func(name)[1], [a, b],
                                g.lab.prog.find_func('make_hcs')[1], False)
                if k is None:
                    raise Unsupported('arguments by position only')
                o = g.func(name, **k)
            else:
                k = {'scale': BoolV(scale)} if kw else {}
                o = g.func(name, a, b, **k)
            if not g.never(o, name):
                return
            n2 = sq(bx - ax) + sq(by - ay)
            n = n2.sqrt()
            got = matrices(g, o)
            none = Or(*[c for c, v in got if v.key() == NONE.key()])
            ck.holds(g.lab, o.normal(), Iff(none, g.tolz(n)), And(
                Implies(g.le(n2, Fraction(8, 10**9) ** 2), none),
                Implies(g.lt(Fraction(12, 10**9) ** 2, n2), Not(none))),
                'there is no frame exactly if the points coincide')
            one = g.R(1)
            d = one if scale else n
            ux, uy = (bx - ax) / d, (by - ay) / d
            want = [[ux, -uy, ax], [uy, ux, ay], [g.R(0), g.R(0), one]]
            G = Grid(g)
            for c, m in got:
                if m.key() == NONE.key():
                    continue
                if not isinstance(m, ObjV):
                    ck.unknown('a frame that is no matrix')
                    continue
                G.same(c, m, o.st, want, 'frame of two points')
            g.unchanged(o, name)
        return body
    for name, scale, kw, what in (
            ('make_hcs', False, False, 'default'),
            ('make_hcs', False, True, 'unscaled'),
            ('make_hcs', True, True, 'scaled'),
            ('make_hcs_scaled', True, False, 'make_hcs_scaled'),
            ('make_hcs_scaled', True, 'names', 'make_hcs_scaled.keyword')):
        run.ob('C31.frame.' + what, 'the frame of two points has its origin '
               'in the first one, its first axis towards the second one and '
               'its second axis to the left', name, frame(name, scale, kw))

    def transform(ck):
        g = Geo(ck)
        G = Grid(g)
        zero, one = g.num(0), g.num(1)

        def cs(n):
            m = G.symbols(2, 3, n)
            return m + [[zero, zero, one]]
        A, B = cs('f'), cs('t')
        a, b = G.make(A), G.make(B)
        det = A[0][0].r * A[1][1].r - A[0][1].r * A[1][0].r
        pre = Or(g.pos(det), g.pos(-det))
        o = g.func('cs_transform_matrix', a, b)
        if not g.never(o, 'cs_transform_matrix', pre):
            return
        big = scale_of(g)
        for c, m in matrices(g, o, pre):
            M = G.entries(m, o.st)
            if [len(r) for r in M] != [3, 3, 3]:
                ck.fail('the transformation is no 3x3 matrix')
                continue
            for i in range(3):
                for j in range(3):
                    for c2, r in g.leaves(M[i], c):
                        r = [g.E.tonum(x) for x in r]
                        if None in r:
                            ck.unknown('entries')
                            continue
                        t = g.R(0)
                        for k in range(3):
                            t = t + r[k].r * A[k][j].r
                        d = t - B[i][j].r
                        ck.holds(g.lab, c2, g.zero(d), Implies(
                            g.lt(EPS, sq(det)), g.within(d, EPS)),
                            'the transformation does not take one frame to '
                            'the other')
        for m, want, nm in ((a, A, 'first'), (b, B, 'second')):
            G.same(o.normal(), m, o.st, want, 'the %s frame is changed' % nm)
    run.ob('C31.transform', 'the transformation from one frame to another '
           'takes the first frame to the second one',
           'cs_transform_matrix', transform)

    def rigid(ck):
        g = Geo(ck)
        ps = [g.vec(n) for n in 'abcd']
        p = g.vec('p')
        G = Grid(g)
        E = g.E
        st = g.lab.st
        fr = []
        pre = True
        for i in (0, 2):
            o = g.func('make_hcs', ps[i], ps[i + 1], st=st)
            if o.st is None:
                return
            st = o.st
            ms = [(c, v) for c, v in g._leaves(o.val, o.normal())
                  if isinstance(v, ObjV)]
            if len(ms) != 1:
                raise Unsupported('frames')
            pre = And(pre, ms[0][0])
            fr.append(ms[0][1])
        o = g.func('cs_transform_matrix', *fr, st=st)
        if not g.never(o, 'transformation of frames', pre):
            return
        for c, m in matrices(g, o, pre):
            M = G.entries(m, o.st)
            for c2, r in g.leaves(M[0] + M[1] + M[2], c):
                r = [E.tonum(x) for x in r]
                if None in r:
                    ck.unknown('entries')
                    continue
                a, b, _, d, e, _, x, y, z = [t.r for t in r]
                for t, want, what in (
                        (sq(a) + sq(d), 1, 'lengths'),
                        (sq(b) + sq(e), 1, 'lengths'),
                        (a * b + d * e, 0, 'right angles'),
                        (a * e - b * d, 1, 'the orientation'),
                        (x, 0, 'points'), (y, 0, 'points'),
                        (z, 1, 'points')):
                    u = t - g.R(want)
                    ck.holds(g.lab, c2, g.zero(u), g.within(u, EPS),
                             'the transformation between frames does not '
                             'keep ' + what)
        ck.ok()
    run.ob('C31.rigid', 'the transformation between two unscaled frames keeps '
           'lengths, angles and orientation', 'cs_transform_matrix', rigid)

    def distance(ck):
        g = Geo(ck)
        a, b = g.vec('a'), g.vec('b')
        (_, ax, ay), (_, bx, by) = g.given
        n2 = sq(bx.r - ax.r) + sq(by.r - ay.r)
        for p, q in ((a, b), (b, a)):
            o = g.func('distance_2p', p, q)
            if not g.never(o, 'distance_2p'):
                return
            g.equal(o.normal(), o.val, n2.sqrt(), 'distance of two points')
            g.unchanged(o, 'distance_2p')
        o = g.func('distance_2p', a, a)
        if g.never(o, 'distance_2p'):
            g.equal(o.normal(), o.val, 0, 'distance of a point from itself')
    run.ob('C31.distance', 'the distance of two points is the Euclidean one',
           'distance_2p', distance)


# --------------------------------------------------------------- C32

def c32(run):
    def construct(ck):
        g = Geo(ck)
        v = g.vec('v')
        _, x, y = g.given[0]
        a, b = g.xy(v, g.lab.st)
        g.equal(True, a, x, 'first coordinate')
        g.equal(True, b, y, 'second coordinate')
        G = Grid(g)
        o = g.lab.new('Vector', v)
        ck.never(g.lab, True, o.raises(), 'copying a vector fails')
        m = G.make([[x], [y]])
        p = g.lab.new('Vector', m)
        ck.never(g.lab, True, p.raises(), 'a column cannot be made a vector')
        new = [q for q in (o, p) if q.st is not None]
        for q in new:
            a, b = g.xy(q.val, q.st)
            g.equal(q.normal(), a, x, 'first coordinate of a copy')
            g.equal(q.normal(), b, y, 'second coordinate of a copy')
            z = g.real('z')
            for nm in 'xy':
                s = g.lab.run(lambda t, nm=nm, q=q: g.E.setattr_(
                    q.val, nm, z, t, None), q.st)
                if s.st is None:
                    ck.fail('coordinates cannot be set')
                    continue
                ck.never(g.lab, True, s.raises(), 'coordinates cannot be set')
                g.unchanged(s, 'setting a coordinate of a copy')
                a, b = g.xy(q.val, s.st)
                g.equal(True, a, z if nm == 'x' else x, 'setting ' + nm)
                g.equal(True, b, z if nm == 'y' else y, 'setting ' + nm)
            if q is p:
                G.same(True, m, s.st, [[x], [y]],
                       'setting a coordinate changes the original matrix')
    run.ob('C32.construct', 'vectors keep the coordinates they are given, '
           'and are independent of what they are copied from',
           'Vector.__init__', construct)

    def wrong(ck):
        for n, m in ((1, 1), (1, 2), (2, 2), (3, 1), (2, 3)):
            g = Geo(ck)
            G = Grid(g)
            M = G.make(G.symbols(n, m, 'm'))
            o = g.lab.new('Vector', M)
            ck.never(g.lab, True, o.normal() if o.st is not None else False,
                     'a %dx%d matrix is accepted as a vector' % (n, m))
        ck.ok()
    run.ob('C32.wrong', 'only column matrices with two rows can be made '
           'vectors', 'Vector.__init__', wrong)

    OPS = {'__add__': lambda a, b: a + b, '__sub__': lambda a, b: a - b,
           '__mul__': lambda a, b: a * b, '__truediv__': lambda a, b: a / b}

    def arith(name):
        def body(ck):
            for other in ('vector', 'number'):
                g = Geo(ck)
                v = g.vec('v')
                (_, x, y) = g.given[0]
                if other == 'vector':
                    w = g.vec('w')
                    _, x2, y2 = g.given[1]
                else:
                    w = x2 = y2 = g.real('k')
                pre = True
                if name == '__truediv__':
                    pre = And(*[Or(g.pos(t.r), g.pos(-t.r))
                                for t in (x2, y2)])
                o = g.lab.call(v, name, w)
                if not g.never(o, 'arithmetic with a ' + other, pre):
                    continue
                for c, r in matrices(g, o, pre):
                    if not isinstance(r, ObjV) or r.cls.name != 'Vector':
                        ck.fail('the result is no vector')
                        continue
                    a, b = g.xy(r, o.st)
                    f = OPS[name]
                    g.equal(c, a, f(x.r, x2.r), 'first coordinate')
                    g.equal(c, b, f(y.r, y2.r), 'second coordinate')
                    ck.that(r.oid != v.oid and not (
                        isinstance(w, ObjV) and r.oid == w.oid),
                        'the result is one of the operands')
                g.unchanged(o, 'arithmetic')
        return body
    for name in OPS:
        run.ob('C32.' + name.strip('_'), 'arithmetic with vectors and numbers '
               'works coordinate by coordinate and leaves the operands alone',
               'Vector.' + name, arith(name))

    def unary(ck):
        g = Geo(ck)
        v = g.vec('v')
        _, x, y = g.given[0]
        o = g.lab.call(v, '__neg__')
        if not g.never(o, 'negation'):
            return
        for c, r in matrices(g, o):
            if not isinstance(r, ObjV):
                ck.fail('the result is no vector')
                continue
            a, b = g.xy(r, o.st)
            g.equal(c, a, -x.r, 'first coordinate')
            g.equal(c, b, -y.r, 'second coordinate')
        g.unchanged(o, 'negation')
    run.ob('C32.neg', 'the negative of a vector has the negative coordinates',
           'Vector.__neg__', unary)

    def dot(ck):
        g = Geo(ck)
        v, w = g.vec('v'), g.vec('w')
        (_, x, y), (_, x2, y2) = g.given
        o = g.lab.call(v, 'dot', w)
        if g.never(o, 'dot'):
            g.equal(o.normal(), o.val, x.r * x2.r + y.r * y2.r, 'dot product')
            g.unchanged(o, 'dot')
    run.ob('C32.dot', 'the dot product is the sum of the products of the '
           'coordinates', 'Vector.dot', dot)

    def length(ck):
        g = Geo(ck)
        v = g.vec('v')
        _, x, y = g.given[0]
        o = g.lab.getattr(v, 'length')
        if g.never(o, 'length'):
            g.equal(o.normal(), o.val, (sq(x.r) + sq(y.r)).sqrt(), 'length')
            g.unchanged(o, 'length')
    run.ob('C32.length', 'the length of a vector is the Euclidean one',
           'Vector.length', length)

    def rotate(ck):
        g = Geo(ck)
        v = g.vec('v')
        _, x, y = g.given[0]
        phi = g.real('phi')
        pi = Rat.sym(g.E.ctx, 'pi', 'len', None)
        c, s = (phi.r * pi / g.R(180)).trig()
        o = g.lab.call(v, 'rotate', phi)
        if not g.never(o, 'rotate'):
            return
        for q, r in matrices(g, o):
            if not isinstance(r, ObjV):
                ck.fail('the result is no vector')
                continue
            a, b = g.xy(r, o.st)
            g.equal(q, a, x.r * c - y.r * s, 'first coordinate')
            g.equal(q, b, x.r * s + y.r * c, 'second coordinate')
        g.unchanged(o, 'rotate')
    run.ob('C32.rotate', 'rotation by an angle in degrees is the rotation '
           'about the origin', 'Vector.rotate', rotate)

    def azimuth(ck):
        g = Geo(ck)
        v = g.vec('v')
        _, x, y = g.given[0]
        pi = Rat.sym(g.E.ctx, 'pi', 'len', None)
        o = g.lab.getattr(v, 'azimuth')
        if g.never(o, 'azimuth'):
            want = g.E.funcnum('atan2', (y, x)).r * g.R(180) / pi
            g.equal(o.normal(), o.val, want, 'azimuth')
            g.unchanged(o, 'azimuth')
    run.ob('C32.azimuth', 'the azimuth is the angle of a vector in degrees',
           'Vector.azimuth', azimuth)

    def order(ck):
        g = Geo(ck, samples=[TINY, NEAR])
        v, w = g.vec('v'), g.vec('w')
        (_, x, y), (_, x2, y2) = [(t, a.r, b.r) for t, a, b in g.given]
        specs = {
            '__eq__': lambda a, b: g.zero(a - b),
            '__lt__': lambda a, b: g.lt(a, b),
            '__gt__': lambda a, b: g.lt(b, a),
            '__le__': lambda a, b: g.le(a, b),
            '__ge__': lambda a, b: g.le(b, a)}
        for name, f in specs.items():
            o = g.lab.call(v, name, w)
            if not g.never(o, name):
                continue
            ck.iff(g.lab, o.normal(), g.truth(o), And(f(x, x2), f(y, y2)),
                   '%s does not compare both coordinates' % name)
            g.unchanged(o, name)
        for name, f in (('is_positive', lambda a: g.le(0, a)),
                        ('is_negative', lambda a: g.lt(a, 0))):
            o = g.lab.call(v, name)
            if not g.never(o, name):
                continue
            ck.iff(g.lab, o.normal(), g.truth(o), And(f(x), f(y)),
                   '%s does not check both coordinates' % name)
            g.unchanged(o, name)
    run.ob('C32.order', 'vectors are compared coordinate by coordinate',
           'Vector.__eq__', order)

    def items(ck):
        g = Geo(ck)
        v = g.vec('v')
        _, x, y = g.given[0]
        for i, want in ((0, x), (1, y), (-1, y), (-2, x)):
            o = g.lab.call(v, '__getitem__', g.num(i))
            if g.never(o, 'indexing'):
                g.equal(o.normal(), o.val, want, 'coordinate %d' % i)
                g.unchanged(o, 'indexing')
        for ks in ((None, None, None), (0, 2, None), (1, None, None),
                   (None, 1, None), (None, None, -1), (5, None, None),
                   (-1, None, None), (None, None, 2)):
            o = g.lab.call(v, '__getitem__', App('sliceobj', [
                NONE if k is None else g.num(k) for k in ks]))
            if not g.never(o, 'slicing'):
                continue
            for c, r in matrices(g, o):
                xs = g.E.exact_items(r, o.st)
                want = [x, y][slice(*ks)]
                if xs is None:
                    ck.unknown('a slice')
                elif len(xs) != len(want):
                    ck.fail('a slice has the wrong number of coordinates')
                else:
                    for a, b in zip(xs, want):
                        g.equal(c, a, b, 'coordinate of a slice')
            g.unchanged(o, 'slicing')
        for i in (2, -3):
            o = g.lab.call(v, '__getitem__', g.num(i))
            ck.never(g.lab, True, o.normal() if o.st is not None else False,
                     'there is a coordinate %d' % i)
    run.ob('C32.items', 'the coordinates of a vector can be indexed, and no '
           'other', 'Vector.__getitem__', items)

    def origin(ck):
        g = Geo(ck)
        o = g.lab.run(lambda s: g.E.call(g.E.getattr_(
            ClassV(g.lab.cls('Vector')), 'origin', s, None), [], {}, s, None))
        if not g.never(o, 'origin'):
            return
        for c, r in matrices(g, o):
            if not isinstance(r, ObjV):
                ck.fail('the origin is no vector')
                continue
            for t in g.xy(r, o.st):
                g.equal(c, t, 0, 'coordinate of the origin')
    run.ob('C32.origin', 'the origin has the coordinates zero',
           'Vector.origin', origin)

    def text(ck):
        for name in ('__str__', '__repr__'):
            g = Geo(ck)
            v = g.vec('v')
            o = g.lab.call(v, name)
            if g.never(o, name):
                g.unchanged(o, name)
        for name in ('append_row', 'append_col'):
            g = Geo(ck)
            v = g.vec('v')
            o = g.lab.call(v, name, g.E.new_list(g.lab.st, [g.num(1)]))
            ck.never(g.lab, True, o.normal() if o.st is not None else False,
                     name + ' of a vector')
            for e in o.raised:
                for (a, b), w in zip([g.xy(v, e.st)], [g.given[0]]):
                    g.equal(And(*e.st.pc), a, w[1], name)
                    g.equal(And(*e.st.pc), b, w[2], name)
    run.ob('C32.text', 'vectors can be printed, and not be extended',
           'Vector.__str__', text)


# --------------------------------------------------------------- C33

SHAPES = (1, 2, 3)


def c33(run):
    def mul(ck):
        for n, m, p in itertools.product(SHAPES, repeat=3):
            g = Geo(ck)
            G = Grid(g)
            A, B = G.symbols(n, m, 'a'), G.symbols(m, p, 'b')
            a, b = G.make(A), G.make(B)
            o = g.lab.call(a, '__mul__', b)
            if not g.never(o, 'product of matrices'):
                continue
            want = [[sum((A[i][k].r * B[k][j].r for k in range(m)), g.R(0))
                     for j in range(p)] for i in range(n)]
            for c, r in matrices(g, o):
                G.same(c, r, o.st, want, 'product')
            G.same(o.normal(), a, o.st, A, 'first factor afterwards')
            G.same(o.normal(), b, o.st, B, 'second factor afterwards')
        ck.ok()
    run.ob('C33.mul', 'the product of matrices has the products of rows and '
           'columns as entries', 'Matrix.__mul__', mul)

    def mismatch(ck):
        for n, m, q, p in itertools.product(SHAPES, repeat=4):
            if m == q:
                continue
            g = Geo(ck)
            G = Grid(g)
            a, b = G.make(G.symbols(n, m, 'a')), G.make(G.symbols(q, p, 'b'))
            o = g.lab.call(a, '__mul__', b)
            ck.never(g.lab, True, o.normal() if o.st is not None else False,
                     'a %dx%d matrix is multiplied with a %dx%d one' % (
                         n, m, q, p))
        ck.ok()
    run.ob('C33.mismatch', 'matrices whose shapes do not fit are not '
           'multiplied', 'Matrix.__mul__', mismatch)

    def column(ck):
        g = Geo(ck)
        G = Grid(g)
        A = G.symbols(2, 2, 'a')
        a = G.make(A)
        v = g.vec('v')
        _, x, y = g.given[0]
        o = g.lab.call(a, '__mul__', v)
        if not g.never(o, 'product of a matrix and a vector'):
            return
        want = [[r[0].r * x.r + r[1].r * y.r] for r in A]
        for c, r in matrices(g, o):
            G.same(c, r, o.st, want, 'product')
            w = g.lab.new('Vector', r, st=o.st)
            ck.never(g.lab, c, w.raises(), 'the product is no column')
        g.unchanged(o, 'product')
    run.ob('C33.column', 'the product of a matrix and a vector is a column',
           'Matrix.__mul__', column)

    def transpose(ck):
        for n, m in itertools.product(SHAPES, repeat=2):
            g = Geo(ck)
            G = Grid(g)
            A = G.symbols(n, m, 'a')
            a = G.make(A)
            o = g.lab.call(a, 'transpose')
            if not g.never(o, 'transpose'):
                continue
            for c, r in matrices(g, o):
                G.same(c, r, o.st, [list(t) for t in zip(*A)], 'transpose')
                ck.that(r.oid != a.oid, 'the matrix itself is transposed')
            G.same(o.normal(), a, o.st, A, 'matrix afterwards')
        g = Geo(ck)
        v = g.vec('v')
        o = g.lab.call(v, 'transpose')
        if g.never(o, 'transpose of a vector'):
            for c, r in matrices(g, o):
                Grid(g).same(c, r, o.st, [list(g.given[0][1:])], 'transpose')
            g.unchanged(o, 'transpose')
    run.ob('C33.transpose', 'the transpose has the rows as columns',
           'Matrix.transpose', transpose)

    def identity(ck):
        for n in (1, 2, 3, 4):
            g = Geo(ck)
            o = g.lab.run(lambda s: g.E.call(g.E.getattr_(
                ClassV(g.lab.cls('Matrix')), 'identity', s, None),
                [g.num(n)], {}, s, None))
            if not g.never(o, 'identity'):
                continue
            for c, r in matrices(g, o):
                Grid(g).same(c, r, o.st, [
                    [g.R(int(i == j)) for j in range(n)] for i in range(n)],
                    'identity of size %d' % n)
    run.ob('C33.identity', 'the identity has ones on the diagonal and zeros '
           'elsewhere', 'Matrix.identity', identity)

    def solve(ck):
        for n in SHAPES:
            for p in (0, 1, 2):
                # p = 0: the inverse
                g = Geo(ck)
                G = Grid(g)
                A = G.symbols(n, n, 'a')
                a = G.make(A)
                det = g.E.det([[x.r for x in r] for r in A])
                pre = Or(g.pos(det), g.pos(-det))
                if p:
                    B = G.symbols(n, p, 'b')
                    b = G.make(B)
                    o = g.lab.call(a, 'solve', b)
                else:
                    B = [[g.num(int(i == j)) for j in range(n)]
                         for i in range(n)]
                    o = g.lab.call(a, 'inverse')
                what = 'solve' if p else 'inverse'
                if not g.never(o, what, pre):
                    continue
                for c, r in matrices(g, o, pre):
                    X = G.entries(r, o.st)
                    if len(X) != n or any(len(t) != len(B[0]) for t in X):
                        ck.fail(what + ': wrong shape')
                        continue
                    for j in range(len(B[0])):
                        for c2, xs in g.leaves([t[j] for t in X], c):
                            xs = [g.E.tonum(t) for t in xs]
                            if None in xs:
                                ck.unknown('entries')
                                continue
                            for i in range(n):
                                d = -B[i][j].r
                                for k in range(n):
                                    d = d + A[i][k].r * xs[k].r
                                ck.holds(g.lab, c2, g.zero(d), Implies(
                                    g.lt(EPS, sq(det)), g.within(d, EPS)),
                                    what + ' does not solve the equations')
                G.same(And(o.normal(), pre), a, o.st, A, 'matrix afterwards')
                if p:
                    G.same(And(o.normal(), pre), b, o.st, B,
                           'right hand side afterwards')
    run.ob('C33.solve', 'solutions solve the equations, and the inverse times '
           'the matrix is the identity', 'Matrix.solve', solve)

    def nonsquare(ck):
        for n, m in ((1, 2), (2, 1), (2, 3), (3, 2)):
            g = Geo(ck)
            G = Grid(g)
            a = G.make(G.symbols(n, m, 'a'))
            o = g.lab.call(a, 'inverse')
            ck.never(g.lab, True, o.normal() if o.st is not None else False,
                     'a %dx%d matrix is inverted' % (n, m))
        ck.ok()
    run.ob('C33.square', 'only square matrices are inverted',
           'Matrix.inverse', nonsquare)

    def shape(ck):
        for n, m in itertools.product(SHAPES, repeat=2):
            g = Geo(ck)
            G = Grid(g)
            A = G.symbols(n, m, 'a')
            a = G.make(A)
            for nm, want in (('num_rows', n), ('num_cols', m),
                             ('num_elements', n * m),
                             ('num_dim', 2 if n > 1 and m > 1 else 1)):
                o = g.lab.getattr(a, nm)
                if g.never(o, nm):
                    g.equal(o.normal(), o.val, want, '%s of a %dx%d matrix' %
                            (nm, n, m))
            o = g.lab.call(a, '__repr__')
            if g.never(o, 'printing a matrix'):
                G.same(o.normal(), a, o.st, A, 'matrix afterwards')
    run.ob('C33.shape', 'matrices know their numbers of rows, columns, '
           'elements and dimensions, and can be printed', 'Matrix.num_rows',
           shape)

    def rounding(ck):
        for args, kw, digits in (((), {}, 4), ((2,), {}, 2),
                                 ((), {'precision': 3}, 3)):
            g = Geo(ck, samples=[Fraction(1, 3), Fraction(-22, 7),
                                 Fraction(12345678, 10**6)])
            G = Grid(g)
            A = G.symbols(2, 3, 'a')
            a = G.make(A)
            o = g.lab.call(a, 'round', *[g.num(x) for x in args],
                           **{k: g.num(x) for k, x in kw.items()})
            if not g.never(o, 'round'):
                continue
            got = G.entries(a, o.st)
            if [len(r) for r in got] != [3, 3]:
                ck.fail('rounding changes the shape')
                continue
            for r, old in zip(got, A):
                for x, y in zip(r, old):
                    want = g.E.tonum(g.E.b_round([y, g.num(digits)], {},
                                                 o.st, None))
                    g.equal(o.normal(), x, want, 'rounded entry',
                            tol=Fraction(1, 10**8))
    def byvalue(ck):
        from .lints import identity
        identity(ck, run.prog.find_class('Matrix').mod, run.prog)
    run.ob('C33.byvalue', 'sizes and entries are compared by value, never by '
           'object identity', 'Matrix', byvalue)
    run.ob('C33.round', 'rounding keeps every entry up to the precision',
           'Matrix.round', rounding)


def free(g, r):
    """Does the number depend on the coordinates?"""
    for i in r.atoms():
        kind, key, pay = g.E.ctx.info[i]
        if key == 'pi':
            continue
        if isinstance(pay, App) and all(isinstance(a, Num) and not free(
                g, a.r) for a in pay.args):
            continue
        return True
    return False


def E_sat(g, f):
    return g.E.sat(f)


def show_short(f):
    return fshow(f)[:300]


RULES = {'C26': c26, 'C27': c27, 'C28': c28, 'C29': c29, 'C30': c30,
         'C31': c31, 'C32': c32, 'C33': c33}
