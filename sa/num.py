"""Algebraic value domain: rational functions over symbolic atoms.

A numeric expression of the analysed source is represented by its normal form
N/D, a quotient of multivariate polynomials with exact rational coefficients.
Square roots and sines/cosines are atoms with a rewriting rule (q*q = X,
s*s = 1 - c*c).  Two expressions are identified when their difference reduces
to the zero polynomial.  Nothing is evaluated at concrete inputs."""

import math
from fractions import Fraction
import heapq
from operator import add, sub

ONE = Fraction(1)


def padd(a, b, k=ONE):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def ppow(a, n):
    r = {(): ONE}
    for _ in range(n):
        r = pmul(r, a)
    return r


class Ctx:
    """Registry of atoms with their rewriting rules."""

    def __init__(self):
        self.ids = {}
        self.info = []      # id -> (kind, payload)
        self.sq = {}        # id -> (N, D) with atom^2 = N/D
        self.sqrt_atoms = []
        self.trig = {}
        self.factors = []   # common factors
        self.squares = {}
        self.points = {}

    def atom(self, key, kind='sym', payload=None):
        if key not in self.ids:
            self.ids[key] = len(self.info)
            self.info.append((kind, key, payload))
        return self.ids[key]

    def point(self, i):
        """The value of an atom at some point in general position."""
        if i in self.points:
            return self.points[i]
        self.points[i] = None
        kind, key, pay = self.info[i]
        if kind in ('sqrt', 'cos', 'sin'):
            v = pay.probe()
            if v is None or kind == 'sqrt' and v[0] <= 4 * v[1]:
                return None
            if v[1] > 1e-7 * max(1, abs(v[0])):
                return None
            f = getattr(math, kind)(v[0])
        elif key == 'pi':
            f = math.pi
        else:
            f = 1 + (i * 0.6180339887498949) % 1
        self.points[i] = f
        return f

    def square(self, i):
        """The i-th factor, squared: (polynomial, its leading monomial)."""
        if i not in self.squares and len(self.factors[i]) > 80:
            self.squares[i] = {}, None      # (too big to be of use)
        if i not in self.squares:
            q = self.reduce(pmul(self.factors[i], self.factors[i]))
            self.squares[i] = q, max(q, default=())
        return self.squares[i]

    def reduce(self, p):
        """Eliminate powers >= 2 of every atom with a rewriting rule."""
        changed = True
        while changed:
            changed = False
            tops = set()
            for m in p:
                for x, e in m:
                    if e >= 2 and x in self.sq:
                        tops.add(x)
            if not tops:
                return p
            q = max(tops)
            N, D = self.sq[q]
            jmax = 0
            parts = []
            for m, c in p.items():
                e = dict(m).get(q, 0)
                parts.append((m, c, e // 2, e % 2))
                jmax = max(jmax, e // 2)
            r = {}
            for m, c, j, odd in parts:
                rest = tuple(t for t in m if t[0] != q)
                if odd:
                    rest = tuple(sorted(rest + ((q, 1),)))
                t = {rest: c}
                t = pmul(t, ppow(N, j))
                t = pmul(t, ppow(D, jmax - j))
                r = padd(r, t)
            p = r
            changed = True
        return p


class Rat:
    """Immutable quotient of polynomials in a context."""
    __slots__ = ('ctx', 'n', 'd', 'sg', 'pr')

    def __init__(self, ctx, n, d=None, sg=0):
        self.ctx = ctx
        # 1: never negative, -1: never positive, by the way it is computed
        self.sg = sg
        self.pr = 0
        d = d if d is not None else {(): ONE}
        if not n:
            d = {(): ONE}
        elif len(d) == 1:
            (m, c), = d.items()
            if c != 1:
                n = {k: v / c for k, v in n.items()}
                d = {m: ONE}
            if m:
                # cancel a common monomial
                com = dict(m)
                for k in n:
                    dk = dict(k)
                    for x in list(com):
                        com[x] = min(com[x], dk.get(x, 0))
                        if not com[x]:
                            del com[x]
                    if not com:
                        break
                if com:
                    def cut(k):
                        return tuple((x, e - com.get(x, 0)) for x, e in k
                                     if e - com.get(x, 0))
                    n = {cut(k): v for k, v in n.items()}
                    d = {cut(m): ONE}
        elif n == d:
            n = {(): ONE}
            d = {(): ONE}
        self.n = n
        self.d = d

    @staticmethod
    def const(ctx, c):
        c = Fraction(str(c)) if isinstance(c, float) else Fraction(c)
        return Rat(ctx, {(): c} if c else {}, None, 1 if c >= 0 else -1)

    @staticmethod
    def sym(ctx, key, kind='sym', payload=None):
        return Rat(ctx, {((ctx.atom(key, kind, payload), 1),): ONE})

    def __add__(self, o):
        sg = self.sg if self.sg == o.sg else 0
        if not sg and not (self.n and o.n):
            sg = self.sg if self.n else o.sg
        if self.d == o.d:
            return Rat(self.ctx, padd(self.n, o.n), self.d, sg)
        return Rat(self.ctx, padd(pmul(self.n, o.d), pmul(o.n, self.d)),
                   pmul(self.d, o.d), sg)

    def __neg__(self):
        return Rat(self.ctx, {m: -c for m, c in self.n.items()}, self.d,
                   -self.sg)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        n1, d1, n2, d2 = self.n, self.d, o.n, o.d
        sg = self.sg * o.sg
        if not sg and (self is o or n1 == n2 and d1 == d2):
            sg = 1
        if n1 == d2:
            n1, d2 = {(): ONE}, {(): ONE}
        if n2 == d1:
            n2, d1 = {(): ONE}, {(): ONE}
        return Rat(self.ctx, pmul(n1, n2), pmul(d1, d2), sg)

    def inv(self):
        return Rat(self.ctx, self.d, self.n, self.sg)

    def __truediv__(self, o):
        return self * o.inv()

    def is_zero(self):
        return not self.n or not self.ctx.reduce(self.n)

    def as_const(self):
        """The Fraction this is, or None."""
        if not self.n:
            return Fraction(0)
        if set(self.d) == {()} and set(self.n) == {()}:
            return self.n[()] / self.d[()]
        n, d = self.n, self.d
        if set(n) == set(d):
            ks = {n[m] / d[m] for m in n}
            if len(ks) == 1:
                return ks.pop()
        return None

    def same(self, o):
        x, y = self.probe(), o.probe()
        if x is not None and y is not None and \
                abs(x[0] - y[0]) > x[1] + y[1]:
            return False
        return (self - o).is_zero()

    def probe(self):
        """(value at some point, bound for the error), or None."""
        if self.pr == 0:
            self.pr = None
            out = []
            for p in (self.n, self.d):
                t = e = 0.0
                for m, k in p.items():
                    x = float(k)
                    for i, n in m:
                        f = self.ctx.point(i)
                        if f is None:
                            return None
                        x *= f ** n
                    t += x
                    e += abs(x)
                out.append((t, e * 1e-9))
            (n, en), (d, ed) = out
            if abs(d) > 4 * ed:
                v = n / d
                self.pr = v, 2 * (en + abs(v) * ed) / abs(d)
        return self.pr

    def ratio(self, o):
        """Rational constant c with self == c*o, or None."""
        if o.is_zero():
            return None
        a = self.ctx.reduce(pmul(self.n, o.d))
        b = self.ctx.reduce(pmul(o.n, self.d))
        # reduction scales by the same factor only if the square-root degree
        # agrees, so confirm by subtraction
        if not a or not b:
            return None
        m = max(b)
        if m not in a:
            return None
        c = a[m] / b[m]
        if (self - Rat.const(self.ctx, c) * o).is_zero():
            return c
        return None

    def atoms(self):
        return {x for p in (self.n, self.d) for m in p for x, _ in m}

    def sqrt(self):
        ctx = self.ctx
        c = self.as_const()
        if c is not None and c >= 0:
            import math
            a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if a * a == c.numerator and b * b == c.denominator:
                return Rat.const(ctx, Fraction(a, b))
        for i, x in ctx.sqrt_atoms:
            if self.same(x):
                return Rat(ctx, {((i, 1),): ONE}, None, 1)
        i = ctx.atom(('sqrt', len(ctx.sqrt_atoms)), 'sqrt', self)
        ctx.sqrt_atoms.append((i, self))
        ctx.sq[i] = (self.n, self.d)
        return Rat(ctx, {((i, 1),): ONE}, None, 1)

    def trig(self):
        """(cos, sin) of this angle."""
        ctx = self.ctx
        if self.as_const() == 0:
            return Rat.const(ctx, 1), Rat.const(ctx, 0)
        for k, (x, c, s) in ctx.trig.items():
            if self.same(x):
                return c, s
        k = len(ctx.trig)
        c = Rat.sym(ctx, ('cos', k), 'cos', self)
        s = Rat.sym(ctx, ('sin', k), 'sin', self)
        (sid,) = s.atoms()
        one = Rat.const(ctx, 1) - c * c
        ctx.sq[sid] = (one.n, one.d)
        ctx.trig[k] = (self, c, s)
        return c, s

    def subst(self, mapping):
        """Replace atoms (by id) by Rats."""
        def poly(p):
            r = Rat(self.ctx, {})
            for m, c in p.items():
                t = Rat.const(self.ctx, c)
                for x, e in m:
                    f = mapping.get(x)
                    if f is None:
                        f = Rat(self.ctx, {((x, 1),): ONE})
                    for _ in range(e):
                        t = t * f
                r = r + t
            return r
        return poly(self.n) / poly(self.d)

    def integer_valued(self):
        """True if a polynomial in one atom takes integers to integers."""
        at = self.atoms()
        if any(self.ctx.info[x][0] != 'len' or self.ctx.info[x][1] == 'pi'
               for x in at):
            return False
        if len(at) > 1 or len(self.d) != 1 or set(self.d) != {()}:
            return False
        deg = max((sum(e for _, e in m) for m in self.n), default=0)
        if deg == 0:
            c = self.as_const()
            return c is not None and c.denominator == 1
        (x,) = at
        for k in range(deg + 1):
            v = sum(c * Fraction(k) ** (dict(m).get(x, 0))
                    for m, c in self.n.items()) / self.d[()]
            if Fraction(v).denominator != 1:
                return False
        return True

    def show(self):
        def poly(p):
            if not p:
                return '0'
            out = []
            for m, c in sorted(p.items(), key=str):
                t = [] if c == 1 and m else [str(c)]
                for x, e in m:
                    kind, key, pay = self.ctx.info[x]
                    if kind == 'sqrt':
                        nm = 'sqrt(%s)' % pay.show()
                    elif kind in ('cos', 'sin'):
                        nm = '%s(%s)' % (kind, pay.show())
                    else:
                        nm = key if isinstance(key, str) else str(key)
                    t.append(nm if e == 1 else '%s^%d' % (nm, e))
                out.append('*'.join(t))
            return ' + '.join(out)
        if set(self.d) == {()} and self.d[()] == 1:
            return poly(self.n)
        return '(%s)/(%s)' % (poly(self.n), poly(self.d))


def quad_nonneg(p):
    """Is this homogeneous quadratic polynomial a sum of squares?"""
    xs = sorted({x for m in p for x, _ in m})
    if not p or len(xs) > 16 or any(sum(e for _, e in m) != 2 for m in p):
        return False
    ix = {x: i for i, x in enumerate(xs)}
    n = len(xs)
    A = [[Fraction(0)] * n for _ in range(n)]
    for m, c in p.items():
        ids = [ix[x] for x, e in m for _ in range(e)]
        i, j = ids
        A[i][j] += Fraction(c) / 2
        A[j][i] += Fraction(c) / 2
    # Gaussian elimination of a symmetric matrix
    for k in range(n):
        if A[k][k] < 0:
            return False
        if A[k][k] == 0:
            if any(A[k][j] for j in range(n)):
                return False
            continue
        for i in range(k + 1, n):
            f = A[i][k] / A[k][k]
            if f:
                for j in range(n):
                    A[i][j] -= f * A[k][j]
    return True


def _order(m, xs):
    d = dict(m)
    return (sum(d.values()),) + tuple(d.get(x, 0) for x in xs)


def perfect_square(p):
    """The polynomial (times a constant) whose square p is, or None."""
    if not p or len(p) > 400:
        return None
    xs = sorted({x for m in p for x, _ in m})
    top = max(p, key=lambda m: _order(m, xs))
    if p[top] <= 0 or any(e % 2 for _, e in top):
        return None
    lc = p[top]
    p = {m: c / lc for m, c in p.items()}
    lead = tuple((x, e // 2) for x, e in top)
    ld = dict(lead)
    q = {lead: ONE}
    low = 0
    while low < 60:
        low += 1
        r = padd(p, pmul(q, q), -ONE)
        if not r:
            return q
        t = max(r, key=lambda m: _order(m, xs))
        d = dict(t)
        nd = {x: d.get(x, 0) - ld.get(x, 0) for x in set(d) | set(ld)}
        if any(e < 0 for e in nd.values()):
            return None
        m = tuple(sorted((x, e) for x, e in nd.items() if e))
        if _order(m, xs) >= _order(lead, xs) or m in q:
            return None
        q[m] = r[t] / 2
    return None


def exact_div(p, d):
    """The polynomial p/d, or None."""
    if len(p) < len(d) or len(d) < 2:
        return None
    xs = sorted({x for m in p for x, _ in m})
    ix = {x: i + 1 for i, x in enumerate(xs)}
    n = len(xs) + 1

    def vec(m):
        v = [0] * n
        for x, e in m:
            v[ix[x]] = e
            v[0] += e
        return tuple(v)
    if any(x not in ix for m in d for x, _ in m):
        return None
    r = {vec(m): c for m, c in p.items()}
    dv = {vec(m): c for m, c in d.items()}
    top, low = max(dv), min(dv)
    a, b = max(r), min(r)
    if any(s < t for s, t in zip(a, top)) or any(
            s < t for s, t in zip(b, low)):
        return None
    lc = dv.pop(top)
    dv = list(dv.items())
    heap = [tuple(-e for e in v) for v in r]
    heapq.heapify(heap)
    q = {}
    steps = 4 * len(p) + 20
    while heap:
        t = tuple(-e for e in heapq.heappop(heap))
        c = r.pop(t, None)
        if c is None:
            continue
        steps -= 1
        m = tuple(map(sub, t, top))
        if steps < 0 or min(m) < 0:
            return None
        c = c / lc
        q[tuple((xs[i], e) for i, e in enumerate(m[1:]) if e)] = c
        for v, k in dv:
            w = tuple(map(add, m, v))
            z = r.get(w)
            if z is None:
                r[w] = -c * k
                heapq.heappush(heap, tuple(-e for e in w))
            else:
                z -= c * k
                if z:
                    r[w] = z
                else:
                    del r[w]
    return q
