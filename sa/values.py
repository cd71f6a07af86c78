"""Numbers for the number-valued parts of a refuting state: the conditions on
numbers that an analysis result contains are decided by choosing values for
the numbers of the entry state."""

import math
import random
from fractions import Fraction

from .logic import *          # noqa: F401,F403
from . import logic as L

SMALL = [0, 1, -1, 2, -2, 3, Fraction(1, 2), 5, -3, Fraction(-1, 2), 7, 10]
TOL = 1e-7


class Cannot(Exception):
    pass


_terms = {}


def terms(p):
    """The terms of a polynomial with floating-point coefficients."""
    t = _terms.get(id(p))
    if t is None or t[0] is not p:
        t = _terms[id(p)] = p, [(float(k), m) for m, k in p.items()]
    return t[1]


class Valuation:
    def __init__(self, eng, pick):
        self.eng, self.pick = eng, pick
        self.vals = {}          # atom id of the algebra -> number
        self.floats = {}
        self.base = {}          # key of the value -> (value, number)

    def atom(self, i):
        if i not in self.vals:
            self.vals[i] = self._atom(i)
        return self.vals[i]

    def _atom(self, i):
        kind, key, pay = self.eng.ctx.info[i]
        if kind == 'sqrt':
            x = self.rat(pay)
            if x < 0:
                raise Cannot()
            if isinstance(x, Fraction):
                a, b = math.isqrt(x.numerator), math.isqrt(x.denominator)
                if a * a == x.numerator and b * b == x.denominator:
                    return Fraction(a, b)
            return math.sqrt(x)
        if kind == 'cos':
            return math.cos(self.rat(pay))
        if kind == 'sin':
            return math.sin(self.rat(pay))
        if key == 'pi':
            return math.pi
        if kind == 'abs':
            return abs(Fraction(self.pick()))
        if kind not in ('sym', 'val'):
            raise Cannot()
        if isinstance(pay, App) and pay.op in ('atan2', 'acos', 'asin',
                                               'atan') and all(
                isinstance(a, Num) for a in pay.args):
            try:
                return getattr(math, pay.op)(*[float(self.rat(a.r))
                                               for a in pay.args])
            except ValueError:
                raise Cannot()
        if isinstance(pay, App) and pay.op == 'round' and all(
                isinstance(a, Num) for a in pay.args):
            k = [self.rat(a.r) for a in pay.args[1:]]
            return Fraction(round(Fraction(self.rat(pay.args[0].r)),
                                  *[int(x) for x in k]))
        if isinstance(pay, Val) and has_opaque(pay):
            raise Cannot()
        v = Fraction(self.pick())
        if isinstance(pay, Val):
            self.base[pay.key()] = (pay, v)
        return v

    def poly(self, p):
        t = Fraction(0)
        for m, c in p.items():
            x = c
            for i, e in m:
                x = x * self.atom(i) ** e
            t = t + x
        return t

    def rat(self, r):
        d = self.poly(r.d)
        if d == 0 or (isinstance(d, float) and abs(d) < TOL):
            raise Cannot()
        return self.poly(r.n) / d

    def sign(self, x):
        """-1, 0, 1; no answer for what rounding may decide."""
        if isinstance(x, Fraction):
            return (x > 0) - (x < 0)
        if abs(x) < TOL:
            raise Cannot()
        return 1 if x > 0 else -1

    def quick(self, r, sg, c):
        """Is sg*r + c > 0?  None if rounding may decide."""
        out = []
        fl = self.floats
        for p in (r.n, r.d):
            t = e = 0.0
            for k, m in terms(p):
                x = k
                for i, n in m:
                    f = fl.get(i)
                    if f is None:
                        f = fl[i] = float(self.atom(i))
                    x *= f if n == 1 else f ** n
                t += x
                e += abs(x)
            out.append((t, e * 1e-12))
        (n, en), (d, ed) = out
        if abs(d) <= ed + TOL:
            return None
        x = sg * n / d + float(c)
        err = (en + abs(n / d) * ed) / abs(d) + abs(c) * 1e-12
        if abs(x) > err + TOL:
            return x > 0
        return None

    def truth(self, a):
        if a.kind == 'pos':
            _, _, sg, c, _ = a.args
            s = self.quick(a.args[0].r, sg, c)
            if s is not None:
                return s
            return self.sign(self.rat(a.args[0].r) * sg + c) > 0
        x, y = self.rat(a.args[0].r), self.rat(a.args[1].r)
        d = abs(x - y)
        t = Fraction(1, 10**8) + abs(y) / 10**5
        if not isinstance(d, Fraction) or not isinstance(t, Fraction):
            if abs(d - t) < 1e-3 * t and d > t:
                raise Cannot()
            if abs(d - t) < 1e-3 * t:
                raise Cannot()
        return d <= t


def numeric(a):
    return a.kind in ('pos', 'toleq')


def models(eng, goal, tries=60, seed=7):
    """Yields (goal with its conditions on numbers decided, description)."""
    rnd = random.Random(seed)
    pools = eng.samples or SMALL
    if not isinstance(pools[0], list):
        pools = [pools]
    ats = [a for a in atoms_of(goal).values() if numeric(a)]
    wide = getattr(eng, 'wide', None)
    for i in range(tries + (tries // 2 if wide else 0)):
        pool = pools[i % len(pools)] if i < tries else wide
        if i < 2 * len(SMALL):
            it = iter(SMALL[i // 2:] if i % 2 == 0 else
                      list(reversed(SMALL))[i // 2:])

            def pick(it=it, pool=pool):
                return next(it, None) or rnd.choice(pool)
        elif i < tries // 2 + len(SMALL) or i > tries * 5 // 4:
            def pick(pool=pool[:5]):
                return rnd.choice(pool)
        else:
            def pick(pool=pool):
                return rnd.choice(pool)
        v = Valuation(eng, pick)
        asg = {}
        open_ = False
        for a in ats:
            try:
                asg[a.key] = v.truth(a)
            except (Cannot, OverflowError, ZeroDivisionError):
                open_ = True
        g = fassign(goal, asg)
        if g is False or open_ and not isinstance(g, bool) and any(
                numeric(a) for a in atoms_of(g).values()):
            continue
        extra = []
        bs = list(v.base.values())
        for j, (t, x) in enumerate(bs):
            extra.append(Iff(atom('truth', t), x != 0))
            for u, y in bs[:j]:
                e = eng.eq(t, u)
                if e is not True:
                    extra.append(e if x == y else Not(e))
        if isinstance(g, bool) and g:
            g = And(*extra)
        else:
            g = And(g, *extra)
        if g is False:
            continue
        names = {i: (eng.ctx.info[i][1], x) for i, x in v.vals.items()
                 if eng.ctx.info[i][0] in ('sym', 'val', 'abs')}
        txt = ['%s = %s' % (show(v.eng.ctx.info[i][2]) if isinstance(
            eng.ctx.info[i][2], Val) else k, x)
            for i, (k, x) in sorted(names.items())]
        yield g, txt
