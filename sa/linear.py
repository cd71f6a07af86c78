"""Linear arithmetic over the monomials of the algebraic domain: are the sign
conditions that an assignment makes consistent with each other?

Bounds on linear forms, decided by pivoting (exact rationals; strict bounds by
an infinitesimal).  An inconsistent set is reported as the bounds that clash."""

from fractions import Fraction

Z = Fraction(0)


class Clash(Exception):
    def __init__(self, why):
        self.why = why


class Tableau:
    def __init__(self):
        self.row = {}       # basic -> {nonbasic: coefficient}
        self.val = {}       # variable -> (real, infinitesimal)
        self.lo = {}        # variable -> ((real, inf), reason)
        self.hi = {}
        self.n = 0

    def var(self):
        self.n += 1
        self.val[self.n] = (Z, Z)
        return self.n

    def define(self, form):
        """A basic variable equal to a linear form over variables."""
        x = self.var()
        r = {}
        for y, k in form.items():
            if y in self.row:
                for z, c in self.row[y].items():
                    r[z] = r.get(z, Z) + k * c
            else:
                r[y] = r.get(y, Z) + k
        self.row[x] = {y: c for y, c in r.items() if c}
        self.val[x] = self.eval(self.row[x])
        return x

    def eval(self, r):
        a = b = Z
        for y, c in r.items():
            p, q = self.val[y]
            a += c * p
            b += c * q
        return (a, b)

    def lower(self, x, v, why):
        if x in self.lo and self.lo[x][0] >= v:
            return
        if x in self.hi and self.hi[x][0] < v:
            raise Clash([why, self.hi[x][1]])
        self.lo[x] = (v, why)
        if x not in self.row and self.val[x] < v:
            self.update(x, v)

    def upper(self, x, v, why):
        if x in self.hi and self.hi[x][0] <= v:
            return
        if x in self.lo and self.lo[x][0] > v:
            raise Clash([why, self.lo[x][1]])
        self.hi[x] = (v, why)
        if x not in self.row and self.val[x] > v:
            self.update(x, v)

    def update(self, x, v):
        d = (v[0] - self.val[x][0], v[1] - self.val[x][1])
        self.val[x] = v
        for b, r in self.row.items():
            c = r.get(x)
            if c:
                p, q = self.val[b]
                self.val[b] = (p + c * d[0], q + c * d[1])

    def pivot(self, x, y, v):
        """Basic x becomes nonbasic with value v, nonbasic y basic."""
        r = self.row.pop(x)
        a = r.pop(y)
        ny = {z: -c / a for z, c in r.items()}
        ny[x] = 1 / a
        d = ((v[0] - self.val[x][0]) / a, (v[1] - self.val[x][1]) / a)
        self.val[x] = v
        self.val[y] = (self.val[y][0] + d[0], self.val[y][1] + d[1])
        for b, q in self.row.items():
            c = q.pop(y, None)
            if c:
                p = self.val[b]
                self.val[b] = (p[0] + c * d[0], p[1] + c * d[1])
                for z, k in ny.items():
                    t = q.get(z, Z) + c * k
                    if t:
                        q[z] = t
                    else:
                        q.pop(z, None)
        self.row[y] = ny

    def check(self, steps=400):
        for _ in range(steps):
            bad = None
            for x in sorted(self.row):
                v = self.val[x]
                if x in self.lo and v < self.lo[x][0]:
                    bad = (x, 1)
                    break
                if x in self.hi and v > self.hi[x][0]:
                    bad = (x, -1)
                    break
            if bad is None:
                return True
            x, sg = bad
            r = self.row[x]
            for y in sorted(r):
                up = (r[y] > 0) == (sg > 0)     # y has to grow
                if up and not (y in self.hi and
                               self.val[y] >= self.hi[y][0]):
                    break
                if not up and not (y in self.lo and
                                   self.val[y] <= self.lo[y][0]):
                    break
            else:
                why = [(self.lo if sg > 0 else self.hi)[x][1]]
                for y in r:
                    up = (r[y] > 0) == (sg > 0)
                    why.append((self.hi if up else self.lo)[y][1])
                raise Clash(why)
            self.pivot(x, y, (self.lo if sg > 0 else self.hi)[x][0])
        return True         # (gave up: taken as consistent)


def clash(literals, nonneg_atom):
    """literals: [(atom, value, reason)] of sign conditions.  The reasons of
    an inconsistent part, or None."""
    T = Tableau()
    mono = {}
    forms = {}
    signs = {}          # number -> {sign: reason}
    for a, val, why in literals:
        num, q, sg, c, nn = a.args
        if len(num.r.n) == 1:
            (m, k), = num.r.n.items()
            if len(m) == 1 and m[0][1] == 1:
                s = sg if k > 0 else -sg
                # s * x + c > 0, or <= 0
                if val and c <= 0:
                    signs.setdefault(m[0][0], {})[s] = why
                elif not val and c >= 0:
                    signs.setdefault(m[0][0], {})[-s] = why
    try:
        for a, val, why in literals:
            num, q, sg, c, nn = a.args
            if q not in forms:
                f = {}
                for m, k in num.r.n.items():
                    if m not in mono:
                        mono[m] = x = T.var()
                        if all(e % 2 == 0 or nonneg_atom(num.r.ctx, i)
                               for i, e in m):
                            T.lower(x, (Z, Z), None)
                            for i, e in m:
                                w = signs.get(i, {}).get(-1)
                                if w is not None and nonneg_atom(
                                        num.r.ctx, i):
                                    T.upper(x, (Z, Z), [w])
                        elif len(m) > 1:
                            sign_of(T, x, m, signs, num.r.ctx, nonneg_atom)
                    f[mono[m]] = Fraction(k)
                forms[q] = T.define(f)
                if nn:
                    T.lower(forms[q], (Z, Z), None)
            x = forms[q]
            b = -c if sg > 0 else c
            # sg * q + c > 0, or <= 0
            if (sg > 0) == val:
                T.lower(x, (b, Fraction(1) if val else Z), why)
            else:
                T.upper(x, (b, Fraction(-1) if val else Z), why)
        ctx = literals[0][0].args[0].r.ctx
        for i in range(len(ctx.factors)):
            f, lead = ctx.square(i)
            if lead in mono and all(m in mono or m == () for m in f):
                x = T.define({mono[m]: Fraction(k) for m, k in f.items()
                              if m != ()})
                z = (-Fraction(f.get((), 0)), Z)
                T.lower(x, z, None)
                why = vanishes(T, ctx.factors[i], literals, forms)
                if why is not None:
                    T.upper(x, z, why)
        T.check()
    except Clash as e:
        out = []
        todo = list(e.why)
        while todo:
            w = todo.pop()
            if isinstance(w, list):
                todo += w
            elif w is not None:
                out.append(w)
        return sorted(set(out))
    return None


def vanishes(T, f, literals, forms):
    """Why a number has to be zero, or None."""
    m = max(f)
    for a, val, why in literals:
        num, q, sg, c, nn = a.args
        p = num.r.n
        if c or val or len(p) != len(f) or m not in p:
            continue
        k = p[m] / f[m]
        if all(p.get(n) == k * x for n, x in f.items()):
            x = forms[q]
            if x in T.lo and x in T.hi and T.lo[x][0] == T.hi[x][0] == (Z, Z):
                return [w for w in (T.lo[x][1], T.hi[x][1]) if w is not None]
    return None


def sign_of(T, x, m, signs, ctx, nonneg_atom):
    """The sign of a product follows from the signs of its factors."""
    poss = [(1, [])]
    for i, e in m:
        if e % 2 == 0 or nonneg_atom(ctx, i):
            continue
        poss = [(s * t, why + [w]) for s, why in poss
                for t, w in signs.get(i, {}).items()]
    for s, why in poss:
        if s > 0:
            T.lower(x, (Z, Z), why)
        else:
            T.upper(x, (Z, Z), why)
