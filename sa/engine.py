"""Abstract interpreter over the syntax tree.

Functions are lowered to gated single-assignment form: every branch is joined
at its merge point (values become `a if c else b`, container updates become
guarded entries), loops over collections are summarised by quantifying the
effects of one generic iteration over the elements of the collection.  Calls to
functions of the analysed package are inlined; everything else is either
modelled (builtins, math) or uninterpreted.  There are no concrete inputs."""

import ast
import string
import bisect
import itertools
import math
from fractions import Fraction

from .logic import *          # noqa: F401,F403
from .logic import _nary
from . import logic as L
from .num import (Ctx, Rat, ONE, pmul, padd, quad_nonneg, perfect_square,
                  exact_div)
from .content import Content, Entry, Forward, merge_contents, NESTED
from .frontend import Program, AnchorMissing, Cls, Module

NUMBERS = itertools.count()


def _first(t):
    return t[0]



class Unsupported(Exception):
    """The analysed code uses something outside of the abstraction."""

    def __init__(self, why, node=None):
        Exception.__init__(self, why)
        self.why = why
        self.node = node


class Broken(Exception):
    """What every use of the analysed code begins with always fails."""

    def __init__(self, what, outcome=None):
        Exception.__init__(self, what)
        self.what = what
        self.why = ', '.join(sorted({getattr(e.val, 'name', '?')
                                     for e in outcome.raised}))


def needed(o, what):
    """The outcome has to have a normal end."""
    if o.st is None and o.raised:
        raise Broken(what, o)
    if o.st is None:
        raise Unsupported(what)


class Dead(Exception):
    """No execution reaches this point."""


UNBOUND = Const('<unbound>')
RAISES = object()


class State:
    __slots__ = ('env', 'stack', 'heap', 'fields', 'pc')

    def __init__(self, env, stack=(), heap=None, fields=None, pc=()):
        self.env = env
        self.stack = stack
        self.heap = {} if heap is None else heap
        self.fields = {} if fields is None else fields
        self.pc = pc

    def fork(self, *fs):
        pc = self.pc
        for f in fs:
            if f is not True:
                pc = pc + (f,)
        return State(dict(self.env), self.stack, dict(self.heap),
                     dict(self.fields), pc)

    def become(self, o):
        self.env, self.stack = o.env, o.stack
        self.heap, self.fields, self.pc = o.heap, o.fields, o.pc


class Exit:
    __slots__ = ('kind', 'val', 'st', 'node', 'implicit')

    def __init__(self, kind, val, st, node, implicit=False):
        self.kind, self.val, self.st = kind, val, st
        self.node, self.implicit = node, implicit


class Flow:
    __slots__ = ('next', 'exits')

    def __init__(self, nxt, exits=()):
        self.next = nxt
        self.exits = list(exits)


class Engine:
    def __init__(self, prog=None):
        self.prog = prog or Program()
        self.ctx = Ctx()
        self.vocab = {}
        self.nums = []          # by fingerprint
        self.numsodd = []       # without a finite one
        self.numexact = {}
        self.qreg = {}
        self.qinfo = []
        self.serial = {}
        self.termax = {}
        self.tries = 60
        self.samples = None
        self.nncache = {}
        self.frozen_fields = {}
        self.frozen_heap = {}
        self.keeps = {}
        self.raise_stack = [[]]
        self.schemas = {}
        self.facts = []
        self.exreg = []
        self.reads = None
        self.summaries = {}
        self.whiles = []
        self.depth = 0
        self.callstack = []
        self.aliases = []
        self.satcache = {}
        self.instcache = {}
        self.globals = {}
        self.visited = set()
        self.sites = 0
        self.fid = 0
        self.notes = []
        self.safety = []
        self.toleq_sum = True
        self.attr_num = set()
        self.sealed = {}        # objects known by contract only: oid -> also
        #                         closed for writing
        self.arith_num = False
        self.dropped = None     # expression whose value nobody takes
        self.strict = set()     # arguments consumed at once and in full

    # ----------------------------------------------------------- utilities

    def fresh(self, base):
        n = self.serial.get(base, 0)
        self.serial[base] = n + 1
        return '%s#%d' % (base, n)

    def sym(self, name, kind='any'):
        return Sym(name, kind)

    def bsym(self, hint='b'):
        return Sym(self.fresh(hint), 'any')

    # ------------------------------------------------------------- numbers

    def num(self, r):
        if isinstance(r, (int, float)) or not isinstance(r, Rat):
            r = Rat.const(self.ctx, r)
        r = self.cleanup(r)
        ek = (frozenset(r.n.items()), frozenset(r.d.items()))
        hit = self.numexact.get(ek)
        if hit is not None:
            return hit
        f = self.fingerprint(r)
        if f is None or not math.isfinite(f):
            cand = [x for _, x in self.nums] + self.numsodd
        else:
            w = 2e-6 * (1 + abs(f))
            i = bisect.bisect_left(self.nums, f - w, key=_first)
            j = bisect.bisect_right(self.nums, f + w, key=_first)
            cand = [x for _, x in self.nums[i:j]] + self.numsodd
        for x in cand:
            if x.r.same(r):
                self.numexact[ek] = x
                return x
        # (atoms are shared by all engines, so the index has to be unique)
        x = Num(r, next(NUMBERS))
        if f is None or not math.isfinite(f):
            self.numsodd.append(x)
        else:
            bisect.insort(self.nums, (f, x), key=_first)
        self.numexact[ek] = x
        return x

    def cleanup(self, r):
        if r.n and not self.ctx.reduce(r.n):
            return Rat(self.ctx, {})
        c = r.as_const()
        if c is not None:
            return Rat.const(self.ctx, c)
        return r

    def atomval(self, x, memo):
        """A fixed pseudo-random value of an algebraic atom: only used to
        avoid comparing normal forms that are obviously different."""
        if x in memo:
            return memo[x]
        kind, key, pay = self.ctx.info[x]
        if kind == 'sqrt':
            v = self.evalrat(pay, memo)
            v = None if v is None else abs(v) ** 0.5
        elif kind in ('cos', 'sin'):
            import math
            a = self.evalrat(pay, memo)
            v = None if a is None else getattr(math, kind)(a)
        else:
            import zlib
            v = 1.3 + (zlib.crc32(repr(key).encode()) % 99991) / 99991.0
        memo[x] = v
        return v

    def evalrat(self, r, memo):
        def ev(p):
            t = 0.0
            for m, c in p.items():
                u = float(c)
                for x, e in m:
                    a = self.atomval(x, memo)
                    if a is None:
                        return None
                    u *= a ** e
                t += u
            return t
        n, d = ev(r.n), ev(r.d)
        if n is None or not d:
            return None
        return n / d

    def fingerprint(self, r):
        try:
            return self.evalrat(r, {})
        except (OverflowError, ZeroDivisionError):
            return None

    def numsym(self, name):
        return self.num(Rat.sym(self.ctx, name))

    def tonum(self, v):
        """View a value as a number (Num), or None."""
        if isinstance(v, Num):
            return v
        if isinstance(v, BoolV):
            if v.f is True:
                return self.num(1)
            if v.f is False:
                return self.num(0)
            return None
        if isinstance(v, (Sym, App, Opaque)):
            return self.num(Rat.sym(self.ctx, ('v', v.key()), 'val', v))
        if isinstance(v, LenV):
            return v.num
        return None

    def num_subst(self, v, sub):
        mp = {}
        for x in v.r.atoms():
            nv = self._num_atom_subst(x, sub)
            if nv is not None:
                mp[x] = nv
        if not mp:
            return v
        return self._num_apply(v.r, mp)

    def _num_atom_subst(self, x, sub):
        kind, key, pay = self.ctx.info[x]
        if pay is None:
            return sub.m.get(('num', key))
        if kind in ('sqrt', 'cos', 'sin'):
            inner = self.num_subst(self.num(pay), sub)
            if isinstance(inner, Num) and inner.r.same(pay):
                return None
            if kind == 'sqrt':
                return self.lift1(lambda n: self.num(n.r.sqrt()), inner)
            i = 0 if kind == 'cos' else 1
            return self.lift1(lambda n: self.num(n.r.trig()[i]), inner)
        if isinstance(pay, Val):
            nv = sub.v(pay)
            if nv.key() == pay.key():
                return None
            return nv
        return None

    def lift1(self, fn, v):
        if isinstance(v, IteV):
            return ite(v.c, self.lift1(fn, v.a), self.lift1(fn, v.b))
        n = self.tonum(v)
        if n is None:
            return Opaque('num', (v,))
        return fn(n)

    def _num_apply(self, r, mp):
        for x, nv in mp.items():
            if isinstance(nv, IteV):
                a, b = dict(mp), dict(mp)
                a[x], b[x] = nv.a, nv.b
                return ite(nv.c, self._num_apply(r, a),
                           self._num_apply(r, b))
        m2 = {}
        for x, nv in mp.items():
            n = self.tonum(nv)
            if n is None:
                return Opaque('num', (nv,))
            m2[x] = n.r
        return self.num(r.subst(m2))

    def arith(self, op, a, b, st=None):
        """+ - * / on numbers, distributing over conditionals."""
        if isinstance(a, IteV):
            c = self.pcdecide(a.c, st)
            if c is True:
                return self.arith(op, a.a, b, st)
            if c is False:
                return self.arith(op, a.b, b, st)
            return ite(a.c, self.arith(op, a.a, b, st),
                       self.arith(op, a.b, b, st))
        if isinstance(b, IteV):
            c = self.pcdecide(b.c, st)
            if c is True:
                return self.arith(op, a, b.a, st)
            if c is False:
                return self.arith(op, a, b.b, st)
            return ite(b.c, self.arith(op, a, b.a, st),
                       self.arith(op, a, b.b, st))
        if isinstance(a, PosV) and op in '+-':
            c = self.constint(b)
            if c is not None:
                return PosV(a.e, a.content, a.off + (c if op == '+' else -c))
        if isinstance(a, LenV) and op in '+-':
            c = self.constint(b)
            if c is not None:
                c = c if op == '+' else -c
                return LenV(a.content, self.num(
                    a.num.r + Rat.const(self.ctx, c)), a.off + c)
        x, y = self.tonum(a), self.tonum(b)
        if x is None or y is None:
            return None
        if op == '+':
            return self.num(x.r + y.r)
        if op == '-':
            return self.num(x.r - y.r)
        if op == '*':
            return self.num(x.r * y.r)
        if op == '/':
            if y.r.is_zero():
                return None
            return self.num(x.r / y.r)
        return None

    def constint(self, v):
        if isinstance(v, Num):
            c = v.r.as_const()
            if c is not None and c.denominator == 1:
                return int(c)
        if isinstance(v, BoolV) and isinstance(v.f, bool):
            return int(v.f)
        return None

    def pos(self, r):
        """Formula r > 0."""
        if isinstance(r, Num):
            r = r.r
        if r.sg < 0:
            return False
        p, d = r.n, r.d
        if not (len(d) == 1 and set(d) == {()}):
            if self.manifest_nonneg(d):
                pass
            else:
                p = pmul(p, d)
        p = self.ctx.reduce(p)
        c = p.get((), 0)
        p0 = {m: k for m, k in p.items() if m != ()}
        if not p0:
            return c > 0
        if len(p0) == 1:
            # a square root compared with a number
            (m, k), = p0.items()
            if len(m) == 1 and m[0][1] == 1 and \
                    self.ctx.info[m[0][0]][0] == 'sqrt':
                b = Fraction(c) / abs(k)
                r2 = Rat(self.ctx, *self.ctx.sq[m[0][0]])
                bb = Rat.const(self.ctx, b * b)
                # (related conditions on quotients do not look alike)
                some = True if not b or set(r2.d) == {()} else self.pos(r2)
                if k > 0:
                    # root > -b
                    return True if b > 0 else And(some, self.pos(r2 - bb))
                return False if b <= 0 else Or(
                    self.pos(bb - r2), some is not True and Not(some))
            if c == 0 and k > 0 and (len(m) > 1 or m[0][1] > 1) and \
                    all(self.nonneg_atom(x) for x, _ in m):
                return And(*[self.pos(Rat(self.ctx, {((x, 1),): Fraction(1)}))
                             for x, _ in m])
        if len(p) == 2:
            # a square root compared with another number
            for m, k in p.items():
                if len(m) == 1 and m[0][1] == 1 and \
                        self.ctx.info[m[0][0]][0] == 'sqrt':
                    rest = {n: x for n, x in p.items() if n != m}
                    (n, x), = rest.items()
                    if (x > 0) == (k > 0) or not self.manifest_nonneg(
                            {n: abs(x)}):
                        continue
                    d = Rat(self.ctx, {n: x / k}, None)
                    d = Rat(self.ctx, *self.ctx.sq[m[0][0]]) - d * d
                    return self.pos(d if k > 0 else -d)
        if len(p) > 1:
            for f in self.ctx.factors:
                t = exact_div(p, f)
                nn = self.manifest_nonneg(f)
                if t is not None and not nn:
                    t = exact_div(t, f)
                    if t is not None:
                        # f * f > 0 unless f is zero
                        r = Rat(self.ctx, f)
                        return And(Or(self.pos(r), self.pos(-r)),
                                   self.pos(Rat(self.ctx, t)))
                if t is not None:
                    # f >= 0
                    one = Rat(self.ctx, t)
                    return And(self.pos(Rat(self.ctx, f)), self.pos(one)) \
                        if len(t) > 1 or () not in t else (
                        self._pos(p))
        return self._pos(p)

    def factor(self, p):
        """Remember a factor that numbers may have in common."""
        if len(p) > 1 and () not in p and not any(
                p == f or exact_div(p, f) for f in self.ctx.factors):
            self.ctx.factors.append(p)

    def _pos(self, p):
        c = p.get((), 0)
        p0 = {m: k for m, k in p.items() if m != ()}
        pi = ((self.ctx.ids.get('pi'), 1),)
        if pi in p0:
            # 3.14 < pi
            k = p0[pi]
            rest = {m: x if k > 0 else -x for m, x in p0.items() if m != pi}
            if not rest or self.manifest_nonneg(rest):
                b = c + k * Fraction(314, 100)
                if k > 0 and b >= 0:
                    return True
                if k < 0 and b <= 0:
                    return False
        lead = p0[max(p0)]
        s = abs(lead)
        q = {m: k / lead for m, k in p0.items()}
        sg = 1 if lead > 0 else -1
        nn = self.manifest_nonneg(q)
        if not nn and self.manifest_nonneg({m: -k for m, k in q.items()}):
            q = {m: -k for m, k in q.items()}
            sg = -sg
            nn = True
        c = Fraction(c) / s
        if nn:
            if sg > 0 and c > 0:
                return True
            if sg < 0 and c <= 0:
                return False
        k = frozenset(q.items())
        if k not in self.qreg:
            self.qreg[k] = next(NUMBERS)
        return atom('pos', self.num(Rat(self.ctx, q)), self.qreg[k], sg, c,
                    nn)

    def manifest_nonneg(self, p):
        k = frozenset(p.items())
        r = self.nncache.get(k)
        if r is None:
            r = self.nncache[k] = self._nonneg(p)
        return r

    def _nonneg(self, p):
        for m, k in p.items():
            if k < 0 or any(e % 2 and not self.nonneg_atom(x) for x, e in m):
                break
        else:
            return True
        if quad_nonneg(p):
            return True
        root = perfect_square(p)
        if root is None:
            return False
        self.factor(root)
        return True

    def nonneg_atom(self, x):
        return L.nonneg_atom(self.ctx, x)

    def toleq(self, a, b):
        """|a - b| within the default tolerances."""
        x, y = self.tonum(a), self.tonum(b)
        if x is None or y is None:
            return atom('opq', Opaque('toleq', (a, b)))
        r = x.r - y.r
        if r.is_zero():
            return True
        c = r.as_const()
        if c is not None:
            from fractions import Fraction
            bb = y.r.as_const()
            if bb is not None:
                return abs(c) <= Fraction(1, 10**8) + abs(bb) / 10**5
        if y.r.is_zero():
            f = self.pos(x.r)
            neg = self.pos(-x.r)
            n = x
            # canonical sign
            if isinstance(f, Atom) and f.args[2] < 0:
                n = self.num(-x.r)
                f = self.pos(n.r)
            q, k = (f.args[1], f.args[3]) if isinstance(f, Atom) else \
                (None, None)
            if f is False and isinstance(neg, Atom):
                q, k = neg.args[1], neg.args[3]
            return atom('toleq', n, self.num(0), q, k)
        return atom('toleq', x, y, None, None)

    # ----------------------------------------------------- terms, formulas

    def app(self, op, args):
        args = list(args)
        if op == 'item' and len(args) == 2:
            pass
        return App(op, args)

    def atom_subst(self, a, sub):
        if a.kind == 'ex':
            b = a.args[0]
            nb = self.bsym('x')
            s2 = Sub(self, dict(sub.m), sub.atomfn, sub.appfn)
            s2.m[b.key()] = nb
            return self.exists((nb,), s2.f(a.args[1]))
        if a.kind == 'card':
            b = a.args[0]
            nb = self.bsym('x')
            s2 = Sub(self, dict(sub.m), sub.atomfn, sub.appfn)
            s2.m[b.key()] = nb
            return self.card(nb, s2.f(a.args[1]), a.args[2])
        if a.kind == 'pos':
            n = self.num_subst(a.args[0], sub)
            if n is a.args[0]:
                return a
            sg, c = a.args[2], a.args[3]

            def again(v):
                if isinstance(v, IteV):
                    return Or(And(v.c, again(v.a)), And(Not(v.c), again(v.b)))
                if not isinstance(v, Num):
                    return atom('opq', v)
                r = v.r if sg > 0 else -v.r
                return self.pos(r + Rat.const(self.ctx, c))
            return again(n)
        if a.kind == 'toleq':
            x = sub.v(a.args[0])
            y = sub.v(a.args[1])
            if x.key() == a.args[0].key() and y.key() == a.args[1].key():
                return a
            return self.toleq(x, y)
        args = [sub.v(x) if isinstance(x, Val) else x for x in a.args]
        if a.kind == 'eq':
            return self.eq(args[0], args[1])
        if a.kind == 'rel':
            return self.rel(*args)
        if a.kind == 'posl':
            if args[1].key() == args[2].key():
                return False
        return atom(a.kind, *args)

    def rel(self, name, *args):
        for i, a in enumerate(args):
            if isinstance(a, IteV):
                l, r = list(args), list(args)
                l[i], r[i] = a.a, a.b
                return Or(And(a.c, self.rel(name, *l)),
                          And(Not(a.c), self.rel(name, *r)))
        return atom('rel', name, *args)

    def subst(self, x, m):
        m = {(k.key() if isinstance(k, Val) else k): v for k, v in m.items()}
        s = Sub(self, m)
        return s.v(x) if isinstance(x, Val) else s.f(x)

    def eq(self, a, b, st=None, user=False):
        """Formula a == b."""
        if isinstance(a, IteV):
            return Or(And(a.c, self.eq(a.a, b, st, user)),
                      And(Not(a.c), self.eq(a.b, b, st, user)))
        if isinstance(b, IteV):
            return Or(And(b.c, self.eq(a, b.a, st, user)),
                      And(Not(b.c), self.eq(a, b.b, st, user)))
        if isinstance(a, ObjV) and not user:
            m = self.prog.find_member(a.cls, '__eq__')
            if m is not None and m[1] == 'method':
                return self.call_pure_bool(a, m, b, st)
        if isinstance(b, ObjV) and not isinstance(a, ObjV) and not user:
            m = self.prog.find_member(b.cls, '__eq__')
            if m is not None and m[1] == 'method':
                if isinstance(a, (Const, Num, TupleV)):
                    return self.call_pure_bool(b, m, a, st)
        if a.key() == b.key():
            return True
        if isinstance(a, TupleV) and isinstance(b, TupleV):
            if len(a.items) != len(b.items):
                return False
            return And(*[self.eq(x, y, st) for x, y in
                         zip(a.items, b.items)])
        if isinstance(a, BoolV) and isinstance(b, BoolV):
            return Iff(a.f, b.f)
        if isinstance(a, LenV) and self.constint(b) is not None:
            k = self.constint(b)
            return And(self.len_ge(a, k), Not(self.len_ge(a, k + 1)))
        if isinstance(b, LenV) and self.constint(a) is not None:
            return self.eq(b, a, st)
        if isinstance(a, PosV) and isinstance(b, PosV):
            if a.off == b.off:
                return self.eq(a.e, b.e, st)
        if isinstance(a, Num) or isinstance(b, Num):
            if isinstance(a, (Const, TupleV, Ref, ObjV)) or \
                    isinstance(b, (Const, TupleV, Ref, ObjV)):
                return False
            x, y = self.tonum(a), self.tonum(b)
            if x is not None and y is not None:
                r = x.r - y.r
                if r.is_zero():
                    return True
                if r.as_const() is not None:
                    return False
                return And(Not(self.pos(r)), Not(self.pos(-r)))
        ca, cb = self.coll(a, st), self.coll(b, st)
        if ca is not None and cb is not None:
            return self.coll_eq(ca, cb, st)
        if distinct_consts(a, b):
            return False
        if isinstance(a, ObjV) and isinstance(b, ObjV):
            return False
        if isinstance(a, (Ref, ObjV)) and isinstance(b, (Const,)):
            return False
        if isinstance(b, (Ref, ObjV)) and isinstance(a, (Const,)):
            return False
        if isinstance(a, StrV) or isinstance(b, StrV):
            if NONE.key() in (a.key(), b.key()):
                return False
            return atom('opq', Opaque('streq', (a, b)))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and x.kind not in ('any',):
                # a symbol standing for an element of the problem, never None
                if y.key() == NONE.key() and x.kind == 'elem':
                    return False
            if isinstance(x, (FuncV, BoundV, ClassV, ModV, ExtV)) and \
                    isinstance(y, Const):
                return False
        if b.key() < a.key() if _cmp(a.key(), b.key()) is None else \
                _cmp(a.key(), b.key()) > 0:
            a, b = b, a
        return atom('eq', a, b)

    def coll_eq(self, A, B, st):
        if A.lost or B.lost:
            return atom('opq', Opaque('coll_eq'))
        if A.kind != B.kind:
            return False
        if A.kind == 'list':
            x, y = A.exact(), B.exact()
            if x is not None and y is not None:
                if len(x) != len(y):
                    return False
                return And(*[self.eq(p, q, st) for p, q in zip(x, y)])
            return atom('opq', Opaque('list_eq', ()))
        if A.kind == 'dict':
            return atom('opq', Opaque('dict_eq', ()))
        la, lb = A.literal(), B.literal()
        if la is not None and lb is not None:
            # every element of one is an element of the other
            fs = []
            for g, e in la:
                fs.append(Implies(g, self.mem(B, (e.key[0],))))
            for g, e in lb:
                fs.append(Implies(g, self.mem(A, (e.key[0],))))
            return And(*fs)
        b = self.bsym('q')
        fa, fb = self.mem(A, (b,)), self.mem(B, (b,))
        return Not(self.exists((b,), Not(Iff(fa, fb))))

    # quantifiers

    def exists(self, B, f):
        B = list(B)
        if isinstance(f, bool):
            return f
        if not B:
            return f
        used = syms_in(f)
        B = [b for b in B if b.key() in used]
        if not B:
            return f
        if isinstance(f, tuple) and f[0] == '|':
            return Or(*[self.exists(B, x) for x in f[1]])
        conj = list(f[1]) if isinstance(f, tuple) and f[0] == '&' else [f]
        # solve equalities
        for i, x in enumerate(conj):
            if isinstance(x, Atom) and x.kind == 'eq':
                for p, q in ((x.args[0], x.args[1]), (x.args[1], x.args[0])):
                    for b in B:
                        if p.key() == b.key() and b.key() not in syms_in(q):
                            rest = And(*(conj[:i] + conj[i + 1:]))
                            return self.exists(
                                [c for c in B if c is not b],
                                self.subst(rest, {b: q}))
        bk = {b.key() for b in B}
        # distribute over a disjunction that pins a binder down
        for i, x in enumerate(conj):
            if isinstance(x, tuple) and x[0] == '|' and \
                    any(self._pins(y, bk) for y in x[1]):
                rest = conj[:i] + conj[i + 1:]
                return Or(*[self.exists(B, And(y, *rest)) for y in x[1]])
        inside = [x for x in conj if bk & set(syms_in(x))]
        outside = [x for x in conj if not (bk & set(syms_in(x)))]
        # split independent binders
        if len(B) > 1:
            b = B[-1]
            with_b = [x for x in inside if b.key() in syms_in(x)]
            without = [x for x in inside if b.key() not in syms_in(x)]
            inner = self.exists([b], And(*with_b))
            return And(*outside, self.exists(B[:-1], And(inner, *without)))
        return And(*outside, self.mkex(B[0], And(*inside)))

    def _pins(self, f, bk):
        fs = f[1] if isinstance(f, tuple) and f[0] == '&' else (f,)
        for x in fs:
            if isinstance(x, Atom) and x.kind == 'eq' and \
                    (x.args[0].key() in bk or x.args[1].key() in bk):
                return True
        return False

    def mkex(self, b, f):
        # a universally true body
        if isinstance(f, tuple) and f[0] == 'n' and isinstance(f[1], Atom) \
                and f[1].kind == 'eq':
            return True
        return self._quant('ex', b, f, None)

    def qdepth(self, f):
        d = 0
        for a in atoms_of(f).values():
            if a.kind in ('ex', 'card'):
                d = max(d, 1 + self.qdepth(a.args[1]))
        return d

    def _quant(self, kind, b, f, k):
        d = self.qdepth(f)
        cb = Sym('$%d' % d)
        g = self.subst(f, {b: cb})
        if isinstance(g, bool):
            return g if kind == 'ex' else g
        g = self.canon(g)
        gk = fkey(g)
        free = frozenset(x for x in syms_in(g))
        for (fr, body, bkey) in self.exreg:
            if bkey == gk:
                g = body
                break
            if fr == free and self.equivalent(body, g, quiet=True):
                g = body
                break
        else:
            self.exreg.append((free, g, gk))
        if kind == 'ex':
            return atom('ex', cb, g)
        return atom('card', cb, g, k)

    def canon(self, f):
        """Deterministic order of the operands."""
        if isinstance(f, (bool, Atom)):
            return f
        if f[0] == 'n':
            return Not(self.canon(f[1]))
        xs = sorted((self.canon(x) for x in f[1]), key=fkey)
        return (And if f[0] == '&' else Or)(*xs)

    def card(self, b, f, k):
        if k <= 0:
            return True
        if k == 1:
            return self.exists((b,), f)
        if f is False:
            return False
        # an explicitly enumerated set: at most n elements
        vals = self._enumerated(b, f)
        if vals is not None and len(vals) < k:
            return False
        if vals is not None and len(vals) <= 4:
            import itertools
            out = []
            for S in itertools.combinations(vals, k):
                fs = [g for _, g in S]
                for (x, _), (y, _) in itertools.combinations(S, 2):
                    fs.append(Not(self.eq(x, y)))
                out.append(And(*fs))
            return Or(*out)
        return self._quant('card', b, f, k)

    def _enumerated(self, b, f):
        ds = f[1] if isinstance(f, tuple) and f[0] == '|' else (f,)
        out = []
        for x in ds:
            cs = x[1] if isinstance(x, tuple) and x[0] == '&' else (x,)
            for c in cs:
                if isinstance(c, Atom) and c.kind == 'eq':
                    t = None
                    if c.args[0].key() == b.key():
                        t = c.args[1]
                    elif c.args[1].key() == b.key():
                        t = c.args[0]
                    if t is not None and b.key() not in syms_in(t):
                        rest = And(*[self.subst(y, {b: t}) for y in cs
                                     if y is not c])
                        out.append((t, rest))
                        break
            else:
                return None
        return out

    # ----------------------------------------------------------- decisions

    def axioms_for(self, f, rounds=3):
        """Instances of the background theory relevant to f."""
        out = list(self.facts)
        seen = set()
        insts = set()
        goal = And(f, *out)
        # facts may mention symbols unrelated to f; keep those that share atoms
        sk = {}
        terms = {}

        def addterm(t):
            if isinstance(t, (Sym, App)) and not (
                    isinstance(t, Sym) and t.name.startswith('$')):
                terms.setdefault(t.key(), t)

        for rnd in range(rounds):
            ats = atoms_of(goal)
            for a in ats.values():
                if a.kind in ('eq', 'rel', 'posl'):
                    for t in a.args:
                        if isinstance(t, Val):
                            addterm(t)
            new = []
            if self.termax:
                for t in self.axiomterms(goal):
                    if t.key() not in seen:
                        seen.add(t.key())
                        new.append(self.term_axiom(t))
            for a in list(ats.values()):
                if a.kind == 'rel' and a.key not in seen:
                    seen.add(a.key)
                    for sc in self.schemas.get(a.args[0], ()):
                        new.append(Implies(a, sc(*a.args[1:])))
                elif a.kind == 'posl' and a.key not in seen:
                    seen.add(a.key)
                elif a.kind in ('ex', 'card'):
                    b, body = a.args[0], a.args[1]
                    k = 1 if a.kind == 'ex' else a.args[2]
                    if a.key not in seen and k <= 4:
                        seen.add(a.key)
                        ws = [Sym('sk%d:%d' % (i, self._skid(a)), 'any')
                              for i in range(k)]
                        fs = [self.subst(body, {b: w}) for w in ws]
                        for i in range(k):
                            for j in range(i):
                                fs.append(Not(self.eq(ws[i], ws[j])))
                        new.append(Implies(a, And(*fs)))
                    if len(terms) <= 24 and k <= 4:
                        tl = list(terms.values())
                        import itertools
                        cnt = 0
                        for S in itertools.combinations(tl, k):
                            cnt += 1
                            if cnt > 400:
                                break
                            ik = (a.key,) + tuple(t.key() for t in S)
                            if ik in insts:
                                continue
                            insts.add(ik)
                            g = self.instcache.get(ik)
                            if g is not None:
                                new.append(g)
                                continue
                            fs = [self.subst(body, {b: t}) for t in S]
                            for x, y in itertools.combinations(S, 2):
                                fs.append(Not(self.eq(x, y)))
                            g = self.instcache[ik] = Implies(And(*fs), a)
                            new.append(g)
            new = [n for n in new if n is not True]
            if not new:
                break
            out += new
            goal = And(*new)
        return out



    def term_axiom(self, t):
        k = ('termax', t.key())
        if k not in self.instcache:
            self.instcache[k] = True        # (while it is being made)
            self.instcache[k] = self.termax[t.op](*t.args, t)
        return self.instcache[k]

    def axiomterms(self, f):
        """Closed terms of f that have an axiom of their own."""
        out = {}

        def go(t):
            if isinstance(t, App):
                if t.op in self.termax and not any(
                        x.name.startswith('$')
                        for x in syms_in(t).values()):
                    out[t.key()] = t
                for x in t.args:
                    if isinstance(x, Val):
                        go(x)
        for a in atoms_of(f).values():
            if a.kind in ('ex', 'card'):
                continue
            for x in a.args:
                if isinstance(x, Val):
                    go(x)
        return list(out.values())

    def _skid(self, a):
        k = ('skid', a.key)
        if k not in self.serial:
            self.serial[k] = len(self.serial)
        return self.serial[k]

    def model(self, f, limit=40000):
        """A (propositional) model of f modulo theory, or None."""
        if isinstance(f, bool):
            return {} if f else None
        k = fkey(f)
        if k in self.satcache:
            return self.satcache[k]
        ax = self.relevant(f)
        m = L.find_model(f, ax, limit)
        self.satcache[k] = m
        return m

    def relevant(self, f):
        return self.axioms_for(f)

    def sat(self, *fs):
        f = And(*fs)
        if isinstance(f, bool):
            return f
        try:
            return self.model(f, 4000) is not None
        except L.Budget:
            return True

    def equivalent(self, f, g, quiet=False):
        if fkey(f) == fkey(g):
            return True
        try:
            return self.model(Not(Iff(f, g)), 4000) is None
        except L.Budget:
            return False

    def implied(self, pc, f):
        """True if pc => f certainly holds."""
        if isinstance(f, bool):
            return f
        return not self.sat(And(*pc), Not(f))

    def pcdecide(self, f, st):
        if isinstance(f, bool):
            return f
        if st is None:
            return None
        pc = self.pcslice(st.pc, f)
        g = And(*pc)
        if not isinstance(g, bool):
            lits = {}
            for x in (g[1] if isinstance(g, tuple) and g[0] == '&' else (g,)):
                if isinstance(x, Atom):
                    lits[x.key] = True
                elif isinstance(x, tuple) and x[0] == 'n' and \
                        isinstance(x[1], Atom):
                    lits[x[1].key] = False
            h = fassign(f, lits)
            if isinstance(h, bool):
                return h
        if not self.sat(g, f):
            return False
        if not self.sat(g, Not(f)):
            return True
        return None

    def vocabulary(self, f):
        hit = self.vocab.get(id(f))
        if hit is None or hit[0] is not f:
            hit = (f, frozenset(syms_in(f)) | frozenset(atoms_of(f)))
            self.vocab[id(f)] = hit
        return hit[1]

    def pcslice(self, pc, f):
        """Conjuncts of pc (transitively) sharing symbols with f."""
        want = set(self.vocabulary(f))
        parts = [(x, self.vocabulary(x)) for x in pc]
        out, changed = [], True
        used = set()
        while changed:
            changed = False
            for i, (x, s) in enumerate(parts):
                if i not in used and (s & want or not s):
                    used.add(i)
                    want |= s
                    changed = True
        return [x for i, (x, s) in enumerate(parts) if i in used]

    # ----------------------------------------------------------- contents

    def alloc(self, st, content, hint='c'):
        loc = self.fresh(hint)
        st.heap[loc] = content
        return Ref(loc)

    def resolve(self, ref, st):
        while True:
            c = st.heap.get(ref.loc) if st is not None else None
            if c is None:
                c = self.frozen_heap.get(ref.loc)
            if isinstance(c, Forward):
                ref = Ref(c.ref.loc, c.ref.pre + ref.pre)
            else:
                return ref

    def raw(self, loc, st):
        c = st.heap.get(loc) if st is not None else None
        if c is None:
            c = self.frozen_heap.get(loc)
        if c is None:
            raise Unsupported('container %s out of scope' % loc)
        return c

    def content(self, ref, st):
        ref = self.resolve(ref, st)
        C = self.raw(ref.loc, st)
        if self.reads is not None:
            self.reads.add(ref.loc)
        if not ref.pre:
            return C
        return self.nested_view(C, ref.pre)

    def nested_view(self, C, pre):
        if C.lost:
            return Content(C.sub or 'dict', lost=C.lost)
        if C.sub is None:
            raise Unsupported('nested container of unknown kind')
        if C.sub == 'list':
            log = []
            for e in C.log:
                if len(e.key) < len(pre):
                    log = []
                    continue
                cond = And(*[self.eq(k, p) for k, p in zip(e.key, pre)])
                if len(e.key) == len(pre):
                    if cond is False:
                        continue
                    if cond is True and e.g is True and not e.B:
                        log = []
                        continue
                    raise Unsupported('list nested in a container')
                if e.B:
                    raise Unsupported('list nested in a container')
                log.append(e.but(g=And(e.g, cond), key=e.key[len(pre):]))
            return Content('list', log)
        b = self.bsym('n')
        f = self.mem(C, pre + (b,))
        v = None
        if C.sub == 'dict':
            v = self.lookup(C, pre + (b,))
        return Content(C.sub, [Entry('add', (b,), f, (b,), v)], distinct=True)

    def coll(self, v, st):
        """Content of a collection value, or None if it is not one."""
        if isinstance(v, Ref):
            return self.content(v, st)
        if isinstance(v, SnapV):
            return v.content
        if isinstance(v, ViewV):
            C = self.content(v.ref, st)
            return self.view_content(C, v.what, self.resolve(v.ref, st))
        return None

    def view_content(self, C, what, ref=None):
        if C.lost:
            return Content('set', lost=C.lost)
        if what == 'keys':
            return self.keys_content(C, 'set')
        if C.sub and isinstance(ref, Ref) and not ref.pre:
            # the values are containers themselves
            b = self.bsym('k')
            v = Ref(ref.loc, (b,))
            return Content('list', [Entry('add', (b,), self.mem(C, (b,)), (
                v if what == 'values' else TupleV((b, v)),))],
                distinct=what == 'items')
        lit = C.literal()
        if lit is not None and self.simple_log(C):
            log = []
            for g, e in lit:
                log.append(Entry('add', (), g, (
                    (e.val,) if what == 'values' else
                    (TupleV((e.key[0], e.val)),))))
            return Content('list', log)
        b = self.bsym('k')
        f = self.mem(C, (b,))
        v = self.lookup(C, (b,))
        key = v if what == 'values' else TupleV((b, v))
        return Content('list', [Entry('add', (b,), f, (key,))],
                       distinct=what == 'items')

    def simple_log(self, C):
        """Only additions at the first level, no key written twice."""
        es = C.log
        if any(e.op != 'add' or len(e.key) != 1 for e in es):
            return False
        if len(es) <= 1:
            return True
        if C.kind == 'list':
            return True
        for i in range(len(es)):
            for j in range(i):
                if And(es[i].g, es[j].g,
                       self.eq(es[i].key[0], es[j].key[0])) is not False:
                    return False
        return all(not e.B for e in es)

    def keys_content(self, C, kind):
        """The keys/elements of C as a collection of the given kind."""
        if C.lost:
            return Content(kind, lost=C.lost)
        if C.kind == 'list' or self.simple_log(C):
            log = [e.but(val=None) for e in C.log]
            if C.kind != 'list' and len(log) == 1 and log[0].B:
                # every element is there once
                if self.injective(log[0]):
                    log = [log[0].but(setlike=True)]
                else:
                    b = self.bsym('e')
                    log = [Entry('add', (b,), self.mem(C, (b,)), (b,))]
            if C.kind == 'list' and any(e.op != 'add' for e in log):
                if kind != 'list':
                    b = self.bsym('e')
                    return Content(kind, [Entry('add', (b,),
                                                self.mem(C, (b,)), (b,))],
                                   distinct=True)
            return Content(kind, log, distinct=(
                C.kind != 'list' or C.distinct or kind != 'list'))
        b = self.bsym('e')
        return Content(kind, [Entry('add', (b,), self.mem(C, (b,)), (b,))],
                       distinct=True)

    def rename(self, e):
        """Entry with fresh binders."""
        if not e.B:
            return e
        m = {b: self.bsym(b.name.split('#')[0]) for b in e.B}
        s = Sub(self, {b.key(): n for b, n in m.items()})
        return e.but(B=tuple(m.values()), g=s.f(e.g),
                     key=tuple(s.v(k) for k in e.key),
                     val=None if e.val is None else s.v(e.val))

    def hit(self, e, keys):
        e = self.rename(e)
        f = e.g
        f = And(f, *[self.eq(k, x) for k, x in zip(e.key, keys)])
        return self.exists(e.B, f)

    def mem(self, C, keys):
        """Formula: is this key (tuple: path of keys) in the content?"""
        if C.lost:
            return atom('opq', Opaque('mem:' + C.lost, keys))
        f = False
        n = len(keys)
        for e in C.log:
            d = len(e.key)
            if e.op == 'clr':
                if d < n:
                    f = And(f, Not(self.hit(e, keys)))
                continue
            if d > n:
                continue
            if d == n:
                if e.op in ('add', 'setd'):
                    f = Or(f, self.hit(e, keys))
                else:
                    f = And(f, Not(self.hit(e, keys)))
            else:
                # (a nested container that is only created when absent keeps
                # what an existing one holds)
                if e.op == 'rem' or (e.op == 'add' and
                                     e.val is not None and
                                     e.val.key() == NESTED.key()):
                    h = self.hit(e, keys)
                    f = And(f, Not(h))
        return f

    def lookup(self, C, keys):
        """Value stored under a key path (assuming it is present)."""
        if C.lost:
            return Opaque('val:' + C.lost, keys)
        v = Opaque('absent', keys)
        n = len(keys)
        for i, e in enumerate(C.log):
            if len(e.key) != n or e.op not in ('add', 'setd'):
                continue
            if e.val is None:
                continue
            e = self.rename(e)
            cond, val = self.solve(e, keys)
            if cond is False:
                continue
            if e.op == 'setd':
                cond = And(cond, Not(self.mem(
                    Content(C.kind, C.log[:i], C.sub), keys)))
            if isinstance(v, Opaque) and v.tag == 'absent':
                # the key is assumed present
                v = val if not self._later(C, i, n) and i == self._first(
                    C, n) else ite(cond, val, v)
            else:
                v = ite(cond, val, v)
        return self._drop_absent(v)

    def _first(self, C, n):
        for i, e in enumerate(C.log):
            if len(e.key) == n and e.op in ('add', 'setd'):
                return i
        return -1

    def _later(self, C, i, n):
        return False

    def _drop_absent(self, v):
        if isinstance(v, IteV):
            a, b = self._drop_absent(v.a), self._drop_absent(v.b)
            if isinstance(b, Opaque) and b.tag == 'absent':
                return a
            if isinstance(a, Opaque) and a.tag == 'absent':
                return b
            return ite(v.c, a, b)
        return v

    def solve(self, e, keys):
        """(condition, value) of an entry for the given key path."""
        f = And(e.g, *[self.eq(k, x) for k, x in zip(e.key, keys)])
        val = e.val
        B = list(e.B)
        changed = True
        while changed and B:
            changed = False
            conj = f[1] if isinstance(f, tuple) and f[0] == '&' else (f,)
            for x in conj:
                if isinstance(x, Atom) and x.kind == 'eq':
                    for p, q in ((x.args[0], x.args[1]),
                                 (x.args[1], x.args[0])):
                        hit = [b for b in B if b.key() == p.key()
                               and b.key() not in syms_in(q)]
                        if hit:
                            b = hit[0]
                            B.remove(b)
                            f = self.subst(f, {b: q})
                            val = self.subst(val, {b: q})
                            changed = True
                            break
                if changed:
                    break
        if B:
            used = syms_in(val)
            if any(b.key() in used for b in B):
                val = Opaque('unsolved', keys)
            f = self.exists(B, f)
        return f, val

    def nonempty(self, C):
        if C.lost:
            return atom('opq', Opaque('nonempty:' + C.lost))
        if all(e.op in ('add', 'setd') for e in C.log):
            return Or(*[self.exists(e.B, e.g) for e in C.log
                        if len(e.key) == 1])
        b = self.bsym('e')
        return self.exists((b,), self.mem(C, (b,)))

    def count_ge(self, C, k):
        """len(C) >= k"""
        if k <= 0:
            return True
        if C.lost:
            return atom('opq', Opaque('len:' + C.lost, (self.num(k),)))
        if k == 1:
            return self.nonempty(C)
        if C.kind == 'list' and not C.distinct:
            lit = C.literal()
            if lit is not None and len(lit) <= 8:
                fixed = sum(1 for g, _ in lit if g is True)
                var = [g for g, _ in lit if g is not True]
                if fixed >= k:
                    return True
                if fixed + len(var) < k:
                    return False
                import itertools
                return Or(*[And(*S) for S in
                            itertools.combinations(var, k - fixed)])
            if len(C.log) == 1 and C.log[0].op == 'add' and \
                    C.log[0].setlike and self.injective(C.log[0]):
                pass
            else:
                return atom('opq', Opaque('len', (self.num(k),) + tuple(
                    x for e in C.log for x in e.key)))
        b = self.bsym('e')
        return self.card(b, self.mem(C, (b,)), k)

    def injective(self, e):
        """Different binder assignments give different keys."""
        if tuple(e.key) == tuple(e.B):
            return True
        e2 = self.rename(e)
        f = And(*[self.eq(k, x) for k, x in zip(e.key, e2.key)])
        same = And(*[self.eq(a, b) for a, b in zip(e.B, e2.B)])
        return not self.sat(f, Not(same))

    def len_ge(self, v, k):
        return self.count_ge(v.content, k - v.off)

    def length(self, C):
        lit = C.exact()
        if lit is not None:
            return self.num(len(lit))
        if C.lost:
            return Opaque('len:' + C.lost)
        b = Sym('$len')
        if C.kind != 'list' or C.distinct:
            n = self.size_of(self.canon(self.mem(C, (b,))), b)
            if n.r.as_const() is not None:
                return n
        else:
            n = self.num(Rat.sym(self.ctx, ('len', C.uid), 'len', None))
        return LenV(C, n)

    def size_of(self, f, b):
        """Number of b with f, symbolically."""
        # an element that is there just once is counted apart
        n = 0
        again = True
        while again and f is not False:
            again = False
            for d in f[1] if isinstance(f, tuple) and f[0] == '|' else [f]:
                if not (isinstance(d, Atom) and d.kind == 'eq' and
                        b.key() in (d.args[0].key(), d.args[1].key())):
                    continue
                t = d.args[1] if d.args[0].key() == b.key() else d.args[0]
                if b.key() in syms_in(t):
                    continue
                rest = Or(*[x for x in f[1] if x is not d]) \
                    if f is not d else False
                g = self.subst(rest, {b: t})
                if g is not False and (g is True or self.sat(
                        g, *self.facts)):
                    rest = And(rest, Not(d))
                f = self.canon(rest)
                n += 1
                again = True
                break
        if f is False:
            return self.num(n)
        key = None
        for (g, k0) in self.serial.setdefault('lens', []):
            if fkey(g) == fkey(f) or (
                    set(syms_in(g)) == set(syms_in(f)) and
                    self.equivalent(g, f)):
                key = k0
                break
        if key is None:
            key = 'len(%s)' % fshow(f)
            self.serial['lens'].append((f, key))
        r = Rat.sym(self.ctx, key, 'len', None)
        return self.num(r + self.num(n).r) if n else self.num(r)

    # updates -------------------------------------------------------------

    def write(self, ref, st, *entries):
        ref = self.resolve(ref, st)
        C = self.raw(ref.loc, st)
        if C.frozen:
            raise Unsupported('update of an immutable container')
        es = []
        for e in entries:
            es.append(e.but(key=ref.pre + e.key))
            if C.kind != 'list' and e.op in ('add', 'setd'):
                for k in e.key:
                    self.must_hash(k, st, e.node)
        if self.writes is not None:
            self.writes.add(ref.loc)
        distinct = C.distinct if C.kind != 'list' else False
        st.heap[ref.loc] = C.but(log=C.log + tuple(es), distinct=distinct)

    writes = None

    def must_hash(self, v, st, n):
        if isinstance(v, IteV):
            self.must_hash(v.a, st, n)
            self.must_hash(v.b, st, n)
        elif isinstance(v, ObjV):
            m = self.prog.find_member(v.cls, '__hash__')
            if m is not None and m[1] == 'assign' and isinstance(
                    m[2], ast.Constant) and m[2].value is None:
                self.implicit('TypeError', st, n, True)
        elif isinstance(v, TupleV):
            for x in v.items:
                self.must_hash(x, st, n)
        elif isinstance(v, Ref) and not v.pre:
            C = st.heap.get(v.loc)
            if isinstance(C, Forward):
                self.must_hash(C.ref, st, n)
            elif isinstance(C, Content) and not C.frozen and \
                    C.kind in ('list', 'set', 'dict'):
                self.implicit('TypeError', st, n, True)

    def replace(self, ref, st, C):
        """Replace the whole content of a container."""
        ref = self.resolve(ref, st)
        if self.writes is not None:
            self.writes.add(ref.loc)
        if not ref.pre:
            st.heap[ref.loc] = C
        else:
            old = self.raw(ref.loc, st)
            if old.sub == 'list':
                raise Unsupported('nested list replaced')
            es = [Entry('clr', (), True, ref.pre)]
            for e in C.log:
                es.append(e.but(key=ref.pre + e.key))
            st.heap[ref.loc] = old.plus(*es)

    def freeze(self, v, st):
        """Make objects/containers reachable from v available for good."""
        for x in _refs(v):
            if isinstance(x, Ref):
                C = st.heap.get(x.loc)
                if C is None or self.frozen_heap.get(x.loc) is C:
                    continue
                self.frozen_heap[x.loc] = C
                if isinstance(C, Forward):
                    self.freeze(C.ref, st)
                else:
                    for e in C.log:
                        for k in e.key:
                            self.freeze(k, st)
                        if e.val is not None:
                            self.freeze(e.val, st)
            elif isinstance(x, ObjV):
                d = {n: w for (o, n), w in st.fields.items() if o == x.oid}
                if not d:
                    continue
                o = self.frozen_fields.get(x.oid)
                if o is not None and o.keys() == d.keys() and all(
                        o[k] is d[k] for k in d):
                    continue
                self.frozen_fields[x.oid] = d
                for w in d.values():
                    self.freeze(w, st)

    def obj_subst(self, v, sub):
        d = self.frozen_fields.get(v.oid)
        if d is None:
            return v
        ss = {}
        for w in d.values():
            ss.update(self.deep_syms(w))
        rel = tuple(sorted((k, sub.m[k].key()) for k in ss if k in sub.m))
        rel = tuple(x for x in rel if x[0] != x[1])
        if not rel and sub.atomfn is None:
            return v
        if not rel and self.untouched(v.key(), sub, list(d.values())):
            return v
        oid = '%s@%s' % (v.oid, self.intern(
            rel + (v.oid, tuple(sorted((k, w.key()) for k, w in d.items()))),
            sub))
        n = ObjV(oid, v.cls)
        if oid not in self.frozen_fields:
            self.frozen_fields[oid] = {}
            self.frozen_fields[oid].update(
                {k: sub.v(w) for k, w in d.items()})
        return n

    def untouched(self, key, sub, xs):
        """Does the substitution leave the parts of an object alone?  (What
        is outside of a loop keeps its identity.)"""
        k = (id(sub), key)
        r = self.keeps.get(k)
        if r is None:
            # (assumed for parts that refer back to the whole)
            self.keeps[k] = (True, sub)
            r = all((sub.v(x).key() == x.key()) if isinstance(x, Val) else
                    isinstance(x, bool) or fkey(sub.f(x)) == fkey(x)
                    for x in xs)
            self.keeps[k] = (r, sub)
            return r
        return r[0]

    def intern(self, rel, sub):
        k = ('intern', rel, id(sub.atomfn) if sub.atomfn else None)
        if k not in self.serial:
            self.serial[k] = len(self.serial)
        return self.serial[k]

    def ref_subst(self, v, sub):
        if v.pre:
            return Ref(v.loc, [sub.v(p) for p in v.pre])
        C = self.frozen_heap.get(v.loc)
        if C is None:
            return v
        if isinstance(C, Forward):
            return sub.v(C.ref)
        ss = self.content_syms(C)
        rel = tuple(sorted((k, sub.m[k].key()) for k in ss if k in sub.m))
        rel = tuple(x for x in rel if x[0] != x[1])
        if not rel and sub.atomfn is None:
            return v
        if not rel and self.untouched(v.key(), sub, [
                x for e in C.log for x in (e.g,) + tuple(e.key) + (
                    (e.val,) if e.val is not None else ())]):
            return v
        loc = '%s@%s' % (v.loc, self.intern(rel + (C.uid,), sub))
        if loc not in self.frozen_heap:
            self.frozen_heap[loc] = self.content_subst(C, sub)
        return Ref(loc)

    def content_subst(self, C, sub):
        if isinstance(C, Forward):
            return C
        log = []
        for e in C.log:
            e = self.rename(e)
            log.append(e.but(g=sub.f(e.g), key=tuple(sub.v(k) for k in e.key),
                             val=None if e.val is None else sub.v(e.val)))
        return C.but(log=log)

    def coll_subst(self, v, sub):
        if isinstance(v, SnapV):
            ss = self.content_syms(v.content)
            if not any(k in sub.m for k in ss) and sub.atomfn is None:
                return v
            return SnapV(self.content_subst(v.content, sub), v.what)
        C = self.content_subst(v.content, sub)
        n = self.length(C)
        if v.off:
            return self.arith('+', n, self.num(v.off))
        return n

    def content_syms(self, C):
        out = {}
        if isinstance(C, Forward):
            return out
        for e in C.log:
            for k in e.key:
                out.update(self.deep_syms(k))
            if e.val is not None:
                out.update(self.deep_syms(e.val))
            out.update(syms_in(e.g))
            for b in e.B:
                out.pop(b.key(), None)
        return out

    def deep_syms(self, v, st=None, seen=None):
        """Symbols of a value including those inside referenced objects."""
        seen = set() if seen is None else seen
        out = dict(syms_in(v))
        for x in _refs(v):
            k = x.key()
            if k in seen:
                continue
            seen.add(k)
            if isinstance(x, Ref):
                C = (st.heap.get(x.loc) if st is not None else None) or \
                    self.frozen_heap.get(x.loc)
                if C is not None:
                    if isinstance(C, Forward):
                        out.update(self.deep_syms(C.ref, st, seen))
                    else:
                        for e in C.log:
                            for y in e.key + ((e.val,) if e.val is not None
                                              else ()):
                                out.update(self.deep_syms(y, st, seen))
                            out.update(syms_in(e.g))
            elif isinstance(x, ObjV):
                d = {}
                if st is not None:
                    d = {n: w for (o, n), w in st.fields.items()
                         if o == x.oid}
                d = d or self.frozen_fields.get(x.oid, {})
                for w in d.values():
                    out.update(self.deep_syms(w, st, seen))
            elif isinstance(x, (SnapV, LenV)):
                out.update(self.content_syms(x.content))
        return out

    # -------------------------------------------------------------- states

    def relpc(self, base, pc):
        return And(*pc[len(base):])

    def merge(self, s1, s2):
        """Join of two states of one frame that exclude each other."""
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        n = 0
        p1, p2 = s1.pc, s2.pc
        while n < len(p1) and n < len(p2) and (
                p1[n] is p2[n] or fkey(p1[n]) == fkey(p2[n])):
            n += 1
        r1, r2 = And(*p1[n:]), And(*p2[n:])
        c = self.gate(r1, r2)
        pc = p1[:n]
        d = self.simp_or(r1, r2)
        if d is not True:
            pc = pc + (d,)
        env = {}
        for k in s1.env.keys() | s2.env.keys():
            a, b = s1.env.get(k, UNBOUND), s2.env.get(k, UNBOUND)
            env[k] = a if a is b or not isinstance(a, Val) \
                else ite(c, a, b)
        heap = dict(s1.heap)
        for k, b in s2.heap.items():
            a = s1.heap.get(k)
            if a is None:
                heap[k] = b
            elif a is not b:
                heap[k] = self.merge_heap(c, k, a, b, s1, s2)
        fields = dict(s1.fields)
        if s1.fields.keys() != s2.fields.keys():
            # an attribute only one of them has, of an object both have
            o1 = {k[0] for k in s1.fields}
            o2 = {k[0] for k in s2.fields}
            for k, a in s1.fields.items():
                if k not in s2.fields and k[0] in o2:
                    fields[k] = ite(c, a, UNBOUND)
        else:
            o1 = ()
        for k, b in s2.fields.items():
            a = s1.fields.get(k)
            if a is None:
                fields[k] = ite(c, UNBOUND, b) if k[0] in o1 else b
            elif a is not b:
                fields[k] = ite(c, a, b)
        if s1.stack is s2.stack:
            stack = s1.stack
        else:
            stack = []
            for e1, e2 in zip(s1.stack, s2.stack):
                if e1 is e2:
                    stack.append(e1)
                else:
                    stack.append({k: (e1.get(k, UNBOUND)
                                      if not isinstance(e1.get(k), Val)
                                      or e1.get(k) is e2.get(k)
                                      else ite(c, e1.get(k, UNBOUND),
                                               e2.get(k, UNBOUND)))
                                  for k in e1.keys() | e2.keys()})
            stack = tuple(stack)
        return State(env, stack, heap, fields, pc)

    def merge_heap(self, c, k, a, b, s1, s2):
        m = merge_contents(c, a, b)
        if m is not None:
            return m
        raise Unsupported('join of different containers %s' % k)

    def gate(self, r1, r2):
        """A formula that tells r1 from r2 given that one of them holds."""
        n2 = Not(r2)
        if isinstance(r1, bool) or isinstance(n2, bool):
            return r1 if not isinstance(r1, bool) else n2
        return r1 if len(atoms_of(r1)) <= len(atoms_of(n2)) else n2

    def simp_or(self, a, b):
        d = Or(a, b)
        if isinstance(d, bool):
            return d
        ats = atoms_of(d)
        if len(ats) <= 10:
            if not self._psat(Not(d), ats):
                return True
            # common conjuncts
            fa = a[1] if isinstance(a, tuple) and a[0] == '&' else (a,)
            fb = b[1] if isinstance(b, tuple) and b[0] == '&' else (b,)
            kb = {fkey(x) for x in fb}
            com = [x for x in fa if fkey(x) in kb]
            if com:
                ck = {fkey(x) for x in com}
                ra = And(*[x for x in fa if fkey(x) not in ck])
                rb = And(*[x for x in fb if fkey(x) not in ck])
                r = Or(ra, rb)
                if not isinstance(r, bool) and \
                        not self._psat(Not(r), atoms_of(r)):
                    r = True
                return And(*com, r)
        return d

    def _psat(self, f, ats):
        """Plain propositional satisfiability."""
        if isinstance(f, bool):
            return f
        a = next(iter(atoms_of(f).values()))
        return self._psat(fassign(f, {a.key: True}), ats) or \
            self._psat(fassign(f, {a.key: False}), ats)

    def assume(self, st, f):
        if f is True:
            return
        if self.pcdecide(f, st) is False:
            raise Dead()
        st.pc = st.pc + (f,)

    def do_raise(self, exc, st, node, cond=True, implicit=False):
        """Record an exception raised under `cond`; continue otherwise."""
        if cond is False:
            return
        d = self.pcdecide(cond, st)
        if d is False:
            return
        s2 = st.fork(cond)
        self.raise_stack[-1].append(Exit('raise', exc, s2, node, implicit))
        if d is True or cond is True:
            raise Dead()
        st.pc = st.pc + (Not(cond),)

    def implicit(self, name, st, node, cond):
        self.do_raise(ExcV(name, node), st, node, cond, True)

    # ------------------------------------------------------------- truth

    def truth(self, v, st):
        if isinstance(v, BoolV):
            return v.f
        if isinstance(v, IteV):
            return Or(And(v.c, self.truth(v.a, st)),
                      And(Not(v.c), self.truth(v.b, st)))
        if isinstance(v, Const):
            return bool(v.v) if v is not UNBOUND else \
                atom('opq', Opaque('unbound'))
        if isinstance(v, Num):
            c = v.r.as_const()
            if c is not None:
                return c != 0
            return Or(self.pos(v.r), self.pos(-v.r))
        if isinstance(v, LenV):
            return self.len_ge(v, 1)
        if isinstance(v, TupleV):
            return bool(v.items)
        if isinstance(v, SnapV) and v.what == 'iter':
            return True
        C = self.coll(v, st)
        if C is not None:
            return self.nonempty(C)
        if isinstance(v, ObjV):
            for nm in ('__bool__', '__len__'):
                m = self.prog.find_member(v.cls, nm)
                if m:
                    return self.truth(self.call(self.bind(v, m), [], {}, st,
                                                None), st)
            return True
        if isinstance(v, (FuncV, BoundV, ClassV, ModV, ExtV)):
            return True
        if isinstance(v, StrV):
            return self.nonempty_text(v, st)
        if isinstance(v, PosV):
            return atom('opq', Opaque('pos', (v.e,)))
        return atom('truth', v)

    def nonempty_text(self, v, st):
        opq = atom('opq', Opaque('str', (v,)))
        if isinstance(v, Const) and isinstance(v.v, str):
            return bool(v.v)
        if not isinstance(v, StrV):
            return opq
        if v.how == 'format' and isinstance(v.parts[0], Const):
            if any(t for t, _, _, _ in string.Formatter().parse(
                    v.parts[0].v)):
                return True
        elif v.how == 'join' and len(v.parts) == 2:
            C = self.coll(v.parts[1], st)
            if C is not None and not C.lost and all(
                    e.op == 'add' for e in C.log):
                some = [And(e.g, self.nonempty_text(
                    e.val if e.val is not None and C.kind == 'list'
                    else e.key[-1], st)) for e in C.log]
                f = Or(*[self.exists(e.B, g)
                         for e, g in zip(C.log, some)])
                # separators of empty elements count as well
                return Or(f, And(opq, Or(*[self.exists(e.B, e.g)
                                           for e in C.log])))
        return opq

    def call_pure_bool(self, obj, m, other, st):
        """Formula computed by a comparison method."""
        s = State({}, (), dict(st.heap) if st else {},
                  dict(st.fields) if st else {}, ())
        save, self.raise_stack = self.raise_stack, [[]]
        sr, sw = self.reads, self.writes
        self.reads = self.writes = None
        try:
            try:
                v = self.call(self.bind(obj, m), [other], {}, s, None)
            except Dead:
                return atom('opq', Opaque('eq-raises', (obj, other)))
            if self.raise_stack[-1]:
                return atom('opq', Opaque('eq-raises', (obj, other)))
            return self.truth(v, s)
        finally:
            self.raise_stack = save
            self.reads, self.writes = sr, sw

    def bind(self, obj, m):
        owner, what, node = m
        fn = FuncV(node, owner.mod, None, owner,
                   owner.qual + '.' + getattr(node, 'name', '?'))
        return BoundV(obj, fn)


def _cmp(a, b):
    try:
        return (a > b) - (a < b)
    except TypeError:
        ra, rb = repr(a), repr(b)
        return (ra > rb) - (ra < rb)


def _refs(v):
    """Refs, objects and collections occurring in a value."""
    if isinstance(v, Ref):
        yield v
        for p in v.pre:
            yield from _refs(p)
    elif isinstance(v, ObjV):
        yield v
    elif isinstance(v, (SnapV, LenV)):
        yield v
        for e in v.content.log:
            for k in e.key:
                yield from _refs(k)
            if e.val is not None:
                yield from _refs(e.val)
    elif isinstance(v, TupleV):
        for i in v.items:
            yield from _refs(i)
    elif isinstance(v, (App, Opaque)):
        for i in v.args:
            if isinstance(i, Val):
                yield from _refs(i)
    elif isinstance(v, IteV):
        yield from _refs(v.a)
        yield from _refs(v.b)
    elif isinstance(v, BoundV):
        yield from _refs(v.self_)
    elif isinstance(v, ViewV):
        yield from _refs(v.ref)
    elif isinstance(v, PosV):
        yield from _refs(v.e)
