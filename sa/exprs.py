"""Expressions, attribute and item access, builtins."""

import ast
import re
import string
import builtins as _bi
import itertools
from fractions import Fraction

from .logic import *          # noqa: F401,F403
from .num import Rat
from .content import Content, Entry, Forward, NESTED
from .engine import (Engine, State, Exit, Flow, Unsupported, Dead, UNBOUND,
                     _refs)
from .interp import (Interp, BINOPS, DUNDER, CMPDUNDER, REFLECT, LIST_M,
                     SET_M, DICT_M, EXC, BUILTINS, _leaves)

STR_M = set(dir(str))


class Machine(Interp):

    # ========================================================== expressions

    def eval(self, n, st, load=False):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__, n)
        return m(n, st)

    def e_Constant(self, n, st):
        v = n.value
        if isinstance(v, bool):
            return BoolV(v)
        if isinstance(v, (int, float)):
            if isinstance(v, float) and (v != v or v in (
                    float('inf'), float('-inf'))):
                return Opaque('nonfinite')
            return self.num(Rat.const(self.ctx, v))
        if isinstance(v, str) or v is None:
            return NONE if v is None else Const(v)
        return Opaque('const', ())

    def e_Name(self, n, st):
        nm = n.id
        v = st.env.get(nm)
        if v is None and nm not in st.env:
            return self.free_name(nm, st, n)
        if v is UNBOUND or (isinstance(v, IteV) and any(
                x is UNBOUND for _, x in _leaves(v))):
            c = Or(*[c for c, x in _leaves(v) if x is UNBOUND])
            self.implicit('UnboundLocalError', st, n, c)
            v = self.dropunbound(v)
        return v

    def dropunbound(self, v):
        if isinstance(v, IteV):
            a, b = self.dropunbound(v.a), self.dropunbound(v.b)
            if a is UNBOUND:
                return b
            if b is UNBOUND:
                return a
            return ite(v.c, a, b)
        return v

    def free_name(self, nm, st, n):
        fn = st.env.get('__fn__')
        env = fn.env if fn is not None else None
        while env is not None:
            # the closure's frame may still be live: use its current values
            fid = env.get('__fid__')
            for e in reversed(st.stack):
                if e.get('__fid__') == fid and fid is not None:
                    env = e
                    break
            if nm in env:
                return env[nm]
            f2 = env.get('__fn__')
            env = f2.env if f2 is not None else None
        mod = fn.mod if fn is not None else None
        if mod is not None:
            f = self.module_state(mod, nm, st)
            if f is not None:
                return f
            r = self.prog.lookup(mod, nm)
            if r is not None:
                return self.denote(r, nm, st)
        if nm == '__name__':
            return Const(mod.name if mod else '')
        if nm in BUILTINS:
            return ExtV(nm)
        if fn is not None and nm in _locals(fn.node):
            self.implicit('UnboundLocalError', st, n, True)
        self.implicit('NameError', st, n, True)

    def denote(self, r, nm, st):
        if r[0] == 'class':
            return ClassV(r[1])
        if r[0] == 'func':
            return FuncV(r[2], r[1], None, None,
                         r[1].name + '.' + r[2].name)
        if r[0] == 'mod':
            return ModV(r[1])
        if r[0] == 'ext':
            return ExtV(r[1])
        k = (r[1].name, nm)
        if k not in self.globals:
            if isinstance(r[2], ast.Call) and not self.global_ok(r[2], r[1]):
                self.globals[k] = Opaque('global:%s.%s' % k)
            else:
                s = State({'__fn__': FuncV(ast.parse('0', mode='eval'), r[1],
                                           None, None, r[1].name)}, (),
                          {'!events': Content('list')})
                v = self.eval(r[2], s)
                self.freeze(v, s)
                self.globals[k] = v
        v = self.globals[k]
        for x in _refs(v):
            # module-level containers live in the global store
            if isinstance(x, Ref) and x.loc not in st.heap:
                c = self.frozen_heap.get(x.loc)
                if c is not None:
                    st.heap[x.loc] = c
        return v

    def global_ok(self, call, mod):
        f = call.func
        while isinstance(f, ast.Attribute):
            f = f.value
        return isinstance(f, ast.Name) and (f.id in (
            'dict', 'list', 'set', 'frozenset', 'tuple', 'float', 'int',
            'math'))

    def e_Attribute(self, n, st):
        return self.getattr_(self.eval(n.value, st), n.attr, st, n)

    def e_Subscript(self, n, st):
        o = self.eval(n.value, st)
        if isinstance(n.slice, ast.Slice):
            lo, hi, stp = [None if x is None else self.eval(x, st)
                           for x in (n.slice.lower, n.slice.upper,
                                     n.slice.step)]
            return self.getslice(o, lo, hi, stp, st, n)
        i = self.eval(n.slice, st)
        return self.getitem(o, i, st, n)

    def e_Tuple(self, n, st):
        return TupleV(self.elts(n.elts, st, n))

    def elts(self, es, st, n):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, st)
                xs = self.exact_items(v, st)
                if xs is None:
                    raise Unsupported('starred element', n)
                out += xs
            else:
                out.append(self.eval(e, st))
        return out

    def exact_items(self, v, st):
        if isinstance(v, TupleV):
            return list(v.items)
        if isinstance(v, IteV):
            d = self.pcdecide(v.c, st)
            if d is not None:
                return self.exact_items(v.a if d else v.b, st)
            a, b = self.exact_items(v.a, st), self.exact_items(v.b, st)
            if a is None or b is None or len(a) != len(b):
                return None
            return [ite(v.c, x, y) for x, y in zip(a, b)]
        C = self.coll(v, st)
        if C is not None:
            x = C.exact()
            if x is not None:
                return x
            lit = C.literal()
            if lit is not None and all(g is True for g, _ in lit) and \
                    self.simple_log(C):
                return [e.key[0] for _, e in lit]
        return None

    def new_list(self, st, vals, kind='list', hint='l'):
        return self.alloc(st, Content(kind, [
            Entry('add', (), True, (v,)) for v in vals]), hint)

    def e_List(self, n, st):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            r = self.alloc(st, Content('list'), 'l')
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    self.method(r, 'extend', [self.eval(e.value, st)], {},
                                st, n)
                else:
                    self.method(r, 'append', [self.eval(e, st)], {}, st, n)
            return r
        return self.new_list(st, [self.eval(e, st) for e in n.elts])

    def e_Set(self, n, st):
        r = self.alloc(st, Content('set', distinct=True), 's')
        for e in n.elts:
            if isinstance(e, ast.Starred):
                self.method(r, 'update', [self.eval(e.value, st)], {}, st, n)
            else:
                self.method(r, 'add', [self.eval(e, st)], {}, st, n)
        return r

    def e_Dict(self, n, st):
        r = self.alloc(st, Content('dict', distinct=True), 'd')
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.method(r, 'update', [self.eval(v, st)], {}, st, n)
            else:
                kv = self.eval(k, st)
                self.setitem(r, kv, self.eval(v, st), st, n)
        return r

    def e_JoinedStr(self, n, st):
        vals = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                vals.append(self.text(self.eval(v.value, st), st, n))
        return StrV(vals)

    def e_FormattedValue(self, n, st):
        return StrV([self.eval(n.value, st)])

    def e_Lambda(self, n, st):
        fn = st.env['__fn__']
        return FuncV(n, fn.mod, st.env, fn.owner, fn.qual + '.<lambda>')

    def e_NamedExpr(self, n, st):
        v = self.eval(n.value, st)
        st.env[n.target.id] = v
        return v

    def e_Yield(self, n, st):
        v = NONE if n.value is None else self.eval(n.value, st)
        self.method(st.env['!gen'], 'append', [v], {}, st, n)
        return NONE

    def e_YieldFrom(self, n, st):
        v = self.eval(n.value, st)
        self.method(st.env['!gen'], 'extend', [v], {}, st, n)
        return NONE

    def e_Starred(self, n, st):
        raise Unsupported('starred', n)

    def e_IfExp(self, n, st):
        c = self.truth(self.eval(n.test, st), st)
        return self.branch(c, st, lambda s: self.eval(n.body, s),
                           lambda s: self.eval(n.orelse, s))

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)

        def go(i, s):
            v = self.eval(n.values[i], s)
            if i == len(n.values) - 1:
                return v
            c = self.truth(v, s)
            if isinstance(v, BoolV) and not isand:
                v = BoolV(True)
            elif isinstance(v, BoolV):
                v = BoolV(False)
            if isand:
                return self.branch(c, s, lambda t: go(i + 1, t),
                                   lambda t: v)
            return self.branch(c, s, lambda t: v, lambda t: go(i + 1, t))
        return go(0, st)

    def e_UnaryOp(self, n, st):
        v = self.eval(n.operand, st)
        if isinstance(n.op, ast.Not):
            return BoolV(Not(self.truth(v, st)))
        if isinstance(n.op, ast.USub):
            return self.neg(v, st, n)
        if isinstance(n.op, ast.UAdd):
            return v
        return Opaque('invert', (v,))

    def neg(self, v, st, n):
        if isinstance(v, IteV):
            return self.dist(v, st, lambda x, s: self.neg(x, s, n))
        if isinstance(v, ObjV):
            m = self.prog.find_member(v.cls, '__neg__')
            if m:
                return self.call(self.bind(v, m), [], {}, st, n)
            self.implicit('TypeError', st, n, True)
        if isinstance(v, (Sym, App)) and not self.isnum(v):
            return App('neg', (v,))
        r = self.arith('-', self.num(0), v, st)
        if r is None:
            return Opaque('neg', (v,))
        return r

    def isnum(self, v):
        if isinstance(v, (Num, LenV)):
            return True
        if self.arith_num and isinstance(v, (Sym, App)):
            return True
        if isinstance(v, Sym) and v.kind == 'num':
            return True
        return isinstance(v, App) and (v.op in self.NUMAPP or
                                       v.op in self.attr_num)

    NUMAPP = {'hash', 'float', 'int', 'abs', 'round', 'id', 'acos', 'atan2',
              'degrees', 'radians', 'asin', 'atan', 'tan', 'exp', 'log'}

    def e_BinOp(self, n, st):
        a = self.eval(n.left, st)
        b = self.eval(n.right, st)
        return self.binop(BINOPS[type(n.op)], a, b, st, n)

    def binop(self, op, a, b, st, n):
        if isinstance(a, IteV):
            if self.isnumish(a) and self.isnumish(b) and op in '+-*':
                r = self.arith(op, a, b, st)
                if r is not None:
                    return r
            return self.dist(a, st, lambda x, s: self.binop(op, x, b, s, n))
        if isinstance(b, IteV):
            if self.isnumish(a) and self.isnumish(b) and op in '+-*':
                r = self.arith(op, a, b, st)
                if r is not None:
                    return r
            return self.dist(b, st, lambda x, s: self.binop(op, a, x, s, n))
        if isinstance(a, ObjV):
            m = self.prog.find_member(a.cls, '__%s__' % DUNDER[op])
            if m:
                return self.call(self.bind(a, m), [b], {}, st, n)
        if isinstance(b, ObjV):
            m = self.prog.find_member(b.cls, '__r%s__' % DUNDER[op])
            if m:
                return self.call(self.bind(b, m), [a], {}, st, n)
            if not isinstance(a, (Sym, App, Opaque)):
                self.implicit('TypeError', st, n, True)
        if isinstance(a, ObjV):
            self.implicit('TypeError', st, n, True)
        ca, cb = self.coll(a, st), self.coll(b, st)
        if isinstance(a, TupleV) and isinstance(b, TupleV) and op == '+':
            return TupleV(a.items + b.items)
        if ca is not None and cb is not None:
            if ca.kind == 'set' and cb.kind == 'set' and op in '|&-^':
                return self.alloc(st, self.setop(op, ca, cb), 's')
            if ca.kind == 'list' and cb.kind == 'list' and op == '+':
                return self.alloc(st, Content('list', ca.log + cb.log), 'l')
            if ca.kind == 'dict' and cb.kind == 'dict' and op == '|':
                r = self.alloc(st, ca.but(), 'd')
                self.method(r, 'update', [b], {}, st, n)
                return r
            self.implicit('TypeError', st, n, True)
        if ca is not None or cb is not None:
            x = ca if ca is not None else cb
            k = b if ca is not None else a
            if op == '*' and x.kind == 'list':
                c = self.constint(k)
                if c is not None and x.exact() is not None and c < 50:
                    return self.alloc(st, Content('list', x.log * max(c, 0)),
                                      'l')
                return self.alloc(st, Content('list', lost='repetition'),
                                  'l')
            if isinstance(a, (Sym, App, Opaque)) or isinstance(
                    b, (Sym, App, Opaque)):
                return App('bin' + op, (self.snap(a, st), self.snap(b, st)))
            self.implicit('TypeError', st, n, True)
        if isinstance(a, (Const, StrV)) or isinstance(b, (Const, StrV)):
            if a is NONE or b is NONE:
                self.implicit('TypeError', st, n, True)
            if op == '%' or op == '+' or op == '*':
                if op == '+':
                    self.implicit('TypeError', st, n, Not(And(
                        self.istext(a), self.istext(b))))
                return StrV((a, b))
            self.implicit('TypeError', st, n, True)
        if isinstance(a, (PosV, LenV)) or isinstance(b, PosV):
            r = self.arith(op, a, b, st) if op in '+-*' else None
            return r if r is not None else Opaque('idx' + op, (a, b))
        if not (self.isnum(a) or self.isnum(b)) and \
                isinstance(a, (Sym, App, Opaque)) and \
                isinstance(b, (Sym, App, Opaque)):
            return App('bin' + op, (a, b))
        if isinstance(a, BoolV) and isinstance(b, BoolV) and op in '|&^':
            f = {'|': Or(a.f, b.f), '&': And(a.f, b.f),
                 '^': Not(Iff(a.f, b.f))}[op]
            return BoolV(f)
        a, b = self.boolnum(a), self.boolnum(b)
        if isinstance(a, IteV) or isinstance(b, IteV):
            return self.binop(op, a, b, st, n)
        x, y = self.tonum(a), self.tonum(b)
        if x is None or y is None:
            raise Unsupported('operands of %s' % op, n)
        if op in '+-*':
            return self.arith(op, x, y, st)
        if op == '/':
            return self.divide(x, y, st, n)
        if op == '**':
            c = y.r.as_const()
            if c is not None and c.denominator == 1 and 0 <= c <= 8:
                r = self.num(1)
                for _ in range(int(c)):
                    r = self.arith('*', r, x, st)
                return r
            if c == Fraction(1, 2):
                return self.sqrt(x, st, n)
            return App('pow', (x, y))
        if op == '//':
            c = y.r.as_const()
            if c == 0:
                self.implicit('ZeroDivisionError', st, n, True)
            if c is not None:
                q = self.num(x.r / y.r)
                if q.r.integer_valued():
                    return q
                k = q.r.as_const()
                if k is not None:
                    import math
                    return self.num(math.floor(k))
            return App('floordiv', (x, y))
        if op == '%':
            c, d = x.r.as_const(), y.r.as_const()
            if c is not None and d:
                return self.num(c % d)
            return App('mod', (x, y))
        return App('bin' + op, (x, y))

    def boolnum(self, v):
        if isinstance(v, BoolV) and not isinstance(v.f, bool):
            return ite(v.f, self.num(1), self.num(0))
        return v

    def isnumish(self, v):
        if isinstance(v, IteV):
            return self.isnumish(v.a) and self.isnumish(v.b)
        return isinstance(v, (Num, LenV)) or self.isnum(v)

    def divide(self, x, y, st, n):
        if y.r.is_zero():
            self.implicit('ZeroDivisionError', st, n, True)
        self.factor(y.r.n)
        if y.r.as_const() is None:
            z = And(Not(self.pos(y.r)), Not(self.pos(-y.r)))
            self.implicit('ZeroDivisionError', st, n, z)
        return self.num(x.r / y.r)

    def sqrt(self, x, st, n):
        v = self.tonum(x)
        if v is None:
            raise Unsupported('sqrt', n)
        neg = self.pos(-v.r)
        self.implicit('ValueError', st, n, neg)
        self.factor(v.r.n)
        return self.num(v.r.sqrt())

    def setop(self, op, A, B):
        if A.lost or B.lost:
            return Content('set', lost=A.lost or B.lost)
        if op == '|':
            if self.adds_only(A) and self.adds_only(B):
                return Content('set', [e.but(val=None) for e in
                                       A.log + B.log], distinct=True)
        if op in '-&' and self.adds_only(A):
            # keep the structure of the left operand
            log = []
            ok = True
            for e in A.log:
                if len(e.key) != 1:
                    ok = False
                    break
                f = self.mem(B, (e.key[0],))
                log.append(e.but(val=None, g=And(e.g, f if op == '&'
                                                 else Not(f))))
            if ok:
                log = [e for e in log if e.g is not False]
                return Content('set', log, distinct=True)
        b = self.bsym('u')
        fa, fb = self.mem(A, (b,)), self.mem(B, (b,))
        f = {'|': Or(fa, fb), '&': And(fa, fb), '-': And(fa, Not(fb)),
             '^': Not(Iff(fa, fb))}[op]
        return Content('set', [Entry('add', (b,), f, (b,))], distinct=True)

    def adds_only(self, C):
        return all(e.op == 'add' and len(e.key) == 1 for e in C.log)

    # ---------------------------------------------------------- comparison

    OPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=',
           ast.Gt: '>', ast.GtE: '>='}

    def e_Compare(self, n, st):
        a = self.eval(n.left, st)

        def go(i, a, s):
            b = self.eval(n.comparators[i], s)
            f = self.compare(n.ops[i], a, b, s, n)
            if i == len(n.ops) - 1:
                return BoolV(f)
            return self.branch(f, s, lambda t: go(i + 1, b, t),
                               lambda t: BoolV(False))
        return go(0, a, st)

    def compare(self, op, a, b, st, n):
        if isinstance(op, (ast.Is, ast.IsNot)):
            f = self.is_(a, b, st)
            return f if isinstance(op, ast.Is) else Not(f)
        if isinstance(op, (ast.In, ast.NotIn)):
            f = self.contains(b, a, st, n)
            return f if isinstance(op, ast.In) else Not(f)
        return self.cmp(self.OPS[type(op)], a, b, st, n)

    def is_(self, a, b, st):
        if isinstance(a, IteV):
            return Or(And(a.c, self.is_(a.a, b, st)),
                      And(Not(a.c), self.is_(a.b, b, st)))
        if isinstance(b, IteV):
            return Or(And(b.c, self.is_(a, b.a, st)),
                      And(Not(b.c), self.is_(a, b.b, st)))
        if isinstance(a, Ref) and isinstance(b, Ref):
            ra, rb = self.resolve(a, st), self.resolve(b, st)
            if ra.key() == rb.key():
                return True
            if ra.loc != rb.loc:
                return False
            return And(*[self.eq(x, y) for x, y in zip(ra.pre, rb.pre)])
        if isinstance(a, BoolV) and isinstance(b, BoolV):
            return Iff(a.f, b.f)
        for x, y in ((a, b), (b, a)):
            if isinstance(y, BoolV) and isinstance(y.f, bool):
                if isinstance(x, (Sym, App, Opaque)):
                    return self.rel('is:%s' % y.f, x)
                return False
        if isinstance(a, ObjV) and isinstance(b, ObjV):
            return a.key() == b.key()
        if isinstance(a, Num) and isinstance(b, Num):
            # identity of numbers is not determined by their value
            ca, cb = a.r.as_const(), b.r.as_const()
            if ca is not None and cb is not None and ca != cb:
                return False
            return atom('opq', Opaque('is', (a, b)))
        return self.eq(a, b, st, user=True)

    def contains(self, c, x, st, n):
        if isinstance(c, IteV):
            return Or(And(c.c, self.contains(c.a, x, st, n)),
                      And(Not(c.c), self.contains(c.b, x, st, n)))
        if isinstance(x, IteV):
            return Or(And(x.c, self.contains(c, x.a, st, n)),
                      And(Not(x.c), self.contains(c, x.b, st, n)))
        if isinstance(c, TupleV):
            return Or(*[self.eq(i, x, st) for i in c.items])
        if isinstance(c, ViewV) and c.what == 'keys':
            return self.mem(self.content(c.ref, st), (x,))
        C = self.coll(c, st)
        if C is not None:
            return self.mem(C, (x,))
        if isinstance(c, ObjV):
            m = self.prog.find_member(c.cls, '__contains__')
            if m:
                return self.truth(self.call(self.bind(c, m), [x], {}, st, n),
                                  st)
            it = self.iterobj(c, st, n)
            if it is not None:
                return self.contains(it, x, st, n)
        if isinstance(c, (Sym, App, Opaque)):
            return self.rel('in', c, x) if not isinstance(c, Opaque) else \
                atom('opq', Opaque('in', (c, x)))
        if isinstance(c, (Const, StrV)) and c is not NONE:
            return atom('opq', Opaque('instr', (c, x)))
        self.implicit('TypeError', st, n, True)

    def cmp(self, op, a, b, st, n):
        if isinstance(a, IteV):
            return self.cmp_ite(a, lambda x: self.cmp(op, x, b, st, n), st)
        if isinstance(b, IteV):
            return self.cmp_ite(b, lambda x: self.cmp(op, a, x, st, n), st)
        if isinstance(a, ObjV):
            m = self.prog.find_member(a.cls, CMPDUNDER[op])
            if m and m[1] == 'method':
                return self.truth(self.call(self.bind(a, m), [b], {}, st, n),
                                  st)
            if op == '!=':
                m = self.prog.find_member(a.cls, '__eq__')
                if m and m[1] == 'method':
                    return Not(self.truth(self.call(
                        self.bind(a, m), [b], {}, st, n), st))
        if isinstance(b, ObjV) and not isinstance(a, (Sym, App)):
            m = self.prog.find_member(b.cls, CMPDUNDER[REFLECT[op]])
            if m and m[1] == 'method':
                return self.truth(self.call(self.bind(b, m), [a], {}, st, n),
                                  st)
        if op in ('==', '!='):
            f = self.user_eq(a, b, st)
            if f is None:
                f = self.eq(a, b, st)
            return f if op == '==' else Not(f)
        if isinstance(a, LenV) or isinstance(b, LenV):
            f = self.cmp_len(op, a, b)
            if f is not None:
                return f
        if isinstance(a, PosV) and isinstance(b, PosV):
            f = self.cmp_pos(op, a, b)
            if f is not None:
                return f
        if isinstance(a, PosV) and self.constint(b) is not None or \
                isinstance(b, PosV) and self.constint(a) is not None:
            return atom('opq', Opaque('poscmp' + op, (a, b)))
        ca, cb = self.coll(a, st), self.coll(b, st)
        if ca is not None and cb is not None and ca.kind == 'set' and \
                cb.kind == 'set':
            return self.cmp_set(op, ca, cb)
        if isinstance(a, TupleV) and isinstance(b, TupleV):
            return self.cmp_tuple(op, a.items, b.items, st, n)
        na, nb = self.isnum(a) or isinstance(a, BoolV), \
            self.isnum(b) or isinstance(b, BoolV)
        if not (na or nb):
            if isinstance(a, (Sym, App, Opaque)) and \
                    isinstance(b, (Sym, App, Opaque)):
                if op in ('>', '>='):
                    a, b, op = b, a, REFLECT[op]
                return self.rel('cmp' + op, a, b)
            if isinstance(a, (Const, StrV)) and isinstance(b, (Const, StrV)):
                if NONE.key() in (a.key(), b.key()):
                    self.implicit('TypeError', st, n, True)
                return atom('opq', Opaque('strcmp', (a, b)))
            if ca is not None and cb is not None:
                return atom('opq', Opaque('collcmp', ()))
            self.implicit('TypeError', st, n, True)
        if isinstance(a, (Const, TupleV, Ref, ObjV, StrV)) or \
                isinstance(b, (Const, TupleV, Ref, ObjV, StrV)):
            self.implicit('TypeError', st, n, True)
        a, b = self.boolnum(a), self.boolnum(b)
        if isinstance(a, IteV) or isinstance(b, IteV):
            return self.cmp(op, a, b, st, n)
        x, y = self.tonum(a), self.tonum(b)
        if x is None or y is None:
            raise Unsupported('comparison', n)
        r = x.r - y.r
        if op == '>':
            return self.pos(r)
        if op == '<':
            return self.pos(-r)
        if op == '<=':
            return Not(self.pos(r))
        return Not(self.pos(-r))

    def cmp_ite(self, v, fn, st):
        d = self.pcdecide(v.c, st)
        if d is not None:
            return fn(v.a if d else v.b)
        return Or(And(v.c, fn(v.a)), And(Not(v.c), fn(v.b)))

    def user_eq(self, a, b, st):
        """Equality with values of user-defined type is not identity."""
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (Sym, App)) and y is NONE and \
                    self.uservalue(x):
                return self.rel('user==None', x)
        if isinstance(a, (Sym, App)) and isinstance(b, (Sym, App)) and \
                self.uservalue(a) and self.uservalue(b):
            a, b = sorted((a, b), key=lambda x: repr(x.key()))
            return self.rel('user==', a, b)
        return None

    def uservalue(self, x):
        return isinstance(x, Sym) and x.kind == 'uval' or \
            isinstance(x, App) and x.op in self.user_ops

    user_ops = set()

    def cmp_len(self, op, a, b):
        k = self.constint(b)
        if isinstance(a, LenV) and k is not None:
            if op == '>':
                return self.len_ge(a, k + 1)
            if op == '>=':
                return self.len_ge(a, k)
            if op == '<':
                return Not(self.len_ge(a, k))
            return Not(self.len_ge(a, k + 1))
        if isinstance(b, LenV) and self.constint(a) is not None:
            return self.cmp_len(REFLECT[op], b, a)
        return None

    def cmp_pos(self, op, a, b):
        if a.content.uid != b.content.uid:
            return atom('opq', Opaque('poscmp', (a, b)))
        if op in ('>', '>='):
            return self.cmp_pos(REFLECT[op], b, a)
        d = b.off - a.off
        if a.key() == b.key():
            return op == '<='
        if not a.content.distinct:
            return atom('opq', Opaque('poscmp', (a, b)))
        lt = self.posl(a.content, a.e, b.e)
        if op == '<' and d == 0:
            return lt
        if op == '<=' and d == 0:
            return Or(lt, self.eq(a.e, b.e))
        if op == '<' and d == 1:
            return Or(lt, self.eq(a.e, b.e))
        if op == '<=' and d == -1:
            return lt
        return atom('opq', Opaque('poscmp', (a, b)))

    def posl(self, C, a, b):
        if a.key() == b.key():
            return False
        return atom('posl', C.uid, a, b)

    def cmp_set(self, op, A, B):
        b = self.bsym('s')
        fa, fb = self.mem(A, (b,)), self.mem(B, (b,))
        if op in ('>', '>='):
            fa, fb = fb, fa
            op = REFLECT[op]
        sub = Not(self.exists((b,), And(fa, Not(fb))))
        if op == '<=':
            return sub
        return And(sub, self.exists((b,), And(fb, Not(fa))))

    def cmp_tuple(self, op, xs, ys, st, n):
        if not xs or not ys:
            r = {'<': len(xs) < len(ys), '<=': len(xs) <= len(ys),
                 '>': len(xs) > len(ys), '>=': len(xs) >= len(ys)}[op]
            return r
        e = self.eq(xs[0], ys[0], st)
        strict = op[0]
        if len(xs) == 1 and len(ys) == 1:
            return self.cmp(op, xs[0], ys[0], st, n)
        return Or(self.cmp(strict, xs[0], ys[0], st, n),
                  And(e, self.cmp_tuple(op, xs[1:], ys[1:], st, n)))

    # -------------------------------------------------------------- calls

    def e_Call(self, n, st):
        # super().m(...), Class.m(self, ...)
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and \
                'super' not in st.env:
            return self.make_super(n, st)
        if isinstance(n.func, ast.Name) and n.func.id in ('any', 'all') and \
                len(n.args) == 1 and isinstance(n.args[0],
                                                ast.GeneratorExp) and \
                n.func.id not in st.env:
            return self.quant_call(n, st)
        f = self.eval(n.func, st)
        self.mark_strict(f, n)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                xs = self.exact_items(v, st)
                if xs is None:
                    if isinstance(f, (Sym, App)):
                        C = self.coll(v, st)
                        if C is not None:
                            args.append(App('*', (SnapV(C, 'arg'),)))
                            continue
                        args.append(App('*', (v,)))
                        continue
                    if isinstance(f, ExtV) and f.path.split('.')[-1] in (
                            'union', 'intersection', 'chain'):
                        args.append(App('*', (self.snap(v, st),)))
                        continue
                    raise Unsupported('starred argument', n)
                args += xs
            else:
                args.append(self.eval(a, st))
        kwargs = {}
        for k in n.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                C = self.coll(v, st)
                lit = C.literal() if C is not None else None
                if lit is None or any(g is not True or not isinstance(
                        e.key[0], Const) for g, e in lit):
                    raise Unsupported('** argument', n)
                for _, e in lit:
                    kwargs[e.key[0].v] = e.val
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs, st, n)

    def make_super(self, n, st):
        fn = st.env.get('__fn__')
        env = st.env
        owner = fn.owner
        names = [a.arg for a in fn.node.args.args]
        if n.args:
            cv = self.eval(n.args[0], st)
            sv = self.eval(n.args[1], st)
            if isinstance(cv, (ObjV, TupleV, Const)) or (
                    isinstance(cv, ClassV) and isinstance(
                        sv, (ObjV, ClassV)) and
                    cv.cls not in self.prog.mro(sv.cls)):
                # neither a class nor one of the object
                self.implicit('TypeError', st, n, True)
                raise Dead()
            owner = cv.cls if isinstance(cv, ClassV) else owner
        else:
            sv = env.get(names[0]) if names else None
        if not isinstance(sv, (ObjV, ClassV)) or owner is None:
            raise Unsupported('super()', n)
        return SuperV(sv, owner, sv.cls)

    def quant_call(self, n, st):
        g = n.args[0]
        acc = self.comp(g, st, 'list')
        C = self.content(acc, st)
        return self.any_all(n.func.id, C, st)

    def any_all(self, which, C, st):
        if C.lost:
            return BoolV(atom('opq', Opaque(which)))
        out = []
        for e in C.log:
            if e.op != 'add':
                b = self.bsym('e')
                t = self.truth(b, st)
                out = [self.exists((b,), And(self.mem(C, (b,)),
                                             t if which == 'any'
                                             else Not(t)))]
                break
            t = self.truth(e.key[0], st)
            out.append(self.exists(e.B, And(e.g, t if which == 'any'
                                            else Not(t))))
        f = Or(*out)
        return BoolV(f if which == 'any' else Not(f))

    def e_ListComp(self, n, st):
        return self.comp(n, st, 'list')

    def e_SetComp(self, n, st):
        return self.comp(n, st, 'set')

    def e_GeneratorExp(self, n, st):
        if n is self.dropped:
            # never consumed: only its first iterable is evaluated
            self.iter_content(self.eval(n.generators[0].iter, st), st, n)
            return SnapV(Content('list'), 'iter')
        before = dict(st.heap), dict(st.fields)
        r = self.comp(n, st, 'list')
        self.no_lazy_effects(before, st, n)
        return SnapV(self.content(r, st), 'iter')

    STRICT = ('list', 'tuple', 'set', 'frozenset', 'dict', 'sorted', 'sum',
              'max', 'min', 'len', 'deque', 'OrderedDict', 'extend', 'update',
              'join', 'reversed')

    def mark_strict(self, f, n):
        """Arguments that the called function consumes at once, in full."""
        name = f.path.split('.')[-1] if isinstance(f, ExtV) else \
            n.func.attr if isinstance(n.func, ast.Attribute) and \
            not isinstance(f, (FuncV, BoundV)) else None
        if isinstance(f, BoundV) and not isinstance(f.fn, FuncV) and \
                isinstance(n.func, ast.Attribute):
            name = n.func.attr
        if name in self.STRICT:
            for a in n.args:
                self.strict.add(id(a))

    def no_lazy_effects(self, before, st, n):
        """The analysis evaluates iterators when they are made.  That is
        exact for values; updates made on the way happen only when (and as
        far as) the iterator is consumed."""
        if id(n) in self.strict:
            return
        heap, fields = before
        for k, v in heap.items():
            if k == '!events':
                w = st.heap.get(k)
                if w is not v and len(w.log) != len(v.log):
                    raise Unsupported('lazily evaluated effects', n)
            w = st.heap.get(k)
            if w is not v and (w is None or w.log != v.log):
                raise Unsupported('lazily evaluated effects', n)
        if '!events' in st.heap and '!events' not in heap:
            raise Unsupported('lazily evaluated effects', n)
        for k, v in fields.items():
            w = st.fields.get(k)
            if w is not v and (w is None or w.key() != v.key()):
                raise Unsupported('lazily evaluated effects', n)

    def e_DictComp(self, n, st):
        return self.comp(n, st, 'dict')

    def comp(self, n, st, kind):
        """Comprehensions are loops that fill a fresh collection."""
        acc = self.alloc(st, Content(kind, distinct=kind != 'list'), 'comp')
        nm = '!c%d' % len(st.env)
        saved = dict(st.env)
        st.env[nm] = acc
        ld = ast.Name(id=nm, ctx=ast.Load())
        if kind == 'dict':
            inner = ast.Assign(targets=[ast.Subscript(
                value=ld, slice=n.key, ctx=ast.Store())], value=n.value)
        else:
            inner = ast.Expr(value=ast.Call(func=ast.Attribute(
                value=ld, attr='append' if kind == 'list' else 'add',
                ctx=ast.Load()), args=[n.elt], keywords=[]))
        body = [inner]
        for g in reversed(n.generators):
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=g.iter, body=body,
                            orelse=[])]
        for x in ast.walk(body[0]):
            if not hasattr(x, 'lineno'):
                x.lineno = n.lineno
                x.col_offset = n.col_offset
        fl = self.stmt(body[0], st)
        if fl.next is None:
            raise Dead()
        s = fl.next
        walrus = {x.target.id for x in ast.walk(n)
                  if isinstance(x, ast.NamedExpr)}
        env = dict(saved)
        for k in saved:
            if k in s.env:
                env[k] = s.env[k] if k in walrus else saved[k]
        st.become(s)
        st.env = env
        return acc

    # -------------------------------------------------------- attributes

    def getattr_(self, v, name, st, n):
        if isinstance(v, IteV):
            # a plain field of every alternative needs no join of states
            return self.dist(v, st, lambda x, s: self.getattr_(x, name, s,
                                                               n))
        if isinstance(v, ObjV):
            f = st.fields.get((v.oid, name))
            if v.oid in self.sealed and (f is not None or (
                    self.prog.find_member(v.cls, name) is None)):
                raise Unsupported('private state of a %s accessed'
                                  % v.cls.name, n)
            if f is None:
                d = self.frozen_fields.get(v.oid)
                f = d.get(name) if d else None
            if f is not None and (f is UNBOUND or isinstance(f, IteV) and any(
                    x is UNBOUND for _, x in _leaves(f))):
                # a missing one is looked for in the class
                c = Or(*[c for c, x in _leaves(f) if x is UNBOUND])
                d = self.pcdecide(c, st)
                if self.reads is not None:
                    self.reads.add((v.oid, name))
                if d is not True:
                    g = self.dropunbound(f)
                    if d is False:
                        return g
                    return self.branch(
                        c, st, lambda s: self.of_class(v, name, s, n),
                        lambda s: g)
                f = None
            if f is not None:
                if self.reads is not None:
                    self.reads.add((v.oid, name))
                return f
            return self.of_class(v, name, st, n)
        if isinstance(v, ClassV):
            if name == '__name__':
                return Const(v.cls.name)
            f = self.class_state(v.cls, name, st)
            if f is not None:
                return f
            m = self.prog.find_member(v.cls, name)
            if m is None:
                self.implicit('AttributeError', st, n, True)
            owner, what, node = m
            if what == 'prop':
                return Opaque('property')
            if what == 'method':
                k = owner.kinds.get(name)
                if k == 'class':
                    return BoundV(v, self.mfunc(owner, name, node))
                return self.mfunc(owner, name, node)
            return self.class_value(owner, name, node, st)
        if isinstance(v, SuperV):
            m = self.prog.find_member(v.dyn, name, after=v.cls)
            if m is None:
                if name == '__init__':
                    return ExtV('noop')
                if name == '__setattr__':
                    return ExtV('super.__setattr__', v)
                if name == '__eq__':
                    return ExtV('noop')
                self.implicit('AttributeError', st, n, True)
            owner, what, node = m
            if what == 'prop':
                fn = FuncV(node['get'], owner.mod, None, owner,
                           owner.qual + '.' + name)
                return self.call_func(fn, [v.self_], {}, st, n)
            if what == 'method':
                return self.bound(owner, name, node, v.self_, v.dyn)
            return self.class_value(owner, name, node, st)
        if isinstance(v, ModV):
            f = self.module_state(v.mod, name, st)
            if f is not None:
                return f
            r = self.prog.lookup(v.mod, name)
            if r is None:
                self.implicit('AttributeError', st, n, True)
            return self.denote(r, name, st)
        if isinstance(v, ExtV):
            if v.path in ('math.pi', ):
                self.implicit('AttributeError', st, n, True)
            if v.path == 'math' and name == 'pi' or \
                    v.path == 'numpy' and name == 'pi':
                return self.num(Rat.sym(self.ctx, 'pi', 'len', None))
            return ExtV(v.path + '.' + name)
        if isinstance(v, (Ref, SnapV, ViewV)):
            C = self.coll(v, st) if not isinstance(v, SnapV) else v.content
            ok = {'list': LIST_M, 'set': SET_M, 'dict': DICT_M}[C.kind]
            if isinstance(v, ViewV):
                ok = set(dir({}.keys())) | set(dir({}.items()))
            if isinstance(v, SnapV) and v.what in ('iter', 'array'):
                ok = {'tolist', 'T', '__next__', '__iter__', 'shape', 'copy'}
                if v.what == 'array' and name == 'T':
                    A = self.rows(v, st)
                    if A is not None:
                        return self.matrix(list(zip(*A)))
                    return Opaque('array.T')
                if v.what == 'array':
                    ok = ok | {'dot'}
            if name not in ok:
                self.implicit('AttributeError', st, n, True)
            return ExtV('m:' + name, v)
        if isinstance(v, TupleV):
            if name not in dir(tuple):
                self.implicit('AttributeError', st, n, True)
            return ExtV('m:' + name, v)
        if isinstance(v, (StrV, Const)):
            if v is NONE:
                self.implicit('AttributeError', st, n, True)
            if name not in STR_M:
                self.implicit('AttributeError', st, n, True)
            return ExtV('m:' + name, v)
        if isinstance(v, (Num, LenV, BoolV, PosV)):
            if name not in dir(float) + dir(int):
                self.implicit('AttributeError', st, n, True)
            return ExtV('m:' + name, v)
        if isinstance(v, Sym) and v.kind == 'num':
            self.implicit('AttributeError', st, n, True)
        if isinstance(v, App) and v.op == 'sliceobj':
            if name in ('start', 'stop', 'step'):
                return v.args[('start', 'stop', 'step').index(name)]
            if name == 'indices':
                return ExtV('m:indices', v)
        if isinstance(v, (Sym, App)):
            if name in ('__name__', '__qualname__'):
                # callable objects need not have one
                self.implicit('AttributeError', st, n, Not(self.rel(
                    'hasattr:' + name, v)))
            return App('attr:' + name, (v,))
        if isinstance(v, Opaque):
            return Opaque('attr:' + name, (v,))
        if isinstance(v, (FuncV, BoundV)):
            if name in ('__name__', '__qualname__', '__doc__'):
                return StrV((v,))
            return Opaque('attr:' + name, (v,))
        if isinstance(v, ExcV):
            return Opaque('exc:' + name)
        raise Unsupported('attribute %s' % name, n)

    def of_class(self, v, name, st, n):
        if name == '__class__':
            return ClassV(v.cls)
        f = self.class_state(v.cls, name, st)
        if f is not None:
            return f
        m = self.prog.find_member(v.cls, name)
        if m is None:
            self.implicit('AttributeError', st, n, True)
        owner, what, node = m
        if what == 'prop':
            if 'get' not in node:
                self.implicit('AttributeError', st, n, True)
            fn = FuncV(node['get'], owner.mod, None, owner,
                       owner.qual + '.' + name)
            return self.call_func(fn, [v], {}, st, n)
        if what == 'method':
            return self.bound(owner, name, node, v, v.cls)
        return self.class_value(owner, name, node, st)

    def has_field(self, v, name, st):
        """Formula: the object has the attribute."""
        if self.prog.find_member(v.cls, name) is not None:
            return True
        f = st.fields.get((v.oid, name))
        if f is None:
            return name in self.frozen_fields.get(v.oid, {})
        if self.reads is not None:
            self.reads.add((v.oid, name))
        return Or(*[c for c, x in _leaves(f) if x is not UNBOUND])

    def bound(self, owner, name, node, v, dyn):
        k = owner.kinds.get(name)
        fn = self.mfunc(owner, name, node)
        if k == 'static':
            return fn
        if k == 'class':
            return BoundV(ClassV(dyn), fn)
        if isinstance(v, ClassV):
            return fn
        return BoundV(v, fn)

    def mfunc(self, owner, name, node):
        return FuncV(node, owner.mod, None, owner, owner.qual + '.' + name)

    def class_state(self, cls, name, st):
        """An attribute that was assigned to the class later on."""
        if name not in self.prog.class_stores:
            return None
        # (what earlier calls left there is known from the start only)
        self.memoised = True
        mro = self.prog.mro(cls)
        for i, c in enumerate(mro):
            f = st.fields.get(('!class:' + c.qual, name), UNBOUND)
            own = name in c.props or name in c.methods or name in c.assigns
            if f is UNBOUND:
                if own:
                    return None
                continue
            if not any(x is UNBOUND for _, x in _leaves(f)):
                return f
            if not own:
                raise Unsupported('attribute of a class')
            if name not in c.assigns:
                raise Unsupported('attribute of a class')
            v = self.class_value(c, name, c.assigns[name], st)

            def go(x):
                if x is UNBOUND:
                    return v
                if isinstance(x, IteV):
                    return ite(x.c, go(x.a), go(x.b))
                return x
            return go(f)
        return None

    def module_state(self, mod, name, st):
        """A variable of a module that functions assign to."""
        if (mod.name, name) not in self.prog.global_stores:
            return None
        self.memoised = True
        f = st.fields.get(('!module:' + mod.name, name), UNBOUND)
        if f is UNBOUND:
            return None
        if any(x is UNBOUND for _, x in _leaves(f)):
            r = self.prog.lookup(mod, name)
            if r is None:
                raise Unsupported('variable of a module')
            v = self.denote(r, name, st)

            def go(x):
                if x is UNBOUND:
                    return v
                if isinstance(x, IteV):
                    return ite(x.c, go(x.a), go(x.b))
                return x
            return go(f)
        return f

    def class_value(self, owner, name, node, st):
        """Value of an assignment in a class body."""
        if isinstance(node, ast.Attribute) and \
                isinstance(node.value, ast.Name):
            r = self.prog.lookup(owner.mod, node.value.id)
            if r and r[0] == 'class':
                m = self.prog.find_member(r[1], node.attr)
                if m and m[1] == 'method':
                    return self.mfunc(m[0], node.attr, m[2])
        if isinstance(node, ast.Name) and node.id in owner.methods:
            return self.mfunc(owner, node.id, owner.methods[node.id])
        k = ('cls', owner.qual, name)
        if k not in self.globals:
            s = State({'__fn__': FuncV(owner.node, owner.mod, None, owner,
                                       owner.qual)}, (),
                      {'!events': Content('list')})
            v = self.eval(node, s)
            self.freeze(v, s)
            self.globals[k] = v
        v = self.globals[k]
        for x in _refs(v):
            if isinstance(x, Ref) and x.loc not in st.heap:
                c = self.frozen_heap.get(x.loc)
                if c is not None:
                    st.heap[x.loc] = c
        return v

    def setattr_(self, o, name, v, st, n):
        if isinstance(o, IteV):
            self.dist(o, st, lambda x, s: self.setattr_(x, name, v, s, n)
                      or NONE)
            return
        if isinstance(o, ObjV):
            m = self.prog.find_member(o.cls, name)
            if m is not None and m[1] == 'prop':
                if 'set' not in m[2]:
                    self.implicit('AttributeError', st, n, True)
                fn = FuncV(m[2]['set'], m[0].mod, None, m[0],
                           m[0].qual + '.' + name + '.setter')
                self.call_func(fn, [o, v], {}, st, n)
                return
            if self.prog.find_member(o.cls, '__setattr__') is not None:
                raise Unsupported('__setattr__', n)
            if self.sealed.get(o.oid):
                raise Unsupported('private state of a %s written'
                                  % o.cls.name, n)
            st.fields[(o.oid, name)] = v
            return
        if isinstance(o, (Num, Const, TupleV, BoolV, StrV, Ref)):
            self.implicit('AttributeError', st, n, True)
        if isinstance(o, ClassV) and name in self.prog.class_stores:
            m = self.prog.find_member(o.cls, name)
            if m is None or m[1] == 'assign':
                self.memoised = True
                st.fields['!class:' + o.cls.qual, name] = v
                return
        raise Unsupported('attribute store on %s' % show(o), n)

    # ------------------------------------------------------------- items

    def getitem(self, o, i, st, n):
        if isinstance(o, IteV):
            return self.dist(o, st, lambda x, s: self.getitem(x, i, s, n))
        if isinstance(i, IteV) and not isinstance(o, (Sym, App)):
            return self.dist(i, st, lambda x, s: self.getitem(o, x, s, n))
        if isinstance(i, App) and i.op == 'sliceobj':
            return self.getslice(o, *i.args, st, n)
        if isinstance(o, TupleV):
            k = self.constint(i)
            if k is None:
                if isinstance(i, PosV) and i.off == 0:
                    return i.e
                raise Unsupported('tuple index', n)
            if not -len(o.items) <= k < len(o.items):
                self.implicit('IndexError', st, n, True)
            return o.items[k]
        if isinstance(o, Ref):
            r = self.resolve(o, st)
            C = self.raw(r.loc, st)
            if self.reads is not None:
                self.reads.add(r.loc)
            if r.pre and C.sub == 'list' or not r.pre and C.kind == 'list':
                return self.list_index(self.content(r, st), i, st, n)
            kind = C.sub if r.pre else C.kind
            if kind == 'set':
                self.implicit('TypeError', st, n, True)
            if C.lost:
                return Opaque('val:' + C.lost, (i,))
            path = r.pre + (i,)
            self.implicit('KeyError', st, n, Not(self.mem(C, path)))
            if C.sub and not r.pre:
                return Ref(r.loc, (i,))
            return self.lookup(C, path)
        if isinstance(o, (SnapV, ViewV)):
            C = self.coll(o, st)
            if C.kind == 'list':
                return self.list_index(C, i, st, n)
            if C.kind == 'dict':
                self.implicit('KeyError', st, n, Not(self.mem(C, (i,))))
                return self.lookup(C, (i,))
            self.implicit('TypeError', st, n, True)
        if isinstance(o, ObjV):
            m = self.prog.find_member(o.cls, '__getitem__')
            if m:
                return self.call(self.bind(o, m), [i], {}, st, n)
            self.implicit('TypeError', st, n, True)
        if isinstance(o, (Sym, App)):
            return self.app('item', (o, self.snap(i, st)))
        if isinstance(o, Opaque):
            return Opaque('item', (o, i))
        if isinstance(o, (Const, StrV)) and o is not NONE:
            return StrV((o, i))
        self.implicit('TypeError', st, n, True)

    def list_index(self, C, i, st, n):
        xs = C.exact()
        k = self.constint(i)
        if k is not None and xs is not None:
            if not -len(xs) <= k < len(xs):
                self.implicit('IndexError', st, n, True)
            return xs[k]
        if C.lost:
            return Opaque('index:' + C.lost)
        if k is None:
            if isinstance(i, PosV) and i.content.uid == C.uid and \
                    i.off == 0:
                return i.e
            if isinstance(i, PosV) and i.off == 0 and self.same_seq(
                    i.content, C):
                return i.e
            if isinstance(i, LenV) and i.content.uid == C.uid and i.off < 0:
                k = i.off
            elif isinstance(i, PosV) and C.distinct and (
                    i.content.uid == C.uid or self.same_seq(i.content, C)) \
                    and i.off in (1, -1):
                return self.neighbour(i, st, n)
            else:
                return Opaque('index', (i,))
        need = k + 1 if k >= 0 else -k
        self.implicit('IndexError', st, n, Not(self.count_ge(C, need)))
        lit = C.literal()
        if lit is not None:
            v = self.nth(lit if k >= 0 else lit[::-1],
                         k if k >= 0 else -k - 1)
            if v is not None:
                return v
        if k >= 0 and C.log and all(
                e.op == 'add' and not e.B and self.decided(e.g, st)
                for e in C.log[:k + 1]) and len(C.log) > k:
            return C.log[k].key[0]
        if not all(e.op == 'add' for e in C.log):
            return Opaque('index', (self.num(k),))
        return self.arbitrary(C, k, st)

    def neighbour(self, i, st, n):
        """The element next to i.e in a sequence without repetition."""
        C, up = i.content, i.off > 0
        op = 'next%+d:%d' % (i.off, C.uid)

        def after(a, b):
            return self.posl(C, a, b) if up else self.posl(C, b, a)

        def some(a):
            c = self.bsym('nx')
            return self.exists((c,), And(self.mem(C, (c,)), after(a, c)))

        def axiom(e, v):
            c = self.bsym('nx')
            near = And(self.mem(C, (v,)), after(e, v), Not(self.exists(
                (c,), And(self.mem(C, (c,)), after(e, c), after(c, v)))))
            # the one before the first is the last
            first = True if up else And(
                self.mem(C, (v,)), Not(self.exists((c,), And(
                    self.mem(C, (c,)), after(c, v)))))
            return Implies(self.mem(C, (e,)), Or(
                And(some(e), near), And(Not(some(e)), first)))
        self.termax[op] = axiom
        if up:
            self.implicit('IndexError', st, n, Not(some(i.e)))
        return App(op, (i.e,))

    def decided(self, g, st):
        return self.pcdecide(g, st) is True

    def same_seq(self, A, B):
        return len(A.log) == len(B.log) and all(
            x is y for x, y in zip(A.log, B.log))

    def nth(self, lit, k):
        """k-th present item of a guarded item list."""
        if len(lit) > 6:
            return None

        def go(i, k):
            if i >= len(lit):
                return None
            g, e = lit[i]
            if g is True:
                return e.key[0] if k == 0 else go(i + 1, k - 1)
            a = e.key[0] if k == 0 else go(i + 1, k - 1)
            b = go(i + 1, k)
            if a is None:
                return b
            if b is None:
                return a
            return ite(g, a, b)
        return go(0, k)

    def arbitrary(self, C, k, st):
        """The k-th element of a collection in unknown order."""
        b = Sym('$arb')
        f = self.canon(self.mem(C, (b,)))
        reg = self.serial.setdefault('arb', [])
        for f2, no in reg:
            if fkey(f2) == fkey(f) or (
                    set(syms_in(f2)) == set(syms_in(f)) and
                    self.equivalent(f2, f)):
                break
        else:
            no = len(reg)
            reg.append((f, no))
        free = [s for s in syms_in(f).values() if s.name != '$arb']
        args = sorted(free, key=lambda s: s.name)

        def el(j):
            if args:
                return App('elem%d:%d' % (no, j), args)
            return Sym('elem%d:%d' % (no, j))
        v = el(k)
        fs = [self.mem(C, (v,))]
        if C.distinct:
            rng = range(k) if k >= 0 else range(k + 1, 0)
            for j in rng:
                fs.append(Not(self.eq(v, el(j))))
        for x in fs:
            if x is not True and self.pcdecide(x, st) is not True:
                st.pc = st.pc + (x,)
        return v

    def list_tail(self, C, k, st, n):
        """C[k:]"""
        if C.lost:
            return Content('list', lost=C.lost)
        if k == 0:
            return C.but(kind='list')
        if len(C.log) >= k and all(e.op == 'add' and not e.B and
                                   self.decided(e.g, st)
                                   for e in C.log[:k]):
            return Content('list', C.log[k:], distinct=C.distinct)
        if not C.log:
            return Content('list')
        # nothing is lost if the list is known to be empty when short
        if len(C.log) >= k and all(e.op == 'add' and not e.B for e in
                                   C.log[:k]):
            gs = [fkey(e.g) for e in C.log[:k]]
            if len(set(gs)) == 1 and all(
                    self.implied([e.g], C.log[0].g) for e in C.log[k:]):
                return Content('list', C.log[k:], distinct=C.distinct)
        if (C.distinct or k == 1 and not C.log[0].setlike) and \
                len(C.log) == 1 and C.log[0].op == 'add':
            e = self.rename(C.log[0])
            fs = []
            # an element that is skipped may occur a second time
            again = False if C.distinct else self.rel(
                self.fresh('again'), e.key[0])
            for j in range(k):
                s = st.fork(self.count_ge(C, j + 1))
                w = self.arbitrary(C, j, s)
                for x in s.pc[len(st.pc):]:
                    # facts about that element hold whenever it exists
                    st.pc = st.pc + (Implies(self.count_ge(C, j + 1), x),)
                fs.append(Implies(self.count_ge(C, j + 1),
                                  Or(Not(self.eq(e.key[0], w)), again)))
            return Content('list', [e.but(g=And(e.g, *fs))],
                           distinct=C.distinct)
        r = self.guarded_part(C, k, None)
        return Content('list', lost='slice') if r is None else r

    def guarded_part(self, C, lo, hi):
        """C[lo:hi] of a list of items that may each be missing."""
        if C.lost or len(C.log) > 6 or any(e.op != 'add' or e.B
                                           for e in C.log):
            return None

        def least(k, gs):
            return Or(*[And(*c) for c in itertools.combinations(gs, k)])
        out = []
        for i, e in enumerate(C.log):
            gs = [x.g for x in C.log[:i]]
            g = And(e.g, least(lo, gs) if lo else True,
                    True if hi is None else Not(least(hi, gs)))
            if g is not False:
                out.append(e.but(g=g))
        return Content('list', out, distinct=C.distinct)

    def getslice(self, o, lo, hi, stp, st, n):
        if isinstance(o, IteV):
            return self.dist(o, st, lambda x, s: self.getslice(
                x, lo, hi, stp, s, n))
        ks = [None if (x is None or x is NONE) else self.constint(x)
              for x in (lo, hi, stp)]
        bad = any(k is None and x is not None and x is not NONE
                  for k, x in zip(ks, (lo, hi, stp)))
        if isinstance(o, TupleV) and not bad:
            return TupleV(o.items[slice(*ks)])
        if isinstance(o, ObjV):
            m = self.prog.find_member(o.cls, '__getitem__')
            if m:
                return self.call(self.bind(o, m), [App('sliceobj', [
                    NONE if x is None else x for x in (lo, hi, stp)])], {},
                    st, n)
            self.implicit('TypeError', st, n, True)
        C = self.coll(o, st)
        if C is None:
            if isinstance(o, (Sym, App)):
                return App('slice', [o] + [NONE if x is None else x
                                           for x in (lo, hi, stp)])
            if isinstance(o, (StrV, Const)) and o is not NONE:
                return StrV((o,))
            if isinstance(o, Opaque):
                return Opaque('slice', (o,))
            self.implicit('TypeError', st, n, True)
        if C.kind != 'list':
            self.implicit('TypeError', st, n, True)
        xs = C.exact()
        if xs is not None and not bad:
            return self.new_list(st, xs[slice(*ks)])
        if ks[2] in (None, 1) and ks[1] is None and hi is None:
            if isinstance(lo, PosV):
                # elements after (or from) a position
                if lo.content.uid == C.uid or self.same_seq(lo.content, C):
                    r = self.pos_slice(C, lo, st)
                    if r is not None:
                        return self.alloc(st, r, 'sl')
            elif not bad and (ks[0] is None or ks[0] >= 0):
                return self.alloc(st, self.list_tail(C, ks[0] or 0, st, n),
                                  'sl')
        if ks[2] in (None, 1) and lo is None and isinstance(hi, PosV) and \
                (hi.content.uid == C.uid or self.same_seq(hi.content, C)):
            r = self.pos_slice(C, hi, st, before=True)
            if r is not None:
                return self.alloc(st, r, 'sl')
        if ks[2] in (None, 1) and not bad and ks[1] is not None and \
                ks[1] >= 0 and (ks[0] or 0) >= 0:
            r = self.guarded_part(C, ks[0] or 0, ks[1])
            if r is not None:
                return self.alloc(st, r, 'sl')
        if ks == [None, None, -1] and C.log and len(C.log) == 1:
            return self.alloc(st, C.but(), 'sl')
        return self.alloc(st, Content('list', lost='slice'), 'sl')

    def pos_slice(self, C, p, st, before=False):
        if not C.distinct or len(C.log) != 1 or C.log[0].op != 'add':
            return None
        e = self.rename(C.log[0])
        x = e.key[0]
        if before:
            if p.off == 0:
                f = self.posl(p.content, x, p.e)
            elif p.off == 1:
                f = Or(self.posl(p.content, x, p.e), self.eq(x, p.e))
            else:
                return None
        elif p.off == 1:
            f = self.posl(p.content, p.e, x)
        elif p.off == 0:
            f = Or(self.posl(p.content, p.e, x), self.eq(x, p.e))
        else:
            return None
        return Content('list', [e.but(g=And(e.g, f))], distinct=True)

    def setitem(self, o, i, v, st, n):
        if isinstance(o, IteV):
            self.dist(o, st, lambda x, s: self.setitem(x, i, v, s, n)
                      or NONE)
            return
        if isinstance(o, ObjV):
            m = self.prog.find_member(o.cls, '__setitem__')
            if m:
                self.call(self.bind(o, m), [i, v], {}, st, n)
                return
            self.implicit('TypeError', st, n, True)
        if not isinstance(o, Ref):
            if isinstance(o, (Sym, App)):
                self.event(st, 'setitem', [o, i, self.snap(v, st)], [v], n)
                return
            self.implicit('TypeError', st, n, True)
        r = self.resolve(o, st)
        C = self.raw(r.loc, st)
        kind = C.sub if r.pre else C.kind
        if kind == 'list':
            self.list_store(r, i, v, st, n)
            return
        if kind != 'dict':
            self.implicit('TypeError', st, n, True)
        if isinstance(v, Ref) and not r.pre:
            rv = self.resolve(v, st)
            cv = st.heap.get(rv.loc)
            if not rv.pre and cv is not None and not isinstance(
                    cv, Forward) and rv.loc in self.owned(st) and \
                    C.sub in (None, cv.kind) and cv.sub is None and \
                    not cv.lost and not any(
                        e.op == 'add' and e.val is not None and
                        e.val.key() != NONE.key() for e in C.log
                        if not C.sub):
                # the fresh container moves into this one
                st.heap[r.loc] = C.but(sub=cv.kind)
                es = [Entry('add', (), True, (i,), NESTED, node=n)]
                for e in cv.log:
                    es.append(e.but(key=(i,) + e.key))
                self.write(r, st, *es)
                st.heap[rv.loc] = Forward(Ref(r.loc, (i,)))
                if self.writes is not None:
                    self.writes.add(rv.loc)
                return
            if C.sub:
                self.aliases.append((n, rv, r.loc, i))
                raise Unsupported('shared nested container', n)
        elif C.sub and not r.pre:
            raise Unsupported('mixed values in %s' % r.loc, n)
        if C.lost:
            return
        self.write(r, st, Entry('add', (), True, (i,), v, node=n))

    def owned(self, st):
        """Containers allocated during this analysis and not yet part of
        another structure."""
        held = set()
        return _Owned(self, st)

    def list_store(self, r, i, v, st, n):
        C = self.content(r, st)
        xs = C.exact()
        k = self.constint(i)
        if r.pre or C.lost or xs is None or k is None:
            if not r.pre:
                self.replace(r, st, Content('list', lost='item store'))
                return
            raise Unsupported('item store in nested list', n)
        if not -len(xs) <= k < len(xs):
            self.implicit('IndexError', st, n, True)
        log = list(C.log)
        log[k] = Entry('add', (), True, (v,), node=n)
        self.replace(r, st, C.but(log=log))

    def delitem(self, o, i, st, n):
        if isinstance(o, IteV):
            self.dist(o, st, lambda x, s: self.delitem(x, i, s, n) or NONE)
            return
        if not isinstance(o, Ref):
            if isinstance(o, (Sym, App)):
                self.event(st, 'delitem', [o, i], [], n)
                return
            self.implicit('TypeError', st, n, True)
        r = self.resolve(o, st)
        C = self.raw(r.loc, st)
        if self.reads is not None:
            self.reads.add(r.loc)
        kind = C.sub if r.pre else C.kind
        if kind != 'dict':
            if kind == 'list':
                xs = C.exact()
                k = self.constint(i)
                if xs is not None and k is not None and not r.pre:
                    if not -len(xs) <= k < len(xs):
                        self.implicit('IndexError', st, n, True)
                    log = list(C.log)
                    del log[k]
                    self.replace(r, st, C.but(log=log))
                    return
            raise Unsupported('del item', n)
        self.implicit('KeyError', st, n, Not(self.mem(C, r.pre + (i,))))
        self.write(r, st, Entry('rem', (), True, (i,), node=n))

    # --------------------------------------------------------- iteration

    def iterobj(self, v, st, n):
        m = self.prog.find_member(v.cls, '__iter__')
        if m:
            return self.call(self.bind(v, m), [], {}, st, n)
        return None

    def iter_content(self, v, st, n):
        """Content enumerated by iterating over a value."""
        if isinstance(v, IteV):
            d = self.pcdecide(v.c, st)
            if d is not None:
                return self.iter_content(v.a if d else v.b, st, n)
            A = self.iter_content(v.a, st, n)
            B = self.iter_content(v.b, st, n)
            xs, ys = A.exact(), B.exact()
            if xs is not None and ys is not None and len(xs) == len(ys):
                return Content('list', [Entry('add', (), True, (
                    ite(v.c, x, y),)) for x, y in zip(xs, ys)])
            log = [e.but(g=And(v.c, e.g)) for e in self.as_list(A).log] + \
                [e.but(g=And(Not(v.c), e.g)) for e in self.as_list(B).log]
            return Content('list', log, distinct=A.distinct and B.distinct,
                           lost=A.lost or B.lost)
        if isinstance(v, TupleV):
            return Content('list', [Entry('add', (), True, (i,))
                                    for i in v.items])
        C = self.coll(v, st)
        if C is not None:
            if C.kind == 'dict':
                return self.keys_content(C, 'set')
            return self.ordered(C)
        if isinstance(v, ObjV):
            it = self.iterobj(v, st, n)
            if it is not None:
                return self.iter_content(it, st, n)
            self.implicit('TypeError', st, n, True)
        if isinstance(v, (Sym, App)):
            b = self.bsym('i')
            h = self.summaries.get('iter')
            if h is not None:
                r = h(self, v, st)
                if r is not None:
                    return r
            return Content('list', [Entry('add', (b,), self.rel('in', v, b),
                                          (b,), setlike=False)])
        if isinstance(v, Opaque):
            return Content('list', lost=v.tag)
        if isinstance(v, (StrV, Const)) and v is not NONE:
            return Content('list', lost='string')
        self.implicit('TypeError', st, n, True)

    def as_list(self, C):
        return self.to_list(C)

    def to_list(self, C):
        """list(C)"""
        if C.kind == 'list':
            return C.but(frozen=False)
        return self.keys_content(self.ordered(C), 'list')

    setorder = None

    def ordered(self, C):
        """A set of known elements in the order in which it is enumerated:
        one of the orders that are possible, a function of the order in which
        the set was built."""
        if self.setorder is None or C.kind != 'set' or C.lost:
            return C
        seen, log = set(), []
        for e in C.log:
            if e.op != 'add' or e.B or e.g is not True or \
                    not isinstance(e.key[0], Const):
                return C
            if e.key[0].key() not in seen:
                seen.add(e.key[0].key())
                log.append(e)
        return Content('set', self.setorder(log), frozen=C.frozen,
                       distinct=True)

    def to_set(self, C, frozen=False):
        if C.lost:
            return Content('set', lost=C.lost)
        k = self.keys_content(C, 'set')
        return Content('set', k.log, frozen=frozen, distinct=True)

    def range_of(self, args, st, n):
        if len(args) == 1:
            lo, hi = self.num(0), args[0]
        elif len(args) == 2:
            lo, hi = args
        else:
            ks = [self.constint(a) for a in args]
            if None not in ks and ks[2] and \
                    abs((ks[1] - ks[0]) // ks[2]) < 64:
                return SnapV(Content('list', [
                    Entry('add', (), True, (self.num(i),))
                    for i in range(*ks)], distinct=True), 'range')
            return None
        a, b = self.constint(lo), self.constint(hi)
        if a is not None and b is not None and b - a < 64:
            return SnapV(Content('list', [
                Entry('add', (), True, (self.num(i),))
                for i in range(a, b)], distinct=True), 'range')
        C = None
        if isinstance(hi, LenV):
            C = hi.content
        elif isinstance(hi, PosV):
            C = hi.content
        if C is None or C.lost:
            return None
        if isinstance(hi, LenV) and a == 0 and hi.off == 0:
            # every position; positions of explicitly listed items stay apart
            log = []
            if C.exact() is not None:
                return SnapV(Content('list', [
                    Entry('add', (), True, (self.num(i),))
                    for i in range(len(C.log))], distinct=True), 'range')
            for e in self.segments(C):
                if e[0] == 'item':
                    log.append(Entry('add', (), e[1], (PosV(e[2], C),)))
                else:
                    log.append(Entry('add', e[1], e[2], (PosV(e[3], C),),
                                     setlike=e[4]))
            return SnapV(Content('list', log, distinct=C.distinct), 'range')
        if not C.distinct:
            return None
        b_ = self.bsym('p')
        f = self.mem(C, (b_,))
        if isinstance(hi, PosV):
            if hi.off == 0:
                f = And(f, self.posl(C, b_, hi.e))
            elif hi.off == 1:
                f = And(f, Or(self.posl(C, b_, hi.e), self.eq(b_, hi.e)))
            elif hi.off == -1:
                c = self.bsym('p')
                f = And(f, self.exists((c,), And(
                    self.mem(C, (c,)), self.posl(C, b_, c),
                    self.posl(C, c, hi.e))))
            else:
                return None
        elif hi.off == -1:
            c = self.bsym('p')
            f = And(f, self.exists((c,), And(self.mem(C, (c,)),
                                             self.posl(C, b_, c))))
        elif hi.off != 0:
            return None
        if isinstance(lo, PosV):
            if lo.content.uid != C.uid:
                return None
            if lo.off == 1:
                f = And(f, self.posl(C, lo.e, b_))
            elif lo.off == 0:
                f = And(f, Or(self.posl(C, lo.e, b_), self.eq(b_, lo.e)))
            elif lo.off == 2:
                c = self.bsym('p')
                f = And(f, self.exists((c,), And(
                    self.mem(C, (c,)), self.posl(C, c, b_),
                    self.posl(C, lo.e, c))))
            else:
                return None
        elif a == 1:
            c = self.bsym('p')
            f = And(f, self.exists((c,), And(self.mem(C, (c,)),
                                             self.posl(C, c, b_))))
        elif a != 0:
            return None
        return SnapV(Content('list', [Entry('add', (b_,), f,
                                            (PosV(b_, C),))],
                             distinct=True), 'range')

    # ---------------------------------------------------------- builtins

    def builtin(self, f, args, kwargs, st, n):
        path = f.path
        if f.recv is not None:
            if path == 'super.__setattr__':
                raise Unsupported('super().__setattr__', n)
            return self.method(f.recv, path[2:], args, kwargs, st, n)
        if path.startswith('logging'):
            return ExtV('logging.x')
        h = getattr(self, 'b_' + path.replace('.', '_'), None)
        if h is not None:
            return h(args, kwargs, st, n)
        last = path.split('.')[-1]
        if path in EXC:
            return ExcV(path, n)
        if path in ('dict.fromkeys',):
            C = self.iter_content(args[0], st, n)
            v = args[1] if len(args) > 1 else NONE
            r = self.alloc(st, Content('dict', distinct=True), 'd')
            S = self.to_set(C)
            self.replace(r, st, Content('dict', [e.but(val=v)
                                                 for e in S.log]))
            return r
        if path in ('set.union', 'set.intersection', 'frozenset.union',
                    'set.difference', 'list.append', 'set.add',
                    'dict.keys', 'dict.get', 'str.format', 'str.join',
                    'set.issubset', 'dict.values', 'dict.items') and args:
            return self.method(args[0], last, args[1:], kwargs, st, n)
        if path == 'object.__setattr__':
            if isinstance(args[1], Const) and isinstance(args[0], ObjV):
                st.fields[(args[0].oid, args[1].v)] = args[2]
                return NONE
        return self.unknown_call(path, args, kwargs, st, n)

    def unknown_call(self, path, args, kwargs, st, n):
        """Library function without a model: assumed not to modify its
        arguments; the result is not known."""
        return Opaque('call:' + path, [self.snap(a, st) for a in args])

    def b_noop(self, args, kw, st, n):
        return NONE

    def b_print(self, args, kw, st, n):
        return NONE

    def b_len(self, args, kw, st, n):
        v = args[0]
        if isinstance(v, IteV):
            return self.dist(v, st, lambda x, s: self.b_len([x], kw, s, n))
        if isinstance(v, TupleV):
            return self.num(len(v.items))
        if isinstance(v, Const) and isinstance(v.v, str):
            return self.num(len(v.v))
        if isinstance(v, ObjV):
            m = self.prog.find_member(v.cls, '__len__')
            if m:
                return self.call(self.bind(v, m), [], {}, st, n)
            self.implicit('TypeError', st, n, True)
        C = self.coll(v, st)
        if C is not None:
            return self.length(C)
        if isinstance(v, (Sym, App)):
            b = self.bsym('i')
            return self.length(Content('set', [
                Entry('add', (b,), self.rel('in', v, b), (b,))],
                distinct=True))
        if isinstance(v, (Opaque, StrV)):
            return Opaque('len', (v,))
        self.implicit('TypeError', st, n, True)

    def b_range(self, args, kw, st, n):
        if any(isinstance(a, IteV) for a in args):
            i = [isinstance(a, IteV) for a in args].index(True)
            return self.dist(args[i], st, lambda x, s: self.b_range(
                args[:i] + [x] + args[i + 1:], kw, s, n))
        r = self.range_of(args, st, n)
        if r is None:
            return SnapV(Content('list', lost='range'), 'range')
        return r

    def b_list(self, args, kw, st, n):
        if not args:
            return self.alloc(st, Content('list'), 'l')
        return self.alloc(st, self.to_list(self.iter_content(
            args[0], st, n)), 'l')

    def b_tuple(self, args, kw, st, n):
        if not args:
            return TupleV(())
        xs = self.exact_items(args[0], st)
        if xs is not None:
            return TupleV(xs)
        return SnapV(self.to_list(self.iter_content(args[0], st, n)),
                     'tuple')

    def b_set(self, args, kw, st, n):
        if not args:
            return self.alloc(st, Content('set', distinct=True), 's')
        return self.alloc(st, self.to_set(self.iter_content(args[0], st, n)),
                          's')

    def b_frozenset(self, args, kw, st, n):
        C = self.iter_content(args[0], st, n) if args else Content('set')
        return SnapV(self.to_set(C, True), 'frozenset')

    def b_dict(self, args, kw, st, n):
        r = self.alloc(st, Content('dict', distinct=True), 'd')
        if args:
            self.method(r, 'update', [args[0]], {}, st, n)
        for k, v in kw.items():
            self.setitem(r, Const(k), v, st, n)
        return r

    b_collections_OrderedDict = b_dict

    def b_collections_deque(self, args, kw, st, n):
        return self.b_list(args, {}, st, n)

    def b_collections_defaultdict(self, args, kw, st, n):
        raise Unsupported('defaultdict', n)

    def b_iter(self, args, kw, st, n):
        if isinstance(args[0], SnapV):
            return args[0]
        return SnapV(self.iter_content(args[0], st, n), 'iter')

    def b_next(self, args, kw, st, n):
        C = self.iter_content(args[0], st, n)
        L = self.to_list(C)
        ne = self.nonempty(L)
        if len(args) > 1:
            return self.branch(ne, st, lambda s: self.list_index(
                L, self.num(0), s, n), lambda s: args[1])
        self.implicit('StopIteration', st, n, Not(ne))
        return self.list_index(L, self.num(0), st, n)

    def b_reversed(self, args, kw, st, n):
        C = self.to_list(self.iter_content(args[0], st, n))
        return SnapV(C.but(log=C.log[::-1]), 'iter')

    def comparable(self, C, kw, st, n):
        """Sorting things that need not be comparable with each other."""
        if C.lost or 'key' in kw and kw['key'].key() != NONE.key():
            return

        def odd(v):
            if isinstance(v, TupleV):
                return any(map(odd, v.items))
            if isinstance(v, IteV):
                return odd(v.a) or odd(v.b)
            return isinstance(v, Sym) and v.kind == 'any'
        if any(e.op == 'add' and len(e.key) == 1 and odd(e.key[0])
               for e in C.log):
            try:
                f = self.count_ge(C, 2)
            except Unsupported:
                return
            self.implicit('TypeError', st, n, And(
                f, self.rel('!unordered', NONE)))

    def b_sorted(self, args, kw, st, n):
        C = self.iter_content(args[0], st, n)
        C = self.to_list(C)
        self.comparable(C, kw, st, n)
        if C.exact() is not None and len(C.log) > 1:
            b = self.bsym('so')
            S = self.to_set(C)
            # order unknown, contents known
            if not self.all_distinct(C):
                return self.alloc(st, Content('list', [Entry(
                    'add', (b,), self.mem(S, (b,)), (b,), setlike=False)]),
                    'l')
            return self.alloc(st, Content('list', [Entry(
                'add', (b,), self.mem(S, (b,)), (b,))], distinct=True), 'l')
        return self.alloc(st, C.but(), 'l')

    def all_distinct(self, C):
        xs = C.exact()
        return all(self.eq(a, b) is False
                   for a, b in itertools.combinations(xs, 2))

    def b_enumerate(self, args, kw, st, n):
        C = self.to_list(self.iter_content(args[0], st, n))
        start = kw.get('start', args[1] if len(args) > 1 else None)
        off = 0 if start is None else self.constint(start)
        if off is None:
            return SnapV(Content('list', lost='enumerate'), 'iter')
        xs = C.exact()
        if xs is not None:
            return SnapV(Content('list', [Entry('add', (), True, (TupleV((
                self.num(i + off), x)),)) for i, x in enumerate(xs)]),
                'iter')
        if C.lost:
            return SnapV(C, 'iter')
        log = []
        for e in self.segments(C):
            if e[0] == 'item':
                log.append(Entry('add', (), e[1], (TupleV((
                    PosV(e[2], C, off), e[2])),)))
            else:
                log.append(Entry('add', e[1], e[2], (TupleV((
                    PosV(e[3], C, off), e[3])),), setlike=e[4]))
        return SnapV(Content('list', log, distinct=C.distinct), 'iter')

    def b_zip(self, args, kw, st, n):
        Cs = [self.to_list(self.iter_content(a, st, n)) for a in args]
        xs = [C.exact() for C in Cs]
        if all(x is not None for x in xs):
            return SnapV(Content('list', [
                Entry('add', (), True, (TupleV(t),)) for t in zip(*xs)]),
                'iter')
        return SnapV(Content('list', lost='zip'), 'iter')

    def b_filter(self, args, kw, st, n):
        return self.mapfilter(args, st, n, True)

    def b_map(self, args, kw, st, n):
        if len(args) != 2:
            if n is self.dropped:
                return SnapV(Content('list'), 'iter')
            if not isinstance(args[0], (ExtV, ClassV)):
                raise Unsupported('map over several iterables', n)
            return SnapV(Content('list', lost='map'), 'iter')
        return self.mapfilter(args, st, n, False)

    def mapfilter(self, args, st, n, filt):
        if n is self.dropped:
            self.iter_content(args[1], st, n)
            return SnapV(Content('list'), 'iter')
        before = dict(st.heap), dict(st.fields)
        acc = self.alloc(st, Content('list'), 'mf')
        saved = dict(st.env)
        st.env['!f'] = args[0]
        st.env['!it'] = args[1]
        st.env['!acc'] = acc
        N = lambda x: ast.Name(id=x, ctx=ast.Load())   # noqa: E731
        call = ast.Call(func=N('!f'), args=[N('!x')], keywords=[])
        if filt and args[0] is NONE:
            call = N('!x')
        app = ast.Expr(value=ast.Call(func=ast.Attribute(
            value=N('!acc'), attr='append', ctx=ast.Load()),
            args=[N('!x') if filt else call], keywords=[]))
        body = [ast.If(test=call, body=[app], orelse=[])] if filt else [app]
        loop = ast.For(target=ast.Name(id='!x', ctx=ast.Store()),
                       iter=N('!it'), body=body, orelse=[])
        for x in ast.walk(loop):
            x.lineno = getattr(n, 'lineno', 0)
            x.col_offset = 0
        fl = self.stmt(loop, st)
        if fl.next is None:
            raise Dead()
        st.become(fl.next)
        self.no_lazy_effects(before, st, n)
        C = self.content(acc, st)
        st.env = {k: st.env.get(k, v) for k, v in saved.items()}
        return SnapV(C, 'iter')

    def b_any(self, args, kw, st, n):
        return self.any_all('any', self.iter_content(args[0], st, n), st)

    def b_all(self, args, kw, st, n):
        return self.any_all('all', self.iter_content(args[0], st, n), st)

    def b_sum(self, args, kw, st, n):
        C = self.iter_content(args[0], st, n)
        acc = args[1] if len(args) > 1 else self.num(0)
        if C.lost:
            return Opaque('sum:' + C.lost)
        for e in self.segments(C):
            if e[0] == 'item':
                v = e[2]
                if e[1] is True:
                    acc = self.binop('+', acc, self.boolnum(v), st, n)
                else:
                    w = self.binop('+', acc, self.boolnum(v), st, n)
                    acc = ite(e[1], w, acc)
            else:
                v = e[3]
                v = self.boolnum(v)
                if isinstance(v, IteV) and self.constint(v.a) == 1 and \
                        self.constint(v.b) == 0:
                    g, v = And(e[2], v.c), v.a
                else:
                    g = e[2]
                t = self.tonum(v) if not isinstance(v, IteV) else None
                if t is None:
                    return Opaque('sum')
                a = self.tonum(acc)
                if a is None:
                    return Opaque('sum')
                acc = self.num(a.r + self.sum_term(e[1], g, t, e[4]).r)
        return acc

    def minmax(self, which, args, kw, st, n):
        if len(args) == 1:
            xs = self.exact_items(args[0], st)
            if xs is None:
                return Opaque(which, [self.snap(args[0], st)])
        else:
            xs = args
        if kw or not xs:
            return Opaque(which, [self.snap(a, st) for a in args])
        v = xs[0]
        for x in xs[1:]:
            c = self.cmp('<' if which == 'min' else '>', x, v, st, n)
            v = ite(c, x, v)
        return v

    def b_min(self, args, kw, st, n):
        return self.minmax('min', args, kw, st, n)

    def b_max(self, args, kw, st, n):
        return self.minmax('max', args, kw, st, n)

    def b_abs(self, args, kw, st, n):
        v = args[0]
        if isinstance(v, IteV):
            return self.dist(v, st, lambda x, s: self.b_abs([x], kw, s, n))
        if v is NONE or v.key() == NONE.key():
            self.implicit('TypeError', st, n, True)
        x = self.tonum(v)
        if x is None:
            return Opaque('abs', (v,))
        f = self.pos(-x.r)
        if f is False:
            return x
        d = self.pcdecide(f, st)
        neg = self.num(-x.r)
        if d is True:
            return neg
        if d is False:
            return x
        g = self.pos(x.r)
        d = self.pcdecide(g, st)
        if d is True:
            return x
        # canonical: choose the gate of the positive leading term
        if isinstance(g, Atom) and g.args[2] > 0:
            return ite(g, x, neg)
        return ite(f, neg, x)

    b_math_fabs = b_abs
    b_numpy_abs = b_abs

    def b_float(self, args, kw, st, n):
        v = args[0]
        if isinstance(v, IteV):
            return self.dist(v, st, lambda x, s: self.b_float([x], kw, s,
                                                              n))
        if isinstance(v, BoolV):
            return self.boolnum(v) if not isinstance(v.f, bool) \
                else self.tonum(v)
        if isinstance(v, (Num, LenV)):
            return v
        if isinstance(v, (Sym, App)):
            return self.tonum(v)
        if isinstance(v, Opaque):
            return Opaque('float', (v,))
        if isinstance(v, (Const, StrV)) and v is not NONE:
            return Opaque('float', (v,))
        self.implicit('TypeError', st, n, True)

    def b_int(self, args, kw, st, n):
        v = args[0] if args else self.num(0)
        if isinstance(v, IteV):
            return self.dist(v, st, lambda x, s: self.b_int([x], kw, s, n))
        if isinstance(v, BoolV):
            return self.boolnum(v) if not isinstance(v.f, bool) \
                else self.tonum(v)
        if isinstance(v, (LenV, PosV)):
            return v
        if isinstance(v, Num):
            if v.r.integer_valued() or v.r.as_const() is not None and \
                    v.r.as_const().denominator == 1:
                return v
            c = v.r.as_const()
            if c is not None:
                import math
                return self.num(math.trunc(c))
            if self.intatoms(v):
                return v
        if isinstance(v, (Const,)) and v is NONE:
            self.implicit('TypeError', st, n, True)
        x = self.tonum(v)
        return App('int', (x if x is not None else v,))

    def intatoms(self, v):
        """Integer-valued by polynomial argument over counted quantities."""
        r = v.r
        if not all(self.ctx.info[x][0] in ('len', 'sum') and
                   self.ctx.info[x][1] != 'pi' for x in r.atoms()):
            return False
        return r.integer_valued()

    def b_round(self, args, kw, st, n):
        x = self.tonum(args[0]) if not isinstance(args[0], IteV) else None
        if x is not None and x.r.integer_valued():
            return x
        return App('round', (args[0],) + tuple(args[1:]))

    def b_bool(self, args, kw, st, n):
        return BoolV(self.truth(args[0], st))

    def istext(self, v):
        """Formula: the value is a string."""
        if isinstance(v, IteV):
            return Or(And(v.c, self.istext(v.a)),
                      And(Not(v.c), self.istext(v.b)))
        if isinstance(v, StrV):
            return True
        if isinstance(v, Const):
            return isinstance(v.v, str)
        if isinstance(v, (Sym, App)):
            if isinstance(v, Sym) and v.kind == 'num':
                return False
            return self.rel('isinstance:str', v)
        if isinstance(v, Opaque):
            return True         # not known: no complaint
        return False

    def b_str(self, args, kw, st, n):
        if args and isinstance(args[0], Const) and \
                isinstance(args[0].v, str):
            return args[0]
        return self.text(args[0], st, n) if args else StrV()

    def b_repr(self, args, kw, st, n):
        return self.text(args[0], st, n, ('__repr__',))

    def b_format(self, args, kw, st, n):
        return self.text(args[0], st, n)

    def text(self, v, st, n, names=('__str__', '__repr__')):
        """str(v); objects of the package are asked for it."""
        if isinstance(v, IteV):
            return self.dist(v, st, lambda x, s: self.text(x, s, n, names))
        if isinstance(v, ObjV) and v.oid not in self.sealed:
            for name in names:
                m = self.prog.find_member(v.cls, name)
                if m is not None and m[1] == 'method':
                    r = self.call(self.bind(v, m), [], {}, st, n)
                    return StrV((v, r))
        return StrV((self.snap(v, st),))

    def b_id(self, args, kw, st, n):
        return self.num(Rat.sym(self.ctx, ('v', App('id', args).key()),
                                'val', App('id', args)))

    def b_hash(self, args, kw, st, n):
        v = args[0]
        if isinstance(v, IteV):
            return self.dist(v, st, lambda x, s: self.b_hash([x], kw, s, n))
        if isinstance(v, ObjV):
            m = self.prog.find_member(v.cls, '__hash__')
            if m is not None and m[1] == 'assign':
                h = self.class_value(m[0], '__hash__', m[2], st)
                if h is NONE:
                    self.implicit('TypeError', st, n, True)
                return self.call(h, [v], {}, st, n)
            if m is not None:
                return self.call(self.bind(v, m), [], {}, st, n)
        if isinstance(v, Ref):
            self.implicit('TypeError', st, n, True)
        if isinstance(v, Num):
            c = v.r.as_const()
            if c is not None and c.denominator == 1:
                return v
        a = App('hash', (v,))
        if isinstance(v, SnapV) and v.content.kind == 'set':
            # (in no particular order)
            xs = self.exact_items(v, st)
            if xs is not None:
                a = App('hash', [TupleV(sorted(
                    xs, key=lambda x: repr(x.key())))])
        return self.num(Rat.sym(self.ctx, ('v', a.key()), 'val', a))

    def b_callable(self, args, kw, st, n):
        v = args[0]
        if isinstance(v, (FuncV, BoundV, ClassV)):
            return BoolV(True)
        return BoolV(atom('opq', Opaque('callable', (v,))))

    def b_type(self, args, kw, st, n):
        if isinstance(args[0], ObjV):
            return ClassV(args[0].cls)
        if isinstance(args[0], (Sym, App)):
            return App('type', (args[0],))
        return Opaque('type', args)

    def b_isinstance(self, args, kw, st, n):
        v, c = args
        if isinstance(v, IteV):
            return self.dist(v, st, lambda x, s: self.b_isinstance(
                [x, c], kw, s, n))
        cs = list(c.items) if isinstance(c, TupleV) else [c]
        return BoolV(Or(*[self.isinst(v, k, st) for k in cs]))

    PYT = {'list': ('Ref:list',), 'dict': ('Ref:dict',), 'set': ('Ref:set',)}

    def isinst(self, v, k, st=None):
        if isinstance(k, ClassV):
            if isinstance(v, ObjV):
                return self.prog.subclass(v.cls, k.cls)
            if isinstance(v, (Sym, App)):
                if isinstance(v, Sym) and v.kind in ('num', 'elem'):
                    return False
                return self.rel('isinstance:' + k.cls.qual, v)
            if isinstance(v, Opaque):
                return atom('opq', Opaque('isinstance', (v,)))
            return False
        if isinstance(k, ExtV):
            p = k.path.split('.')[-1]
            if isinstance(v, ObjV):
                return p == 'object'
            if isinstance(v, (Num, LenV, PosV)):
                if p in ('list', 'dict', 'set', 'str', 'tuple', 'slice',
                         'frozenset'):
                    return False
                return atom('opq', Opaque('isinstance:' + p, (v,)))
            if isinstance(v, Const):
                if v is NONE:
                    return False
                return p == 'str'
            if isinstance(v, StrV):
                return p == 'str'
            if isinstance(v, TupleV):
                return p == 'tuple'
            if isinstance(v, App) and v.op == 'sliceobj':
                return p == 'slice'
            if isinstance(v, (Ref, SnapV)):
                if p in ('list', 'dict', 'set', 'tuple', 'frozenset',
                         'str', 'int', 'float'):
                    if isinstance(v, SnapV):
                        return p == v.what
                    C = self.content(v, st) if st is not None else None
                    if C is not None and not C.lost and C.kind in (
                            'list', 'dict', 'set'):
                        # containers are plain ones
                        return p == C.kind
                    return atom('opq', Opaque('isinstance:' + p, (v,)))
                if p == 'object':
                    return True
            return self.rel('isinstance:' + p, v) if isinstance(
                v, (Sym, App)) else atom('opq', Opaque('isinstance:' + p,
                                                       (v,)))
        return atom('opq', Opaque('isinstance', (v, k)))

    def b_issubclass(self, args, kw, st, n):
        a, b = args
        if isinstance(a, ClassV) and isinstance(b, ClassV):
            return BoolV(self.prog.subclass(a.cls, b.cls))
        return BoolV(atom('opq', Opaque('issubclass', args)))

    def b_hasattr(self, args, kw, st, n):
        v, nm = args
        if isinstance(v, ObjV) and isinstance(nm, Const):
            return BoolV(self.has_field(v, nm.v, st))
        if isinstance(v, (Num, BoolV, LenV)) and isinstance(nm, Const):
            return BoolV(nm.v in dir(float))
        if isinstance(v, (Sym, App)) and isinstance(nm, Const):
            if isinstance(v, Sym) and v.kind == 'num':
                return BoolV(False)
            return BoolV(self.rel('hasattr:' + nm.v, v))
        return BoolV(atom('opq', Opaque('hasattr', args)))

    def b_getattr(self, args, kw, st, n):
        v, nm = args[0], args[1]
        if not isinstance(nm, Const):
            return Opaque('getattr', args)
        if len(args) == 3:
            if isinstance(v, ObjV):
                has = self.has_field(v, nm.v, st)
                if has is False:
                    return args[2]
                if has is True:
                    return self.getattr_(v, nm.v, st, n)
                return self.branch(
                    has, st, lambda s: self.getattr_(v, nm.v, s, n),
                    lambda s: args[2])
            if isinstance(v, (Num, BoolV, LenV)) and \
                    nm.v not in dir(float):
                return args[2]
            if isinstance(v, (Sym, App)):
                return App('getattr:' + nm.v, (v, args[2]))
            return Opaque('getattr', args)
        return self.getattr_(v, nm.v, st, n)

    def b_setattr(self, args, kw, st, n):
        if isinstance(args[1], Const):
            self.setattr_(args[0], args[1].v, args[2], st, n)
            return NONE
        raise Unsupported('setattr', n)

    def b_copy_copy(self, args, kw, st, n):
        v = args[0]
        if isinstance(v, Ref):
            return self.alloc(st, self.content(v, st).but(), 'cp')
        if isinstance(v, ObjV):
            o = ObjV(self.fresh(v.cls.name), v.cls)
            for (oid, nm), w in list(st.fields.items()):
                if oid == v.oid:
                    st.fields[(o.oid, nm)] = w
            return o
        return v

    def b_copy_deepcopy(self, args, kw, st, n):
        return self.deepcopy(args[0], st, n)

    def deepcopy(self, v, st, n):
        if isinstance(v, IteV):
            return self.dist(v, st, lambda x, s: self.deepcopy(x, s, n))
        if isinstance(v, Ref):
            C = self.content(v, st)
            log = []
            for e in C.log:
                log.append(e.but(
                    key=tuple(self.deepcopy(k, st, n) if C.kind == 'list'
                              else k for k in e.key),
                    val=None if e.val is None or e.val is NESTED
                    else self.deepcopy(e.val, st, n)))
            return self.alloc(st, C.but(log=log), 'cp')
        if isinstance(v, ObjV):
            o = ObjV(self.fresh(v.cls.name), v.cls)
            for (oid, nm), w in list(st.fields.items()):
                if oid == v.oid:
                    st.fields[(o.oid, nm)] = self.deepcopy(w, st, n)
            return o
        if isinstance(v, TupleV):
            return TupleV([self.deepcopy(x, st, n) for x in v.items])
        return v

    # math ----------------------------------------------------------------

    def b_math_sqrt(self, args, kw, st, n):
        v = args[0]
        if isinstance(v, IteV):
            return self.dist(v, st, lambda x, s: self.sqrt(x, s, n))
        return self.sqrt(v, st, n)

    b_numpy_sqrt = b_math_sqrt

    def b_math_hypot(self, args, kw, st, n):
        r = self.num(0)
        for a in args:
            r = self.binop('+', r, self.binop('*', a, a, st, n), st, n)
        return self.b_math_sqrt([r], kw, st, n)

    b_numpy_hypot = b_math_hypot

    def b_math_dist(self, args, kw, st, n):
        xs = [self.exact_items(a, st) for a in args]
        if None in xs:
            return Opaque('dist')
        ds = [self.binop('-', a, b, st, n) for a, b in zip(*xs)]
        return self.b_math_hypot(ds, kw, st, n)

    def trigarg(self, v):
        return self.tonum(v) if not isinstance(v, IteV) else None

    def cases(self, f, args, kw, st, n):
        """The function for every case of a conditional argument; None
        without one."""
        for i, v in enumerate(args):
            if isinstance(v, IteV):
                return self.dist(v, st, lambda x, s: f(
                    args[:i] + [x] + args[i + 1:], kw, s, n))
        return None

    def b_math_cos(self, args, kw, st, n):
        r = self.cases(self.b_math_cos, args, kw, st, n)
        if r is not None:
            return r
        x = self.trigarg(args[0])
        return Opaque('cos', args) if x is None else self.num(x.r.trig()[0])

    def b_math_sin(self, args, kw, st, n):
        r = self.cases(self.b_math_sin, args, kw, st, n)
        if r is not None:
            return r
        x = self.trigarg(args[0])
        return Opaque('sin', args) if x is None else self.num(x.r.trig()[1])

    b_numpy_cos = b_math_cos
    b_numpy_sin = b_math_sin

    def b_math_radians(self, args, kw, st, n):
        r = self.cases(self.b_math_radians, args, kw, st, n)
        if r is not None:
            return r
        x = self.tonum(args[0])
        if x is None:
            return Opaque('radians', args)
        pi = Rat.sym(self.ctx, 'pi', 'len', None)
        return self.num(x.r * pi / Rat.const(self.ctx, 180))

    def b_math_degrees(self, args, kw, st, n):
        r = self.cases(self.b_math_degrees, args, kw, st, n)
        if r is not None:
            return r
        x = self.tonum(args[0])
        if x is None:
            return Opaque('degrees', args)
        pi = Rat.sym(self.ctx, 'pi', 'len', None)
        return self.num(x.r * Rat.const(self.ctx, 180) / pi)

    def b_math_atan2(self, args, kw, st, n):
        r = self.cases(self.b_math_atan2, args, kw, st, n)
        if r is not None:
            return r
        a, b = self.tonum(args[0]), self.tonum(args[1])
        if a is None or b is None:
            return Opaque('atan2', args)
        return self.funcnum('atan2', (a, b))

    def funcnum(self, op, args):
        """An uninterpreted number, equal for algebraically equal
        arguments."""
        a = App(op, args)
        return self.num(Rat.sym(self.ctx, ('v', a.key()), 'val', a))

    def b_math_acos(self, args, kw, st, n):
        v = args[0]
        if isinstance(v, IteV):
            return self.dist(v, st, lambda x, s: self.b_math_acos(
                [x], kw, s, n))
        x = self.tonum(v)
        if x is None:
            return Opaque('acos', args)
        one = Rat.const(self.ctx, 1)
        self.implicit('ValueError', st, n, Or(self.pos(x.r - one),
                                              self.pos(-x.r - one)))
        c = x.r.as_const()
        if c in (-1, 0, 1):
            pi = Rat.sym(self.ctx, 'pi', 'len', None)
            return self.num(pi * Rat.const(self.ctx, Fraction(1 - c, 2)))
        return self.funcnum('acos', (x,))

    def b_math_floor(self, args, kw, st, n):
        return self.b_int(args, kw, st, n)

    def b_math_comb(self, args, kw, st, n):
        return self.binom(args, st, n)

    def b_scipy_special_binom(self, args, kw, st, n):
        return self.binom(args, st, n)

    b_scipy_special_comb = b_scipy_special_binom

    def binom(self, args, st, n):
        v = args[0]
        if isinstance(v, IteV):
            return self.dist(v, st, lambda x, s: self.binom(
                [x] + args[1:], s, n))
        x, k = self.tonum(v), self.constint(args[1])
        if x is None or k is None or not 0 <= k <= 6:
            return Opaque('binom', args)
        r = Rat.const(self.ctx, 1)
        for i in range(k):
            r = r * (x.r - Rat.const(self.ctx, i)) / \
                Rat.const(self.ctx, i + 1)
        return self.num(r)

    def b_itertools_combinations(self, args, kw, st, n):
        return self.tuples(args, st, n, 'comb')

    def b_itertools_permutations(self, args, kw, st, n):
        return self.tuples(args, st, n, 'perm')

    def tuples(self, args, st, n, how):
        C = self.to_list(self.iter_content(args[0], st, n))
        r = args[1] if len(args) > 1 else None
        k = self.constint(r) if r is not None else None
        lost = SnapV(Content('list', lost='combinations'), 'iter')
        if k is None or C.lost:
            return lost
        xs = C.exact()
        if xs is not None:
            fn = itertools.combinations if how == 'comb' else \
                itertools.permutations
            return SnapV(Content('list', [
                Entry('add', (), True, (TupleV(t),)) for t in fn(xs, k)]),
                'iter')
        if not C.distinct:
            return lost
        bs = [self.bsym('t') for _ in range(k)]
        fs = [self.mem(C, (b,)) for b in bs]
        for i in range(k):
            for j in range(i):
                if how == 'comb':
                    fs.append(self.posl(C, bs[j], bs[i]))
                else:
                    fs.append(Not(self.eq(bs[j], bs[i])))
        return SnapV(Content('list', [Entry(
            'add', tuple(bs), And(*fs), (TupleV(bs),))], distinct=True),
            'iter')

    def b_itertools_chain(self, args, kw, st, n):
        log, lost = [], None
        for a in args:
            if isinstance(a, App) and a.op == '*':
                lost = 'chain'
                continue
            C = self.to_list(self.iter_content(a, st, n))
            lost = lost or C.lost
            log += C.log
        return SnapV(Content('list', log, lost=lost), 'iter')

    def b_itertools_product(self, args, kw, st, n):
        rep = self.constint(kw['repeat']) if 'repeat' in kw else 1
        Cs = [self.to_list(self.iter_content(a, st, n)) for a in args]
        Cs = Cs * (rep or 1)
        if any(C.lost for C in Cs):
            return SnapV(Content('list', lost='product'), 'iter')
        log = []

        def go(i, B, g, key, sl):
            if i == len(Cs):
                log.append(Entry('add', B, g, (TupleV(key),), setlike=sl))
                return
            for e in self.segments(Cs[i]):
                if e[0] == 'item':
                    go(i + 1, B, And(g, e[1]), key + (e[2],), sl)
                else:
                    go(i + 1, B + tuple(e[1]), And(g, e[2]), key + (e[3],),
                       sl and e[4])
        go(0, (), True, (), True)
        return SnapV(Content('list', log), 'iter')

    def b_functools_reduce(self, args, kw, st, n):
        xs = self.exact_items(args[1], st)
        if xs is None:
            return Opaque('reduce')
        if len(args) > 2:
            xs = [args[2]] + xs
        v = xs[0]
        for x in xs[1:]:
            v = self.call(args[0], [v, x], {}, st, n)
        return v

    # numpy ---------------------------------------------------------------

    def b_numpy_array(self, args, kw, st, n):
        v = args[0]
        xs = self.exact_items(v, st)
        if xs is None:
            return Opaque('array', [self.snap(v, st)])
        rows = []
        for x in xs:
            ys = self.exact_items(x, st)
            rows.append(x if ys is None else TupleV(ys))
        return SnapV(Content('list', [Entry('add', (), True, (r,))
                                      for r in rows]), 'array')

    b_numpy_asarray = b_numpy_array

    def matrix(self, rows):
        return SnapV(Content('list', [
            Entry('add', (), True, (TupleV([self.num(x) for x in r]),))
            for r in rows]), 'array')

    def b_numpy_dot(self, args, kw, st, n):
        r = self.by_cases(args[:2], st, lambda x, y, s: self.b_numpy_dot(
            [x, y], kw, s, n))
        if r is not None:
            return r
        A, B = self.rows(args[0], st), self.rows(args[1], st)
        if A is None or B is None or not A or not B:
            return Opaque('dot')
        if any(len(r) != len(B) for r in A):
            self.implicit('ValueError', st, n, True)
        out = []
        for r in A:
            row = []
            for c in zip(*B):
                t = Rat(self.ctx, {})
                for x, y in zip(r, c):
                    t = t + x * y
                row.append(t)
            out.append(row)
        return self.matrix(out)

    b_numpy_matmul = b_numpy_dot

    def b_numpy_transpose(self, args, kw, st, n):
        A = self.rows(args[0], st)
        return Opaque('transpose') if A is None else self.matrix(
            list(zip(*A)))

    def b_numpy_identity(self, args, kw, st, n):
        k = self.constint(args[0])
        if k is None or not 0 < k < 9:
            return Opaque('identity')
        return self.matrix([[Rat.const(self.ctx, int(i == j))
                             for i in range(k)] for j in range(k)])

    b_numpy_eye = b_numpy_identity

    def rows(self, v, st):
        xs = self.exact_items(v, st)
        if xs is None:
            return None
        out = []
        for x in xs:
            ys = self.exact_items(x, st)
            if ys is None:
                return None
            ns = [self.tonum(y) if not isinstance(y, IteV) else None
                  for y in ys]
            if None in ns:
                return None
            out.append([y.r for y in ns])
        return out

    def b_numpy_linalg_solve(self, args, kw, st, n):
        return self.solve_lin(args[0], args[1], st, n)

    def b_numpy_linalg_inv(self, args, kw, st, n):
        r = self.by_cases(args[:1], st, lambda x, s: self.b_numpy_linalg_inv(
            [x], kw, s, n))
        if r is not None:
            return r
        A = self.rows(args[0], st)
        if A is None:
            return Opaque('inv')
        k = len(A)
        one, zero = Rat.const(self.ctx, 1), Rat(self.ctx, {})
        I = [[one if i == j else zero for j in range(k)] for i in range(k)]
        return self.solve_rat(A, I, st, n)

    def solve_lin(self, a, b, st, n):
        r = self.by_cases([a, b], st, lambda x, y, s: self.solve_lin(
            x, y, s, n))
        if r is not None:
            return r
        A, B = self.rows(a, st), self.rows(b, st)
        if A is None or B is None:
            return Opaque('solve')
        return self.solve_rat(A, B, st, n)

    def by_cases(self, args, st, fn):
        """An operation on arrays for every case of conditional entries; None
        if there are none."""
        ms = []
        for a in args:
            xs = self.exact_items(a, st)
            if xs is None:
                return None
            rows = []
            for x in xs:
                ys = self.exact_items(x, st)
                if ys is None:
                    return None
                rows.append(ys)
            ms.append(rows)
        cs = [y.c for m in ms for r in m for y in r if isinstance(y, IteV)]
        if not cs:
            return None
        c = cs[0]

        def pick(y, key, side):
            while isinstance(y, IteV) and fkey(y.c) == key:
                y = y.a if side else y.b
            return y

        def go(side, s):
            k = fkey(c)
            return fn(*[SnapV(Content('list', [Entry('add', (), True, (
                TupleV([pick(y, k, side) for y in r]),)) for r in m]),
                'array') for m in ms], s)
        d = self.pcdecide(c, st)
        if d is not None:
            return go(d, st)
        v = self.branch(c, st, lambda s: go(True, s), lambda s: go(False, s))
        if isinstance(v, IteV):
            xs = [self.exact_items(x, st) for x in (v.a, v.b)]
            if None in xs or len(xs[0]) != len(xs[1]):
                return v
            rows = []
            for x, y in zip(*xs):
                p, q = self.exact_items(x, st), self.exact_items(y, st)
                if p is None or q is None or len(p) != len(q):
                    return v
                rows.append(TupleV([ite(v.c, i, j) for i, j in zip(p, q)]))
            return SnapV(Content('list', [Entry('add', (), True, (r,))
                                          for r in rows]), 'array')
        return v

    def det(self, A):
        k = len(A)
        if k == 1:
            return A[0][0]
        t = Rat(self.ctx, {})
        for j in range(k):
            if A[0][j].is_zero():
                continue
            sub = [r[:j] + r[j + 1:] for r in A[1:]]
            c = A[0][j] * self.det(sub)
            t = t + c if j % 2 == 0 else t - c
        return t

    def solve_rat(self, A, B, st, n):
        """Cramer's rule on normal forms."""
        k = len(A)
        if k > 3 or any(len(r) != k for r in A) or len(B) != k:
            return Opaque('solve')
        d = self.det(A)
        dn = self.num(d)
        if dn.r.is_zero():
            self.implicit('LinAlgError', st, n, True)
        z = And(Not(self.pos(dn.r)), Not(self.pos(-dn.r)))
        self.implicit('LinAlgError', st, n, z)
        out = [[None] * len(B[0]) for _ in range(k)]
        for c in range(len(B[0])):
            for i in range(k):
                M = [r[:i] + [B[j][c]] + r[i + 1:]
                     for j, r in enumerate(A)]
                out[i][c] = self.num(self.det(M) / dn.r)
        return SnapV(Content('list', [Entry('add', (), True, (TupleV(r),))
                                      for r in out]), 'array')

    # --------------------------------------------------- container methods

    def method(self, o, name, args, kw, st, n):
        if isinstance(o, IteV):
            return self.dist(o, st, lambda x, s: self.method(
                x, name, args, kw, s, n))
        if isinstance(o, (StrV, Const)):
            if name in ('split', 'splitlines', 'rsplit'):
                return self.alloc(st, Content('list', lost='string'), 'l')
            if name in ('startswith', 'endswith', 'isdigit', 'isalpha'):
                return BoolV(atom('opq', Opaque('str.' + name)))
            if name == 'join' and len(args) == 1:
                C = self.iter_content(args[0], st, n)
                if not C.lost and all(e.op == 'add' for e in C.log):
                    for e in C.log:
                        x = e.val if e.val is not None and \
                            C.kind == 'list' else e.key[-1]
                        self.implicit('TypeError', st, n, self.exists(
                            e.B, And(e.g, Not(self.istext(x)))))
            if name == 'format':
                args = [self.text(a, st, n) if isinstance(a, (ObjV, IteV))
                        else a for a in args]
                if isinstance(o, Const) and not kw:
                    used = format_fields(o.v)
                    if used is not None:
                        if any(i >= len(args) for i in used):
                            self.implicit('IndexError', st, n, True)
                        args = [a for i, a in enumerate(args) if i in used]
            return StrV([o] + [self.snap(a, st) for a in args] +
                        [self.snap(a, st) for a in kw.values()],
                        name if name in ('join', 'format') else '')
        if isinstance(o, TupleV):
            o2 = self.new_list(st, o.items)
            return self.method(o2, name, args, kw, st, n)
        if isinstance(o, (Num, LenV, BoolV)):
            return Opaque('num.' + name)
        if isinstance(o, (SnapV, ViewV)):
            C = self.coll(o, st)
            if isinstance(o, SnapV) and o.what == 'array':
                if name == 'tolist':
                    return self.deep_list(C, st)
                if name == 'dot':
                    return self.b_numpy_dot([o] + list(args), kw, st, n)
                return Opaque('array.' + name)
            if C.kind == 'set':
                r = self.alloc(st, C.but(frozen=False), 's')
                return self.m_set(r, C, name, args, kw, st, n)
            if C.kind == 'list':
                r = self.alloc(st, C.but(), 'l')
                return self.m_list(r, C, name, args, kw, st, n)
            r = self.alloc(st, C.but(), 'd')
            return self.m_dict(r, C, name, args, kw, st, n)
        if isinstance(o, App) and o.op == 'sliceobj' and name == 'indices':
            ks = [None if x.key() == NONE.key() else self.constint(x)
                  for x in o.args]
            k = self.constint(args[0])
            if k is not None and not any(
                    a is None and x.key() != NONE.key()
                    for a, x in zip(ks, o.args)):
                return TupleV([self.num(x) for x in slice(*ks).indices(k)])
        if isinstance(o, (Sym, App)):
            return self.external(App('attr:' + name, (o,)), args, kw, st, n)
        if isinstance(o, Opaque):
            return Opaque('m:' + name, (o,))
        if isinstance(o, ObjV):
            return self.call(self.getattr_(o, name, st, n), args, kw, st, n)
        C = self.content(o, st)
        fn = {'list': self.m_list, 'set': self.m_set,
              'dict': self.m_dict}[C.kind]
        if C.lost:
            return self.m_lost(o, C, name, args, st)
        return fn(o, C, name, args, kw, st, n)

    def m_lost(self, o, C, name, args, st):
        if name in ('append', 'add', 'extend', 'update', 'remove',
                    'discard', 'insert', 'clear', 'sort', 'reverse'):
            return NONE
        if name in ('copy', 'union', 'intersection', 'difference', 'keys',
                    'values', 'items'):
            return self.alloc(st, Content(
                C.kind if name == 'copy' else 'set' if C.kind == 'set'
                else 'list', lost=C.lost), 'l')
        return Opaque('%s:%s' % (name, C.lost))

    def deep_list(self, C, st):
        out = []
        for x in C.exact():
            if isinstance(x, TupleV):
                out.append(self.new_list(st, x.items))
            else:
                out.append(x)
        return self.new_list(st, out)

    def m_list(self, o, C, name, args, kw, st, n):
        if name in ('append', 'appendleft'):
            self.write(o, st, Entry('add', (), True, (args[0],), node=n))
            if name == 'appendleft':
                self._order_lost(o, st)
            return NONE
        if name in ('extend', 'extendleft'):
            S = self.iter_content(args[0], st, n)
            if S.lost:
                self.replace(o, st, Content('list', lost=S.lost))
                return NONE
            L = self.to_list(S)
            if any(e.op != 'add' for e in L.log):
                b = self.bsym('x')
                L = Content('list', [Entry('add', (b,), self.mem(L, (b,)),
                                           (b,), setlike=L.distinct)])
            d = C.distinct and False
            if not C.log:
                d = L.distinct
            self.write(o, st, *[e.but(val=None) for e in L.log])
            r = self.resolve(o, st)
            if not r.pre:
                st.heap[r.loc] = st.heap[r.loc].but(distinct=d)
            return NONE
        if name == 'insert':
            k = self.constint(args[0])
            if k == 0:
                self.replace(o, st, Content('list', (Entry(
                    'add', (), True, (args[1],), node=n),) + C.log))
                return NONE
            self.replace(o, st, Content('list', lost='insert'))
            return NONE
        if name in ('pop', 'popleft'):
            if name == 'popleft':
                args = [self.num(0)]
            k = self.constint(args[0]) if args else -1
            self.implicit('IndexError', st, n, Not(self.nonempty(C)))
            xs = C.exact()
            if xs is not None and k is not None:
                v = xs[k]
                log = list(C.log)
                del log[k]
                self.replace(o, st, C.but(log=log))
                return v
            raise Unsupported('list.pop', n)
        if name == 'copy':
            return self.alloc(st, C.but(), 'l')
        if name in ('sort', 'reverse'):
            if name == 'sort':
                self.comparable(C, kw, st, n)
            return NONE if C.exact() is None or len(C.log) < 2 else \
                self._order_lost(o, st)
        if name == 'clear':
            self.replace(o, st, Content('list'))
            return NONE
        if name == 'remove':
            self.implicit('ValueError', st, n, Not(self.mem(C, (args[0],))))
            if C.distinct:
                self.write(o, st, Entry('rem', (), True, (args[0],), node=n))
                r = self.resolve(o, st)
                st.heap[r.loc] = st.heap[r.loc].but(distinct=True)
                return NONE
            self.replace(o, st, Content('list', lost='list.remove'))
            return NONE
        if name == 'count':
            f = self.mem(C, (args[0],))
            if f is False:
                return self.num(0)
            return Opaque('count', args)
        if name == 'index':
            self.implicit('ValueError', st, n, Not(self.mem(C, (args[0],))))
            if C.distinct:
                return PosV(args[0], C)
            return Opaque('index', args)
        raise Unsupported('list.%s' % name, n)

    def _order_lost(self, o, st):
        C = self.content(o, st)
        xs = C.exact()
        if xs is not None and len(xs) > 1:
            b = self.bsym('x')
            f = self.mem(C, (b,))
            self.replace(o, st, Content('list', [Entry(
                'add', (b,), f, (b,), setlike=self.all_distinct(C))]))
        return NONE

    def sets(self, args, st, n):
        out = []
        for a in args:
            if isinstance(a, App) and a.op == '*':
                return None
            C = self.iter_content(a, st, n)
            out.append(self.to_set(C))
        return out

    def m_set(self, o, C, name, args, kw, st, n):
        if name == 'add':
            self.write(o, st, Entry('add', (), True, (args[0],), node=n))
            return NONE
        if name == 'discard':
            self.write(o, st, Entry('rem', (), True, (args[0],), node=n))
            return NONE
        if name == 'remove':
            self.implicit('KeyError', st, n, Not(self.mem(C, (args[0],))))
            self.write(o, st, Entry('rem', (), True, (args[0],), node=n))
            return NONE
        if name in ('update', '__ior__'):
            for S in self.sets(args, st, n) or [None]:
                if S is None or S.lost:
                    self.replace(o, st, Content('set', lost='update'))
                else:
                    self.write(o, st, *[e for e in self.plain(S).log])
            return NONE
        ops = {'union': '|', 'intersection': '&', 'difference': '-',
               'symmetric_difference': '^'}
        if name in ops:
            S = C
            ss = self.sets(args, st, n)
            if ss is None:
                return self.alloc(st, Content('set', lost='*args'), 's')
            for T in ss:
                S = self.setop(ops[name], S, T)
            return self.alloc(st, S.but(frozen=False), 's')
        ups = {'intersection_update': '&', 'difference_update': '-',
               'symmetric_difference_update': '^'}
        if name in ups:
            for T in self.sets(args, st, n):
                if name == 'difference_update' and not T.lost:
                    T = self.plain(T)
                    self.write(o, st, *[e.but(op='rem') for e in T.log])
                    continue
                self.replace(o, st, self.setop(ups[name],
                                               self.content(o, st), T))
            return NONE
        if name == 'copy':
            return self.alloc(st, C.but(), 's')
        if name == 'clear':
            self.write(o, st, Entry('clr', (), True, (), node=n))
            return NONE
        T = self.sets(args, st, n) if args else None
        if name == 'issubset':
            return BoolV(self.cmp_set('<=', C, T[0]))
        if name == 'issuperset':
            return BoolV(self.cmp_set('>=', C, T[0]))
        if name == 'isdisjoint':
            b = self.bsym('s')
            return BoolV(Not(self.exists((b,), And(
                self.mem(C, (b,)), self.mem(T[0], (b,))))))
        if name == 'pop':
            self.implicit('KeyError', st, n, Not(self.nonempty(C)))
            L = self.keys_content(C, 'list')
            v = self.arbitrary(L, 0, st)
            self.write(o, st, Entry('rem', (), True, (v,), node=n))
            return v
        if name == '__contains__':
            return BoolV(self.mem(C, (args[0],)))
        raise Unsupported('set.%s' % name, n)

    def plain(self, S):
        """The same set written with additions only."""
        if self.adds_only(S):
            return S
        b = self.bsym('x')
        return Content('set', [Entry('add', (b,), self.mem(S, (b,)), (b,))],
                       distinct=True)

    def m_dict(self, o, C, name, args, kw, st, n):
        r = self.resolve(o, st)
        raw = self.raw(r.loc, st)
        if name in ('keys', 'values', 'items'):
            return ViewV(r, name)
        if name == 'get':
            d = args[1] if len(args) > 1 else NONE
            f = self.mem(raw, r.pre + (args[0],))
            return self.branch(f, st, lambda s: self.getitem(
                r, args[0], s, n), lambda s: d)
        if name == 'setdefault':
            d = args[1] if len(args) > 1 else NONE
            f = self.mem(raw, r.pre + (args[0],))

            def put(s):
                self.setitem(r, args[0], d, s, n)
                return self.getitem(r, args[0], s, n)
            return self.branch(f, st, lambda s: self.getitem(
                r, args[0], s, n), put)
        if name == 'pop':
            f = self.mem(raw, r.pre + (args[0],))

            def take(s):
                v = self.getitem(r, args[0], s, n)
                if isinstance(v, Ref) and v.pre:
                    v = self.alloc(s, self.content(v, s), 'popped')
                self.write(r, s, Entry('rem', (), True, (args[0],), node=n))
                return v
            if len(args) > 1:
                return self.branch(f, st, take, lambda s: args[1])
            self.implicit('KeyError', st, n, Not(f))
            return take(st)
        if name == 'copy':
            return self.alloc(st, C.but(), 'd')
        if name == 'clear':
            self.write(r, st, Entry('clr', (), True, (), node=n))
            return NONE
        if name == 'update':
            if args:
                v = args[0]
                D = self.coll(v, st)
                if D is not None and D.kind == 'dict':
                    if D.lost:
                        self.replace(r, st, Content('dict', lost=D.lost))
                        return NONE
                    if D.sub and any(len(e.key) > 1 or (
                            e.val is not None and e.val.key() ==
                            NESTED.key()) for e in D.log):
                        self.aliases.append((n, v, r.loc, None))
                        raise Unsupported('shared nested container', n)
                    if self.simple_log(D):
                        self.write(r, st, *[e for e in D.log])
                    else:
                        b = self.bsym('k')
                        self.write(r, st, Entry(
                            'add', (b,), self.mem(D, (b,)), (b,),
                            self.lookup(D, (b,))))
                elif isinstance(v, (Sym, App)):
                    b = self.bsym('k')
                    self.write(r, st, Entry('add', (b,), self.rel(
                        'in', v, b), (b,), self.app('item', (v, b))))
                else:
                    # pairs
                    P = self.iter_content(v, st, n)
                    if P.lost:
                        self.replace(r, st, Content('dict', lost=P.lost))
                        return NONE
                    es = []
                    for e in P.log:
                        p = e.key[0]
                        if e.op != 'add' or not isinstance(p, TupleV) or \
                                len(p.items) != 2:
                            raise Unsupported('dict of pairs', n)
                        es.append(e.but(key=(p.items[0],), val=p.items[1]))
                    self.write(r, st, *es)
            for k, v in kw.items():
                self.setitem(r, Const(k), v, st, n)
            return NONE
        if name == '__contains__':
            return BoolV(self.mem(raw, r.pre + (args[0],)))
        raise Unsupported('dict.%s' % name, n)


class _Owned:
    """`loc in owned`: the container is reachable only through local
    variables (not a field of an object, not an element of a container)."""

    def __init__(self, eng, st):
        self.eng, self.st = eng, st

    def __contains__(self, loc):
        st = self.st
        if not (loc.startswith('d#') or loc.startswith('l#') or
                loc.startswith('s#') or loc.startswith('comp#') or
                loc.startswith('cp#')):
            return False
        for v in st.fields.values():
            for x in _refs(v):
                if isinstance(x, Ref) and x.loc == loc:
                    return False
        for c in st.heap.values():
            if isinstance(c, Forward):
                continue
            for e in c.log:
                for y in e.key + ((e.val,) if e.val is not None else ()):
                    if isinstance(y, Ref) and y.loc == loc:
                        return False
        return True


def format_fields(s):
    """The arguments a format string uses, where all are positional."""
    out, auto = set(), 0
    todo = [s]
    while todo:
        try:
            parts = list(string.Formatter().parse(todo.pop(0)))
        except ValueError:
            return None
        for _, field, spec, _ in parts:
            if field is None:
                continue
            m = re.match(r'[^.\[]*', field).group()
            if m == '':
                m = str(auto)
                auto += 1
            if not m.isdigit():
                return None
            out.add(int(m))
            if spec:
                todo.append(spec)
    return out


def _locals(node):
    body = getattr(node, 'body', [])
    if not isinstance(body, list):
        return set()
    out = set()
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
    return out
