"""Abstract interpretation over all graphs on a few vertices at once.

The abstract values are Boolean functions of the edges: every guard, path
condition and case distinction is kept as the set of the graphs (on a fixed
handful of vertices) for which it holds, a bit per graph.  States are joined
at every merge point, loops are iterated until no graph is left that enters
them once more.  Decisions are set operations; there is no search."""

import ast
import itertools

from .logic import *          # noqa: F401,F403
from .content import Content, Entry, NESTED, merge_contents
from .engine import Unsupported, Dead, Exit, Flow, State, UNBOUND
from .exprs import Machine
from . import logic as L


class Endless(Exception):
    """A loop is entered again and again by the same graphs."""

    def __init__(self, bits, node):
        Exception.__init__(self, 'loop never ends')
        self.bits, self.node = bits, node


class Rounds:
    """Watches a loop.  One that has been entered many times is followed for
    one of the graphs only: either its state repeats, so that it never ends,
    or it ends, so that nothing is known about the other graphs.

    (A loop whose state grows all the time never repeats; entering a loop
    over a thousand times for a graph of up to six vertices counts as not
    ending, too.)"""

    def __init__(self, eng, node):
        self.eng, self.node = eng, node
        self.n = 0
        self.seen = None
        self.limit = 120 + 20 * max(0, len(eng.universe) - 6)

    def __call__(self, cur, where=None):
        E = self.eng
        self.n += 1
        if self.n <= self.limit:
            return cur
        if self.seen is None:
            p = E.pcbits(cur.pc)
            cur = cur.fork(E.tt(p & -p))
            cur.pc = E.onepc(cur.pc)
            self.seen = set()
        p = E.pcbits(cur.pc)
        k = Picture(E, cur, p).state()
        if k is not None:
            if (where, k) in self.seen:
                raise Endless(p, self.node)
            self.seen.add((where, k))
        if self.n > self.limit + 1000:
            if len(E.universe) <= 6:
                raise Endless(p, self.node)
            raise Unsupported('a loop that goes on for long', self.node)
        return cur

    def over(self):
        if self.seen is not None:
            raise Unsupported('a loop that goes on for long', self.node)


class Picture:
    """The state for a single graph, comparable."""

    def __init__(self, eng, st, bit):
        self.E, self.st, self.bit = eng, st, bit
        self.names, self.out = {}, []

    def state(self):
        try:
            for k, v in sorted(self.st.env.items()):
                self.out.append((k, self.value(v)))
            for (o, f), v in sorted(self.st.fields.items(),
                                    key=lambda y: (str(y[0][0]), y[0][1])):
                if str(o).startswith(('!class:', '!module:')):
                    self.out.append((o, f, self.value(v)))
        except (Unsupported, RecursionError):
            return None
        return tuple(self.out)

    def value(self, v):
        E, t = self.E, type(v)
        while isinstance(v, IteV):
            v = v.a if E.bits(v.c) & self.bit else v.b
        t = type(v)
        if t is BoolV:
            return ('bool', bool(E.bits(v.f) & self.bit))
        if t is TupleV:
            return ('tuple',) + tuple(self.value(x) for x in v.items)
        if t is Ref:
            return ('ref', v.pre, self.place(v.loc)) if not v.pre else (
                'in', self.place(v.loc), tuple(self.value(x) for x in v.pre))
        if t is SnapV:
            return ('snap', v.what, self.content(v.content))
        if t is ViewV:
            return ('view', v.what, self.value(v.ref))
        if t is BoundV:
            return ('bound', self.value(v.self_), self.value(v.fn))
        if t is ObjV:
            new = v.oid not in self.names
            n = self.names.setdefault(v.oid, len(self.names))
            if new:
                for (o, f), x in sorted(self.st.fields.items(),
                                        key=lambda y: (str(y[0][0]), y[0][1])):
                    if o == v.oid:
                        self.out.append((n, f, self.value(x)))
            return ('object', n)
        if t is FuncV and not v.env:
            return v.key()
        if t is Const or t is Sym or t is App or t is Num or t is ClassV or \
                t is ModV or v is UNBOUND:
            return v.key()
        if t is ExtV and v.recv is None:
            return v.key()
        raise Unsupported('state of a loop')

    def place(self, loc):
        if loc in self.names:
            return self.names[loc]
        n = self.names[loc] = len(self.names)
        C = self.st.heap.get(loc)
        if not isinstance(C, Content):
            raise Unsupported('state of a loop')
        self.out.append((n, self.content(C)))
        return n

    def content(self, C):
        E = self.E
        if C.lost:
            raise Unsupported('state of a loop')
        if C.kind == 'list' and not C.sub:
            r = []
            for p in E.positions(C):
                x = [v for b, v in p.values() if b & self.bit]
                if not x:
                    break
                r.append(self.value(x[0]))
            return ('list',) + tuple(r)
        D = E.norm(C)
        if D.sub or any(e.B or e.op != 'add' for e in D.log):
            if any(e.B for e in C.log):
                raise Unsupported('state of a loop')
            return (C.kind,) + tuple(
                (id(e), tuple(self.value(k) for k in e.key),
                 None if e.val is None or e.val is NESTED
                 else self.value(e.val)) for e in C.log)
        return (C.kind,) + tuple(
            (tuple(self.value(k) for k in e.key),
             None if e.val is None else self.value(e.val))
            for e in D.log if E.bits(e.g) & self.bit)


class FiniteMachine(Machine):

    def setup(self, universe, variables):
        """`universe`: the vertices; `variables`: the edge atoms."""
        self.universe = list(universe)
        self.vars = list(variables)
        n = len(self.vars)
        self.all = (1 << (1 << n)) - 1
        self.base = {}
        for i, a in enumerate(self.vars):
            # the truth table of the i-th variable
            block = 1 << i
            m = ((1 << block) - 1) << block
            w = 2 * block
            while w < (1 << n):
                m |= m << w
                w *= 2
            self.base[a.key] = m
        self.memo = {}
        self.true = set()
        self.false = set()
        self.open_rel = None
        self.pending = None

    # ------------------------------------------------------------ guards

    def bits(self, f):
        if f is True:
            return self.all
        if f is False:
            return 0
        k = fkey(f)
        b = self.memo.get(k)
        if b is not None:
            return b
        if isinstance(f, Atom):
            b = self.atombits(f)
        elif f[0] == 'n':
            b = self.all & ~self.bits(f[1])
        elif f[0] == '&':
            b = self.all
            for x in f[1]:
                b &= self.bits(x)
                if not b:
                    break
        else:
            b = 0
            for x in f[1]:
                b |= self.bits(x)
        self.memo[k] = b
        return b

    def atombits(self, a):
        if a.kind == 'tt':
            return a.args[0]
        if a.key in self.false:
            return 0
        b = self.base.get(a.key)
        if b is not None:
            return b
        if a.kind == 'rel' and a.args[0] in self.true:
            if all(any(x.key() == u.key() for u in self.universe)
                   for x in a.args[1:]):
                return self.all
            if all(isinstance(x, Const) for x in a.args[1:]):
                return 0
        if a.kind == 'ex':
            r = 0
            for u in self.universe:
                r |= self.bits(self.subst(a.args[1], {a.args[0]: u}))
            return r
        raise Unsupported('condition outside of the finite domain: %s'
                          % fshow(a)[:80])

    def tt(self, b):
        if b == 0:
            return False
        if b == self.all:
            return True
        a = atom('tt', b)
        return a

    def fold(self, f):
        if isinstance(f, bool) or isinstance(f, Atom) and f.kind == 'tt':
            return f
        return self.tt(self.bits(f))

    def model(self, f, limit=0):
        return {} if self.bits(f) else None

    def sat(self, *fs):
        return bool(self.bits(And(*fs)))

    def equivalent(self, f, g, quiet=False):
        return self.bits(f) == self.bits(g)

    def implied(self, pc, f):
        return not self.pcbits(pc) & ~self.bits(f)

    def pcbits(self, pc):
        b = self.all
        for x in pc:
            b &= self.bits(x)
        return b

    def pcdecide(self, f, st):
        if isinstance(f, bool):
            return f
        p = self.all if st is None else self.pcbits(st.pc)
        b = self.bits(f)
        if not p & b:
            return False
        if not p & ~b:
            return True
        return None

    def pcslice(self, pc, f):
        return list(pc)

    def gate(self, r1, r2):
        return self.fold(r1)

    def simp_or(self, a, b):
        return self.fold(Or(a, b))

    def merge_heap(self, c, k, a, b, s1, s2):
        m = merge_contents(c, a, b)
        if m is None:
            raise Unsupported('join of different containers %s' % k)
        if isinstance(m, Content):
            m = m.but(log=[e.but(g=self.fold(e.g)) for e in m.log
                           if e.g is True or self.bits(e.g)])
            if len(m.log) > 8:
                m = self.norm(m)
        return m

    def merge(self, s1, s2):
        s = super().merge(s1, s2)
        if s is not s1 and s is not s2:
            s.pc = self.onepc(s.pc)
            for k, v in s.env.items():
                if isinstance(v, IteV):
                    s.env[k] = self.tidy(v)
        return s

    def onepc(self, pc):
        f = self.tt(self.pcbits(pc))
        return () if f is True else (f,)

    # ------------------------------------------------------------- values

    def tab(self, v, b=None):
        """[(graphs, alternative)] of a value."""
        out = {}

        def go(v, b):
            if not b:
                return
            if isinstance(v, IteV):
                c = self.bits(v.c)
                go(v.a, b & c)
                go(v.b, b & ~c)
                return
            if isinstance(v, BoolV):
                v = BoolV(self.fold(v.f))
            k = v.key()
            if k in out:
                out[k] = (out[k][0] | b, v)
            else:
                out[k] = (b, v)
        go(v, self.all if b is None else b)
        return list(out.values())

    def untab(self, alts):
        if not alts:
            return UNBOUND
        alts = list(alts)
        v = alts[-1][1]
        for b, x in reversed(alts[:-1]):
            v = ite(self.tt(b), x, v)
        return v

    def tidy(self, v):
        return self.untab(self.tab(v))

    def add_alt(self, alts, b, v):
        for bb, x in self.tab(v, b):
            k = x.key()
            alts[k] = (alts[k][0] | bb, x) if k in alts else (bb, x)

    def positions(self, C):
        """A list by position: [{key: (graphs, value)}]."""
        if C.lost:
            raise Unsupported('unknown list (%s)' % C.lost)
        pos = []
        cnt = [self.all]
        for e in C.log:
            if e.op != 'add' or e.B or len(e.key) != 1:
                raise Unsupported('list outside of the finite domain')
            g = self.bits(e.g)
            if not g:
                continue
            for j in range(len(cnt) - 1, -1, -1):
                s = cnt[j] & g
                if not s:
                    continue
                while len(pos) <= j:
                    pos.append({})
                self.add_alt(pos[j], s, e.key[0])
                while len(cnt) <= j + 1:
                    cnt.append(0)
                cnt[j] &= ~s
                cnt[j + 1] |= s
            if len(cnt) > 400:
                raise Unsupported('list too long')
        return pos

    def present(self, p):
        b = 0
        for x, _ in p.values():
            b |= x
        return b

    def from_positions(self, pos, like=None):
        log = []
        for p in pos:
            b = self.present(p)
            if not b:
                break
            log.append(Entry('add', (), self.tt(b), (
                self.untab(list(p.values())),)))
        return Content('list', log)

    def enum(self, C):
        """A set or mapping with every key once."""
        if C.lost:
            raise Unsupported('unknown contents (%s)' % C.lost)
        keys = {}
        for e in C.log:
            if e.B:
                raise Unsupported('contents outside of the finite domain')
            if len(e.key) == 1 and e.op in ('add', 'setd'):
                for b, x in self.tab(e.key[0], self.bits(e.g)):
                    keys.setdefault(x.key(), x)
        log, odd = [], []
        for x in keys.values():
            f = self.bits(self.mem(C, (x,)))
            if not isinstance(x, Const):
                for y in odd:
                    f &= ~self.bits(And(y.g, self.eq(y.key[0], x)))
            if not f:
                continue
            v = None
            if C.kind == 'dict':
                v = super().lookup(C, (x,))
                v = self.untab(self.tab(v, f)) if v is not None else v
            e = Entry('add', (), self.tt(f), (x,), v)
            if not isinstance(x, Const):
                odd.append(e)
            log.append(e)
        return Content(C.kind, log, None, C.frozen, True)

    def norm(self, C):
        if not isinstance(C, Content) or C.lost or C.sub or any(
                e.B for e in C.log):
            return C
        if C.kind == 'list':
            if C.exact() is not None:
                return C
            return self.from_positions(self.positions(C))
        if all(e.op == 'add' and isinstance(e.key[0], Const)
               for e in C.log) and len({e.key[0].key() for e in C.log}) \
                == len(C.log):
            return C
        return self.enum(C)

    # --------------------------------------------------------- containers

    def write(self, ref, st, *entries):
        for e in entries:
            for k in e.key:
                for _, x in self.tab(k) if isinstance(k, IteV) else [(0, k)]:
                    if isinstance(x, ObjV):
                        m = self.prog.find_member(x.cls, '__eq__')
                        if m is not None and m[1] == 'method':
                            # (compared wherever the container goes)
                            self.freeze(x, st)
        super().write(ref, st, *entries)

    def mem(self, C, keys):
        if any(has_binder(k) for k in keys):
            return super().mem(C, keys)
        return self.fold(super().mem(C, keys))

    def lookup(self, C, keys):
        v = super().lookup(C, keys)
        return self.tidy(v) if isinstance(v, IteV) else v

    def _drop_absent(self, v):
        return v if not isinstance(v, IteV) else super()._drop_absent(v)

    def nested_view(self, C, pre):
        if C.lost or C.sub == 'list':
            return super().nested_view(C, pre)
        keys = {}
        for e in C.log:
            if len(e.key) == len(pre) + 1 and e.op in ('add', 'setd'):
                if e.B:
                    raise Unsupported('contents outside of the finite '
                                      'domain')
                for _, x in self.tab(e.key[-1], self.bits(e.g)):
                    keys.setdefault(x.key(), x)
        log = []
        for x in keys.values():
            f = self.mem(C, tuple(pre) + (x,))
            if f is False:
                continue
            log.append(Entry('add', (), f, (x,), self.lookup(
                C, tuple(pre) + (x,)) if C.sub == 'dict' else None))
        return Content(C.sub, log, distinct=True)

    def segments(self, C):
        if not C.lost and C.kind != 'list' and not any(e.B for e in C.log):
            C = self.enum(C)
            C = C.but(kind='list', log=[e.but(val=None) for e in C.log])
        return super().segments(C)

    def view_content(self, C, what, ref=None):
        if C.lost or what == 'keys' or any(e.B for e in C.log):
            return super().view_content(C, what, ref)
        if C.sub:
            raise Unsupported('views of nested containers')
        return Content('list', [Entry('add', (), e.g, (
            e.val if what == 'values' else TupleV((e.key[0], e.val)),))
            for e in self.enum(C).log], distinct=what == 'items')

    def keys_content(self, C, kind):
        if C.lost or any(e.B for e in C.log):
            return super().keys_content(C, kind)
        if C.kind == 'list':
            if kind == 'list':
                return C.but(frozen=False)
            return self.enum(Content('set', C.log))
        D = self.enum(C)
        return Content(kind, [e.but(val=None) for e in D.log],
                       distinct=True)

    def setop(self, op, A, B):
        if not A.lost and not B.lost:
            A, B = (self.enum(Content('set', C.log, C.sub))
                    if not (C.sub or any(e.B for e in C.log)) else C
                    for C in (A, B))
            keys = {}
            for e in A.log + B.log:
                keys.setdefault(e.key[0].key(), e.key[0])
            log = []
            for x in keys.values():
                fa, fb = self.mem(A, (x,)), self.mem(B, (x,))
                f = self.fold({'|': Or(fa, fb), '&': And(fa, fb), '-': And(
                    fa, Not(fb)), '^': Not(Iff(fa, fb))}[op])
                if f is not False:
                    log.append(Entry('add', (), f, (x,)))
            return Content('set', log, distinct=True)
        return super().setop(op, A, B)

    def cmp_set(self, op, A, B):
        if op in ('>', '>='):
            A, B = B, A
            op = '<' if op == '>' else '<='
        A, B = (self.enum(Content('set', C.log)) for C in (A, B))
        sub = And(*[Implies(e.g, self.mem(B, e.key)) for e in A.log])
        if op == '<=':
            return self.fold(sub)
        return self.fold(And(sub, Or(*[And(e.g, Not(self.mem(A, e.key)))
                                       for e in B.log])))

    def nonempty(self, C):
        if C.lost:
            raise Unsupported('unknown contents')
        if C.kind == 'list':
            return self.tt(self.bits(Or(*[e.g for e in C.log])))
        return self.tt(self.bits(Or(*[e.g for e in self.enum(C).log])))

    def as_positions(self, C):
        return self.positions(C if C.kind == 'list' else
                              self.keys_content(C, 'list'))

    def length(self, C):
        if C.lost:
            raise Unsupported('unknown contents')
        pos = self.as_positions(C)
        pr = [self.all] + [self.present(p) for p in pos] + [0]
        return self.untab([(pr[i] & ~pr[i + 1], self.num(i))
                           for i in range(len(pos) + 1)
                           if pr[i] & ~pr[i + 1]])

    def count_ge(self, C, k):
        if k <= 0:
            return True
        pos = self.as_positions(C)
        return self.tt(self.present(pos[k - 1])) if len(pos) >= k else False

    def arbitrary(self, C, k, st):
        return self.pick(self.as_positions(C), k)[0]

    def at(self, pos, k):
        """Graphs for which position j is the one meant by index k."""
        pr = [self.present(p) for p in pos] + [0]
        out = []
        for j in range(len(pos)):
            if k >= 0:
                out.append(pr[j] if j == k else 0)
            else:
                m = j - k - 1       # the last position there is
                out.append((pr[m] if m < len(pos) else 0) &
                           ~(pr[m + 1] if m + 1 < len(pos) else 0))
        return out

    def pick(self, pos, k):
        alts = {}
        w = self.at(pos, k)
        for p, b in zip(pos, w):
            for bb, x in p.values():
                if bb & b:
                    self.add_alt(alts, bb & b, x)
        return self.untab(list(alts.values())), w

    def in_order(self, C, kw, st, n):
        """The items of a list of texts and numbers, sorted."""
        key = kw.get('key', NONE)
        if key.key() == NONE.key():
            key = None
        elif not isinstance(key, ExtV) or key.path.split('.')[-1] != 'str':
            raise Unsupported('sorted by a key')
        back = kw.get('reverse', BoolV(False))
        if not isinstance(back, BoolV) or not isinstance(back.f, bool):
            raise Unsupported('order of sorting')
        many, names, here = {}, {}, {}
        for p in self.positions(C):
            for b, x in p.values():
                k = x.v if isinstance(x, Const) else self.constint(x)
                if not isinstance(k, (str, int)):
                    raise Unsupported('sorting')
                if key:
                    k = str(k)
                t = (type(k) is str, k)
                if t in names and names[t].key() != x.key():
                    raise Unsupported('sorting equal keys')
                names[t] = x
                here[t[0]] = here.get(t[0], 0) | b
                ms = many.setdefault(t, [])
                for i, m in enumerate(ms):
                    ms[i], b = m | b, m & b
                if b:
                    ms.append(b)
        if len(here) > 1:
            self.implicit('TypeError', st, n, self.tt(here[0] & here[1]))
        return Content('list', [
            Entry('add', (), self.tt(b), (names[t],))
            for t in sorted(many, reverse=back.f) for b in many[t]])

    def b_sorted(self, args, kw, st, n):
        C = self.to_list(self.iter_content(args[0], st, n))
        return self.alloc(st, self.in_order(C, kw, st, n), 'l')

    def without(self, pos, w):
        """Positions with the marked ones taken out."""
        out = []
        gone = 0
        for j, p in enumerate(pos):
            gone |= w[j]
            q = {}
            for b, x in p.values():
                if b & ~gone:
                    self.add_alt(q, b & ~gone, x)
            if j + 1 < len(pos):
                for b, x in pos[j + 1].values():
                    if b & gone:
                        self.add_alt(q, b & gone, x)
            out.append(q)
        return out

    def m_list(self, o, C, name, args, kw, st, n):
        if name in ('pop', 'popleft') and C.exact() is None:
            k = -1
            if name == 'popleft':
                k = 0
            elif args:
                k = self.constint(args[0])
            if k is None:
                raise Unsupported('list.pop', n)
            pos = self.positions(C)
            v, w = self.pick(pos, k)
            ok = 0
            for b in w:
                ok |= b
            self.implicit('IndexError', st, n, Not(self.tt(ok)))
            self.replace(o, st, self.from_positions(self.without(pos, w)))
            return self.untab(self.tab(v, self.pcbits(st.pc)))
        if name == 'remove' and C.exact() is None:
            pos = self.positions(C)
            w, left = [], self.all
            for p in pos:
                b = 0
                for bb, x in p.values():
                    b |= bb & self.bits(self.eq(x, args[0], st))
                w.append(b & left)
                left &= ~b
            self.implicit('ValueError', st, n, self.tt(left))
            self.replace(o, st, self.from_positions(self.without(pos, w)))
            return NONE
        if name == 'remove':
            xs = C.exact()
            self.replace(o, st, Content('list', [
                Entry('add', (), True, (x,)) for x in xs]).but())
            D = Content('list', [Entry('add', (), True, (x,))
                                 for x in xs] + [
                                     Entry('add', (), False, (NONE,))])
            return self.m_list(o, D, name, args, kw, st, n)
        if name == 'reverse':
            self.replace(o, st, self.reverse_list(C))
            return NONE
        if name == 'sort':
            self.replace(o, st, self.in_order(C, kw, st, n))
            return NONE
        if name == 'insert':
            k = self.constint(args[0])
            if k != 0:
                raise Unsupported('list.insert', n)
        if name in ('appendleft',):
            self.replace(o, st, Content('list', (Entry(
                'add', (), True, (args[0],), node=n),) + C.log))
            return NONE
        if name == 'extendleft':
            S = self.iter_content(args[0], st, n)
            L_ = self.reverse_list(self.to_list(S))
            self.replace(o, st, Content('list', tuple(L_.log) + C.log))
            return NONE
        if name == 'count':
            pos = self.positions(C)
            out = {}
            cnt = [self.all]
            for p in pos:
                b = 0
                for bb, x in p.values():
                    b |= bb & self.bits(self.eq(x, args[0], st))
                cnt.append(0)
                for j in range(len(cnt) - 2, -1, -1):
                    s = cnt[j] & b
                    cnt[j] &= ~s
                    cnt[j + 1] |= s
            for i, b in enumerate(cnt):
                if b:
                    out[i] = (b, self.num(i))
            return self.untab(list(out.values()))
        return super().m_list(o, C, name, args, kw, st, n)

    def reverse_list(self, C):
        if C.exact() is not None:
            return C.but(log=tuple(reversed(C.log)))
        pos = self.positions(C)
        out = []
        for j in range(len(pos)):
            v, w = self.pick(pos, -1 - j)
            b = 0
            for x in w:
                b |= x
            q = {}
            self.add_alt(q, b, v)
            out.append(q)
        return self.from_positions(out)

    def b_reversed(self, args, kw, st, n):
        C = self.coll(args[0], st)
        if C is not None and C.kind == 'list':
            from .logic import SnapV
            return SnapV(self.reverse_list(C), 'iter')
        return super().b_reversed(args, kw, st, n)

    def list_index(self, C, i, st, n):
        k = self.constint(i)
        if k is None or C.exact() is not None:
            return super().list_index(C, i, st, n)
        pos = self.positions(C)
        v, w = self.pick(pos, k)
        ok = 0
        for b in w:
            ok |= b
        self.implicit('IndexError', st, n, Not(self.tt(ok)))
        return self.untab(self.tab(v, ok & self.pcbits(st.pc)))

    def getslice(self, o, lo, hi, stp, st, n):
        C = self.coll(o, st)
        if C is None or C.kind != 'list' or C.exact() is not None:
            return super().getslice(o, lo, hi, stp, st, n)
        ks = []
        for x in (lo, hi, stp):
            none = x is None or x.key() == NONE.key()
            ks.append(None if none else self.constint(x))
            if ks[-1] is None and not none:
                raise Unsupported('slice', n)
        pos = self.positions(C)
        pr = [self.all] + [self.present(p) for p in pos] + [0]
        out = []
        for ln in range(len(pos) + 1):
            b = pr[ln] & ~pr[ln + 1]
            if not b:
                continue
            for t, j in enumerate(range(ln)[slice(*ks)]):
                while len(out) <= t:
                    out.append({})
                for bb, x in pos[j].values():
                    if bb & b:
                        self.add_alt(out[t], bb & b, x)
        return self.alloc(st, self.from_positions(out), 'l')

    def coll_eq(self, A, B, st):
        if A.kind == 'list' and B.kind == 'list' and not A.lost and \
                not B.lost:
            p, q = self.positions(A), self.positions(B)
            bad = 0
            for j in range(max(len(p), len(q))):
                a = p[j] if j < len(p) else {}
                b = q[j] if j < len(q) else {}
                bad |= self.present(a) ^ self.present(b)
                for ba, x in a.values():
                    for bb, y in b.values():
                        if ba & bb:
                            bad |= ba & bb & ~self.bits(self.eq(x, y, st))
            return Not(self.tt(bad))
        return super().coll_eq(A, B, st)

    def setitem(self, o, i, v, st, n):
        if isinstance(o, Ref) and isinstance(v, (Ref, IteV)):
            r = self.resolve(o, st)
            C = self.raw(r.loc, st)
            if not r.pre and C.kind == 'dict' and not C.sub and not C.lost:
                self.write(r, st, Entry('add', (), True, (i,), v, node=n))
                return
        super().setitem(o, i, v, st, n)

    # ---------------------------------------------------------- statements

    def names_of(self, n):
        if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target]
            return [x.id for t in ts for x in ast.walk(t)
                    if isinstance(x, ast.Name)]
        return []

    def block(self, stmts, st):
        names, self.pending = self.pending or (), None
        return self.run_block(list(stmts), st, names)

    def run_block(self, stmts, st, names):
        exits = []
        cur = st
        for i, s in enumerate(stmts):
            parts = self.split(cur, names)
            if parts is not None:
                nxt = None
                for p in parts:
                    fl = self.run_block(stmts[i:], p, ())
                    nxt = self.merge(nxt, fl.next)
                    exits += fl.exits
                return Flow(nxt, exits)
            try:
                fl = self.stmt(s, cur)
            except Dead:
                return Flow(None, exits)
            exits += fl.exits
            cur = fl.next
            if cur is None:
                return Flow(None, exits)
            names = self.names_of(s)
        return Flow(cur, exits)

    def split(self, st, names):
        """One state per alternative of a variable that was just set."""
        for x in names:
            v = st.env.get(x)
            if isinstance(v, TupleV):
                if not any(isinstance(y, IteV) for y in v.items):
                    continue
            elif not isinstance(v, IteV):
                continue
            p = self.pcbits(st.pc)
            alts = self.tuples_of(v, p)
            if any(isinstance(a, BoolV) for _, a in alts) or \
                    len(alts) > 200:
                continue
            out = []
            for b, a in alts:
                s = st.fork(self.tt(b))
                s.env[x] = a
                out.append(s)
            return out
        return None

    def tuples_of(self, v, p):
        alts = self.tab(v, p)
        out = []
        for b, a in alts:
            if isinstance(a, TupleV) and any(isinstance(y, IteV)
                                             for y in a.items):
                rows = [(b, [])]
                for y in a.items:
                    rows = [(bb, r + [z]) for b0, r in rows
                            for bb, z in self.tab(y, b0)]
                out += [(bb, TupleV(r)) for bb, r in rows]
            else:
                out.append((b, a))
        return out

    def s_While(self, n, st):
        for h in self.whiles:
            r = h(self, n, st)
            if r is not None:
                return r
        exits, brk, done = [], [], None
        cur = st
        watch = Rounds(self, n)
        while True:
            cur = watch(cur)
            self.tidy_state(cur)
            try:
                t = self.fold(self.truth(self.eval(n.test, cur), cur))
            except Dead:
                cur = None
                break
            d = self.pcdecide(t, cur)
            if d is not True:
                done = self.merge(done, cur.fork(Not(t)))
            if d is False:
                cur = None
                break
            body = cur.fork(t)
            self.pending = self.walrus(n.test)
            fl = self.block(n.body, body)
            nxt = fl.next
            for e in fl.exits:
                if e.kind == 'continue':
                    nxt = self.merge(nxt, e.st)
                elif e.kind == 'break':
                    brk.append(e.st)
                else:
                    exits.append(e)
            cur = nxt
            if cur is None:
                break
        watch.over()
        if done is not None and n.orelse:
            fl = self.block(n.orelse, done)
            done = fl.next
            exits += fl.exits
        for b in brk:
            done = self.merge(done, b)
        return Flow(done, exits)

    def walrus(self, t):
        return [x.target.id for x in ast.walk(t)
                if isinstance(x, ast.NamedExpr)]

    def tidy_state(self, st):
        st.pc = self.onepc(st.pc)
        p = self.pcbits(st.pc)
        for k, v in list(st.env.items()):
            if isinstance(v, IteV):
                st.env[k] = self.untab(self.tab(v, p) or self.tab(v))
        for k, C in list(st.heap.items()):
            if k == '!events' or not isinstance(C, Content):
                continue
            if len(C.log) > 3:
                st.heap[k] = self.norm(C)

    def loop(self, target, it, body, orelse, st, node):
        live = None
        if isinstance(it, Ref):
            C = self.content(it, st)
            if C.kind == 'list' and not C.lost:
                live = it
        if live is None:
            r = None
            if isinstance(it, Ref):
                r = it
            elif isinstance(it, ViewV):
                r = it.ref
            C = None if r is None else self.content(r, st)
            if C is None or C.lost or C.kind == 'list' or C.sub or any(
                    e.B for e in C.log):
                return super().loop(target, it, body, orelse, st, node)
            return self.keyed(target, it, r, body, orelse, st, node)
        # (a list may grow while it is enumerated)
        exits, brk, done = [], [], None
        cur = st
        watch = Rounds(self, node)
        for i in itertools.count():
            cur = watch(cur, i)
            C = self.content(live, cur)
            pos = self.positions(C)
            here = self.present(pos[i]) if i < len(pos) else 0
            d = self.pcdecide(self.tt(here), cur)
            if d is not True:
                done = self.merge(done, cur.fork(Not(self.tt(here))))
            if d is False:
                cur = None
                break
            s = cur.fork(self.tt(here))
            v = self.untab(self.tab(self.untab(list(pos[i].values())),
                                    self.pcbits(s.pc)))
            nxt = None
            try:
                self.assign(target, v, s)
                self.pending = self.target_names(target)
                fl = self.block(body, s)
                nxt = fl.next
                for e in fl.exits:
                    if e.kind == 'continue':
                        nxt = self.merge(nxt, e.st)
                    elif e.kind == 'break':
                        brk.append(e.st)
                    else:
                        exits.append(e)
            except Dead:
                pass
            cur = nxt
            if cur is None:
                break
            cur.pc = self.onepc(cur.pc)
        watch.over()
        if done is not None and orelse:
            fl = self.block(orelse, done)
            done = fl.next
            exits += fl.exits
        for b in brk:
            done = self.merge(done, b)
        return Flow(done, exits)

    def keyed(self, target, it, ref, body, orelse, st, node):
        """A set or mapping must not grow or shrink while it is enumerated."""
        r = self.resolve(ref, st)
        C0 = self.content(r, st)
        cur, exits, brk = st, [], []
        for seg in self.segments(self.iter_content(it, st, node)):
            if cur is None:
                break
            if seg[0] != 'item':
                raise Unsupported('contents outside of the finite domain')
            cur, ex, br = self.item_iter(seg, target, body, cur)
            exits += ex
            brk += br
            if cur is None:
                break
            here = self.bits(seg[1]) & self.pcbits(cur.pc)
            C1 = self.content(r, cur)
            if C1 is C0 or not here:
                continue
            n0 = self.tab(self.length(C0), here)
            n1 = self.tab(self.length(C1), here)
            size = 0
            for a, x in n0:
                for b, y in n1:
                    if x.key() != y.key():
                        size |= a & b
            keys = {e.key[0].key(): e.key[0] for C in (C0, C1)
                    for e in self.enum(C).log}
            other = 0
            for x in keys.values():
                other |= self.bits(self.mem(C0, (x,))) ^ self.bits(
                    self.mem(C1, (x,)))
            if other & here & ~size:
                raise Unsupported('collection changes while iterated', node)
            if size:
                try:
                    self.implicit('RuntimeError', cur, node, self.tt(size))
                except Dead:
                    cur = None
        if cur is not None and orelse:
            fl = self.block(orelse, cur)
            cur = fl.next
            exits += fl.exits
        for s in brk:
            cur = self.merge(cur, s)
        return Flow(cur, exits)

    def target_names(self, t):
        return [x.id for x in ast.walk(t) if isinstance(x, ast.Name)]

    def item_iter(self, seg, target, body, st):
        if isinstance(target, ast.AST) and isinstance(seg[2], (IteV,
                                                               TupleV)):
            v = self.untab(self.tuples_of(seg[2], self.pcbits(st.pc) &
                                          self.bits(seg[1])) or
                           [(0, seg[2])])
            seg = (seg[0], seg[1], v)
            self.pending = self.target_names(target)
        return super().item_iter(seg, target, body, st)


def has_binder(v):
    return any(isinstance(x, Sym) for x in syms_in(v).values())


def fshow(f):
    return L.fshow(f)
