"""Small clusters: every pair of clusters over a few points at once, compared
with what clusters determine.

No assumption is made on how clusters store what they are made of, and
questions are asked twice, so that whatever an earlier one left behind shows
in the later ones."""

import itertools

from ..logic import *          # noqa: F401,F403
from ..content import Content, Entry
from ..engine import Unsupported
from ..finite import FiniteMachine, Endless
from ..lab import Lab, start

KINDS = ('Rigid', 'Hedgehog', 'Balloon')
LOW = {'Rigid': 0, 'Hedgehog': 2, 'Balloon': 3}


class Shape:
    """A cluster of the specification."""

    def __init__(self, kind, c, pts):
        self.kind, self.c = kind, c
        self.x = frozenset(pts) - {c} if kind == 'Hedgehog' else \
            frozenset(pts)
        self.vars = self.x | {c} if kind == 'Hedgehog' else self.x

    def ok(self):
        return len(self.x) >= LOW[self.kind]

    def angles(self):
        """{(apex, the two others)}"""
        if self.kind == 'Hedgehog':
            return {(self.c, frozenset(p))
                    for p in itertools.combinations(self.x, 2)}
        return {(p[i], frozenset(p[:i] + p[i + 1:])) for p in
                itertools.combinations(sorted(self.x, key=str), 3) for i in range(3)}

    def distances(self):
        if self.kind != 'Rigid':
            return set()
        return {frozenset(p) for p in itertools.combinations(self.x, 2)}

    def meet(self, o):
        """The cluster both determine: (kind, centre, variables)."""
        s = self.vars & o.vars
        if self.kind == o.kind == 'Rigid':
            return ('Rigid', None, s) if len(s) >= 2 else None
        if 'Hedgehog' not in (self.kind, o.kind):
            return ('Balloon', None, s) if len(s) >= 3 else None
        if self.kind == o.kind:
            x, c = self.x & o.x, self.c
            if self.c != o.c:
                return None
        else:
            h, b = (self, o) if self.kind == 'Hedgehog' else (o, self)
            x, c = h.x & b.vars, h.c
            if c not in b.vars:
                return None
        return ('Hedgehog', c, x | {c}) if len(x) >= 2 else None


class Pairs:
    """Clusters A and B of these kinds, with these centres, over every choice
    of the points."""

    def __init__(self, ck, points, kinds, centres, twice=True):
        self.ck, self.points = ck, points
        lab = Lab.__new__(Lab)
        lab.prog = ck.prog
        lab.from_start = True
        lab.eng = self.E = E = FiniteMachine(lab.prog)
        lab.st = start(lab.prog)
        ck.run.labs.append(lab)
        self.lab = lab
        k = len(points)
        self.n = len(kinds) * k
        self.vars = [E.rel('V', Const('in%d' % i)) for i in range(self.n)]
        E.setup([], self.vars)
        self.objs, self.shapes, self.args = [], [], []
        st = lab.st
        for j, (kind, c) in enumerate(zip(kinds, centres)):
            log = [Entry('add', (), self.vars[j * k + i], (self.value(p),),
                         setlike=False) for i, p in enumerate(points)]
            if twice:
                log.append(log[0])
            ref = E.alloc(st, Content('list', log), 'given')
            sh = [Shape(kind, c, [p for i, p in enumerate(points)
                                  if w >> (j * k + i) & 1])
                  for w in range(1 << self.n)]
            self.shapes.append(sh)
            self.args.append(ref)
            args = [ref] if kind != 'Hedgehog' else [self.value(c), ref]
            live = E.pcbits(st.pc)
            o = lab.new(kind, *args, st=st)
            ok = self.pick(lambda w: sh[w].ok())
            for e in o.raised:
                b = E.pcbits(e.st.pc)
                self.bad(b & ok, 'a %s cannot be created' % kind)
                if getattr(e.val, 'name', '?') != 'ValueError':
                    self.bad(b, 'too few variables are not reported as '
                             'ValueError')
            if o.st is None:
                raise Unsupported('no %s' % kind)
            made = E.pcbits(o.st.pc)
            self.bad(made & ~ok, 'a %s without enough variables is created'
                     % kind)
            # nothing more is said where creation is wrong
            st = o.st.fork(E.tt(live & made & ok))
            st.pc = E.onepc(st.pc)
            self.objs.append(o.val)
        self.st = st

    def value(self, x):
        return Const(x) if isinstance(x, str) else self.E.num(x)

    def each(self, b):
        while b:
            x = b & -b
            yield x.bit_length() - 1
            b ^= x

    def pick(self, f):
        b = 0
        for w in range(1 << self.n):
            if f(w):
                b |= 1 << w
        return b

    def bad(self, bits, what):
        if not bits:
            self.ck.ok()
            return
        w = min(self.each(bits), key=lambda w: bin(w).count('1'))
        self.ck.fail(what, 'e.g. ' + ' and '.join('%s(%s%s)' % (
            s[w].kind, 'centre %r, ' % s[w].c if s[w].c is not None else '',
            ', '.join(map(repr, sorted(s[w].x, key=str)))) for s in self.shapes))

    def ask(self, o, q, *args, st):
        """The outcome of a question that never fails."""
        try:
            r = self.lab.call(o, q, *args, st=st)
        except Endless as x:
            self.bad(x.bits, '%s does not come to an end' % q)
            return None
        for e in r.raised:
            self.bad(self.E.pcbits(e.st.pc), '%s fails' % q)
        return r if r.st is not None else None

    def listed(self, v, st, live, what):
        """{key: graphs} of the constants in a collection."""
        E = self.E
        out = {self.value(p).key(): 0 for p in self.points}
        first = {k: 0 for k in out}
        for b, x in E.tab(v, live):
            C = E.coll(x, st)
            if C is None:
                self.bad(b, what + ' is no collection')
                continue
            for i, p in enumerate(E.as_positions(C)):
                for bb, y in p.values():
                    for bc, z in E.tab(y, bb & b):
                        k = z.key()
                        if k not in out:
                            self.bad(bc, what + ' has something unknown')
                            continue
                        self.bad(bc & out[k], what + ' has something twice')
                        out[k] |= bc
                        if not i:
                            first[k] |= bc
        return out, first

    def holds(self, obj, st, live, want, what):
        """The variables of a cluster are the wanted ones."""
        E = self.E
        o = self.ask(obj, 'var_list', st=st.fork(E.tt(live)))
        if o is None:
            return
        b = live & E.pcbits(o.st.pc)
        got, first = self.listed(o.val, o.st, b, what)
        ws = {w: want(w) for w in self.each(b)}
        for p in self.points:
            k = self.value(p).key()
            self.bad((got[k] ^ self.pick(lambda w: w in ws and
                                         p in ws[w][2])) & b,
                     '%s is not what it should be (%r)' % (what, p))
            self.bad(self.pick(lambda w: w in ws and ws[w][0] == 'Hedgehog'
                               and ws[w][1] == p) & b & ~first[k],
                     '%s does not begin with the centre' % what)

    def kept(self, st, what):
        for j, (o, sh) in enumerate(zip(self.objs, self.shapes)):
            self.holds(o, st, self.E.pcbits(st.pc), lambda w: (
                sh[w].kind, sh[w].c, sh[w].vars), 'cluster %s%s' % (
                    'AB'[j], what))

    # ------------------------------------------------------ intersections

    def meets(self, i, j, st, what=''):
        E = self.E
        a, b = self.shapes[i], self.shapes[j]
        o = self.ask(self.objs[i], 'intersection', self.objs[j],
                     st=st.fork())
        if o is None:
            return None
        live = E.pcbits(o.st.pc)
        want = {w: a[w].meet(b[w]) for w in self.each(live)}
        what = 'the intersection' + what
        for bb, v in E.tab(o.val, live):
            if v.key() == NONE.key():
                self.bad(self.pick(lambda w: want.get(w) is not None) & bb,
                         what + ' is missing')
                continue
            if not isinstance(v, ObjV):
                raise Unsupported('result %s' % show(v))
            self.bad(self.pick(lambda w: w in want and want[w] is None) & bb,
                     what + ' should not be there')
            k = v.cls.qual.split('.')[-1]
            self.bad(self.pick(lambda w: want.get(w) is not None and
                               want[w][0] != k) & bb,
                     what + ' is of the wrong kind')
            good = self.pick(lambda w: want.get(w) is not None and
                             want[w][0] == k) & bb
            if good:
                self.holds(v, o.st, good, lambda w: want[w], what)
            self.bad(bb if v.key() in [x.key() for x in self.objs] else 0,
                     what + ' is an operand itself')
        return o

    # ------------------------------------------------- common constraints

    def relations(self, st):
        """Specimens: [(relation, angle or distance)]."""
        out = []
        for p, q in itertools.combinations(self.points, 2):
            out.append((('Distance', (q, p)), frozenset((p, q))))
            for r in self.points:
                if r not in (p, q):
                    out.append((('Angle', (q, r, p)), (r, frozenset((p, q)))))
        res = []
        for (c, xs), s in out:
            o = self.lab.new(c, *[self.value(x) for x in xs], st=st)
            if o.st is None or any(self.E.pcbits(e.st.pc) for e in o.raised):
                raise Unsupported('%s cannot be created' % c)
            st = o.st
            st.pc = self.E.onepc(st.pc)
            self.E.freeze(o.val, st)
            res.append((o.val, c, s))
        return res, st

    def common(self, op, i, j, st, specimens, what=''):
        E = self.E
        a, b = self.shapes[i], self.shapes[j]
        o = self.ask(self.objs[i], op, self.objs[j], st=st.fork())
        if o is None:
            return None
        live = E.pcbits(o.st.pc)
        what = op + what
        want = {}
        for w in self.each(live):
            s = set()
            if op != 'common_angles':
                s |= a[w].distances() & b[w].distances()
            if op != 'common_distances':
                s |= a[w].angles() & b[w].angles()
            want[w] = s
        for bb, v in E.tab(o.val, live):
            C = E.coll(v, o.st)
            if C is None or C.kind != 'set':
                raise Unsupported('result %s' % show(v))
            for r, c, s in specimens:
                f = E.bits(E.mem(C, (r,)))
                self.bad((f ^ self.pick(lambda w: s in want.get(w, ())))
                         & bb, '%s has not exactly what it should: %s %s' % (
                             what, c, sorted(s, key=str) if c == 'Distance' else
                             (s[0], sorted(s[1], key=str))))
            n = E.length(C)
            for bc, k in E.tab(n, bb):
                x = E.tonum(k)
                x = None if x is None else x.r.as_const()
                if x is None:
                    raise Unsupported('number of results')
                self.bad(self.pick(lambda w: w in want and
                                   len(want[w]) != x) & bc,
                         what + ' has a wrong number of elements')
        return o

    # ------------------------------------------------------------- counts

    def counts(self, i, st, what=''):
        E = self.E
        for op, f in (('n_distances', lambda s: len(s.distances())),
                      ('n_angles', lambda s: len(s.angles())),
                      ('n_constraints', lambda s: len(s.distances()) + len(
                          s.angles()))):
            o = self.ask(self.objs[i], op, st=st)
            if o is None:
                return st
            st = o.st
            live = E.pcbits(st.pc)
            for b, v in E.tab(o.val, live):
                x = E.tonum(v)
                x = None if x is None else x.r.as_const()
                if x is None:
                    raise Unsupported('%s is %s' % (op, show(v)))
                self.bad(self.pick(lambda w: f(self.shapes[i][w]) != x) & b,
                         '%s is wrong%s' % (op, what))
        return st


P4 = (0, 'a', 'b', 'c')
P5 = (0, 'a', 'b', 'c', 'd')


def points(ck):
    return P5 if ck.run.tier == 'thorough' else P4


def settings(ka, kb):
    """The centres to look at."""
    ca = ('a',) if ka == 'Hedgehog' else (None,)
    cb = ('a', 0) if kb == 'Hedgehog' else (None,)
    if ka != 'Hedgehog' and kb == 'Hedgehog':
        cb = ('a',)
    return itertools.product(ca, cb)


def pairs(run, prop, what, body):
    for ka, kb in itertools.product(KINDS, repeat=2):
        def go(ck, ka=ka, kb=kb):
            for cs in settings(ka, kb):
                body(Pairs(ck, points(ck), (ka, kb), cs))
        run.ob('%s.small.%s_%s' % (prop, ka, kb), '%s of a %s and a %s on a '
               'few points, asked again and in any order' % (
                   what, ka, kb), 'Cluster', go)


def c17(run):
    def body(h):
        o = h.meets(0, 0, h.st, ' with itself')
        if o is None:
            return
        o = h.meets(0, 1, o.st)
        if o is None:
            return
        h.kept(o.st, ' after intersecting')
        h.meets(1, 0, o.st, ' the other way round')
        h.meets(0, 1, o.st, ' asked again')
    pairs(run, 'C17', 'the intersection', body)


def c18(run):
    for kind in KINDS:
        def body(ck, kind=kind):
            for c in (0, 'a') if kind == 'Hedgehog' else (None,):
                h = Pairs(ck, points(ck), (kind,), (c,))
                h.kept(h.st, '')
                E = h.E
                # what it was made from may change
                st = h.st.fork()
                E.write(h.args[0], st, Entry('add', (), True, (
                    Const('c'),), setlike=False))
                h.kept(st, ' after the list it was created from changed')
                o = h.ask(h.objs[0], 'var_list', st=h.st.fork())
                if o is not None and isinstance(o.val, Ref) and E.coll(
                        o.val, o.st).kind == 'list':
                    st = o.st.fork()
                    E.write(o.val, st, Entry('add', (), True, (
                        Const('c'),), setlike=False))
                    h.kept(st, ' after the list of its variables changed')
        run.ob('C18.small.' + kind, 'a %s on a few points' % kind,
               kind, body)


def c19(run):
    def body(h):
        sp, st = h.relations(h.st)
        for op in ('common_distances', 'common_angles',
                   'common_constraints'):
            t = st
            if h.objs[0].cls is h.objs[1].cls:
                o = h.common(op, 0, 0, st, sp, ' with itself')
                t = st if o is None else o.st
            o = h.common(op, 0, 1, t, sp)
            if o is None:
                continue
            h.kept(o.st, ' after ' + op)
            h.common(op, 1, 0, o.st, sp, ' the other way round')
            h.common(op, 0, 1, o.st, sp, ' asked again')
    pairs(run, 'C19', 'the common constraints', body)


def c20(run):
    for kind in KINDS:
        def body(ck, kind=kind):
            for c in (0, 'a') if kind == 'Hedgehog' else (None,):
                h = Pairs(ck, points(ck), (kind,), (c,))
                st = h.counts(0, h.st)
                h.counts(0, st, ' asked again')
                h.kept(st, ' after counting')
        run.ob('C20.small.' + kind, 'the constraints of a %s on a few '
               'points' % kind, kind, body)


RULES = {'C17': c17, 'C18': c18, 'C19': c19, 'C20': c20}
