"""Values and guard formulas of the abstract domain, and the finite
truth-table test used to compare guards.

A guard is a Boolean combination of atoms: equalities between names,
membership of a name in an unknown set or relation, a size threshold of a set,
the sign of an algebraic normal form, ...  Two guards are equivalent when they
agree under every assignment of their atoms that respects the (finite) theory
of those atoms.  This is propositional reasoning over comparisons only; no
path of the program is handed to a solver."""

import itertools

# ----------------------------------------------------------------- values


class Val:
    __slots__ = ('_key',)

    def key(self):
        k = getattr(self, '_key', None)
        if k is None:
            k = self._key = self.mkkey()
        return k

    def __eq__(self, o):
        return isinstance(o, Val) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return show(self)


class Sym(Val):
    """An unknown scalar: a parameter, a generic element, ..."""
    __slots__ = ('name', 'kind')

    def __init__(self, name, kind='any'):
        self.name = name
        self.kind = kind

    def mkkey(self):
        return ('sym', self.name)


class Const(Val):
    """None, Ellipsis, or a string known exactly."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def mkkey(self):
        return ('const', type(self.v).__name__, self.v)


NONE = Const(None)


class Num(Val):
    """A number; the registry gives equal normal forms the same index."""
    __slots__ = ('r', 'idx')

    def __init__(self, r, idx):
        self.r = r
        self.idx = idx

    def mkkey(self):
        return ('num', self.idx)


class BoolV(Val):
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def mkkey(self):
        return ('bool', fkey(self.f))


class StrV(Val):
    """A string built at run time (contents not tracked)."""
    __slots__ = ('parts', 'how')

    def __init__(self, parts=(), how=''):
        self.parts = tuple(parts)
        self.how = how          # join | format | ''

    def mkkey(self):
        return ('str' + self.how,) + tuple(p.key() for p in self.parts)


class TupleV(Val):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def mkkey(self):
        return ('tuple',) + tuple(i.key() for i in self.items)


class App(Val):
    """Uninterpreted pure function of values."""
    __slots__ = ('op', 'args')

    def __init__(self, op, args=()):
        self.op = op
        self.args = tuple(args)

    def mkkey(self):
        return ('app', self.op) + tuple(a.key() for a in self.args)


class Opaque(Val):
    """Something the analysis does not understand."""
    __slots__ = ('tag', 'args')

    def __init__(self, tag, args=()):
        self.tag = tag
        self.args = tuple(args)

    def mkkey(self):
        return ('opq', self.tag) + tuple(a.key() for a in self.args)


class IteV(Val):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def mkkey(self):
        return ('ite', fkey(self.c), self.a.key(), self.b.key())


class Ref(Val):
    """Reference to a mutable container; `pre` selects a nested one."""
    __slots__ = ('loc', 'pre')

    def __init__(self, loc, pre=()):
        self.loc = loc
        self.pre = tuple(pre)

    def mkkey(self):
        return ('ref', self.loc) + tuple(p.key() for p in self.pre)


class ViewV(Val):
    """Live view of a dict: keys, values or items."""
    __slots__ = ('ref', 'what')

    def __init__(self, ref, what):
        self.ref = ref
        self.what = what

    def mkkey(self):
        return ('view', self.what, self.ref.key())


class SnapV(Val):
    """An immutable collection value (iterator, range, map object...)."""
    __slots__ = ('content', 'what')

    def __init__(self, content, what='iter'):
        self.content = content
        self.what = what

    def mkkey(self):
        return ('snap', self.content.uid, self.what)


class LenV(Val):
    """Length of a collection content, plus an offset (num = length + off)."""
    __slots__ = ('content', 'num', 'off')

    def __init__(self, content, num, off=0):
        self.content = content
        self.num = num
        self.off = off

    def mkkey(self):
        return ('len', self.num.key())


class PosV(Val):
    """Position of element e of a sequence content, plus an offset."""
    __slots__ = ('e', 'content', 'off')

    def __init__(self, e, content, off=0):
        self.e, self.content, self.off = e, content, off

    def mkkey(self):
        return ('pos', self.e.key(), self.off)


class ObjV(Val):
    __slots__ = ('oid', 'cls')

    def __init__(self, oid, cls):
        self.oid = oid
        self.cls = cls

    def mkkey(self):
        return ('obj', self.oid)


class FuncV(Val):
    __slots__ = ('node', 'mod', 'env', 'owner', 'qual')

    def __init__(self, node, mod, env, owner, qual):
        self.node, self.mod, self.env = node, mod, env
        self.owner, self.qual = owner, qual

    def mkkey(self):
        return ('func', self.qual, id(self.node))


class BoundV(Val):
    __slots__ = ('self_', 'fn')

    def __init__(self, self_, fn):
        self.self_, self.fn = self_, fn

    def mkkey(self):
        return ('bound', self.self_.key(), self.fn.key())


class ClassV(Val):
    __slots__ = ('cls',)

    def __init__(self, cls):
        self.cls = cls

    def mkkey(self):
        return ('class', self.cls.qual)


class ModV(Val):
    __slots__ = ('mod',)

    def __init__(self, mod):
        self.mod = mod

    def mkkey(self):
        return ('mod', self.mod.name)


class ExtV(Val):
    """A library object named by its dotted path; `recv` is the receiver of a
    method of a builtin value."""
    __slots__ = ('path', 'recv')

    def __init__(self, path, recv=None):
        self.path = path
        self.recv = recv

    def mkkey(self):
        return ('ext', self.path) + \
            ((self.recv.key(),) if self.recv is not None else ())


class SuperV(Val):
    __slots__ = ('self_', 'cls', 'dyn')

    def __init__(self, self_, cls, dyn):
        self.self_, self.cls, self.dyn = self_, cls, dyn

    def mkkey(self):
        return ('super', self.self_.key(), self.cls.qual)


class ExcV(Val):
    __slots__ = ('name', 'node')

    def __init__(self, name, node=None):
        self.name = name
        self.node = node

    def mkkey(self):
        return ('exc', self.name)


# --------------------------------------------------------------- formulas
# True | False | Atom | ('n', f) | ('&', fs) | ('|', fs)


class Atom:
    __slots__ = ('kind', 'args', 'key', 'opaque')

    def __init__(self, kind, args, key, opaque=False):
        self.kind, self.args, self.key = kind, args, key
        self.opaque = opaque

    def __repr__(self):
        return fshow(self)


_atoms = {}


def atom(kind, *args):
    k = (kind,) + tuple(a.key() if isinstance(a, Val) else
                        (fkey(a) if isinstance(a, (tuple, Atom)) else a)
                        for a in args)
    a = _atoms.get(k)
    if a is None:
        opq = kind == 'opq' or any(
            has_opaque(x) for x in args if isinstance(x, Val))
        a = _atoms[k] = Atom(kind, args, intern(k), opq)
    return a


_interned = {}
_fkeys = {}


def intern(k):
    n = _interned.get(k)
    if n is None:
        n = _interned[k] = 10 + len(_interned)
    return n


def fkey(f):
    """Number identifying the formula up to syntactic equality."""
    if isinstance(f, Atom):
        return f.key
    if isinstance(f, bool):
        return f
    c = _fkeys.get(id(f))
    if c is not None and c[0] is f:
        return c[1]
    if f[0] == 'n':
        k = intern(('n', fkey(f[1])))
    else:
        k = intern((f[0],) + tuple([fkey(x) for x in f[1]]))
    if len(_fkeys) > 2000000:
        _fkeys.clear()
    _fkeys[id(f)] = (f, k)
    return k


def nkey(f):
    """Key of the negation."""
    if isinstance(f, tuple) and f[0] == 'n':
        return fkey(f[1])
    return intern(('n', fkey(f)))


def Not(f):
    if f is True:
        return False
    if f is False:
        return True
    if isinstance(f, tuple) and f[0] == 'n':
        return f[1]
    return ('n', f)


def _nary(op, unit, fs):
    out, keys = [], {}
    stack = list(fs)[::-1]
    while stack:
        f = stack.pop()
        if isinstance(f, bool):
            if f is unit:
                continue
            return not unit
        if isinstance(f, tuple) and f[0] == op:
            stack.extend(reversed(f[1]))
            continue
        k = fkey(f)
        if k in keys:
            continue
        nk = nkey(f)
        if nk in keys:
            return not unit
        keys[k] = 1
        out.append(f)
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    # absorption: drop a nested clause that contains one of the literals, and
    # complements of literals inside nested clauses
    dual = '|' if op == '&' else '&'
    lits = {fkey(f) for f in out if not (isinstance(f, tuple) and f[0] == dual)}
    if lits and any(isinstance(f, tuple) and f[0] == dual for f in out):
        new = []
        changed = False
        for f in out:
            if isinstance(f, tuple) and f[0] == dual:
                ks = [fkey(x) for x in f[1]]
                if any(k in lits for k in ks):
                    changed = True
                    continue
                keep = [x for x in f[1] if nkey(x) not in lits]
                if len(keep) != len(f[1]):
                    changed = True
                    f = Or(*keep) if dual == '|' else And(*keep)
            new.append(f)
        if changed:
            return _nary(op, unit, new)
    return (op, tuple(out))


def And(*fs):
    return _nary('&', True, fs)


def Or(*fs):
    return _nary('|', False, fs)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False:
        return Not(b)
    if b is False:
        return Not(a)
    if fkey(a) == fkey(b):
        return True
    return And(Or(Not(a), b), Or(a, Not(b)))


def atoms_of(f, acc=None):
    acc = {} if acc is None else acc
    stack = [f]
    while stack:
        g = stack.pop()
        if isinstance(g, Atom):
            acc[g.key] = g
        elif isinstance(g, tuple):
            if g[0] == 'n':
                stack.append(g[1])
            else:
                stack.extend(g[1])
    return acc


def fassign(f, asg):
    """Simplify a formula under a partial assignment {atom key: bool}."""
    if isinstance(f, bool):
        return f
    if isinstance(f, Atom):
        return asg.get(f.key, f)
    if f[0] == 'n':
        return Not(fassign(f[1], asg))
    if f[0] == '&':
        out = []
        for x in f[1]:
            y = fassign(x, asg)
            if y is False:
                return False
            if y is not True:
                out.append(y)
        return And(*out)
    out = []
    for x in f[1]:
        y = fassign(x, asg)
        if y is True:
            return True
        if y is not False:
            out.append(y)
    return Or(*out)


# ------------------------------------------------------ substitution, terms

def has_opaque(v):
    if isinstance(v, Opaque):
        return True
    if isinstance(v, (App,)):
        return any(has_opaque(a) for a in v.args if isinstance(a, Val))
    if isinstance(v, TupleV):
        return any(has_opaque(a) for a in v.items)
    if isinstance(v, IteV):
        return has_opaque(v.a) or has_opaque(v.b) or fopaque(v.c)
    if isinstance(v, BoolV):
        return fopaque(v.f)
    return False


def fopaque(f):
    return any(a.opaque for a in atoms_of(f).values())


class Sub:
    """Simultaneous replacement of symbols (by key) and, through `atomfn`, of
    atoms.  Rebuilds terms through the engine so they are renormalised."""

    def __init__(self, eng, m, atomfn=None, appfn=None):
        self.eng = eng
        self.m = m
        self.atomfn = atomfn
        self.appfn = appfn
        self.vc = {}
        self.fc = {}

    def v(self, v):
        if isinstance(v, Sym):
            return self.m.get(v.key(), v)
        if isinstance(v, (Const, StrV, FuncV, ClassV, ModV, ExcV)):
            return v
        k = v.key()
        r = self.vc.get(k)
        if r is None:
            r = self.vc[k] = self._v(v)
        return r

    def _v(self, v):
        if isinstance(v, Num):
            return self.eng.num_subst(v, self)
        if isinstance(v, TupleV):
            return TupleV([self.v(i) for i in v.items])
        if isinstance(v, App):
            if self.appfn is not None:
                r = self.appfn(v, self)
                if r is not None:
                    return r
            return self.eng.app(v.op, [self.v(i) if isinstance(i, Val) else i
                                       for i in v.args])
        if isinstance(v, Opaque):
            return Opaque(v.tag, [self.v(i) for i in v.args])
        if isinstance(v, IteV):
            c = self.f(v.c)
            if c is True:
                return self.v(v.a)
            if c is False:
                return self.v(v.b)
            return ite(c, self.v(v.a), self.v(v.b))
        if isinstance(v, BoolV):
            return BoolV(self.f(v.f))
        if isinstance(v, Ref):
            return self.eng.ref_subst(v, self)
        if isinstance(v, PosV):
            return PosV(self.v(v.e), v.content, v.off)
        if isinstance(v, ViewV):
            return ViewV(self.v(v.ref), v.what)
        if isinstance(v, ObjV):
            return self.eng.obj_subst(v, self)
        if isinstance(v, BoundV):
            return BoundV(self.v(v.self_), v.fn)
        if isinstance(v, (SnapV, LenV)):
            return self.eng.coll_subst(v, self)
        return v

    def f(self, f):
        if isinstance(f, bool):
            return f
        if isinstance(f, Atom):
            if self.atomfn is not None:
                r = self.atomfn(f, self)
                if r is not None:
                    return r
            return self.eng.atom_subst(f, self)
        r = self.fc.get(id(f))
        if r is not None:
            return r[1]
        if f[0] == 'n':
            r = Not(self.f(f[1]))
        elif f[0] == '&':
            r = And(*[self.f(x) for x in f[1]])
        else:
            r = Or(*[self.f(x) for x in f[1]])
        self.fc[id(f)] = (f, r)
        return r


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a.key() == b.key():
        return a
    if isinstance(a, BoolV) and isinstance(b, BoolV):
        return BoolV(Or(And(c, a.f), And(Not(c), b.f)))
    if isinstance(c, tuple) and c[0] == 'n':
        return ite(c[1], b, a)
    ck = fkey(c)
    if isinstance(a, IteV) and fkey(a.c) == ck:
        a = a.a
    if isinstance(b, IteV) and fkey(b.c) == ck:
        b = b.b
    if a.key() == b.key():
        return a
    return IteV(c, a, b)


def syms_in(v, acc=None):
    """Sym keys occurring in a value (or formula)."""
    acc = {} if acc is None else acc
    if isinstance(v, bool):
        return acc
    if isinstance(v, Atom):
        for a in v.args:
            if isinstance(a, Val):
                syms_in(a, acc)
            elif isinstance(a, (tuple, Atom)):
                syms_in(a, acc)
        return acc
    if isinstance(v, tuple):
        for a in atoms_of(v).values():
            syms_in(a, acc)
        return acc
    if isinstance(v, Sym):
        acc[v.key()] = v
    elif isinstance(v, TupleV):
        for i in v.items:
            syms_in(i, acc)
    elif isinstance(v, (App, Opaque)):
        for i in v.args:
            if isinstance(i, Val):
                syms_in(i, acc)
    elif isinstance(v, IteV):
        syms_in(v.c, acc)
        syms_in(v.a, acc)
        syms_in(v.b, acc)
    elif isinstance(v, BoolV):
        syms_in(v.f, acc)
    elif isinstance(v, Ref):
        for i in v.pre:
            syms_in(i, acc)
    elif isinstance(v, PosV):
        syms_in(v.e, acc)
    elif isinstance(v, Num):
        for x in v.r.atoms():
            kind, key, pay = v.r.ctx.info[x]
            _num_syms(v.r.ctx, x, acc)
    return acc


def _num_syms(ctx, x, acc):
    kind, key, pay = ctx.info[x]
    if isinstance(pay, Val):
        syms_in(pay, acc)
    elif pay is not None and hasattr(pay, 'atoms'):
        for y in pay.atoms():
            _num_syms(ctx, y, acc)


# -------------------------------------------------------------- rendering

def show(v):
    if isinstance(v, Sym):
        return v.name
    if isinstance(v, Const):
        return repr(v.v)
    if isinstance(v, Num):
        return v.r.show()
    if isinstance(v, BoolV):
        return fshow(v.f)
    if isinstance(v, StrV):
        return 'str'
    if isinstance(v, TupleV):
        return '(' + ', '.join(map(show, v.items)) + ')'
    if isinstance(v, (App,)):
        return '%s(%s)' % (v.op, ', '.join(
            show(a) if isinstance(a, Val) else str(a) for a in v.args))
    if isinstance(v, Opaque):
        return '?%s' % (v.tag,)
    if isinstance(v, IteV):
        return '(%s if %s else %s)' % (show(v.a), fshow(v.c), show(v.b))
    if isinstance(v, Ref):
        return '&%s%s' % (v.loc, ''.join('[%s]' % show(p) for p in v.pre))
    if isinstance(v, ObjV):
        return '<%s %s>' % (v.cls.name, v.oid)
    if isinstance(v, PosV):
        return 'pos(%s)%+d' % (show(v.e), v.off)
    if isinstance(v, ExtV):
        return v.path
    if isinstance(v, ClassV):
        return v.cls.name
    if isinstance(v, FuncV):
        return v.qual
    if isinstance(v, LenV):
        return 'len'
    return '<%s>' % type(v).__name__


def fshow(f):
    if isinstance(f, bool):
        return str(f)
    if isinstance(f, Atom):
        a = f.args
        if f.kind == 'eq':
            return '%s == %s' % (show(a[0]), show(a[1]))
        if f.kind == 'rel':
            return '%s(%s)' % (a[0], ', '.join(show(x) for x in a[1:]))
        if f.kind == 'card':
            return '|{%s: %s}| >= %d' % (show(a[0]), fshow(a[1]), a[2])
        if f.kind == 'ex':
            return 'exists %s. (%s)' % (show(a[0]), fshow(a[1]))
        if f.kind == 'pos':
            return '%s > 0' % show(a[0])
        if f.kind == 'toleq':
            return '%s ~ %s' % (show(a[0]), show(a[1]))
        if f.kind == 'posl':
            return 'index(%s) < index(%s)' % (show(a[1]), show(a[2]))
        return '%s(%s)' % (f.kind, ', '.join(
            show(x) if isinstance(x, Val) else
            (fshow(x) if isinstance(x, (tuple, Atom, bool)) else str(x))
            for x in a))
    if f[0] == 'n':
        return 'not (%s)' % fshow(f[1]) if not isinstance(f[1], Atom) \
            or f[1].kind in ('eq', 'card', 'pos') else 'not ' + fshow(f[1])
    j = ' and ' if f[0] == '&' else ' or '
    return j.join(('(%s)' % fshow(x)) if isinstance(x, tuple) and x[0] != 'n'
                  else fshow(x) for x in f[1])


# ------------------------------------------------------------ truth tables

class Budget(Exception):
    pass


def term_children(t):
    if isinstance(t, (App, Opaque)):
        return [a for a in t.args if isinstance(a, Val)]
    if isinstance(t, TupleV):
        return list(t.items)
    return []


def distinct_consts(a, b):
    """Two constants that can never be equal."""
    ca = isinstance(a, (Const, ObjV, ClassV, TupleV, Ref)) or \
        (isinstance(a, Num) and a.r.as_const() is not None)
    cb = isinstance(b, (Const, ObjV, ClassV, TupleV, Ref)) or \
        (isinstance(b, Num) and b.r.as_const() is not None)
    if not (ca and cb):
        return False
    if isinstance(a, TupleV) and isinstance(b, TupleV):
        return len(a.items) != len(b.items)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return False
    if isinstance(a, ObjV) and isinstance(b, ObjV):
        return False
    return a.key() != b.key()


def consistent(asg, atoms):
    """Does a (partial) assignment respect the theory of the atoms?"""
    parent = {}
    terms = {}

    def find(k):
        while parent[k] != k:
            k = parent[k]
        return k

    def add(t):
        k = t.key()
        if k not in parent:
            parent[k] = k
            terms[k] = t
            for c in term_children(t):
                add(c)

    eqs, nes, rels = [], [], []
    posl = {}
    others = {}
    for k, val in asg.items():
        a = atoms.get(k)
        if a is None:
            continue
        if a.kind == 'eq':
            add(a.args[0])
            add(a.args[1])
            (eqs if val else nes).append(a)
        elif a.kind == 'posl':
            add(a.args[1])
            add(a.args[2])
            posl.setdefault(a.args[0], []).append((a, val))
        elif a.kind in ('pos', 'card', 'ex', 'toleq'):
            others[k] = (a, val)
        else:
            for t in a.args:
                if isinstance(t, Val):
                    add(t)
            rels.append((a, val))
    for a in eqs:
        x, y = find(a.args[0].key()), find(a.args[1].key())
        if x != y:
            parent[x] = y
    # congruence on applications
    apps = [t for t in terms.values() if isinstance(t, (App, TupleV))]
    changed = True
    while changed:
        changed = False
        seen = {}
        for t in apps:
            op = t.op if isinstance(t, App) else '()'
            sig = (op,) + tuple(find(c.key()) if isinstance(c, Val) else c
                                for c in (t.args if isinstance(t, App)
                                          else t.items))
            k = find(t.key())
            if sig in seen:
                o = seen[sig]
                if find(o) != k:
                    parent[find(o)] = k
                    changed = True
            else:
                seen[sig] = k
    for a in nes:
        if find(a.args[0].key()) == find(a.args[1].key()):
            return False
    classes = {}
    for k, t in terms.items():
        classes.setdefault(find(k), []).append(t)
    for ts in classes.values():
        cs = [t for t in ts if isinstance(t, (Const, ObjV, ClassV, TupleV,
                                              Num, Ref))]
        for x, y in itertools.combinations(cs, 2):
            if distinct_consts(x, y):
                return False
    seen = {}
    for a, val in rels:
        sig = (a.kind,) + tuple(find(t.key()) if isinstance(t, Val) else
                                (fkey(t) if isinstance(t, (tuple, Atom))
                                 else t) for t in a.args)
        if seen.setdefault(sig, val) != val:
            return False
    # strict total order of positions
    for seq, lst in posl.items():
        less = set()
        for a, val in lst:
            x, y = find(a.args[1].key()), find(a.args[2].key())
            if val:
                if x == y:
                    return False
                less.add((x, y))
            elif x != y:
                # distinct elements are ordered one way or the other
                if _known_distinct(x, y, nes, find):
                    less.add((y, x))
        ch = True
        while ch:
            ch = False
            for p, q in list(less):
                for r, s in list(less):
                    if q == r and (p, s) not in less:
                        less.add((p, s))
                        ch = True
        if any(p == q for p, q in less):
            return False
        for a, val in lst:
            x, y = find(a.args[1].key()), find(a.args[2].key())
            if not val and (x, y) in less:
                return False
    # size thresholds of the same set are monotone
    cards = {}
    for a, val in others.values():
        if a.kind == 'card':
            cards.setdefault((a.args[0].key(), fkey(a.args[1])), []).append(
                (a.args[2], val))
    for lst in cards.values():
        for k1, v1 in lst:
            for k2, v2 in lst:
                if k1 < k2 and v2 and not v1:
                    return False
    # bounds on one and the same algebraic term
    bounds = {}
    for a, val in others.values():
        if a.kind == 'pos':
            _, q, sg, c, nn = a.args
            lo, ls, hi, hs = bounds.get(q) or \
                ((0, False, None, False) if nn else (None, False, None, False))
            # sg*q + c > 0 (or <= 0)
            if (sg > 0) == val:
                b = -c if sg > 0 else c
                st = val
                if lo is None or b > lo or (b == lo and st):
                    lo, ls = b, st
            else:
                b = -c if sg > 0 else c
                st = val
                if hi is None or b < hi or (b == hi and st):
                    hi, hs = b, st
            if lo is not None and hi is not None and \
                    (lo > hi or (lo == hi and (ls or hs))):
                return False
            bounds[q] = (lo, ls, hi, hs)
    for a, val in others.values():
        if a.kind == 'toleq' and not val and a.args[2] is not None:
            q, c = a.args[2], a.args[3]
            bd = bounds.get(q)
            if bd and bd[0] is not None and bd[0] == bd[2] == -c:
                return False
    return True


def _known_distinct(x, y, nes, find):
    for a in nes:
        p, q = find(a.args[0].key()), find(a.args[1].key())
        if (p, q) in ((x, y), (y, x)):
            return True
    return False


def find_model(f, axioms=(), limit=200000, check=None):
    """An assignment making f true and consistent with the theory, or None.

    `axioms` are formulas every model must satisfy."""
    from . import sat
    if f is False:
        return None
    parts = [x for x in (f,) + tuple(axioms) if x is not True]
    if any(x is False for x in parts):
        return None
    cl = sat.Clauses(fkey, Atom)
    for x in parts:
        cl.require(x)
    core = cl.core
    atoms = {a.key: a for a in cl.atom.values()}
    var = {a.key: v for v, a in cl.atom.items()}
    budget = max(200, limit // 10)
    rounds = 0
    while True:
        r = core.solve(budget)
        if r is None:
            raise Budget()
        if r is False:
            return None
        memo = {}

        def truth(g):
            if isinstance(g, bool):
                return g
            if isinstance(g, Atom):
                return core.val[var[g.key]] > 0
            if g[0] == 'n':
                return not truth(g[1])
            k = fkey(g)
            if k in memo:
                return memo[k]
            l = cl.lit.get(k)
            if l is not None:
                t = core.val[l] > 0
            elif g[0] == '&':
                t = all(truth(x) for x in g[1])
            else:
                t = any(truth(x) for x in g[1])
            memo[k] = t
            return t
        asg = {}
        seen = set()
        for x in parts:
            sat.justify(x, True, truth, asg, seen, fkey, Atom)
        if consistent(asg, atoms):
            lin = _linear(asg, atoms)
            if lin is not None:
                rounds += 1
                if rounds > budget:
                    raise Budget()
                core.add([-var[k] if asg[k] else var[k] for k in lin])
                continue
            if check is None or check(asg, atoms):
                return asg
            bad = asg
        else:
            bad = _shrink(asg, atoms)
        rounds += 1
        if rounds > budget:
            raise Budget()
        core.add([-var[k] if v else var[k] for k, v in bad.items()])


def nonneg_atom(ctx, i):
    kind, _, pay = ctx.info[i]
    return kind in ('sqrt', 'len', 'abs') or (
        isinstance(pay, App) and pay.op == 'acos')


def _linear(asg, atoms):
    """Sign conditions of an assignment that contradict each other."""
    from . import linear
    lits = [(atoms[k], v, k) for k, v in asg.items()
            if k in atoms and atoms[k].kind == 'pos']
    if len(lits) < 2:
        return None
    return linear.clash(lits, nonneg_atom)


def _shrink(asg, atoms):
    """A small inconsistent part of an inconsistent assignment."""
    keys = list(asg)
    # halves first, then one by one
    cur = dict(asg)
    n = len(keys) // 2
    while n >= 1:
        i = 0
        ks = list(cur)
        while i < len(ks):
            part = set(ks[i:i + n])
            t = {k: v for k, v in cur.items() if k not in part}
            if len(t) < len(cur) and not consistent(t, atoms):
                cur = t
                ks = list(cur)
            else:
                i += n
        n //= 2
    return cur
