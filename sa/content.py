"""Abstract contents of containers: an update log with binders and guards.

Set, dict and list contents are described intensionally: `add`, `rem`, `clr`
entries quantified over binders (`for every b with g(b): key(b) -> val(b)`).
Membership of an arbitrary key is a formula obtained by unification."""

from .logic import (Sym, Const, Val, And, Or, Not, fkey, syms_in, Opaque,
                    TupleV, ite, BoolV)

NESTED = Const('<nested>')


class Entry:
    __slots__ = ('op', 'B', 'g', 'key', 'val', 'setlike', 'node')

    def __init__(self, op, B, g, key, val=None, setlike=True, node=None):
        self.op = op            # add | setd | rem | clr
        self.B = tuple(B)       # binder Syms
        self.g = g
        self.key = tuple(key)
        self.val = val
        self.setlike = setlike  # every binder assignment happens once
        self.node = node

    def but(self, **k):
        d = {s: getattr(self, s) for s in Entry.__slots__}
        d.update(k)
        return Entry(**d)

    def __repr__(self):
        from .logic import show, fshow
        return '%s%s[%s] %s%s' % (
            self.op, ' for ' + ','.join(b.name for b in self.B)
            if self.B else '', ', '.join(map(show, self.key)),
            '' if self.val is None else '= ' + show(self.val) + ' ',
            '' if self.g is True else 'if ' + fshow(self.g))


_uid = [0]


class Content:
    __slots__ = ('kind', 'log', 'sub', 'uid', 'frozen', 'distinct', 'lost')

    def __init__(self, kind, log=(), sub=None, frozen=False, distinct=False,
                 lost=None):
        self.kind = kind        # list | set | dict
        self.log = tuple(log)
        self.sub = sub          # kind of the containers nested in a dict
        self.frozen = frozen
        self.distinct = distinct
        self.lost = lost        # reason why the contents are not known
        _uid[0] += 1
        self.uid = _uid[0]

    def but(self, **k):
        d = {s: getattr(self, s) for s in
             ('kind', 'log', 'sub', 'frozen', 'distinct', 'lost')}
        d.update(k)
        return Content(**d)

    def plus(self, *es):
        return self.but(log=self.log + es)

    def literal(self):
        """The (guard, entry) items of an explicitly enumerated content, or
        None."""
        if self.lost:
            return None
        out = []
        for e in self.log:
            if e.op != 'add' or e.B or len(e.key) > 1:
                return None
            out.append((e.g, e))
        return out

    def exact(self):
        """Values of a literal list of known length, or None."""
        it = self.literal()
        if it is None or any(g is not True for g, _ in it):
            return None
        if self.kind != 'list':
            return None
        return [e.key[0] for _, e in it]

    def __repr__(self):
        return '%s%r' % (self.kind, list(self.log))


class Forward:
    """The container now lives inside another one."""
    __slots__ = ('ref',)

    def __init__(self, ref):
        self.ref = ref


def merge_contents(c, A, B):
    """c ? A : B"""
    if A is B:
        return A
    if isinstance(A, Forward) or isinstance(B, Forward):
        if isinstance(A, Forward) and isinstance(B, Forward) and \
                A.ref.key() == B.ref.key():
            return A
        return None
    if A.kind != B.kind:
        return None
    la, lb = A.log, B.log
    n = 0
    while n < len(la) and n < len(lb) and la[n] is lb[n]:
        n += 1
    sub = A.sub or B.sub
    if A.kind == 'list' and A.exact() is not None and B.exact() is not None \
            and len(la) == len(lb):
        log = [x if x is y else Entry('add', (), True,
                                      (ite(c, x.key[0], y.key[0]),))
               for x, y in zip(la, lb)]
        return A.but(log=log)
    log = list(la[:n])
    log += [e.but(g=And(c, e.g)) for e in la[n:]]
    log += [e.but(g=And(Not(c), e.g)) for e in lb[n:]]
    return Content(A.kind, log, sub, A.frozen and B.frozen,
                   A.distinct and B.distinct and
                   (n == 0 or (n == len(la) or n == len(lb))),
                   A.lost or B.lost)
