"""Harness around the abstract interpreter: builds the entry states of the
rules, runs an operation of the analysed package on them and splits the
outcome into normal end and exceptions."""

from .logic import *          # noqa: F401,F403
from .content import Content, Entry, NESTED
from .engine import State, Unsupported, Dead, Exit, UNBOUND
from .exprs import Machine
from .frontend import Program, AnchorMissing
from . import logic as L


class Outcome:
    """What an operation does from a given entry state."""

    def __init__(self, lab, st, val, raised, before):
        self.lab = lab
        self.st = st            # None: never ends normally
        self.val = val
        self.raised = raised    # [Exit]
        self.before = before    # entry state

    def raises(self, *names):
        """Formula: an exception (of these kinds) leaves the operation."""
        fs = []
        n = len(self.before.pc)
        for e in self.raised:
            nm = e.val.name if isinstance(e.val, ExcV) else '?'
            if names and nm not in names:
                continue
            fs.append(And(*e.st.pc[n:]))
        return Or(*fs)

    def normal(self):
        if self.st is None:
            return False
        return And(*self.st.pc[len(self.before.pc):])


def start(prog):
    """The state before anything has happened."""
    heap = {'!events': Content('list')}
    for m in prog.mods.values():
        for owner, fns in [(m.name, m.funcs)] + [
                (c.qual, c.methods) for c in m.classes.values()] + [
                    (c.qual, {n: p['get'] for n, p in c.props.items()
                              if 'get' in p}) for c in m.classes.values()]:
            for n, f in fns.items():
                if f.decorator_list:
                    heap['!memo:%s.%s' % (owner, n)] = Content('dict')
    fields = {}
    for m in prog.mods.values():
        for c in m.classes.values():
            for n in prog.class_stores:
                fields['!class:' + c.qual, n] = UNBOUND
    for m, n in prog.global_stores:
        fields['!module:' + m, n] = UNBOUND
    return State({}, (), heap, fields, ())


class Lab:
    shape = None
    from_start = False      # nothing has happened before the entry state

    def __init__(self, prog=None):
        self.prog = prog or Program()
        self.eng = Machine(self.prog)
        self.st = start(self.prog)

    def cls(self, name):
        return self.prog.find_class(name)

    def run(self, fn, st=None):
        """Outcome of fn(state) -> value."""
        eng = self.eng
        before = st or self.st
        s = before.fork()
        save, eng.raise_stack = eng.raise_stack, [[]]
        try:
            try:
                v = fn(s)
            except Dead:
                s, v = None, None
            raised = eng.raise_stack[-1]
        finally:
            eng.raise_stack = save
        return Outcome(self, s, v, raised, before)

    def new(self, cls, *args, st=None, **kw):
        c = self.cls(cls) if isinstance(cls, str) else cls
        return self.run(lambda s: self.eng.instantiate(
            c, list(args), kw, s, None), st)

    def named(self, node, args, base=None, bound=True):
        """The arguments by keyword, for a function that may pass them on
        to another one (whose names count then); None if it takes them by
        position only."""
        def names(f):
            a = f.args
            n = [None] * len(a.posonlyargs) + [x.arg for x in a.args]
            return n[1:] if bound else n
        own = names(node)
        more = names(base) if base is not None and node.args.kwarg else []
        kw = {}
        for i, v in enumerate(args):
            n = own[i] if i < len(own) else more[i] if i < len(more) else None
            if n is None:
                return None
            kw[n] = v
        return kw

    def member(self, cls, name):
        """The function behind a method."""
        m = self.prog.find_member(self.cls(cls) if isinstance(cls, str)
                                  else cls, name)
        if m is None:
            raise AnchorMissing('%s.%s' % (cls, name))
        if m[1] != 'method':
            raise Unsupported('no plain method')
        return m[2]

    def call(self, obj, name, *args, st=None, **kw):
        m = self.prog.find_member(obj.cls, name)
        if m is None:
            raise AnchorMissing('%s.%s' % (obj.cls.qual, name))

        def go(s):
            f = self.eng.getattr_(obj, name, s, None)
            return self.eng.call(f, list(args), kw, s, None)
        return self.run(go, st)

    def func(self, name, *args, st=None, **kw):
        mod, node = self.prog.find_func(name)
        fv = FuncV(node, mod, None, None, mod.name + '.' + name)
        return self.run(lambda s: self.eng.call(fv, list(args), kw, s, None),
                        st)

    def getattr(self, obj, name, st=None):
        return self.run(lambda s: self.eng.getattr_(obj, name, s, None), st)

    # ------------------------------------------------ collections in results

    def alts(self, v, st, c=True):
        """[(condition, content)] of a value that is a collection."""
        if isinstance(v, IteV):
            return self.alts(v.a, st, And(c, v.c)) + \
                self.alts(v.b, st, And(c, Not(v.c)))
        if c is False or not self.eng.sat(And(*st.pc), c):
            return []
        C = self.eng.coll(v, st)
        if C is None:
            raise Unsupported('not a collection: %s' % show(v))
        return [(c, C)]

    def mem(self, v, st, *key):
        for k in key:
            self.eng.freeze(k, st)
        return Or(*[And(c, self.eng.mem(C, key))
                    for c, C in self.alts(v, st)])

    def lookup(self, v, st, *key):
        r = None
        for c, C in reversed(self.alts(v, st)):
            x = self.eng.lookup(C, key)
            if x.key() == NESTED.key() and isinstance(v, Ref):
                x = Ref(v.loc, tuple(v.pre) + key)
            r = x if r is None else ite(c, x, r)
        return r

    def kinds(self, v, st):
        return {C.kind for _, C in self.alts(v, st)}
