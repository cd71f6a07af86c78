"""Resolution of names, attributes and calls of the analysed package against
what exists: flow-insensitive except for locals read before any assignment."""

import ast
import builtins
import importlib
import sys
import symtable

MODNAMES = {'__name__', '__file__', '__doc__', '__package__', '__spec__',
            '__loader__', '__path__', '__builtins__', '__cached__',
            '__class__', '__annotations__', '__debug__', '__dict__'}


def known_attributes():
    """Attribute names of the builtin and commonly used library types."""
    import collections
    import fractions
    import decimal
    import logging
    import abc
    out = set()
    for o in (object(), 0, 0.0, 1j, '', b'', [], (), {}, set(), frozenset(),
              bytearray(), range(0), slice(0), True, None, type, Ellipsis,
              {}.keys(), {}.values(), {}.items(), iter([]), iter({}),
              (x for x in ()), lambda: 0, BaseException(), OSError(),
              KeyError(), StopIteration(), StopIteration,
              ImportError(), AttributeError(), property(), staticmethod(len),
              super, enumerate([]), zip(), map(len, ()),
              collections.deque(), collections.OrderedDict(),
              collections.Counter(), collections.defaultdict(),
              collections.namedtuple('N', 'f'), collections.ChainMap(),
              fractions.Fraction(0), decimal.Decimal(0),
              logging.getLogger(), logging, sys, sys.stdout, abc, abc.ABC,
              known_attributes, known_attributes.__code__, object().__str__):
        out |= set(dir(o))
    return out | {'f_back', 'f_code', 'tb_frame'}


# what arrays of numpy offer (numpy itself is not analysed)
NUMPY = set('''T all any argmax argmin argsort astype base byteswap choose clip
compress conj conjugate copy ctypes cumprod cumsum data diagonal dot dtype dump
dumps fill flags flat flatten getfield imag item itemset itemsize max mean min
nbytes ndim newbyteorder nonzero partition prod ptp put ravel real repeat
reshape resize round searchsorted setfield setflags shape size sort squeeze std
strides sum swapaxes take tobytes tofile tolist tostring trace transpose var
view linalg random'''.split())


def module_names(mod):
    """What is bound at the top level of a module; None: not known."""
    t = symtable.symtable(mod.src, mod.path, 'exec')
    out = {s.get_name() for s in t.get_symbols()
           if s.is_assigned() or s.is_imported() or s.is_namespace()}

    def globs(tt):
        for s in tt.get_symbols():
            if s.is_declared_global() and s.is_assigned():
                out.add(s.get_name())
        for c in tt.get_children():
            globs(c)
    globs(t)
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.ImportFrom) and any(a.name == '*'
                                                 for a in n.names):
            return None
    return out


def parents(tree):
    up = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            up[c] = n
    return up


GUARDS = {'Exception', 'BaseException'}


def guarded(n, up, names):
    """Within a try that catches one of these exceptions."""
    c = n
    while c in up:
        p = up[c]
        if isinstance(p, ast.Try) and c in p.body:
            for h in p.handlers:
                if h.type is None:
                    return True
                for x in ast.walk(h.type):
                    if isinstance(x, ast.Name) and x.id in names | GUARDS or \
                            isinstance(x, ast.Attribute) and \
                            x.attr in names | GUARDS:
                        return True
        c = p
    return False


def functions(mod):
    """(qualified name, class or None, node) of every function, nested ones
    included."""
    def walk(n, pre, cls):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield pre + c.name, cls, c
                yield from walk(c, pre + c.name + '.', None)
            elif isinstance(c, ast.ClassDef):
                yield from walk(c, pre + c.name + '.',
                                mod.classes.get(c.name)
                                if n is mod.tree else None)
            else:
                yield from walk(c, pre, cls)
    yield from walk(mod.tree, '', None)


def own(fn):
    """The nodes of a function without those of nested scopes."""
    def walk(n):
        yield n
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef,
                              ast.Lambda, ast.ClassDef)):
                continue
            yield from walk(c)
    for s in fn.body:
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)):
            continue
        yield from walk(s)


# ------------------------------------------------- unassigned local variables

class Unbound:
    """Reads of local variables which no path has assigned before."""

    def __init__(self, fn):
        a = fn.args
        self.bad = []
        self.loops = []
        locs = set()
        nonloc = set()
        for n in own(fn):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                nonloc |= set(n.names)
        for n in self.scope(fn.body):
            locs |= bound_names(n)
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        for x in (a.vararg, a.kwarg):
            if x:
                params.add(x.arg)
        self.locs = locs - nonloc - params
        self.comp = []
        if self.locs:
            self.block(fn.body, set())

    @staticmethod
    def scope(body):
        """Statement level binders of this scope (comprehensions and lambdas
        have scopes of their own, except for named expressions)."""
        todo = list(body)
        while todo:
            n = todo.pop()
            yield n
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                              ast.ClassDef, ast.Lambda)):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                              ast.GeneratorExp)):
                for x in ast.walk(n):
                    if isinstance(x, ast.NamedExpr):
                        yield x
                continue
            todo.extend(ast.iter_child_nodes(n))

    def block(self, body, may):
        """None: the end is not reached."""
        for s in body:
            if may is None:
                return None
            may = self.stmt(s, may)
        return may

    def join(self, *ms):
        ms = [m for m in ms if m is not None]
        if not ms:
            return None
        return set().union(*ms)

    def stmt(self, s, may):
        may = set(may)
        if isinstance(s, (ast.Return, ast.Raise)):
            self.exprs(s, may)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            for x in self.loops[-1:]:
                x |= may
            return None
        for f in ('test', 'iter', 'subject'):
            if isinstance(getattr(s, f, None), ast.expr):
                for x in ast.walk(getattr(s, f)):
                    if isinstance(x, ast.NamedExpr):
                        may |= bound_names(x)
        if isinstance(s, ast.If):
            self.expr(s.test, may)
            return self.join(self.block(s.body, may),
                             self.block(s.orelse, may))
        if isinstance(s, (ast.While, ast.For, ast.AsyncFor)):
            if isinstance(s, ast.While):
                self.expr(s.test, may)
            else:
                self.expr(s.iter, may)
            # anything an iteration assigns may be there in the next one
            inner = set(may)
            for x in self.scope([s]):
                inner |= bound_names(x)
            ends = set()
            self.loops.append(ends)
            self.block(s.body, inner)
            self.loops.pop()
            out = may | {v for x in self.scope([s]) for v in bound_names(x)}
            self.block(s.orelse, out)
            return out
        if isinstance(s, (ast.Try, getattr(ast, 'TryStar', ast.Try))):
            inner = set(may)
            for x in self.scope(s.body):
                inner |= bound_names(x)
            end = self.block(s.body, may)
            outs = []
            if end is not None:
                outs.append(self.block(s.orelse, end))
            for h in s.handlers:
                m = set(inner)
                if h.name:
                    m.add(h.name)
                outs.append(self.block(h.body, m))
            r = self.join(*outs)
            if s.finalbody:
                allm = set(may)
                for x in self.scope([s]):
                    allm |= bound_names(x)
                f = self.block(s.finalbody, allm)
                return None if r is None or f is None else r | f
            return r
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                self.expr(it.context_expr, may)
                if it.optional_vars is not None:
                    may |= bound_names(it.optional_vars, True)
            before = set(may)
            r = self.block(s.body, may)
            if r is None:       # may swallow exceptions
                r = before
                for x in self.scope(s.body):
                    r |= bound_names(x)
            return r
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)):
            for d in s.decorator_list:
                self.expr(d, may)
            return may | {s.name}
        if isinstance(s, ast.Match):
            self.expr(s.subject, may)
            outs = [may]
            for c in s.cases:
                m = set(may)
                for x in ast.walk(c.pattern):
                    for f in ('name', 'rest'):
                        if isinstance(getattr(x, f, None), str):
                            m.add(getattr(x, f))
                outs.append(self.block(c.body, m))
            return self.join(*outs)
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name):
                self.read(s.target, may)
            self.exprs(s, may)
            return may | bound_names(s.target, True)
        if isinstance(s, ast.Assign):
            self.expr(s.value, may)
            for t in s.targets:
                self.expr(t, may)
                may |= bound_names(t, True)
            return may
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.expr(s.value, may)
                may |= bound_names(s.target, True)
            return may
        if isinstance(s, ast.Delete):
            self.exprs(s, may)
            return may
        self.exprs(s, may)
        for x in self.scope([s]):
            may |= bound_names(x)
        return may

    def exprs(self, s, may):
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.expr(c, may)

    def expr(self, e, may):
        # named expressions within are taken as assigned before
        may = set(may)
        for x in ast.walk(e):
            if isinstance(x, ast.NamedExpr):
                may |= bound_names(x)

        def walk(n, hidden):
            if isinstance(n, ast.Name):
                if isinstance(n.ctx, ast.Load) and n.id not in hidden:
                    self.read(n, may)
                return
            if isinstance(n, ast.Lambda):
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                              ast.GeneratorExp)):
                h = set(hidden)
                for g in n.generators:
                    h |= bound_names(g.target, True)
                for c in ast.iter_child_nodes(n):
                    walk(c, h)
                return
            for c in ast.iter_child_nodes(n):
                walk(c, hidden)
        walk(e, set())

    def read(self, n, may):
        if n.id in self.locs and n.id not in may:
            self.bad.append(n)


def bound_names(n, target=False):
    out = set()
    if target or isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign,
                                ast.For, ast.AsyncFor, ast.NamedExpr)):
        ts = [n] if target else getattr(n, 'targets', None) or [n.target]
        for t in ts:
            todo = [t]
            while todo:
                x = todo.pop()
                if isinstance(x, ast.Name):
                    out.add(x.id)
                elif isinstance(x, (ast.Tuple, ast.List)):
                    todo.extend(x.elts)
                elif isinstance(x, ast.Starred):
                    todo.append(x.value)
    elif isinstance(n, (ast.With, ast.AsyncWith)):
        for it in n.items:
            if it.optional_vars is not None:
                out |= bound_names(it.optional_vars, True)
    elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        out.add(n.name)
    elif isinstance(n, (ast.Import, ast.ImportFrom)):
        for a in n.names:
            out.add(a.asname or a.name.split('.')[0])
    elif isinstance(n, ast.ExceptHandler) and n.name:
        out.add(n.name)
    elif isinstance(n, ast.Match):
        for c in n.cases:
            for x in ast.walk(c.pattern):
                for f in ('name', 'rest'):
                    if isinstance(getattr(x, f, None), str):
                        out.add(getattr(x, f))
    return out


# --------------------------------------------------------------- the resolver

class Resolver:
    def __init__(self, prog):
        self.prog = prog
        self.classes = [c for m in prog.mods.values()
                        for c in m.classes.values()]
        self.attrs = known_attributes() | NUMPY
        self.methods = {}       # name -> [(cls, node, kind)]
        self.fields = set()     # attributes assigned somewhere
        self.outside = set()    # ... on something else than self
        for m in prog.mods.values():
            for q, cls, fn in functions(m):
                me = self.self_name(cls, fn)
                for n in ast.walk(fn):
                    self.scan(n, me)
            for n in ast.walk(m.tree):
                self.scan(n, 'self')
        self.names = set()      # class level names
        for c in self.classes:
            self.names |= set(self.level(c))
            for k, n in c.methods.items():
                self.methods.setdefault(k, []).append((c, n))
        self.values = set(self.fields)
        for c in self.classes:
            self.values |= set(c.props) | set(c.assigns)

    def scan(self, n, me):
        if isinstance(n, ast.Attribute) and isinstance(
                n.ctx, (ast.Store, ast.Del)):
            self.fields.add(n.attr)
            if not (isinstance(n.value, ast.Name) and n.value.id in
                    (me, 'self')):
                self.outside.add(n.attr)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                n.func.id in ('setattr', 'getattr', 'hasattr', 'delattr') \
                and len(n.args) > 1:
            if isinstance(n.args[1], ast.Constant) and \
                    isinstance(n.args[1].value, str):
                self.fields.add(n.args[1].value)
                self.outside.add(n.args[1].value)
            elif n.func.id == 'setattr':
                self.wild = True
        if isinstance(n, ast.Attribute) and n.attr == '__dict__':
            self.wild = True

    wild = False

    def level(self, c):
        """Names defined in the body of a class."""
        out = set(c.methods) | set(c.props) | set(c.assigns)
        todo = list(c.node.body)
        while todo:
            n = todo.pop()
            out |= bound_names(n)
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                              ast.ClassDef, ast.Lambda)):
                continue
            todo.extend(x for x in ast.iter_child_nodes(n)
                        if isinstance(x, ast.stmt))
        return out

    def self_name(self, cls, fn):
        if cls is None or cls.kinds.get(fn.name) == 'static':
            return None
        a = fn.args.posonlyargs + fn.args.args
        return a[0].arg if a else None

    def external(self, cls):
        """Python objects for the bases outside of the package, or None where
        one of them is not known."""
        out = [object]
        for c in self.prog.mro(cls):
            for b in c.node.bases:
                r = None
                if isinstance(b, ast.Name):
                    if self.prog.lookup(c.mod, b.id) is None:
                        r = getattr(builtins, b.id, None)
                        if r is None:
                            return None
                        out.append(r)
                        continue
                    r = self.prog.lookup(c.mod, b.id)
                elif isinstance(b, ast.Attribute) and \
                        isinstance(b.value, ast.Name):
                    m = self.prog.lookup(c.mod, b.value.id)
                    if m and m[0] == 'mod':
                        r = self.prog.lookup(m[1], b.attr)
                    elif m and m[0] == 'ext':
                        r = ('ext', m[1] + '.' + b.attr)
                if r and r[0] == 'class':
                    continue
                if r and r[0] == 'ext':
                    o = self.stdlib(r[1])
                    if o is None:
                        return None
                    out.append(o)
                    continue
                return None
            for d in c.node.decorator_list:
                return None
        return out

    @staticmethod
    def stdlib(path):
        """The library object of this dotted name, of the standard library
        only."""
        parts = path.split('.')
        if parts[0] not in sys.stdlib_module_names or parts[0] in (
                'antigravity', 'this', 'idlelib', 'turtle', 'tkinter'):
            return None
        o = None
        for i in range(len(parts), 0, -1):
            try:
                o = importlib.import_module('.'.join(parts[:i]))
                break
            except ImportError:
                continue
        if o is None:
            return None
        for p in parts[i:]:
            if not hasattr(o, p):
                return None
            o = getattr(o, p)
        return o

    def family(self, cls):
        return [c for c in self.classes
                if cls in self.prog.mro(c)] + self.prog.mro(cls)

    def has_attr(self, cls, name, up=False, after=None):
        """Something of this name may exist in an object of this class."""
        if self.wild or name in self.outside:
            return True
        fam = self.prog.mro(cls) if up else self.family(cls)
        if after is not None:
            fam = self.prog.mro(cls)[1:]
        for c in fam:
            if name in self.level(c) or '__getattr__' in c.methods or \
                    '__getattribute__' in c.methods or \
                    '__slots__' in c.assigns:
                return True
            for n in ast.walk(c.node):
                if isinstance(n, ast.Attribute) and n.attr == name and \
                        isinstance(n.ctx, ast.Store):
                    return True
            ext = self.external(c)
            if ext is None or any(hasattr(o, name) for o in ext):
                return True
        return hasattr(object(), name) or name in ('__dict__', '__module__',
                                                   '__weakref__')

    # ------------------------------------------------------------------ calls

    @staticmethod
    def binds(fn, call, bound):
        """Why these arguments do not fit, or None."""
        a = fn.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if bound:
            if not pos and not a.vararg:
                return 'takes no arguments, not even the object itself'
            pos = pos[1:]
        given = []
        star = False
        n = 0
        for x in call.args:
            if isinstance(x, ast.Starred):
                star = True
            else:
                n += 1
        kws = [k.arg for k in call.keywords]
        dstar = None in kws
        if not a.vararg and n > len(pos):
            return 'takes %d arguments, not %d' % (len(pos), n)
        names = set(pos) - {x.arg for x in a.posonlyargs}
        names |= {x.arg for x in a.kwonlyargs}
        for k in kws:
            if k is None:
                continue
            if k not in names and not a.kwarg:
                return 'has no parameter %s' % k
            if not star and k in pos[:n] and k in names:
                return 'gets parameter %s twice' % k
        if star or dstar:
            return None
        need = pos[:len(pos) - len(a.defaults)] if a.defaults else pos
        for p in need[n:]:
            if p not in kws:
                return 'lacks the argument %s' % p
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is None and x.arg not in kws:
                return 'lacks the argument %s' % x.arg
        return None

    def constructor(self, cls):
        """The __init__ an instantiation runs; None where not known."""
        if any('__new__' in c.methods for c in self.prog.mro(cls)):
            return None
        for c in self.prog.mro(cls):
            if c.node.decorator_list:
                return None
            for k in c.node.keywords:
                if k.arg == 'metaclass' and not self.abcmeta(c, k.value):
                    return None
        r = self.prog.find_member(cls, '__init__')
        if r is None:
            ext = self.external(cls)
            if ext == [object] or ext is not None and all(
                    o.__init__ is object.__init__ and
                    o.__new__ is object.__new__ for o in ext):
                return ast.parse('def __init__(self): pass').body[0]
            return None
        if r[1] != 'method' or r[2].decorator_list:
            return None
        return r[2]

    def abcmeta(self, c, e):
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            m = self.prog.lookup(c.mod, e.value.id)
            return m == ('ext', 'abc') and e.attr == 'ABCMeta'
        if isinstance(e, ast.Name):
            return self.prog.lookup(c.mod, e.id) == ('ext', 'abc.ABCMeta')
        return False

    def is_abc(self, cls):
        """The class refuses instantiation while abstract methods are left."""
        for c in self.prog.mro(cls):
            for k in c.node.keywords:
                if k.arg == 'metaclass' and self.abcmeta(c, k.value):
                    return True
            for b in c.node.bases:
                if isinstance(b, ast.Attribute) and \
                        isinstance(b.value, ast.Name) and b.attr == 'ABC' \
                        and self.prog.lookup(c.mod, b.value.id) == \
                        ('ext', 'abc'):
                    return True
                if isinstance(b, ast.Name) and self.prog.lookup(
                        c.mod, b.id) == ('ext', 'abc.ABC'):
                    return True
        return False

    def abstract(self, cls):
        """Names of the abstract members left in this class."""
        out = set()
        for c in reversed(self.prog.mro(cls)):
            out -= self.level(c)
            for n in c.node.body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    if any('abstract' in c._deco(d)
                           for d in n.decorator_list):
                        out.add(n.name)
                    else:
                        out.discard(n.name)
        return out

    def plain_decorators(self, cls, fn):
        for d in fn.decorator_list:
            if cls is None or cls._deco(d) not in (
                    'staticmethod', 'classmethod', 'abstractmethod'):
                return False
        return True
