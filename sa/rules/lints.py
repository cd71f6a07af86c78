"""Whole-package rules: everything that is referred to exists, interfaces are
complete."""

import ast
import builtins
import os
import string

from ..logic import *          # noqa: F401,F403
from ..content import Content, Entry
from ..engine import Unsupported
from ..resolve import (Resolver, Unbound, functions, module_names, own,
                       parents, guarded, MODNAMES)
import symtable
import sys
import importlib.util


def line(mod, n, prog):
    return '%s:%d' % (os.path.relpath(mod.path, prog.root), n.lineno)


def visited(run, mod):
    for q, cls, fn in functions(mod):
        run.visited.add(mod.name + '.' + q)


# ------------------------------------------------------------------------ C34

def c34(run):
    R = Resolver(run.prog)
    for name, mod in sorted(run.prog.mods.items()):
        visited(run, mod)

        def ob(kind, rule, body, mod=mod):
            run.ob('C34.%s.%s' % (kind, mod.name), rule, '',
                   lambda ck: body(ck, R, mod))
        ob('names', 'every name is bound where it is used', names)
        ob('imports', 'everything imported from the package and the standard '
           'library exists', imports)
        if any(True for _ in functions(mod)):
            ob('attributes', 'every attribute exists on some object that can '
               'be there', attributes)
            ob('calls', 'arguments fit the parameters of what is called',
               calls)
            ob('raises', 'only exceptions are raised and caught', raises)
            ob('formats', 'format strings fit their arguments', formats)


def names(ck, R, mod):
    top = module_names(mod)
    up = parents(mod.tree)
    ck.ok()
    if top is None:
        ck.unknown('import *')
        return
    known = top | set(dir(builtins)) | MODNAMES
    t = symtable.symtable(mod.src, mod.path, 'exec')
    loads = {}
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            loads.setdefault(n.id, []).append(n)

    bad = set()

    def scan(tt):
        for s in tt.get_symbols():
            if s.is_referenced() and s.is_global() and \
                    s.get_name() not in known:
                bad.add(s.get_name())
        for c in tt.get_children():
            scan(c)
    scan(t)
    for s in t.get_symbols():
        if s.is_referenced() and s.get_name() not in known:
            bad.add(s.get_name())
    for nm, ns in loads.items():
        ck.ok(len(ns))
    for nm in sorted(bad):
        for n in loads.get(nm, ()):
            if guarded(n, up, {'NameError'}) or annotation(n, up):
                continue
            ck.fail('%s: name %r is not defined anywhere' % (
                line(mod, n, R.prog), nm))
    for q, cls, fn in functions(mod):
        for n in Unbound(fn).bad:
            if guarded(n, up, {'NameError', 'UnboundLocalError'}):
                continue
            ck.fail('%s: local variable %r is read in %s before anything '
                    'assigns it' % (line(mod, n, R.prog), n.id, q))
    ck.run.sites += sum(map(len, loads.values()))


def annotation(n, up):
    c = n
    while c in up:
        p = up[c]
        if isinstance(p, ast.AnnAssign) and c is p.annotation:
            return True
        if isinstance(p, ast.arg) and c is p.annotation:
            return True
        if isinstance(p, (ast.FunctionDef,)) and c is p.returns:
            return True
        c = p
    return False


def imports(ck, R, mod):
    up = parents(mod.tree)
    ck.ok()
    for n in ast.walk(mod.tree):
        if not isinstance(n, (ast.Import, ast.ImportFrom)) or \
                guarded(n, up, {'ImportError', 'ModuleNotFoundError'}):
            continue
        ck.ok(len(n.names))
        if isinstance(n, ast.Import):
            for a in n.names:
                if not exists(R, a.name):
                    ck.fail('%s: no module %s' % (line(mod, n, R.prog),
                                                  a.name))
            continue
        base = mod.resolve_rel(n.level, n.module)
        if base in R.prog.mods:
            tgt = R.prog.mods[base]
            top = module_names(tgt)
            for a in n.names:
                if a.name == '*' or top is None or a.name in top or \
                        a.name in MODNAMES or \
                        base + '.' + a.name in R.prog.mods:
                    continue
                ck.fail('%s: %s has no %s' % (line(mod, n, R.prog), base,
                                              a.name))
        elif not exists(R, base):
            ck.fail('%s: no module %s' % (line(mod, n, R.prog), base))
        elif base.split('.')[0] in sys.stdlib_module_names:
            for a in n.names:
                if a.name != '*' and R.stdlib(base + '.' + a.name) is None \
                        and R.stdlib(base) is not None and \
                        importable(base):
                    ck.fail('%s: %s has no %s' % (line(mod, n, R.prog), base,
                                                  a.name))


def importable(base):
    return base.split('.')[0] not in ('antigravity', 'this', 'idlelib',
                                      'turtle', 'tkinter')


def exists(R, name):
    top = name.split('.')[0]
    pkgs = {m.split('.')[0] for m in R.prog.mods}
    if top in pkgs:
        return name in R.prog.mods
    if top in sys.stdlib_module_names and importable(name):
        try:
            return importlib.util.find_spec(name) is not None
        except (ImportError, ValueError):
            return False
    return True


def shadowed(fn_chain, name):
    """A local of the enclosing functions hides the module level name."""
    for fn in fn_chain:
        a = fn.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [
                y for y in (a.vararg, a.kwarg) if y]:
            if x.arg == name:
                return True
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id == name and \
                    isinstance(n.ctx, (ast.Store, ast.Del)):
                return True
            if isinstance(n, (ast.Import, ast.ImportFrom)) and any(
                    (x.asname or x.name.split('.')[0]) == name
                    for x in n.names):
                return True
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and \
                    n is not fn and n.name == name:
                return True
            if isinstance(n, ast.ExceptHandler) and n.name == name:
                return True
            if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name == name:
                return True
    return False


class Sites:
    """Expressions of a module with the scope they are in."""

    def __init__(self, R, mod):
        self.R, self.mod = R, mod
        self.up = parents(mod.tree)

    def chain(self, n):
        """Enclosing functions (innermost first) and class."""
        fns, cls = [], None
        c = n
        while c in self.up:
            c = self.up[c]
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef,
                              ast.Lambda)):
                fns.append(c)
            elif isinstance(c, ast.ClassDef):
                if self.up.get(c) is self.mod.tree:
                    cls = self.mod.classes.get(c.name)
                else:
                    cls = False
                break
        return fns, cls

    def selfish(self, n, fns, cls):
        """n is the `self` of a method of cls."""
        if not cls or not fns or not isinstance(n, ast.Name):
            return False
        m = fns[-1]
        if not isinstance(m, (ast.FunctionDef, ast.AsyncFunctionDef)) or \
                cls.kinds.get(m.name):
            return False
        if any(cls._deco(d) in ('staticmethod', 'classmethod')
               for d in m.decorator_list):
            return False
        a = m.args.posonlyargs + m.args.args
        if not a or a[0].arg != n.id:
            return False
        # rebound somewhere?
        for f in fns:
            for x in ast.walk(f):
                if isinstance(x, ast.Name) and x.id == n.id and isinstance(
                        x.ctx, (ast.Store, ast.Del)):
                    return False
                if isinstance(x, ast.arg) and x.arg == n.id and \
                        x is not a[0]:
                    return False
        return True

    def denotes(self, n, fns):
        """What a name or dotted name denotes at module level."""
        if isinstance(n, ast.Name):
            if shadowed(fns, n.id):
                return None
            if n.id in dupes(self.mod):
                return None
            return self.R.prog.lookup(self.mod, n.id)
        if isinstance(n, ast.Attribute):
            b = self.denotes(n.value, fns)
            if b and b[0] == 'mod':
                return self.R.prog.lookup(b[1], n.attr)
        return None

    def is_super(self, n, fns, cls):
        if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and
                n.func.id == 'super') or not cls or shadowed(fns, 'super'):
            return None
        if not n.args:
            return cls
        if isinstance(n.args[0], ast.Name):
            r = self.denotes(n.args[0], fns)
            if r and r[0] == 'class' and len(n.args) > 1 and \
                    self.selfish(n.args[1], fns, cls):
                return r[1]
        return None


def dupes(mod):
    """Module level names with several definitions."""
    if not hasattr(mod, '_dupes'):
        seen, out = set(), set()
        for s in ast.walk(mod.tree):
            if isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
                pass
        for s in mod.tree.body:
            if isinstance(s, (ast.If, ast.Try, ast.For, ast.While, ast.With)):
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(
                            x.ctx, ast.Store):
                        out.add(x.id)
                    elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                        out.add(x.name)
                continue
            names = []
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                names = [s.name]
            elif isinstance(s, ast.Assign):
                names = [x.id for t in s.targets for x in ast.walk(t)
                         if isinstance(x, ast.Name)]
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                names = [a.asname or a.name.split('.')[0] for a in s.names]
            for x in names:
                if x in seen:
                    out.add(x)
                seen.add(x)
        for f in ast.walk(mod.tree):
            if isinstance(f, ast.Global):
                out |= set(f.names)
        mod._dupes = out
    return mod._dupes


def attributes(ck, R, mod):
    S = Sites(R, mod)
    for n in ast.walk(mod.tree):
        if not isinstance(n, ast.Attribute) or isinstance(n.ctx, ast.Store):
            continue
        ck.ok()
        ck.run.sites += 1
        fns, cls = S.chain(n)
        if guarded(n, S.up, {'AttributeError'}):
            continue
        at = line(mod, n, R.prog)
        if S.selfish(n.value, fns, cls):
            if not R.has_attr(cls, n.attr):
                ck.fail('%s: no object of class %s has an attribute %s' % (
                    at, cls.name, n.attr))
            elif never_set(R, S, n, fns, cls):
                ck.fail('%s: attribute %s is read in %s.%s, but no '
                        'constructor sets it' % (
                            at, n.attr, cls.name, fns[-1].name))
            else:
                misuse(ck, R, S, n, at, [cls])
            continue
        sup = S.is_super(n.value, fns, cls)
        if sup is not None:
            if not any(R.has_attr(c, n.attr, after=sup)
                       for c in [sup]):
                ck.fail('%s: no ancestor of class %s has an attribute %s' % (
                    at, sup.name, n.attr))
            continue
        d = S.denotes(n.value, fns)
        if d and d[0] == 'class':
            if not R.has_attr(d[1], n.attr, up=True) and \
                    not hasattr(type, n.attr) and \
                    n.attr not in ('__abstractmethods__', 'register'):
                ck.fail('%s: class %s has no attribute %s' % (
                    at, d[1].name, n.attr))
            continue
        if d and d[0] == 'mod':
            top = module_names(d[1])
            if top is not None and n.attr not in top | MODNAMES and \
                    d[1].name + '.' + n.attr not in R.prog.mods and \
                    n.attr not in R.outside:
                ck.fail('%s: module %s has no %s' % (at, d[1].name, n.attr))
            continue
        if d and d[0] == 'ext':
            o = R.stdlib(d[1])
            if o is not None and not hasattr(o, n.attr) and \
                    not submodule(d[1], n.attr):
                ck.fail('%s: %s has no %s' % (at, d[1], n.attr))
            continue
        if isinstance(n.value, ast.Attribute):
            b = S.denotes(n.value.value, fns)
            if b and b[0] == 'ext':
                continue
        if d is None and chain_root_ext(S, n.value, fns):
            continue
        if R.wild or n.attr in R.attrs or n.attr in R.fields or \
                n.attr in R.names:
            misuse(ck, R, S, n, at, None)
            continue
        ck.fail('%s: nothing has an attribute %s' % (at, n.attr))


def closure(R, cls, names):
    """Attributes of self which these methods of an object of class `cls` set,
    their own calls on self included; None: not known."""
    key = (cls, tuple(names))
    memo = R.__dict__.setdefault('_closure', {})
    if key in memo:
        return memo[key]
    out, seen = set(), set()
    todo = [(n, None) for n in names]
    while todo:
        it = todo.pop()
        if it in seen:
            continue
        seen.add(it)
        name, after = it
        r = R.prog.find_member(cls, name, after=after)
        if r is None:
            continue
        owner, what, node = r
        fs = [node] if what == 'method' else \
            list(node.values()) if what == 'prop' else []
        for fn in fs:
            a = fn.args.posonlyargs + fn.args.args
            me = a[0].arg if a else None
            for n in ast.walk(fn):
                if isinstance(n, ast.Attribute) and \
                        isinstance(n.value, ast.Name) and n.value.id == me:
                    if isinstance(n.ctx, ast.Store):
                        out.add(n.attr)
                    todo.append((n.attr, None))
                elif isinstance(n, ast.Attribute) and isinstance(
                        n.value, ast.Call) and isinstance(
                        n.value.func, ast.Name) and \
                        n.value.func.id == 'super':
                    todo.append((n.attr, owner))
                elif isinstance(n, ast.Name) and n.id == me and not (
                        isinstance(n.ctx, ast.Load)):
                    memo[key] = None
                    return None
                elif isinstance(n, ast.Attribute) and isinstance(
                        n.value, ast.Name) and n.value.id != me and \
                        n.attr in R.methods:
                    # Base.method(self) and the like
                    m = R.prog.lookup(owner.mod, n.value.id)
                    if m and m[0] == 'class' and m[1] in R.prog.mro(cls):
                        mro = R.prog.mro(cls)
                        i = mro.index(m[1])
                        todo.append((n.attr, mro[i - 1] if i else None))
    memo[key] = out
    return out


def never_set(R, S, n, fns, cls):
    """A public method reads an attribute which neither a constructor nor
    anything the method calls has set."""
    x = n.attr
    name = fns[-1].name
    if R.wild or x in R.outside or not isinstance(n.ctx, ast.Load) or \
            hasattr(object(), x) or x.startswith('__'):
        return False
    if name.startswith('_') and not (name.endswith('__') and
                                     name not in ('__new__', '__init__')):
        return False
    if any(x in R.level(c) for c in R.family(cls)):
        return False
    for c in R.family(cls):
        if cls not in R.prog.mro(c):
            continue
        ext = R.external(c)
        if ext is None or any(hasattr(o, x) for o in ext) or any(
                '__getattr__' in k.methods or '__new__' in k.methods
                for k in R.prog.mro(c)):
            return False
        for ns in (('__init__',), (name,)):
            got = closure(R, c, ns)
            if got is None or x in got:
                return False
    # a class of a user may set it where the class itself cannot be created
    return not (R.is_abc(cls) and R.abstract(cls))


def chain_root_ext(S, n, fns):
    """The expression comes out of a library outside of the analysis."""
    for x in ast.walk(n):
        if isinstance(x, ast.Name):
            d = S.denotes(x, fns)
            if d and d[0] == 'ext' and S.R.stdlib(d[1]) is None:
                return True
    return False


def submodule(path, attr):
    try:
        return importlib.util.find_spec(path + '.' + attr) is not None
    except (ImportError, ValueError, AttributeError):
        return False


def misuse(ck, R, S, n, at, classes):
    """A method used as if it were the value it returns."""
    if n.attr in R.values or n.attr not in R.methods or (
            classes is None and (n.attr in R.attrs or R.wild)):
        return
    if any(c.kinds.get(n.attr) or not R.plain_decorators(c, m)
           for c, m in R.methods[n.attr]):
        return
    p = S.up.get(n)
    how = None
    if isinstance(p, (ast.For, ast.comprehension)) and p.iter is n:
        how = 'is iterated over'
    elif isinstance(p, ast.Subscript) and p.value is n:
        how = 'is subscripted'
    elif isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and \
            p.func.id in ('len', 'list', 'set', 'frozenset', 'tuple',
                          'sorted', 'sum', 'min', 'max', 'iter', 'enumerate',
                          'reversed', 'dict', 'float', 'int', 'abs') and \
            n in p.args and len(p.args) == 1:
        how = 'is handed to %s()' % p.func.id
    elif isinstance(p, ast.BinOp) and not (
            isinstance(p.op, ast.Mod) and p.right is n):
        how = 'is an operand of an arithmetic operation'
    elif isinstance(p, ast.UnaryOp) and not isinstance(p.op, ast.Not):
        how = 'is an operand of an arithmetic operation'
    elif isinstance(p, ast.Compare):
        i = ([p.left] + p.comparators).index(n)
        ops = ([p.ops[i - 1]] if i else []) + p.ops[i:i + 1]
        if any(isinstance(o, (ast.Lt, ast.Gt, ast.LtE, ast.GtE))
               for o in ops):
            how = 'is compared by size'
        elif i and isinstance(p.ops[i - 1], (ast.In, ast.NotIn)):
            how = 'is searched'
    if how:
        ck.fail('%s: method %s is not called, but %s' % (at, n.attr, how))


def calls(ck, R, mod):
    S = Sites(R, mod)
    ck.ok()
    for n in ast.walk(mod.tree):
        if not isinstance(n, ast.Call):
            continue
        fns, cls = S.chain(n)
        if guarded(n, S.up, {'TypeError'}):
            continue
        at = line(mod, n, R.prog)
        f = n.func
        d = S.denotes(f, fns)
        ck.ok()
        ck.run.sites += 1
        if d and d[0] == 'func':
            if not d[2].decorator_list:
                why = R.binds(d[2], n, False)
                if why:
                    ck.fail('%s: %s() %s' % (at, d[2].name, why))
            continue
        if d and d[0] == 'class':
            init = R.constructor(d[1])
            if init is not None:
                why = R.binds(init, n, True)
                if why:
                    ck.fail('%s: %s() %s' % (at, d[1].name, why))
            left = R.abstract(d[1])
            if left and R.is_abc(d[1]):
                ck.fail('%s: %s() creates an object of an abstract class '
                        '(%s)' % (at, d[1].name, ', '.join(sorted(left))))
            continue
        if not isinstance(f, ast.Attribute):
            continue
        sup = S.is_super(f.value, fns, cls)
        if sup is not None:
            # the next class depends on the object; the own bases must fit
            r = R.prog.find_member(sup, f.attr, after=sup)
            why = r and fits(R, r, n)
            if why and all(fits(R, x, n) for x in cousins(R, sup, f.attr)):
                ck.fail('%s: super().%s() %s' % (at, f.attr, why))
            if r is None and f.attr == '__init__' and R.external(sup) == \
                    [object] and (n.args or n.keywords) and not cousins(
                        R, sup, f.attr) and not any(
                            isinstance(a, ast.Starred) for a in n.args) \
                    and all(k.arg for k in n.keywords):
                ck.fail('%s: object() takes no arguments' % at)
            continue
        if S.selfish(f.value, fns, cls):
            cands = []
            for c in R.family(cls):
                if cls in R.prog.mro(c) or c is cls:
                    r = R.prog.find_member(c, f.attr)
                    if r is not None:
                        cands.append(r)
            if cands and f.attr not in R.fields:
                whys = [fits(R, r, n) for r in cands]
                if all(whys):
                    ck.fail('%s: self.%s() %s' % (at, f.attr, whys[0]))
            continue
        dv = S.denotes(f.value, fns)
        if dv and dv[0] == 'class':
            r = R.prog.find_member(dv[1], f.attr)
            if r and r[1] == 'method' and R.plain_decorators(r[0], r[2]) \
                    and f.attr not in R.fields:
                bound = r[0].kinds.get(f.attr) == 'class'
                why = R.binds(r[2], n, bound)
                if why:
                    ck.fail('%s: %s.%s() %s' % (at, dv[1].name, f.attr, why))
            continue
        if dv is not None or chain_root_ext(S, f.value, fns):
            continue
        # any receiver: some method of the package with this name must fit
        if f.attr in R.methods and f.attr not in R.values and \
                f.attr not in R.attrs and not R.wild:
            whys = [fits(R, (c, 'method', m), n)
                    for c, m in R.methods[f.attr]]
            if all(whys):
                ck.fail('%s: .%s() %s' % (at, f.attr, whys[0]))


def cousins(R, cls, name):
    """What super().name may denote in objects of derived classes."""
    out = []
    for c in R.family(cls):
        mro = R.prog.mro(c)
        if cls in mro:
            r = R.prog.find_member(c, name, after=cls)
            if r is not None:
                out.append(r)
    return out


def fits(R, r, call):
    owner, what, node = r
    if what != 'method' or not R.plain_decorators(owner, node):
        return None
    return R.binds(node, call, owner.kinds.get(node.name) != 'static')


def raises(ck, R, mod):
    S = Sites(R, mod)
    ck.ok()
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Raise) and n.exc is not None:
            ck.ok()
            e = n.exc
            fns, cls = S.chain(n)
            if isinstance(e, (ast.Constant, ast.JoinedStr, ast.Dict, ast.List,
                              ast.Tuple, ast.Set, ast.BinOp)):
                ck.fail('%s: raises something which is not an exception' %
                        line(mod, n, R.prog))
                continue
            t = e.func if isinstance(e, ast.Call) else e
            if not exception(R, S, t, fns):
                ck.fail('%s: raises %s, which is not an exception' % (
                    line(mod, n, R.prog), ast.unparse(t)))
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            ck.ok()
            fns, cls = S.chain(n)
            for t in n.type.elts if isinstance(n.type, ast.Tuple) \
                    else [n.type]:
                if not exception(R, S, t, fns):
                    ck.fail('%s: catches %s, which is not an exception' % (
                        line(mod, n, R.prog), ast.unparse(t)))


def exception(R, S, t, fns):
    """False: certainly not an exception class."""
    d = S.denotes(t, fns)
    if d is None:
        if isinstance(t, ast.Name) and not shadowed(fns, t.id) and \
                t.id not in S.mod.imports and t.id not in dupes(S.mod):
            o = getattr(builtins, t.id, None)
            if o is not None:
                return isinstance(o, type) and issubclass(o, BaseException)
        return True
    if d[0] == 'class':
        ext = R.external(d[1])
        return ext is None or any(isinstance(o, type) and
                                  issubclass(o, BaseException) for o in ext)
    if d[0] == 'ext':
        o = R.stdlib(d[1])
        return o is None or not isinstance(o, type) or \
            issubclass(o, BaseException)
    return True


def formats(ck, R, mod):
    up = parents(mod.tree)
    ck.ok()
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                and n.func.attr == 'format' and \
                isinstance(n.func.value, ast.Constant) and \
                isinstance(n.func.value.value, str):
            ck.ok()
            if any(isinstance(a, ast.Starred) for a in n.args) or \
                    any(k.arg is None for k in n.keywords) or \
                    guarded(n, up, {'IndexError', 'KeyError', 'ValueError'}):
                continue
            kws = {k.arg for k in n.keywords}
            auto = 0
            at = line(mod, n, R.prog)

            def parse(s):
                nonlocal auto
                try:
                    parts = list(string.Formatter().parse(s))
                except ValueError as e:
                    ck.fail('%s: format string: %s' % (at, e))
                    return
                for _, field, spec, conv in parts:
                    if field is None:
                        continue
                    head = field
                    for i, ch in enumerate(field):
                        if ch in '.[':
                            head = field[:i]
                            break
                    if head == '':
                        head = str(auto)
                        auto += 1
                    if head.isdigit():
                        if int(head) >= len(n.args):
                            ck.fail('%s: format string wants argument %s of '
                                    '%d' % (at, head, len(n.args)))
                    elif head not in kws:
                        ck.fail('%s: format string wants argument %r' % (
                            at, head))
                    if spec:
                        parse(spec)
            parse(n.func.value.value)
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and \
                isinstance(n.left, ast.Constant) and \
                isinstance(n.left.value, str):
            ck.ok()
            if guarded(n, up, {'TypeError', 'ValueError', 'KeyError'}):
                continue
            k = percent(n.left.value)
            if k is None:
                continue
            at = line(mod, n, R.prog)
            if isinstance(n.right, ast.Tuple):
                if not any(isinstance(x, ast.Starred) for x in n.right.elts) \
                        and len(n.right.elts) != k:
                    ck.fail('%s: format string wants %d arguments, gets %d'
                            % (at, k, len(n.right.elts)))
            elif isinstance(n.right, (ast.Constant, ast.JoinedStr)) and \
                    k != 1:
                ck.fail('%s: format string wants %d arguments, gets one' % (
                    at, k))


def percent(s):
    """Number of positional arguments of a %-format; None: by name."""
    i = k = 0
    while i < len(s):
        if s[i] != '%':
            i += 1
            continue
        i += 1
        if i < len(s) and s[i] == '(':
            return None
        while i < len(s) and s[i] in '#0- +.*0123456789hlL':
            if s[i] == '*':
                k += 1
            i += 1
        if i >= len(s):
            return None
        if s[i] != '%':
            k += 1
        i += 1
    return k


# ------------------------------------------------------------------------ C35

# what an object of an implementing class must have before it may exist
ABSTRACT = {
    'Method': ['execute'],
    'MultiMethod': ['multi_execute'],
    'Constraint': ['satisfied', '__str__'],
    'SelectionConstraint': ['satisfied'],
    'PointRelation': ['__eq__'],
    'Cluster': ['intersect_rigid', 'intersect_hedgehog', 'intersect_balloon',
                'common_distances', 'common_angles_rigid',
                'common_angles_hedgehog', 'common_angles_balloon',
                'n_distances', 'n_angles'],
}

# classes whose objects can be created, and what they must offer
CONCRETE = ['AddMethod', 'SubMethod', 'SetMethod', 'AssignMethod',
            'SumProdMethod', 'PlusConstraint', 'FunctionConstraint',
            'NotClockwiseConstraint', 'NotCounterClockwiseConstraint',
            'NotObtuseConstraint', 'NotAcuteConstraint', 'Rigid', 'Hedgehog',
            'Balloon', 'Distance', 'Angle']

# objects that are used as keys and set members
HASHABLE = ['Method', 'MultiVariable', 'Constraint', 'PointRelation',
            'Configuration', 'Cluster']


def c35(run):
    R = Resolver(run.prog)
    for mod in run.prog.mods.values():
        visited(run, mod)

    for name, needs in ABSTRACT.items():
        def body(ck, name=name, needs=needs):
            cls = run.prog.find_class(name)
            if any('__new__' in c.methods for c in run.prog.mro(cls)) or \
                    R.external(cls) is None:
                ck.unknown('instantiation of %s' % name, 'own __new__')
                return
            init = run.prog.find_member(cls, '__init__')
            for m in needs:
                got = run.prog.find_member(cls, m)
                if R.is_abc(cls) and m in R.abstract(cls):
                    ck.ok()
                elif got is None and not R.is_abc(cls) or \
                        not refuses(R, init):
                    ck.fail('a class derived from %s can be used without '
                            'defining %s' % (name, m))
                else:
                    ck.unknown('constructor of %s' % name)
        run.ob('C35.abstract.' + name, 'objects of a class that leaves out '
               'the interface cannot be created', name, body)

    for name in CONCRETE:
        def body(ck, name=name):
            cls = run.prog.find_class(name)
            left = R.abstract(cls) if R.is_abc(cls) else ()
            ck.that(not left, '%s cannot be created: it does not define %s'
                    % (name, ', '.join(sorted(left))))
            for b, needs in ABSTRACT.items():
                if run.prog.find_class(b) not in run.prog.mro(cls):
                    continue
                for m in needs:
                    r = run.prog.find_member(cls, m)
                    ck.that(r is not None and not (
                        r[1] == 'method' and is_abstract(r[0], r[2])),
                        '%s does not define %s' % (name, m))
        run.ob('C35.concrete.' + name, 'a class that can be created '
               'implements the whole interface', name, body)

    kinds(run, R)

    for name in HASHABLE:
        def body(ck, name=name):
            base = run.prog.find_class(name)
            for c in R.classes:
                if base not in run.prog.mro(c):
                    continue
                r = run.prog.find_member(c, '__hash__')
                if r is None or r[1] == 'method':
                    ck.ok()
                    continue
                if r[1] == 'assign' and isinstance(r[2], ast.Constant) and \
                        r[2].value is None:
                    ck.fail('objects of class %s are not hashable' % c.name)
                else:
                    ck.ok()
        run.ob('C35.hashable.' + name, 'objects that serve as keys and set '
               'members are hashable', name, body)


def is_abstract(cls, fn):
    return any('abstract' in cls._deco(d) for d in fn.decorator_list)


def refuses(R, init):
    """The constructor may refuse on its own account."""
    if init is None or init[1] != 'method':
        return False
    ns = list(own(init[2]))
    return any(isinstance(n, ast.Raise) for n in ns) and any(
        isinstance(n, ast.Name) and n.id in ('type', 'hasattr', 'getattr',
                                             'callable') or
        isinstance(n, ast.Attribute) and n.attr in ('__class__', '__dict__')
        for n in ns)


def kinds(run, R):
    """The hierarchy: which objects are of which kind."""
    table = [
        ('Method', ['AddMethod', 'SubMethod', 'SetMethod', 'AssignMethod',
                    'MultiMethod', 'SumProdMethod']),
        ('MultiMethod', ['SumProdMethod']),
        ('Constraint', ['PlusConstraint', 'SelectionConstraint',
                        'FunctionConstraint', 'NotClockwiseConstraint',
                        'NotCounterClockwiseConstraint',
                        'NotObtuseConstraint', 'NotAcuteConstraint']),
        ('SelectionConstraint', ['NotClockwiseConstraint',
                                 'NotCounterClockwiseConstraint',
                                 'NotObtuseConstraint',
                                 'NotAcuteConstraint']),
        ('Cluster', ['Rigid', 'Hedgehog', 'Balloon']),
        ('PointRelation', ['Distance', 'Angle']),
        ('Matrix', ['Vector']),
    ]
    for base, subs in table:
        def body(ck, base=base, subs=subs):
            b = run.prog.find_class(base)
            for s in subs:
                c = run.prog.find_class(s)
                ck.that(b in run.prog.mro(c) or
                        '__subclasshook__' in b.methods or
                        '__instancecheck__' in b.methods,
                        '%s is not a kind of %s' % (s, base))
        run.ob('C35.kinds.' + base, 'the documented kinds of objects are '
               'kinds of their base class', base, body)


# ------------------------------------------------------------------------ C37

MUTATORS = set('''append extend insert remove pop clear sort reverse add
discard update setdefault popitem intersection_update difference_update
symmetric_difference_update appendleft extendleft popleft'''.split())


ADDERS = MUTATORS - {'remove', 'pop', 'clear', 'discard', 'popitem',
                     'popleft', 'sort', 'reverse'}


def reachable(E, st, v, seen):
    """Locations of the containers and objects reachable from a value."""
    if isinstance(v, IteV):
        reachable(E, st, v.a, seen)
        reachable(E, st, v.b, seen)
    elif isinstance(v, TupleV):
        for x in v.items:
            reachable(E, st, x, seen)
    elif isinstance(v, Ref):
        if v.loc in seen:
            return
        seen[v.loc] = v
        C = st.heap.get(v.loc)
        if C is None:
            return
        for e in C.log:
            for k in e.key:
                reachable(E, st, k, seen)
            if e.val is not None:
                reachable(E, st, e.val, seen)
    elif isinstance(v, ObjV):
        if v.oid in seen:
            return
        seen[v.oid] = v
        for (oid, f), x in st.fields.items():
            if oid == v.oid:
                reachable(E, st, x, seen)


def c37(run):
    R = Resolver(run.prog)

    def arg(lab, name, kind='list'):
        x = lab.eng.bsym('x')
        return lab.eng.alloc(lab.st, Content(kind, [Entry(
            'add', (x,), lab.eng.rel(name, x), (x,),
            setlike=kind == 'set')], distinct=kind == 'set'), name)

    def mapping(lab, name):
        x = lab.eng.bsym('x')
        return lab.eng.alloc(lab.st, Content('dict', [Entry(
            'add', (x,), lab.eng.rel(name, x), (x,), App('pt', (x,)))],
            distinct=True), name)

    def syms(lab, name, n):
        return [Sym(name + str(i)) for i in range(n)]
    table = {
        'Graph': lambda lab, t: [],
        'MethodGraph': lambda lab, t: [],
        'ConstraintGraph': lambda lab, t: [],
        'MultiVariable': lambda lab, t: [],
        'AddMethod': lambda lab, t: syms(lab, t, 3),
        'SubMethod': lambda lab, t: syms(lab, t, 3),
        'SetMethod': lambda lab, t: syms(lab, t, 2),
        'AssignMethod': lambda lab, t: syms(lab, t, 2),
        'PlusConstraint': lambda lab, t: syms(lab, t, 3),
        'FunctionConstraint': lambda lab, t: [Sym('f'), arg(lab, t)],
        'NotClockwiseConstraint': lambda lab, t: syms(lab, t, 3),
        'NotCounterClockwiseConstraint': lambda lab, t: syms(lab, t, 3),
        'NotObtuseConstraint': lambda lab, t: syms(lab, t, 3),
        'NotAcuteConstraint': lambda lab, t: syms(lab, t, 3),
        'Distance': lambda lab, t: syms(lab, t, 2),
        'Angle': lambda lab, t: syms(lab, t, 3),
        'Rigid': lambda lab, t: [arg(lab, t)],
        'Balloon': lambda lab, t: [arg(lab, t)],
        'Hedgehog': lambda lab, t: [Sym('c' + t), arg(lab, t)],
        'Configuration': lambda lab, t: [mapping(lab, t)],
        'Vector': lambda lab, t: [Sym(t + 'x', 'num'), Sym(t + 'y', 'num')],
    }
    for name, args in table.items():
        def body(ck, name=name, args=args):
            once(ck, name, args)
            if name in ('Rigid', 'Balloon'):
                once(ck, name, lambda lab, t: [arg(lab, t, 'set')])
            if name == 'Hedgehog':
                once(ck, name, lambda lab, t: [Sym('c' + t),
                                               arg(lab, t, 'set')])

        def once(ck, name, args):
            lab = ck.lab()
            E = lab.eng
            xs = args(lab, 'A')
            o = lab.new(name, *xs)
            if o.st is None:
                raise Unsupported('no %s can be created' % name)
            lab.st = o.st
            ys = args(lab, 'B')
            p = lab.new(name, *ys)
            if p.st is None:
                raise Unsupported('no second %s can be created' % name)
            pre = And(*p.st.pc)
            if not E.sat(pre):
                raise Unsupported('no two objects')
            mine, his, given = {}, {}, {}
            reachable(E, p.st, o.val, mine)
            reachable(E, p.st, p.val, his)
            for x in xs + ys:
                reachable(E, p.st, x, given)
            ck.ok(1 + len(mine))
            for k in mine:
                if k in his:
                    ck.fail('two new objects of class %s share a container '
                            'or object: what is done to one of them shows '
                            'in the other' % name)
            for k in list(mine) + list(his):
                if k in given:
                    ck.fail('an object of class %s keeps the container it '
                            'was created from: it changes with it' % name)
        run.ob('C37.new.' + name, 'new objects share no container with each '
               'other or with what they were created from', name, body)

    for base, name, make, args in (
            ('Method', 'AddMethod', 3, lambda lab: [
                Sym('n'), arg(lab, 'I'), arg(lab, 'O')]),
            ('PointRelation', 'Distance', 2, lambda lab: [arg(lab, 'I')]),
            ('SelectionConstraint', 'NotAcuteConstraint', 3, lambda lab: [
                Sym('n'), arg(lab, 'I')])):
        def body(ck, base=base, name=name, make=make, args=args):
            # what a derived class of a user hands to the constructor
            lab = ck.lab()
            E = lab.eng
            o = lab.new(name, *syms(lab, 'A', make))
            if o.st is None:
                raise Unsupported('no %s can be created' % name)
            lab.st = o.st
            xs = args(lab)
            m = run.prog.need_method(run.prog.find_class(base), '__init__')
            p = lab.run(lambda s: E.call(E.bind(o.val, m), xs, {}, s, None))
            if p.st is None:
                raise Unsupported('constructor of %s' % base)
            mine, given = {}, {}
            reachable(E, p.st, o.val, mine)
            for x in xs:
                reachable(E, p.st, x, given)
            ck.ok(1 + len(mine))
            for k in mine:
                if k in given:
                    ck.fail('an object of a class derived from %s keeps the '
                            'container it was created from' % base)
        run.ob('C37.base.' + base, 'the constructor for derived classes '
               'copies the containers it gets', base, body)

    for cls in sorted(R.classes, key=lambda c: c.qual):
        def body(ck, cls=cls):
            class_state(ck, R, cls)
        run.ob('C37.class.' + cls.name, 'no class level container holds the '
               'state of objects', cls.name, body)
    for mname, mod in sorted(run.prog.mods.items()):
        visited(run, mod)

        def body(ck, mod=mod):
            ck.ok()
            defaults(ck, R, mod)
        run.ob('C37.defaults.' + mname, 'no mutable default value of a '
               'parameter is kept, handed out or modified', '', body)


def container(e):
    return isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp,
                          ast.SetComp, ast.DictComp)) or (
        isinstance(e, ast.Call) and isinstance(e.func, (ast.Name,
                                                        ast.Attribute)) and
        (e.func.id if isinstance(e.func, ast.Name) else e.func.attr) in
        ('list', 'dict', 'set', 'deque', 'defaultdict', 'OrderedDict',
         'Counter', 'Graph'))


def touches(fn, names, attr):
    """(adds to, reads or replaces) `x.attr` in a function, x one of `names`;
    emptying it is neither."""
    mod = rd = False
    up = parents(fn)
    for n in ast.walk(fn):
        if not (isinstance(n, ast.Attribute) and n.attr == attr and
                isinstance(n.value, ast.Name) and n.value.id in names):
            continue
        if isinstance(n.ctx, ast.Store) and not isinstance(
                up.get(n), ast.AugAssign):
            continue
        p = up.get(n)
        if isinstance(p, ast.Attribute) and p.attr in MUTATORS and \
                isinstance(up.get(p), ast.Call) and up[p].func is p:
            if p.attr in ADDERS:
                mod = True
        elif isinstance(p, ast.Subscript) and p.value is n and isinstance(
                p.ctx, ast.Store):
            mod = True
        elif isinstance(p, ast.Subscript) and p.value is n and isinstance(
                p.ctx, ast.Del):
            pass
        elif isinstance(p, ast.AugAssign) and p.target is n:
            mod = True
        else:
            rd = True
    return mod, rd


def class_state(ck, R, cls):
    prog = R.prog
    ck.ok()
    for name, e in cls.assigns.items():
        if not container(e):
            continue
        ck.ok()
        users = [c for c in R.classes if cls in prog.mro(c)]
        for c in users:
            own = closure(R, c, ('__init__',))
            if own is None or name in own:
                continue
            if prog.find_member(c, name)[0] is not cls:
                continue
            mods, reads = [], []
            for k in prog.mro(c):
                for m, fn in k.methods.items():
                    a = fn.args.posonlyargs + fn.args.args
                    if prog.find_member(c, m)[0] is not k or not a or \
                            k.kinds.get(m):
                        continue
                    mo, rd = touches(fn, {a[0].arg}, name)
                    if mo:
                        mods.append(m)
                    if rd:
                        reads.append(m)
            # what one method puts in, another one looks at; a cache is
            # filled and read in one place
            if any(a != b for a in mods for b in reads):
                ck.fail('%s: %s is one container for all objects of class %s: '
                        '%s fill it, %s read it' % (
                            line(cls.mod, e, prog), name, c.name,
                            ', '.join(sorted(mods)),
                            ', '.join(sorted(reads))))


def defaults(ck, R, mod):
    for q, cls, fn in functions(mod):
        a = fn.args
        pos = a.posonlyargs + a.args
        pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + \
            [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d]
        for x, d in pairs:
            ck.ok()
            if not container(d):
                continue
            why = escapes(fn, x.arg)
            if why:
                ck.fail('%s: the default value of %s is one container for '
                        'all calls of %s, and it is %s' % (
                            line(mod, d, R.prog), x.arg, q, why))


def escapes(fn, name):
    """How a parameter gets out of or is modified in a function, as far as it
    is certain."""
    up = parents(fn)
    if any(isinstance(n, ast.Name) and n.id == name and
           isinstance(n.ctx, (ast.Store, ast.Del)) and not isinstance(
               up.get(n), ast.AugAssign) for n in ast.walk(fn)):
        return None         # rebound
    for n in ast.walk(fn):
        if not (isinstance(n, ast.Name) and n.id == name):
            continue
        p = up.get(n)
        if isinstance(p, ast.Attribute) and p.attr in MUTATORS and \
                isinstance(up.get(p), ast.Call) and up[p].func is p:
            return 'modified (line %d)' % n.lineno
        if isinstance(p, ast.Subscript) and p.value is n and isinstance(
                p.ctx, (ast.Store, ast.Del)):
            return 'modified (line %d)' % n.lineno
        if isinstance(p, ast.AugAssign) and p.target is n:
            return 'modified (line %d)' % n.lineno
        if isinstance(p, ast.Return):
            return 'returned (line %d)' % n.lineno
        if isinstance(p, ast.Assign) and p.value is n and any(
                isinstance(t, ast.Attribute) for t in p.targets):
            return 'kept (line %d)' % n.lineno
    return None


RULES = {'C34': c34, 'C35': c35, 'C37': c37}


# ------------------------------------------------- numbers by identity (C33)

NUMERIC = {'len', 'int', 'float', 'abs', 'sum', 'round', 'pow', 'divmod'}


def identity(ck, mod, prog):
    """Numbers that are equal need not be one object: no comparison of counts,
    sizes or entries may use 'is'."""
    props = set()

    def numeric(e, names=()):
        if isinstance(e, ast.Constant):
            return type(e.value) in (int, float)
        if isinstance(e, ast.UnaryOp):
            return not isinstance(e.op, ast.Not) and numeric(e.operand, names)
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, (ast.Add, ast.Mult, ast.Mod)):
                return numeric(e.left, names) and numeric(e.right, names)
            return numeric(e.left, names) or numeric(e.right, names)
        if isinstance(e, ast.IfExp):
            return numeric(e.body, names) and numeric(e.orelse, names)
        if isinstance(e, ast.Call):
            return isinstance(e.func, ast.Name) and e.func.id in NUMERIC
        if isinstance(e, ast.Attribute):
            return e.attr in props
        if isinstance(e, ast.Name):
            return e.id in names
        return False

    def locs(fn):
        """Local names that are only ever given numbers."""
        given = {}
        for n in own(fn):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            given.setdefault(x.id, []).append(
                                n.value if x is t else None)
        stores = {}
        for n in own(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                stores[n.id] = stores.get(n.id, 0) + 1
        out = set()
        while True:
            new = {k for k, vs in given.items() if vs and k not in out and
                   all(v is not None and numeric(v, out) for v in vs) and
                   stores.get(k) == len(vs)}
            if not new:
                return out
            out |= new
    fns = [(q, cls, fn) for q, cls, fn in functions(mod)]
    while True:
        new = set()
        for q, cls, fn in fns:
            if cls is None or not any(isinstance(d, ast.Name) and
                                      d.id == 'property'
                                      for d in fn.decorator_list):
                continue
            rets = [n.value for n in own(fn) if isinstance(n, ast.Return)]
            if fn.name not in props and rets and all(
                    r is not None and numeric(r, locs(fn)) for r in rets):
                new.add(fn.name)
        # a name that another class uses for something else says nothing
        for q, cls, fn in fns:
            if fn.name in new and not any(
                    isinstance(d, ast.Name) and d.id == 'property'
                    for d in fn.decorator_list):
                setter = any(isinstance(d, ast.Attribute)
                             for d in fn.decorator_list)
                if not setter:
                    new.discard(fn.name)
        if not new:
            break
        props |= new
    for q, cls, fn in fns:
        names = locs(fn)
        for n in own(fn):
            if not isinstance(n, ast.Compare):
                continue
            xs = [n.left] + n.comparators
            for op, a, b in zip(n.ops, xs, xs[1:]):
                ck.ok()
                if isinstance(op, (ast.Is, ast.IsNot)) and (
                        numeric(a, names) or numeric(b, names)) and not any(
                            isinstance(x, ast.Constant) and
                            type(x.value) not in (int, float)
                            for x in (a, b)):
                    ck.fail('%s: numbers are compared by identity in %s: '
                            '"%s"' % (line(mod, n, prog), q, ast.unparse(n)))
