"""Statements, expressions, calls and loop summaries of the abstract
interpreter."""

import ast
import builtins as _bi

from .logic import *          # noqa: F401,F403
from .num import Rat
from .content import Content, Entry, Forward, NESTED
from .engine import (Engine, State, Exit, Flow, Unsupported, Dead, UNBOUND,
                     _refs)

EXC = {n for n in dir(_bi) if isinstance(getattr(_bi, n), type) and
       issubclass(getattr(_bi, n), BaseException)}
BUILTINS = set(dir(_bi))

BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
          ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.BitOr: '|',
          ast.BitAnd: '&', ast.BitXor: '^', ast.MatMult: '@',
          ast.LShift: '<<', ast.RShift: '>>'}
DUNDER = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv',
          '//': 'floordiv', '%': 'mod', '**': 'pow', '|': 'or', '&': 'and',
          '^': 'xor', '@': 'matmul', '<<': 'lshift', '>>': 'rshift'}
CMPDUNDER = {'==': '__eq__', '!=': '__ne__', '<': '__lt__', '<=': '__le__',
             '>': '__gt__', '>=': '__ge__'}
REFLECT = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==',
           '!=': '!='}

LIST_M = set(dir(list)) | {'appendleft', 'popleft', 'extendleft'}
SET_M = set(dir(set))
DICT_M = set(dir(dict))
MAXDEPTH = 40


def own_stmts(body):
    """Statements of a function body excluding nested functions."""
    st = list(body)
    while st:
        n = st.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                                  ast.GeneratorExp)):
                st.append(c)


def is_gen(node):
    return isinstance(node, ast.FunctionDef) and any(
        isinstance(n, (ast.Yield, ast.YieldFrom))
        for n in own_stmts(node.body))


class Interp(Engine):

    # ============================================================ functions

    def call(self, f, args, kwargs, st, node):
        self.sites += 1
        if isinstance(f, IteV):
            return self.dist(f, st, lambda x, s: self.call(x, args, kwargs, s,
                                                           node))
        if isinstance(f, BoundV):
            if isinstance(f.fn, FuncV):
                return self.call_func(f.fn, [f.self_] + list(args), kwargs,
                                      st, node)
            return self.call(f.fn, [f.self_] + list(args), kwargs, st, node)
        if isinstance(f, FuncV):
            return self.call_func(f, list(args), kwargs, st, node)
        if isinstance(f, ClassV):
            return self.instantiate(f.cls, list(args), kwargs, st, node)
        if isinstance(f, ExtV):
            return self.builtin(f, list(args), kwargs, st, node)
        if isinstance(f, ObjV):
            m = self.prog.find_member(f.cls, '__call__')
            if m:
                return self.call(self.bind(f, m), args, kwargs, st, node)
            self.implicit('TypeError', st, node, True)
        if isinstance(f, (Sym, App, Opaque)):
            return self.external(f, args, kwargs, st, node)
        if isinstance(f, (Num, Const, BoolV, TupleV, Ref, StrV)):
            self.implicit('TypeError', st, node, True)
        raise Unsupported('call of %s' % show(f), node)

    def snap(self, v, st):
        """Immutable picture of an argument handed to unknown code."""
        if isinstance(v, Ref):
            return SnapV(self.content(v, st), 'arg')
        if isinstance(v, TupleV):
            return TupleV([self.snap(i, st) for i in v.items])
        return v

    def external(self, f, args, kwargs, st, node):
        """Call of unknown code: recorded as an event; result uninterpreted."""
        if isinstance(f, App) and f.op.startswith('attr:'):
            name, recv = f.op[5:], f.args[0]
        else:
            name, recv = '()', f
        sargs = [self.snap(a, st) for a in args]
        h = self.summaries.get('call:' + name)
        if h is not None:
            r = h(self, recv, args, kwargs, st, node)
            if r is not None:
                return r
        if kwargs:
            sargs += [TupleV((Const(k), self.snap(v, st)))
                      for k, v in sorted(kwargs.items())]
        self.event(st, 'call:' + name, [recv] + sargs, args, node)
        return App('call:' + name, [recv] + sargs)

    def event(self, st, name, vals, rawargs, node):
        if '!events' not in st.heap:
            st.heap['!events'] = Content('list')
        raw = TupleV([a if isinstance(a, Ref) else NONE for a in rawargs])
        self.write(Ref('!events'), st, Entry(
            'add', (), True, (TupleV([Const(name)] + list(vals)),), raw,
            node=node))

    def call_func(self, fv, args, kwargs, st, node):
        h = self.summaries.get(fv.qual)
        if h is not None:
            r = h(self, args, kwargs, st, node)
            if r is not None:
                return r
        n = fv.node
        if not isinstance(n, ast.Lambda) and n.decorator_list:
            how = self.decorated(fv)
            if how == 'memo':
                return self.remembered(fv, args, kwargs, st, node)
            if how == 'once':
                v = self.body_of(fv, args, kwargs, st, node)
                self.memoised = True
                if isinstance(args[0], ObjV):
                    st.fields[(args[0].oid, n.name)] = v
                return v
        return self.body_of(fv, args, kwargs, st, node)

    memoised = False
    PLAIN = ('property', 'staticmethod', 'classmethod', 'abc.abstractmethod',
             'abc.abstractproperty', 'abc.abstractclassmethod',
             'abc.abstractstaticmethod', 'functools.wraps',
             'typing.overload', 'typing.final', 'typing.override',
             'typing.no_type_check', 'typing_extensions.override')

    def decorated(self, fv):
        """What the decorators of a function change: None, 'memo' (results
        are remembered by argument), 'once' (per object)."""
        how = None
        for d in fv.node.decorator_list:
            if isinstance(d, ast.Call):
                d = d.func
            p = None
            if isinstance(d, ast.Name):
                r = self.prog.lookup(fv.mod, d.id)
                p = d.id if r is None else r[1] if r[0] == 'ext' else None
            elif isinstance(d, ast.Attribute):
                if d.attr in ('setter', 'getter', 'deleter'):
                    continue
                if isinstance(d.value, ast.Name):
                    r = self.prog.lookup(fv.mod, d.value.id)
                    if r is not None and r[0] == 'ext':
                        p = r[1] + '.' + d.attr
            if p in ('functools.lru_cache', 'functools.cache'):
                how = 'memo'
            elif p == 'functools.cached_property':
                how = 'once'
            elif p not in self.PLAIN:
                raise Unsupported('decorated function', fv.node)
        return how

    def remembered(self, fv, args, kwargs, st, node):
        self.memoised = True
        key = TupleV(list(args) + [TupleV((Const(k), kwargs[k]))
                                   for k in sorted(kwargs)])
        for a in key.items:
            if isinstance(a, Ref):
                C = self.coll(a, st)
                if C is None or not C.frozen:
                    self.implicit('TypeError', st, node, True)
            if any(isinstance(x, Num) and self.constint(x) is None
                   for x in (a,)):
                raise Unsupported('remembered results', node)
            self.must_hash(a, st, node)
        loc = '!memo:' + fv.qual
        if loc not in st.heap:
            raise Unsupported('remembered results', node)
        ref = Ref(loc)

        def known(s):
            return self.lookup(self.content(ref, s), (key,))

        def new(s):
            v = self.body_of(fv, args, kwargs, s, node)
            self.setitem(ref, key, v, s, node)
            return v
        return self.branch(self.mem(self.content(ref, st), (key,)), st,
                           known, new)

    def body_of(self, fv, args, kwargs, st, node):
        n = fv.node
        if self.callstack.count(fv.qual) >= 6 or \
                len(self.callstack) > MAXDEPTH:
            raise Unsupported('recursion in %s' % fv.qual, node)
        self.visited.add(fv.qual)
        env = self.bind_args(fv, n.args, args, kwargs, st, node)
        if env is None:
            self.implicit('TypeError', st, node, True)
        gen = is_gen(n)
        if gen and node is not None and node is self.dropped:
            return SnapV(Content('list'), 'iter')
        before = (dict(st.heap), dict(st.fields)) if gen else None
        self.fid += 1
        env['__fid__'] = self.fid
        env['__fn__'] = fv
        s = State(env, st.stack + (st.env,), st.heap, st.fields, st.pc)
        self.callstack.append(fv.qual)
        try:
            if isinstance(n, ast.Lambda):
                v = self.eval(n.body, s)
                st.heap, st.fields, st.pc = s.heap, s.fields, s.pc
                st.env = s.stack[-1]
                st.stack = s.stack[:-1]
                return v
            if gen:
                s.env['!gen'] = self.alloc(s, Content('list'), 'gen')
            fl = self.block(n.body, s)
        finally:
            self.callstack.pop()
        outs = [(e.st, e.val) for e in fl.exits if e.kind == 'return']
        if fl.next is not None:
            outs.append((fl.next, NONE))
        if not outs:
            raise Dead()
        m, v = self.merge_vals(outs)
        if gen:
            self.no_lazy_effects(before, m, node)
            v = SnapV(self.content(m.env['!gen'], m), 'iter')
        st.heap, st.fields, st.pc = m.heap, m.fields, m.pc
        st.env = m.stack[-1]
        st.stack = m.stack[:-1]
        return v

    def merge_vals(self, outs):
        """Join [(state, value)]; the value is carried in the environment."""
        for s, v in outs:
            s.env = dict(s.env)
            s.env['!v'] = v
        m = outs[0][0]
        for s, _ in outs[1:]:
            m = self.merge(m, s)
        v = m.env.pop('!v')
        return m, v

    def bind_args(self, fv, a, args, kwargs, st, node):
        """Parameter environment, or None if the call does not fit."""
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        pos = list(args)
        if len(pos) > len(names):
            if a.vararg is None:
                return None
        for nm, v in zip(names, pos):
            env[nm] = v
        if a.vararg is not None:
            env[a.vararg.arg] = TupleV(pos[len(names):])
        rest = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in names or k in kwonly:
                if k in env:
                    return None
                env[k] = v
            elif a.kwarg is not None:
                rest[k] = v
            else:
                return None
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.alloc(st, Content('dict', [
                Entry('add', (), True, (Const(k),), v)
                for k, v in rest.items()]), 'kw')
        defs = a.defaults
        for nm, d in zip(names[len(names) - len(defs):], defs):
            if nm not in env:
                env[nm] = self.default(fv, d, st)
        for nm, d in zip(kwonly, a.kw_defaults):
            if nm not in env and d is not None:
                env[nm] = self.default(fv, d, st)
        for nm in names + kwonly:
            if nm not in env:
                return None
        return env

    def default(self, fv, d, st):
        s = State({'__fn__': FuncV(fv.node, fv.mod, fv.env, fv.owner,
                                   fv.qual)}, (), st.heap, st.fields, ())
        k = None
        if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call, ast.ListComp,
                          ast.SetComp, ast.DictComp)):
            # evaluated once: every call gets the same object
            k = ('default', fv.qual, d.lineno, d.col_offset)
            v = self.globals.get(k)
            if isinstance(v, Ref) and v.loc in st.heap or \
                    isinstance(v, ObjV) and any(
                        o == v.oid for o, _ in st.fields):
                return v
        v = self.eval(d, s)
        st.heap, st.fields = s.heap, s.fields
        if k is not None and isinstance(v, (Ref, ObjV)):
            self.globals[k] = v
        return v

    def is_exception(self, cls):
        for c in self.prog.mro(cls):
            for b in c.node.bases:
                if isinstance(b, ast.Name) and b.id in EXC and \
                        self.prog.lookup(c.mod, b.id) is None:
                    return True
        return False

    def abstract_left(self, cls):
        mro = self.prog.mro(cls)
        left = set()
        for c in reversed(mro):
            ab = c.abstract_names()
            for n in list(left):
                if n in ab:
                    continue
                if n in c.methods or n in c.props or n in c.assigns:
                    left.discard(n)
            left |= ab
        if not left:
            return left
        meta = any(isinstance(k.value, (ast.Attribute, ast.Name)) and
                   (k.value.attr if isinstance(k.value, ast.Attribute)
                    else k.value.id) == 'ABCMeta'
                   for c in mro for k in c.node.keywords
                   if k.arg == 'metaclass')
        meta = meta or any(
            (isinstance(b, ast.Attribute) and b.attr == 'ABC') or
            (isinstance(b, ast.Name) and b.id == 'ABC')
            for c in mro for b in c.node.bases)
        return left if meta else set()

    def instantiate(self, cls, args, kwargs, st, node):
        if self.is_exception(cls):
            return ExcV(cls.name, node)
        h = self.summaries.get('new:' + cls.qual)
        if h is not None:
            r = h(self, args, kwargs, st, node)
            if r is not None:
                return r
        if self.abstract_left(cls):
            self.implicit('TypeError', st, node, True)
        for c in self.prog.mro(cls):
            if c.node.decorator_list or '__new__' in c.methods or \
                    '__getattribute__' in c.methods or '__getattr__' in \
                    c.methods or '__delattr__' in c.methods or any(
                        k.arg == 'metaclass' and getattr(
                            k.value, 'attr', getattr(k.value, 'id', '')) not
                        in ('ABCMeta', 'type') for k in c.node.keywords):
                raise Unsupported('class %s is made in a special way'
                                  % c.name, node)
        obj = ObjV(self.fresh(cls.name), cls)
        m = self.prog.find_member(cls, '__init__')
        if m is not None:
            self.call(self.bind(obj, m), args, kwargs, st, node)
        elif args or kwargs:
            self.implicit('TypeError', st, node, True)
        return obj

    def dist(self, v, st, fn):
        """Apply fn(value, state) to every alternative of a value."""
        if not isinstance(v, IteV):
            return fn(v, st)
        d = self.pcdecide(v.c, st)
        if d is not None:
            return self.dist(v.a if d else v.b, st, fn)
        return self.branch(v.c, st,
                           lambda s: self.dist(v.a, s, fn),
                           lambda s: self.dist(v.b, s, fn))

    def branch(self, c, st, f1, f2):
        """Value of a two-way expression; joins the states."""
        d = self.pcdecide(c, st)
        if d is True:
            return f1(st)
        if d is False:
            return f2(st)
        s1, s2 = st.fork(c), st.fork(Not(c))
        outs = []
        for s, f in ((s1, f1), (s2, f2)):
            try:
                v = f(s)
                outs.append((s, v))
            except Dead:
                pass
        if not outs:
            raise Dead()
        m, v = self.merge_vals(outs)
        st.become(m)
        return v

    # =========================================================== statements

    def block(self, stmts, st):
        exits = []
        for s in stmts:
            try:
                fl = self.stmt(s, st)
            except Dead:
                return Flow(None, exits)
            exits += fl.exits
            if fl.next is None:
                return Flow(None, exits)
            st = fl.next
        return Flow(st, exits)

    def stmt(self, n, st):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(n).__name__, n)
        r = m(n, st)
        return Flow(st) if r is None else r

    def s_Global(self, n, st):
        fn = st.env.get('__fn__')
        if fn is None or any(x in st.env for x in n.names):
            raise Unsupported('global', n)

    def set_name(self, name, v, st):
        fn = st.env.get('__fn__')
        if fn is not None and (fn.mod.name, name) in \
                self.prog.global_stores and name in self.globals_of(fn.node):
            self.memoised = True
            st.fields['!module:' + fn.mod.name, name] = v
            return
        st.env[name] = v

    def globals_of(self, node):
        if self.global_names is None:
            self.global_names = {}
        k = id(node)
        if k not in self.global_names:
            self.global_names[k] = {
                x for s in getattr(node, 'body', ()) if isinstance(
                    getattr(node, 'body', ()), list)
                for n in ast.walk(s) if isinstance(n, ast.Global)
                for x in n.names}
        return self.global_names[k]

    global_names = None

    def s_Pass(self, n, st):
        pass

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return
        prev, self.dropped = self.dropped, n.value
        try:
            self.eval(n.value, st)
        finally:
            self.dropped = prev

    def s_Import(self, n, st):
        for a in n.names:
            nm = a.asname or a.name.split('.')[0]
            st.env[nm] = ExtV(a.name if a.asname else a.name.split('.')[0])

    def s_ImportFrom(self, n, st):
        mod = st.env['__fn__'].mod
        base = mod.resolve_rel(n.level, n.module)
        for a in n.names:
            if base in self.prog.mods:
                r = self.prog.lookup(self.prog.mods[base], a.name)
                if r is None and base + '.' + a.name in self.prog.mods:
                    r = ('mod', self.prog.mods[base + '.' + a.name])
                if r is None:
                    self.implicit('ImportError', st, n, True)
                st.env[a.asname or a.name] = self.denote(r, a.name, st)
            else:
                st.env[a.asname or a.name] = ExtV(base + '.' + a.name)

    def s_FunctionDef(self, n, st):
        fn = st.env['__fn__']
        if n.decorator_list:
            raise Unsupported('decorated inner function', n)
        st.env[n.name] = FuncV(n, fn.mod, st.env, fn.owner,
                               fn.qual + '.<locals>.' + n.name)

    def s_Assign(self, n, st):
        v = self.eval(n.value, st)
        for t in n.targets:
            self.assign(t, v, st)

    def s_AnnAssign(self, n, st):
        if n.value is not None:
            self.assign(n.target, self.eval(n.value, st), st)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.set_name(t.id, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st, t)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.eval(t.value, st), t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            if isinstance(t.slice, ast.Slice):
                self.set_slice(o, t.slice, v, st, t)
            else:
                self.setitem(o, self.eval(t.slice, st), v, st, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        else:
            raise Unsupported('assignment target', t)

    def set_slice(self, o, sl, v, st, node):
        if isinstance(o, Ref) and sl.lower is None and sl.upper is None \
                and sl.step is None:
            C = self.content(o, st)
            if C.kind == 'list':
                self.replace(o, st, self.to_list(self.iter_content(
                    v, st, node)))
                return
        raise Unsupported('slice assignment', node)

    def unpack(self, elts, v, st, node):
        if isinstance(v, IteV):
            # decide componentwise
            parts = [None] * len(elts)
            la = self.unpack_vals(v.a, len(elts), st, node, elts)
            lb = self.unpack_vals(v.b, len(elts), st, node, elts)
            parts = [ite(v.c, x, y) for x, y in zip(la, lb)]
        else:
            parts = self.unpack_vals(v, len(elts), st, node, elts)
        for t, p in zip(elts, parts):
            self.assign(t, p, st)

    def unpack_vals(self, v, n, st, node, elts):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, IteV):
            la = self.unpack_vals(v.a, n, st, node, elts)
            lb = self.unpack_vals(v.b, n, st, node, elts)
            return [ite(v.c, x, y) for x, y in zip(la, lb)]
        xs = None
        if isinstance(v, TupleV):
            xs = list(v.items)
        else:
            C = self.coll(v, st)
            if C is not None:
                xs = C.exact()
                if xs is None and star == [n - 1] and C.kind == 'list':
                    # head, *tail = list
                    out = []
                    for i in range(n - 1):
                        out.append(self.list_index(C, i, st, node))
                    out.append(self.alloc(st, self.list_tail(
                        C, n - 1, st, node), 'tail'))
                    return out
                if xs is None and not star:
                    self.implicit('ValueError', st, node, Not(And(
                        self.count_ge(C, n), Not(self.count_ge(C, n + 1)))))
                    L = self.to_list(C)
                    return [self.list_index(L, i, st, node)
                            for i in range(n)]
        if xs is None:
            if isinstance(v, (Sym, App, Opaque)):
                if star:
                    raise Unsupported('starred unpacking', node)
                return [App('item', (v, self.num(i))) for i in range(n)]
            if isinstance(v, ObjV):
                it = self.iterobj(v, st, node)
                if it is not None:
                    return self.unpack_vals(it, n, st, node, elts)
            self.implicit('TypeError', st, node, True)
        if star:
            i = star[0]
            k = len(xs) - (n - 1)
            if k < 0:
                self.implicit('ValueError', st, node, True)
            mid = self.new_list(st, xs[i:i + k])
            return xs[:i] + [mid] + xs[i + k:]
        if len(xs) != n:
            self.implicit('ValueError', st, node, True)
        return xs

    def s_AugAssign(self, n, st):
        op = BINOPS.get(type(n.op))
        if isinstance(n.target, ast.Name):
            old = self.eval(n.target, st, load=True)
            v = self.augop(op, old, n.value, st, n)
            self.set_name(n.target.id, v, st)
        elif isinstance(n.target, ast.Attribute):
            o = self.eval(n.target.value, st)
            old = self.getattr_(o, n.target.attr, st, n)
            v = self.augop(op, old, n.value, st, n)
            self.setattr_(o, n.target.attr, v, st, n)
        else:
            o = self.eval(n.target.value, st)
            if isinstance(n.target.slice, ast.Slice):
                raise Unsupported('slice assignment', n)
            i = self.eval(n.target.slice, st)
            old = self.getitem(o, i, st, n)
            v = self.augop(op, old, n.value, st, n)
            if not (isinstance(v, Ref) and isinstance(old, Ref)):
                self.setitem(o, i, v, st, n)

    def augop(self, op, old, vn, st, n):
        v = self.eval(vn, st)
        if isinstance(old, IteV):
            return self.dist(old, st, lambda x, s: self.augval(op, x, v, s,
                                                               n))
        return self.augval(op, old, v, st, n)

    def augval(self, op, old, v, st, n):
        if isinstance(old, Ref):
            C = self.content(old, st)
            if C.kind == 'list' and op == '+':
                self.method(old, 'extend', [v], {}, st, n)
                return old
            if C.kind == 'set' and not C.frozen:
                nm = {'|': 'update', '&': 'intersection_update',
                      '-': 'difference_update',
                      '^': 'symmetric_difference_update'}.get(op)
                if nm:
                    self.method(old, nm, [v], {}, st, n)
                    return old
            if C.kind == 'dict' and op == '|':
                self.method(old, 'update', [v], {}, st, n)
                return old
        if isinstance(old, ObjV):
            m = self.prog.find_member(old.cls, '__i%s__' % DUNDER.get(op))
            if m:
                return self.call(self.bind(old, m), [v], {}, st, n)
        return self.binop(op, old, v, st, n)

    def s_Return(self, n, st):
        v = NONE if n.value is None else self.eval(n.value, st)
        return Flow(None, [Exit('return', v, st, n)])

    def s_Break(self, n, st):
        return Flow(None, [Exit('break', None, st, n)])

    def s_Continue(self, n, st):
        return Flow(None, [Exit('continue', None, st, n)])

    def s_If(self, n, st):
        c = self.truth(self.eval(n.test, st), st)
        d = self.pcdecide(c, st)
        if d is True:
            return self.block(n.body, st)
        if d is False:
            return self.block(n.orelse, st)
        s1, s2 = st.fork(c), st.fork(Not(c))
        f1 = self.block(n.body, s1)
        f2 = self.block(n.orelse, s2)
        return Flow(self.merge(f1.next, f2.next), f1.exits + f2.exits)

    def s_Assert(self, n, st):
        c = self.truth(self.eval(n.test, st), st)
        self.do_raise(ExcV('AssertionError', n), st, n, Not(c))

    def s_Raise(self, n, st):
        if n.exc is None:
            e = st.env.get('!exc', ExcV('Exception', n))
        else:
            e = self.eval(n.exc, st)
        if isinstance(e, ClassV):
            e = ExcV(e.cls.name, n)
        elif isinstance(e, ExtV):
            e = ExcV(e.path.split('.')[-1], n)
        elif not isinstance(e, ExcV):
            e = ExcV('Exception', n)
        self.do_raise(e, st, n, True)

    def s_Delete(self, n, st):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, st)
                if isinstance(t.slice, ast.Slice):
                    raise Unsupported('del slice', n)
                i = self.eval(t.slice, st)
                self.delitem(o, i, st, n)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, st)
                if not isinstance(o, ObjV) or self.sealed.get(o.oid):
                    raise Unsupported('del attribute', n)
                f = st.fields.get((o.oid, t.attr), UNBOUND)
                self.implicit('AttributeError', st, n, Or(
                    *[c for c, x in _leaves(f) if x is UNBOUND]))
                st.fields[(o.oid, t.attr)] = UNBOUND
            elif isinstance(t, ast.Tuple):
                self.s_Delete(ast.Delete(targets=t.elts), st)

    def s_Try(self, n, st):
        depth = len(st.stack)
        self.raise_stack.append([])
        try:
            fl = self.block(n.body, st.fork())
        finally:
            raised = self.raise_stack.pop()
        nxt = fl.next
        exits = list(fl.exits)
        if nxt is not None and n.orelse:
            f2 = self.block(n.orelse, nxt)
            nxt = f2.next
            exits += f2.exits
        for e in raised:
            h = self.handler(n.handlers, e.val, st)
            if h is None:
                self.raise_stack[-1].append(e)
                continue
            if h == '?':
                raise Unsupported('except clause', n)
            env = e.st.env if len(e.st.stack) == depth else \
                e.st.stack[depth]
            s = State(dict(env), st.stack, e.st.heap, e.st.fields, e.st.pc)
            s.env['!exc'] = e.val
            if h.name:
                s.env[h.name] = e.val
            f3 = self.block(h.body, s)
            nxt = self.merge(nxt, f3.next)
            exits += f3.exits
        if n.finalbody:
            outs = []
            for e in exits:
                f4 = self.block(n.finalbody, e.st)
                outs += f4.exits
                if f4.next is not None:
                    outs.append(Exit(e.kind, e.val, f4.next, e.node))
            exits = outs
            mine = self.raise_stack[-1]
            for i, e in enumerate(list(mine)):
                if e in raised:
                    f5 = self.block(n.finalbody, e.st)
                    if f5.next is not None:
                        e.st = f5.next
            if nxt is not None:
                f6 = self.block(n.finalbody, nxt)
                nxt = f6.next
                exits += f6.exits
        return Flow(nxt, exits)

    def handler(self, hs, exc, st):
        for h in hs:
            if h.type is None:
                return h
            ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            for t in ts:
                nm = t.id if isinstance(t, ast.Name) else \
                    t.attr if isinstance(t, ast.Attribute) else None
                if nm is None:
                    return '?'
                if self.exc_matches(exc.name, nm, st):
                    return h
        return None

    def exc_matches(self, name, handler, st):
        if name == handler or handler in ('Exception', 'BaseException'):
            return True
        a, b = getattr(_bi, name, None), getattr(_bi, handler, None)
        if isinstance(a, type) and isinstance(b, type):
            return issubclass(a, b)
        try:
            c = self.prog.find_class(name)
        except Exception:
            return False
        for k in self.prog.mro(c):
            if k.name == handler:
                return True
            for bn in k.node.bases:
                if isinstance(bn, ast.Name) and bn.id in EXC and \
                        isinstance(b, type) and \
                        issubclass(getattr(_bi, bn.id), b):
                    return True
        return False

    def s_With(self, n, st):
        raise Unsupported('with statement', n)

    def s_While(self, n, st):
        for h in self.whiles:
            r = h(self, n, st)
            if r is not None:
                return r
        if isinstance(n.test, ast.Constant) and not n.test.value:
            return self.block(n.orelse, st)
        r = self.while_index(n, st)
        if r is not None:
            return r
        raise Unsupported('while loop', n)

    def while_index(self, n, st):
        """`i = 0; while i < len(L): ...; i += 1` visits every element."""
        t = n.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and
                isinstance(t.ops[0], (ast.Lt, ast.NotEq)) and
                isinstance(t.left, ast.Name)):
            return None
        i = t.left.id
        if n.orelse or not n.body:
            return None
        last = n.body[-1]
        if not (isinstance(last, ast.AugAssign) and
                isinstance(last.op, ast.Add) and
                isinstance(last.target, ast.Name) and last.target.id == i and
                isinstance(last.value, ast.Constant) and
                last.value.value == 1):
            return None
        for s in n.body[:-1]:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and x.id == i and \
                        not isinstance(x.ctx, ast.Load):
                    return None
                if isinstance(x, ast.Continue):
                    return None
        start = st.env.get(i)
        if start is None:
            return None
        bound = self.eval(t.comparators[0], st.fork())
        rng = self.range_of([start, bound], st, n)
        if rng is None:
            return None
        fl = self.loop(ast.Name(id=i, ctx=ast.Store()), rng, n.body[:-1], [],
                       st, n)
        if fl.next is not None:
            fl.next.env[i] = bound
        return fl

    # ================================================================ loops

    def s_For(self, n, st):
        it = self.eval(n.iter, st)
        return self.loop(n.target, it, n.body, n.orelse, st, n)

    def loop(self, target, it, body, orelse, st, node):
        if isinstance(it, IteV):
            d = self.pcdecide(it.c, st)
            if d is not None:
                return self.loop(target, it.a if d else it.b, body, orelse,
                                 st, node)
            f1 = self.loop(target, it.a, body, orelse, st.fork(it.c), node)
            f2 = self.loop(target, it.b, body, orelse, st.fork(Not(it.c)),
                           node)
            return Flow(self.merge(f1.next, f2.next), f1.exits + f2.exits)
        C = self.iter_content(it, st, node)
        live = None
        if isinstance(it, Ref):
            live = self.resolve(it, st).loc
        elif isinstance(it, ViewV):
            live = self.resolve(it.ref, st).loc
        cur, exits, brk = st, [], []
        for seg in self.segments(C):
            if cur is None:
                break
            if seg[0] == 'item':
                cur, ex, br = self.item_iter(seg, target, body, cur)
            else:
                cur, ex, br = self.bulk_iter(seg, target, body, cur, node,
                                             live)
            exits += ex
            brk += br
        if cur is not None and orelse:
            fl = self.block(orelse, cur)
            cur = fl.next
            exits += fl.exits
        for s in brk:
            cur = self.merge(cur, s)
        return Flow(cur, exits)

    def segments(self, C):
        if C.lost:
            raise Unsupported('iteration over unknown contents (%s)' % C.lost)
        if all(e.op == 'add' and len(e.key) == 1 for e in C.log) and (
                C.kind == 'list' or self.simple_log(C)):
            out = []
            log = C.log
            if C.kind != 'list':
                log = self.keys_content(C, 'set').log
            for e in log:
                e = self.rename(e)
                if e.g is False:
                    continue
                if not e.B:
                    out.append(('item', e.g, e.key[0]))
                else:
                    out.append(('bulk', e.B, e.g, e.key[0], e.setlike))
            return out
        b = self.bsym('e')
        f = self.mem(C, (b,))
        if f is False:
            return []
        vals = self._enumerated(b, f)
        if vals is not None and len(vals) <= 6 and C.kind != 'list':
            # an enumerated set: visit each alternative, skipping repeats
            out, seen = [], []
            for v, g in vals:
                g2 = And(g, *[Not(And(h, self.eq(v, w))) for w, h in seen])
                out.append(('item', g2, v))
                seen.append((v, g))
            return out
        return [('bulk', (b,), f, b, True)]

    def item_iter(self, seg, target, body, st):
        _, g, v = seg
        d = self.pcdecide(g, st)
        if d is False:
            return st, [], []
        skip = None
        if d is None:
            skip = st.fork(Not(g))
            st = st.fork(g)
        try:
            self.assign(target, v, st)
        except Dead:
            return skip, [], []
        fl = self.block(body, st)
        nxt = fl.next
        exits, brk = [], []
        for e in fl.exits:
            if e.kind == 'continue':
                nxt = self.merge(nxt, e.st)
            elif e.kind == 'break':
                brk.append(e.st)
            else:
                exits.append(e)
        nxt = self.merge(nxt, skip)
        return nxt, exits, brk

    def run_body(self, st0, g, target, v, body, depth):
        """One generic iteration; returns (end state, exits, raised)."""
        s = st0.fork(g)
        self.raise_stack.append([])
        try:
            try:
                self.assign(target, v, s)
                fl = self.block(body, s)
            except Dead:
                fl = Flow(None)
        finally:
            raised = self.raise_stack.pop()
        nxt = fl.next
        exits = []
        for e in fl.exits:
            if e.kind == 'continue':
                nxt = self.merge(nxt, e.st)
            else:
                exits.append(e)
        return nxt, exits, raised

    def frame_env(self, s, depth):
        return s.env if len(s.stack) == depth else s.stack[depth]

    def bulk_iter(self, seg, target, body, st, node, live=None):
        _, B, g, v, setlike = seg
        if self.pcdecide(self.exists(B, g), st) is False:
            return st, [], []
        depth = len(st.stack)
        outer_r, outer_w = self.reads, self.writes
        written, names, fields = set(), set(), set()
        reads = set()
        arity = {}
        base = st
        cur = {}
        for attempt in range(6):
            self.reads, self.writes = set(), set()
            self.fwrites = set()
            saved = self.snap_serial()
            try:
                end, exits, raised = self.run_body(base, g, target, v, body,
                                                   depth)
            finally:
                r, w = self.reads, self.writes
                self.reads, self.writes = outer_r, outer_w
                if self.reads is not None:
                    self.reads |= r
                if self.writes is not None:
                    self.writes |= w
            reads |= r
            w = {x for x in w if x in st.heap}
            if live is not None and live in w:
                raise Unsupported('collection changes while iterated', node)
            nn, ff = set(), set()
            nested = False
            for s in [end] + [e.st for e in exits] + \
                    [e.st for e in raised]:
                for loc in w if s is not None else ():
                    if isinstance(s.heap.get(loc), Content):
                        arity.setdefault(loc, set()).update(
                            len(e.key) for e in s.heap[loc].log)
            for s in [end] + [e.st for e in exits] + \
                    [e.st for e in raised]:
                if s is None:
                    continue
                for loc in w:
                    c0, c1 = st.heap[loc], s.heap.get(loc)
                    if isinstance(c1, Content) and c1.sub and isinstance(
                            c0, Content) and not c0.sub and not c0.log:
                        st.heap[loc] = c0.but(sub=c1.sub)
                        nested = True
                env = self.frame_env(s, depth)
                for k, x in base.env.items():
                    if k.startswith('__'):
                        continue
                    y = env.get(k)
                    if y is not x and (y is None or y.key() != x.key()):
                        if s is end:
                            nn.add(k)
                for k, x in base.fields.items():
                    y = s.fields.get(k)
                    if y is not None and y.key() != x.key():
                        ff.add(k)
            # writes on the way out are not seen by other iterations
            w = {x for x in w if end is not None and
                 end.heap.get(x) is not base.heap.get(x)}
            newly = (w - written) or (nn - names) or (ff - fields) or nested
            need = (w & reads) or nn or ff
            written |= w
            names |= nn
            fields |= ff
            if not need:
                break
            if not newly and attempt:
                break
            base, cur = self.abstract_cur(st, written, names, fields, target,
                                          arity)
        else:
            raise Unsupported('loop does not stabilise', node)
        return self.summarise(st, base, cur, B, g, setlike, end, exits,
                              raised, written, names, fields, depth, node)

    def snap_serial(self):
        return None

    def abstract_cur(self, st, written, names, fields, target, arity):
        base = st.fork()
        base.pc = st.pc
        cur = {'loc': {}, 'name': {}, 'field': {}}
        for loc in written:
            if loc == '!events':
                continue
            C = st.heap[loc]
            nm = self.fresh('cur:' + loc)
            cur['loc'][nm] = loc
            log = []
            b = self.bsym('c')
            ks = arity.get(loc, {1}) - {0}
            if not C.sub and ks != {1}:
                for k in sorted(ks):
                    b = tuple(self.bsym('c') for _ in range(k))
                    log.append(Entry(
                        'add', b, self.rel('%s/%d' % (nm, k), *b), b,
                        App('%s/val%d' % (nm, k), b)
                        if C.kind == 'dict' else None))
            elif C.sub:
                log.append(Entry('add', (b,), self.rel(nm + '/1', b), (b,),
                                 NESTED))
                b, c = self.bsym('c'), self.bsym('d')
                log.append(Entry('add', (b, c), self.rel(nm + '/2', b, c),
                                 (b, c), App(nm + '/val2', (b, c))))
            else:
                log.append(Entry('add', (b,), self.rel(nm + '/1', b), (b,),
                                 App(nm + '/val1', (b,))
                                 if C.kind == 'dict' else None,
                                 setlike=C.kind != 'list'))
            base.heap[loc] = Content(C.kind, log, C.sub, C.frozen,
                                     C.distinct)
        tn = {x.id for x in ast.walk(target) if isinstance(x, ast.Name)}
        for n in names:
            if n in tn:
                base.env[n] = Opaque('stale:' + n)
                continue
            x = st.env[n]
            s = Sym(self.fresh('cur:' + n))
            cur['name'][n] = s
            base.env[n] = self.cur_value(x, s)
        for k in fields:
            x = st.fields[k]
            s = Sym(self.fresh('cur:' + k[1]))
            cur['field'][k] = s
            base.fields[k] = self.cur_value(x, s)
        return base, cur

    def cur_value(self, x, s):
        if isinstance(x, BoolV):
            return BoolV(atom('truth', s))
        if isinstance(x, (Ref, ObjV, SnapV, ViewV)):
            return Opaque('carried', (s,))
        return s

    def summarise(self, st, base, cur, B, g, setlike, end, exits, raised,
                  written, names, fields, depth, node):
        n0 = len(st.pc)
        locs = cur.get('loc', {}) if cur else {}
        syms = {}
        if cur:
            for d in (cur['name'], cur['field']):
                for k, s in d.items():
                    syms[s.key()] = k
        # effects of the normal iteration, per written location
        eff = {}
        if end is not None:
            for loc in written:
                b0, b1 = base.heap[loc], end.heap[loc]
                if b1 is b0:
                    continue
                if isinstance(b1, Forward) or isinstance(b0, Forward):
                    raise Unsupported('container moved in a loop', node)
                if b1.lost:
                    raise Unsupported('container lost in a loop', node)
                if b1.log[:len(b0.log)] != b0.log:
                    if not b0.log and b1.log:
                        pass
                    elif b1.log != b0.log:
                        raise Unsupported('container rewritten in a loop',
                                          node)
                eff[loc] = list(b1.log[len(b0.log):])
        allexits = [e for e in exits] + [e for e in raised]
        # all writes, also those on the way out: relevant for dependence only
        # as earlier iterations are complete ones
        res = _Resolver(self, st, B, g, setlike, locs, eff, syms)
        # ---- resolve
        new_eff = {}
        for loc, es in eff.items():
            new_eff[loc] = [res.entry(loc, e) for e in es]
        heap = dict(st.heap)
        if end is not None:
            for k, c in end.heap.items():
                if k not in st.heap:
                    heap[k] = c
        lifted = {}
        B = tuple(B)
        for loc, es in new_eff.items():
            out = []
            for e in es:
                for x in e.key + ((e.val,) if e.val is not None else ()):
                    if end is not None:
                        self.freeze(x, end)
                out.append(e.but(B=B + e.B, g=And(g, e.g),
                                 setlike=e.setlike and setlike))
            lifted[loc] = out
        # ---- exits
        conds = []
        for e in allexits:
            c = res.f(And(*e.st.pc[n0:]))
            if c is False:
                conds.append(False)
                continue
            if not self.sat(And(*self.pcslice(st.pc, c)), c):
                c = False
            conds.append(c)
        allexits = [(e, c) for e, c in zip(allexits, conds)
                    if c is not False]
        clean = not any(eff.values()) and not (
            set(names) - self.target_only(base, names)) and not fields
        EX = self.exists(B, Or(*[c for _, c in allexits])) \
            if allexits else False
        outs_exits, outs_brk = [], []
        if EX is not False:
            sk = {}
            for b in B:
                sk[b.key()] = Sym(self.fresh('first'), 'any')
            for e, c in allexits:
                s = self.exit_state(st, base, e, c, EX, B, sk, res, lifted,
                                    clean, depth, len(allexits) == 1, node)
                val = e.val
                if val is not None and not isinstance(val, ExcV):
                    self.freeze(val, e.st)
                    val = res.v(val)
                    val = self.subst(val, sk)
                ne = Exit(e.kind, val, s, e.node, e.implicit)
                if e.kind == 'raise':
                    self.raise_stack[-1].append(ne)
                elif e.kind == 'break':
                    outs_brk.append(s)
                else:
                    outs_exits.append(ne)
        if EX is True or self.pcdecide(EX, st) is True:
            return None, outs_exits, outs_brk
        # ---- state after the last iteration
        if end is None:
            # every iteration leaves the loop
            nxt = st.fork(Not(self.exists(B, g)))
            return nxt, outs_exits, outs_brk
        nxt = st.fork(Not(EX))
        nxt.heap = heap
        for loc, es in lifted.items():
            C = st.heap[loc]
            nxt.heap[loc] = self.append_log(C, es, setlike)
        env = self.frame_env(end, depth)
        some = self.exists(B, g)
        bk = {b.key() for b in B}
        for k, x in env.items():
            if k.startswith('__') or (isinstance(x, Val) and x is
                                      base.env.get(k)):
                continue
            if k in st.env and k not in names:
                continue
            if k not in st.env:
                nxt.env[k] = self.last_value(k, x, bk, res)
                continue
            nxt.env[k] = self.carried(k, st.env[k], x,
                                      cur['name'].get(k) if cur else None,
                                      B, g, some, res, bk, setlike, nxt)
        for k in fields:
            nxt.fields[k] = self.carried(k[1], st.fields[k], end.fields[k],
                                         cur['field'].get(k), B, g, some,
                                         res, bk, setlike, nxt)
        for k, x in end.fields.items():
            if k not in st.fields:
                nxt.fields[k] = x
        return nxt, outs_exits, outs_brk

    def target_only(self, base, names):
        return {n for n in names if isinstance(base.env.get(n), Opaque)}

    def append_log(self, C, es, setlike):
        d = C.distinct
        if C.kind == 'list':
            d = not C.log and len(es) == 1 and es[0].op == 'add' and \
                es[0].setlike and self.injective(es[0])
        return C.but(log=C.log + tuple(es), distinct=d)

    def last_value(self, k, x, bk, res):
        if not isinstance(x, Val):
            return Opaque('after-loop:' + k)
        return Opaque('after-loop:' + k)

    def carried(self, k, init, x, cs, B, g, some, res, bk, setlike,
                nxt):
        """Value after the loop of a variable updated by every iteration."""
        if cs is None:
            # the variable is overwritten by the loop target
            return Opaque('after-loop:' + str(k))
        x = res.v(x)
        ck = cs.key()

        def pure(y):
            ks = syms_in(y)
            return ck not in ks and not any(s in res.syms for s in ks) and \
                not has_opaque(y)

        if isinstance(init, BoolV):
            f = False
            for c, y in _leaves(x):
                if isinstance(y, BoolV):
                    f = Or(f, And(c, y.f))
                elif y.key() == ck:
                    f = Or(f, And(c, atom('truth', cs)))
                else:
                    f = None
                    break
            if f is not None:
                a = atom('truth', cs)
                t = fassign(f, {a.key: True})
                u = fassign(f, {a.key: False})
                if not self._mentions(t, res, ck) and \
                        not self._mentions(u, res, ck):
                    if t is not True and not self.sat(g, Not(t)):
                        t = True
                    elif u is not False and not self.sat(g, u):
                        u = False
                    if u is False:
                        return BoolV(And(init.f, Not(self.exists(
                            B, And(g, Not(t))))))
                    if t is True:
                        return BoolV(Or(init.f, self.exists(
                            B, And(g, u))))
                    if self.equivalent(t, u):
                        if bk & set(syms_in(t)):
                            t = self.subst(t, self.last(B, g, nxt))
                        return BoolV(Or(And(some, t),
                                        And(Not(some), init.f)))
            return Opaque('carried:' + str(k))
        # unconditional
        if pure(x):
            if bk & set(syms_in(x)):
                x = self.subst(x, self.last(B, g, nxt))
            return ite(some, x, init)
        leaves = _leaves(x)
        keep = [c for c, y in leaves if y.key() == ck]
        other = [(c, y) for c, y in leaves if y.key() != ck]
        if keep and all(pure(y) for _, y in other) and not any(
                self._mentions(c, res, ck) for c, _ in other):
            keys = {y.key() for _, y in other}
            c = Or(*[c for c, _ in other])
            if len(keys) == 1 and not (bk & set(syms_in(other[0][1]))):
                return ite(self.exists(B, And(g, c)), other[0][1], init)
            # the last element satisfying the test: any of them
            sk = self.last(B, And(g, c), nxt)
            v = None
            for c2, y in reversed(other):
                y = self.subst(y, sk)
                v = y if v is None else ite(self.subst(c2, sk), y, v)
            return ite(self.exists(B, And(g, c)), v, init)
        # accumulation
        n0, n1 = self.tonum(init), self.tonum(x) if not isinstance(
            x, (IteV, Opaque)) else None
        if n0 is not None and n1 is not None:
            d = n1.r - self.tonum(cs).r
            dn = self.num(d)
            if ck not in syms_in(dn) and not any(
                    s in res.syms for s in syms_in(dn)):
                return self.num(n0.r + self.sum_term(B, g, dn, setlike).r)
        if isinstance(x, IteV) and n0 is not None:
            # conditional accumulation
            if len(leaves) == 2 and keep:
                c, y = other[0]
                ny = self.tonum(y) if not isinstance(y, Opaque) else None
                if ny is not None and not self._mentions(c, res, ck):
                    dn = self.num(ny.r - self.tonum(cs).r)
                    if ck not in syms_in(dn):
                        return self.num(n0.r + self.sum_term(
                            B, And(g, c), dn, setlike).r)
        return Opaque('carried:' + str(k))

    def last(self, B, g, nxt):
        """Replacement of the binders by the last element satisfying g; it
        depends on nothing but the order of the collection."""
        m = {b: Sym('$l%d' % i) for i, b in enumerate(B)}
        k = fkey(self.canon(self.subst(g, m)))
        sk = {b.key(): Sym('last%d:%d' % (i, k), 'any')
              for i, b in enumerate(B)}
        nxt.pc = nxt.pc + (Implies(self.exists(B, g), self.subst(g, sk)),)
        return sk

    def _mentions(self, f, res, ck):
        ks = syms_in(f)
        return ck in ks or any(s in res.syms for s in ks)

    def sum_term(self, B, g, term, setlike):
        """Canonical number for the sum of `term` over {B : g}."""
        m = {}
        names = []
        for i, b in enumerate(B):
            s = Sym('$s%d' % i)
            m[b] = s
            names.append(s)
        f = self.canon(self.subst(g, m))
        t = self.subst(term, m)
        if isinstance(t, Num) and t.r.as_const() == 1 and setlike and \
                len(B) == 1:
            C = Content('set', [Entry('add', (names[0],), f, (names[0],))],
                        distinct=True)
            n = self.length(C)
            return n.num if isinstance(n, LenV) else n
        reg = self.serial.setdefault('sums', [])
        for (f2, t2, sl2, nm) in reg:
            if sl2 == setlike and t2.key() == t.key() and \
                    (fkey(f2) == fkey(f) or (
                        set(syms_in(f2)) == set(syms_in(f)) and
                        self.equivalent(f2, f))):
                return self.num(Rat.sym(self.ctx, nm, 'sum', None))
        nm = 'sum{%s | %s}' % (show(t), fshow(f))
        reg.append((f, t, setlike, nm))
        return self.num(Rat.sym(self.ctx, nm, 'sum', None))

    def exit_state(self, st, base, e, c, EX, B, sk, res, lifted, clean,
                   depth, single, node):
        """State at an early exit of the loop, in iteration `sk`."""
        pc = st.pc + ((EX,) if EX is not True else ())
        if e.kind != 'raise':
            env0 = e.st.env
            stack = e.st.stack
        else:
            env0, stack = e.st.env, e.st.stack
        csk = self.subst(c, sk)
        s = State(dict(env0), stack, dict(st.heap), dict(st.fields),
                  pc + (() if csk is True else (csk,)))
        # the loop frame's environment
        def fix_env(env):
            out = {}
            for k, x in env.items():
                if isinstance(x, Val) and not k.startswith('__'):
                    if k in base.env and x is base.env[k] and k in st.env:
                        y = st.env[k]
                        if y is not x and not clean:
                            y = Opaque('prefix:' + k)
                        out[k] = y
                        continue
                    self.freeze(x, e.st)
                    y = res.v(x)
                    if any(z in res.syms for z in syms_in(y)):
                        y = Opaque('prefix:' + k)
                    out[k] = self.subst(y, sk)
                else:
                    out[k] = x
            return out
        if len(stack) == depth:
            s.env = fix_env(s.env)
        else:
            s.stack = stack[:depth] + tuple(
                fix_env(x) for x in stack[depth:])
            s.env = fix_env(s.env)
        for loc, C1 in e.st.heap.items():
            if loc not in st.heap:
                if isinstance(C1, Forward):
                    s.heap[loc] = C1
                else:
                    s.heap[loc] = self.content_subst(
                        C1, Sub(self, sk))
                continue
            C0 = base.heap[loc]
            if C1 is C0 and loc not in lifted:
                continue
            log = list(st.heap[loc].log)
            if lifted.get(loc):
                bef = atom('opq', Opaque('before', tuple(B)))
                for x in lifted[loc]:
                    log.append(x.but(g=And(x.g, bef)))
            if isinstance(C1, Forward):
                raise Unsupported('container moved in a loop', node)
            if C1.log[:len(C0.log)] != C0.log:
                raise Unsupported('container rewritten in a loop', node)
            for x in C1.log[len(C0.log):]:
                x = res.entry(loc, x)
                log.append(x.but(
                    g=self.subst(x.g, sk),
                    key=tuple(self.subst(k, sk) for k in x.key),
                    val=None if x.val is None else self.subst(x.val, sk)))
            s.heap[loc] = st.heap[loc].but(log=log)
        for k, x in e.st.fields.items():
            if k in st.fields:
                if x is base.fields.get(k):
                    if st.fields[k] is not x:
                        s.fields[k] = Opaque('prefix:' + k[1])
                    continue
            y = res.v(x)
            s.fields[k] = self.subst(y, sk)
        return s


class _Resolver:
    """Eliminates the 'value so far' atoms of a generic iteration."""

    def __init__(self, eng, st, B, g, setlike, locs, eff, syms):
        self.eng, self.st = eng, st
        self.B, self.g, self.setlike = B, g, setlike
        self.locs, self.eff, self.syms = locs, eff, syms
        self.indep = {}
        self.sub = Sub(eng, {}, self.atomfn, self.appfn) if locs else None

    def f(self, f):
        return f if self.sub is None else self.sub.f(f)

    def v(self, v):
        return v if self.sub is None or not isinstance(v, Val) \
            else self.sub.v(v)

    def split(self, name):
        base, _, ar = name.rpartition('/')
        return self.locs.get(base), ar

    def atomfn(self, a, sub):
        if a.kind != 'rel' or not a.args[0].startswith('cur:'):
            return None
        loc, ar = self.split(a.args[0])
        if loc is None:
            return None
        q = tuple(sub.v(x) for x in a.args[1:])
        if self.independent(loc, q):
            return self.eng.mem(self.st.heap[loc], q)
        ops = {e.op for e in self.eff.get(loc) or ()}
        o = atom('opq', Opaque('sofar:' + loc, q))
        if ops <= {'add', 'setd'}:
            return Or(self.eng.mem(self.st.heap[loc], q),
                      And(o, self.other(loc, q)))
        if ops <= {'rem'}:
            return And(self.eng.mem(self.st.heap[loc], q),
                       Not(And(o, self.other(loc, q))))
        return o

    def other(self, loc, q):
        """Another iteration writes this key."""
        eng = self.eng
        m = {b: eng.bsym('other') for b in self.B}
        out = []
        for e in self.eff[loc]:
            e = eng.rename(e)
            if len(e.key) != len(q) or not self.settled(
                    e.g, *e.key):
                if len(e.key) != len(q):
                    continue
                return True
            bs = tuple(m.values()) + e.B
            out.append(eng.exists(bs, And(
                eng.subst(self.g, m), eng.subst(e.g, m), *[
                    eng.eq(eng.subst(a, m), b) for a, b in zip(e.key, q)])))
        return Or(*out)

    def settled(self, *xs):
        for x in xs:
            for a in (atoms_of(x).values() if not isinstance(x, Val) else ()):
                if a.kind == 'rel' and a.args[0].startswith('cur:'):
                    return False
            if isinstance(x, Val) and any(
                    isinstance(k, tuple) and len(k) > 1 and
                    isinstance(k[1], str) and k[1].startswith('cur:')
                    for k in syms_in(x)):
                return False
        return True

    def appfn(self, v, sub):
        if not v.op.startswith('cur:'):
            return None
        loc, ar = self.split(v.op)
        if loc is None:
            return None
        q = tuple(sub.v(x) for x in v.args)
        if self.independent(loc, q):
            return self.eng.lookup(self.st.heap[loc], q)
        return Opaque('sofar:' + loc, q)

    def independent(self, loc, q):
        """No earlier iteration writes this key."""
        es = self.eff.get(loc) or []
        if not es:
            return True
        k = (loc,) + tuple(x.key() for x in q)
        if k not in self.indep:
            self.indep[k] = self._independent(es, q)
        return self.indep[k]

    def _independent(self, es, q):
        eng = self.eng
        m = {b: eng.bsym('other') for b in self.B}
        same = And(*[eng.eq(b, n) for b, n in m.items()])
        g2 = eng.subst(self.g, m)
        for e in es:
            e2 = eng.rename(e)
            keys = [eng.subst(k, m) for k in e2.key]
            if len(keys) > len(q):
                continue        # only below the container that is asked for
            n = len(keys)
            f = And(self.g, g2, Not(same), eng.subst(e2.g, m),
                    *[eng.eq(a, b) for a, b in zip(keys[:n], q[:n])])
            pc = And(*eng.pcslice(self.st.pc, f))
            if eng.sat(f, pc):
                return False
        return True

    def entry(self, loc, e):
        """Resolve the guard, key and value of one update."""
        if self.sub is None:
            return e
        eng = self.eng
        key = tuple(self.v(k) for k in e.key)
        g = e.g
        op = e.op
        conj = list(g[1]) if isinstance(g, tuple) and g[0] == '&' else [g]
        out = []
        val = e.val
        for c in conj:
            neg = isinstance(c, tuple) and c[0] == 'n'
            a = c[1] if neg else c
            if isinstance(a, Atom) and a.kind == 'rel' and \
                    a.args[0].startswith('cur:') and \
                    self.split(a.args[0])[0] == loc and \
                    len(a.args) - 1 == len(e.key) and \
                    all(eng.eq(x, y) is True
                        for x, y in zip(a.args[1:], e.key)):
                if neg and op == 'add' and \
                        not self.independent(loc, key):
                    if e.val is not None:
                        op = 'setd'
                    continue
                if not neg and op == 'rem':
                    continue
            out.append(self.f(c))
        return e.but(op=op, g=And(*out), key=key,
                     val=None if val is None else self.v(val))


def _leaves(v, c=True):
    if isinstance(v, IteV):
        return _leaves(v.a, And(c, v.c)) + _leaves(v.b, And(c, Not(v.c)))
    return [(c, v)]
