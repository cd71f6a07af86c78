"""Loads the analysed package: modules, classes with their MRO, functions.

Everything is read from the current source under /repo (or $VERIF_REPO, used
only by the machinery's own regression runs); nothing is imported or run."""

import ast
import os

REPO = os.environ.get('VERIF_REPO', '/repo')


class AnchorMissing(Exception):
    """Something a rule is anchored to is not in the source any more."""


class Module:
    def __init__(self, name, path, src):
        self.name = name
        self.path = path
        self.src = src
        self.tree = ast.parse(src, path)
        self.is_pkg = os.path.basename(path) == '__init__.py'
        self.classes = {}
        self.funcs = {}
        self.imports = {}      # local name -> ('mod', dotted) | ('from', m, n)
        self.assigns = {}      # local name -> expr node
        self._scan(self.tree.body)

    def _scan(self, body):
        for n in body:
            if isinstance(n, ast.ClassDef):
                self.classes[n.name] = Cls(n.name, self, n)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[n.name] = n
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.imports[a.asname] = ('mod', a.name)
                    else:
                        self.imports[a.name.split('.')[0]] = \
                            ('mod', a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                base = self.resolve_rel(n.level, n.module)
                for a in n.names:
                    self.imports[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                if isinstance(n.target, ast.Name):
                    self.assigns[n.target.id] = n.value
            elif isinstance(n, ast.If):
                self._scan(n.body)
                self._scan(n.orelse)
            elif isinstance(n, ast.Try):
                self._scan(n.body)
                for h in n.handlers:
                    self._scan(h.body)
                self._scan(n.orelse)

    def resolve_rel(self, level, module):
        if not level:
            return module
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (level - 1)]
        return '.'.join(parts + ([module] if module else []))


class Cls:
    def __init__(self, name, mod, node):
        self.name = name
        self.mod = mod
        self.node = node
        self.qual = mod.name + '.' + name
        self.methods = {}
        self.props = {}        # name -> {'get': node, 'set': node}
        self.kinds = {}        # name -> 'static' | 'class'
        self.assigns = {}
        self._mro = None
        for n in node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                decos = [self._deco(d) for d in n.decorator_list]
                if 'property' in decos or 'cached_property' in decos:
                    self.props.setdefault(n.name, {})['get'] = n
                    continue
                setter = [d for d in n.decorator_list
                          if isinstance(d, ast.Attribute)
                          and d.attr == 'setter']
                if setter:
                    self.props.setdefault(n.name, {})['set'] = n
                    continue
                if 'staticmethod' in decos:
                    self.kinds[n.name] = 'static'
                elif 'classmethod' in decos:
                    self.kinds[n.name] = 'class'
                else:
                    self.kinds.pop(n.name, None)
                self.methods[n.name] = n
                self.assigns.pop(n.name, None)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = n.value
                        self.methods.pop(t.id, None)
            elif isinstance(n, ast.AnnAssign) and n.value is not None and \
                    isinstance(n.target, ast.Name):
                self.assigns[n.target.id] = n.value

    @staticmethod
    def _deco(d):
        if isinstance(d, ast.Call):
            d = d.func
        if isinstance(d, ast.Name):
            return d.id
        if isinstance(d, ast.Attribute):
            return d.attr
        return ''

    def abstract_names(self):
        out = set()
        for n in self.node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if any(self._deco(d).startswith('abstract')
                       for d in n.decorator_list):
                    out.add(n.name)
        return out

    def __repr__(self):
        return 'Cls(%s)' % self.qual


class Program:
    def __init__(self, root=None):
        self.root = root or REPO
        self.mods = {}
        self.files = []
        pkg = os.path.join(self.root, 'solver')
        if not os.path.isdir(pkg):
            raise AnchorMissing('package solver')
        for d, dirs, files in sorted(os.walk(pkg)):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for f in sorted(files):
                if not f.endswith('.py') or f.startswith('test_'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.root)
                name = rel[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
                with open(p, encoding='utf-8') as fh:
                    src = fh.read()
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    self.mods[name] = Module(name, p, src)
                self.files.append(rel)
        self.class_stores, self.global_stores = set(), set()
        for m in self.mods.values():
            self.shared_names(m)

    def shared_names(self, mod):
        """Attributes of classes and variables of modules that functions
        assign to."""
        for f in ast.walk(mod.tree):
            if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            for n in ast.walk(f):
                if isinstance(n, ast.Global):
                    self.global_stores |= {(mod.name, x) for x in n.names}
                if not isinstance(n, ast.Attribute) or isinstance(
                        n.ctx, ast.Load):
                    continue
                b = n.value
                if isinstance(b, ast.Name) and (b.id == 'cls' or (
                        self.lookup(mod, b.id) or ('',))[0] == 'class') or \
                        isinstance(b, ast.Attribute) and \
                        b.attr == '__class__' or \
                        isinstance(b, ast.Call) and \
                        isinstance(b.func, ast.Name) and b.func.id == 'type':
                    self.class_stores.add(n.attr)

    # ------------------------------------------------------------- lookups

    def lookup(self, mod, name, seen=()):
        """What a module-level name denotes: ('class', Cls), ('func', mod,
        node), ('mod', Module), ('expr', mod, node), ('ext', path) or None."""
        if name in mod.classes:
            return ('class', mod.classes[name])
        if name in mod.funcs:
            return ('func', mod, mod.funcs[name])
        if name in mod.assigns:
            return ('expr', mod, mod.assigns[name])
        imp = mod.imports.get(name)
        if imp is None:
            return None
        if imp[0] == 'mod':
            if imp[1] in self.mods:
                return ('mod', self.mods[imp[1]])
            return ('ext', imp[1])
        base, nm = imp[1], imp[2]
        if base in self.mods:
            if (base, nm) in seen:
                return None
            r = self.lookup(self.mods[base], nm, seen + ((base, nm),))
            if r is not None:
                return r
            if base + '.' + nm in self.mods:
                return ('mod', self.mods[base + '.' + nm])
            return None
        if base + '.' + nm in self.mods:
            return ('mod', self.mods[base + '.' + nm])
        return ('ext', base + '.' + nm)

    def bases(self, cls):
        out = []
        for b in cls.node.bases:
            r = None
            if isinstance(b, ast.Name):
                r = self.lookup(cls.mod, b.id)
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                m = self.lookup(cls.mod, b.value.id)
                if m and m[0] == 'mod':
                    r = self.lookup(m[1], b.attr)
            if r and r[0] == 'class':
                out.append(r[1])
        return out

    def mro(self, cls):
        if cls._mro is None:
            seqs = [list(self.mro(b)) for b in self.bases(cls)]
            seqs.append(list(self.bases(cls)))
            out = [cls]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    c = seqs[0][0]
                out.append(c)
                for s in seqs:
                    if s and s[0] is c:
                        del s[0]
            cls._mro = out
        return cls._mro

    def subclass(self, a, b):
        return b in self.mro(a)

    def find_class(self, name):
        """The class with this name, wherever it lives."""
        hits = [m.classes[name] for m in self.mods.values()
                if name in m.classes]
        if len(hits) != 1:
            raise AnchorMissing('class %s (%d definitions)'
                                % (name, len(hits)))
        return hits[0]

    def find_func(self, name):
        hits = [(m, m.funcs[name]) for m in self.mods.values()
                if name in m.funcs]
        if len(hits) != 1:
            raise AnchorMissing('function %s (%d definitions)'
                                % (name, len(hits)))
        return hits[0]

    def find_member(self, cls, name, after=None):
        """(owner, what, node) along the MRO; what in method/prop/assign."""
        mro = self.mro(cls)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else []
        for c in mro:
            if name in c.props:
                return c, 'prop', c.props[name]
            if name in c.methods:
                return c, 'method', c.methods[name]
            if name in c.assigns:
                return c, 'assign', c.assigns[name]
            if name == '__hash__' and '__eq__' in c.methods:
                # defining equality only makes a class unhashable
                return c, 'assign', ast.Constant(value=None)
        return None

    def need_method(self, cls, name):
        r = self.find_member(cls, name)
        if r is None:
            raise AnchorMissing('%s.%s' % (cls.qual, name))
        return r

    def all_functions(self):
        """Every function node with its qualified name."""
        for m in self.mods.values():
            def walk(body, pre, cls):
                for n in body:
                    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        yield m, cls, pre + n.name, n
                    elif isinstance(n, ast.ClassDef):
                        yield from walk(n.body, pre + n.name + '.',
                                        m.classes.get(n.name))
            yield from walk(m.tree.body, m.name + '.', None)
