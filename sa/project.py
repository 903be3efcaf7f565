"""Loads the packages under analysis and resolves names, classes, functions, decorators and annotations."""
from __future__ import annotations

import ast
import os


class Broken(Exception):
    """The analysis cannot give an answer (e.g. an anchor is gone): an error of the check, not a verdict."""


class FuncInfo:
    def __init__(self, qual, module, node, cls=None):
        self.qual, self.module, self.node, self.cls = qual, module, node, cls
        self.name = node.name if not isinstance(node, ast.Lambda) else '<lambda>'
        self.decorators = []
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(node))

    def deco(self, *names):
        return any(d.split('.')[-1] in names for d in self.decorators)

    @property
    def is_static(self): return self.deco('staticmethod')
    @property
    def is_classmethod(self): return self.deco('classmethod')
    @property
    def is_property(self): return self.deco('property', 'cached_property', 'cache_readonly')
    @property
    def is_njit(self): return self.deco('njit', 'jit', 'vectorize', 'guvectorize')
    @property
    def is_ctx(self): return self.deco('contextmanager')
    @property
    def is_abstract(self): return self.deco('abstractmethod')

    def njit_kwargs(self):
        for d in self.node.decorator_list:
            if isinstance(d, ast.Call):
                n = d.func.attr if isinstance(d.func, ast.Attribute) else getattr(d.func, 'id', '')
                if n in ('njit', 'jit'):
                    return {k.arg: k.value.value for k in d.keywords if isinstance(k.value, ast.Constant)}
        return {}

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    @property
    def loc(self):
        return f'{self.module.relpath}:{self.node.lineno}'

    def __repr__(self):
        return f'<{self.qual}>'


def own_nodes(fn):
    """Nodes of a function excluding nested functions/classes."""
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class ClassInfo:
    def __init__(self, qual, module, node, outer=None):
        self.qual, self.module, self.node, self.outer = qual, module, node, outer
        self.name = node.name
        self.bases = []          # qualified names
        self.methods, self.props, self.setters, self.attrs, self.nested = {}, {}, {}, {}, {}
        self.annots = {}         # attribute -> annotation AST
        self.decorators = []

    @property
    def is_attrs(self):
        return any(d in ('attr.s', 'attr.attrs', 'attr.define', 'attrs.define', 'dataclasses.dataclass', 'attr.dataclass')
                   for d in self.decorators)

    def __repr__(self):
        return f'<class {self.qual}>'


class Module:
    def __init__(self, name, path, relpath, tree, is_pkg):
        self.name, self.path, self.relpath, self.tree, self.is_pkg = name, path, relpath, tree, is_pkg
        self.names = {}      # local name -> dotted target
        self.consts = {}     # name -> expr
        self.augs = {}


class Project:
    def __init__(self, root='/repo', packages=('cheval',), exclude=('_version.py',)):
        self.root = root
        self.modules, self.classes, self.functions = {}, {}, {}
        for pkg in packages:
            base = os.path.join(root, pkg)
            if not os.path.isdir(base):
                raise Broken(f'package {pkg} not found under {root}')
            for d, dirs, files in os.walk(base):
                dirs[:] = sorted(x for x in dirs if not x.startswith(('.', '__')))
                for f in sorted(files):
                    if f.endswith('.py') and f not in exclude:
                        self._load(os.path.join(d, f))
        for m in self.modules.values():
            self._collect(m)
        self._subclasses = {}
        for c in self.classes.values():
            c.bases = [self.resolve_expr(c.module, b, c) or ast.dump(b) for b in c.node.bases]
            c.decorators = [self.deco_name(c.module, d) for d in c.node.decorator_list]
            for b in c.bases:
                self._subclasses.setdefault(b, []).append(c)
        for f in self.functions.values():
            f.decorators = [self.deco_name(f.module, d) for d in getattr(f.node, 'decorator_list', [])]
        for c in self.classes.values():
            self._index_class(c)

    # -- loading
    def _load(self, path):
        rel = os.path.relpath(path, self.root)
        parts = rel[:-3].split(os.sep)
        is_pkg = parts[-1] == '__init__'
        if is_pkg:
            parts = parts[:-1]
        name = '.'.join(parts)
        with open(path, encoding='utf-8') as fh:
            src = fh.read()
        self.modules[name] = Module(name, path, rel, ast.parse(src, path), is_pkg)

    def _collect(self, m):
        def visit(stmts, top=True):
            for s in stmts:
                if isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            m.names[a.asname] = a.name
                        else:
                            m.names[a.name.split('.')[0]] = a.name.split('.')[0]
                elif isinstance(s, ast.ImportFrom):
                    base = s.module or ''
                    if s.level:
                        parts = m.name.split('.')
                        if not m.is_pkg:
                            parts = parts[:-1]
                        parts = parts[:len(parts) - (s.level - 1)]
                        base = '.'.join(parts + ([s.module] if s.module else []))
                    for a in s.names:
                        m.names[a.asname or a.name] = f'{base}.{a.name}'
                elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = f'{m.name}.{s.name}'
                    self.functions[q] = FuncInfo(q, m, s)
                    m.names[s.name] = q
                elif isinstance(s, ast.ClassDef):
                    m.names[s.name] = f'{m.name}.{s.name}'
                    self._collect_class(m, s, f'{m.name}.{s.name}', None)
                elif isinstance(s, ast.Assign):
                    for tg in s.targets:
                        if isinstance(tg, ast.Name):
                            m.consts[tg.id] = s.value
                            m.names[tg.id] = f'{m.name}.{tg.id}'
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                    m.consts[s.target.id] = s.value
                    m.names[s.target.id] = f'{m.name}.{s.target.id}'
                elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                    m.augs.setdefault(s.target.id, []).append(s)
                elif isinstance(s, (ast.If, ast.Try, ast.With)):
                    for fld in ('body', 'orelse', 'finalbody'):
                        visit(getattr(s, fld, []) or [])
                    for h in getattr(s, 'handlers', []):
                        visit(h.body)
        visit(m.tree.body)

    def _collect_class(self, m, node, qual, outer):
        c = ClassInfo(qual, m, node, outer)
        self.classes[qual] = c
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                deco = [ast.unparse(d) for d in s.decorator_list]
                q = f'{qual}.{s.name}'
                if any(d.endswith('.setter') for d in deco):
                    q += '.setter'
                f = FuncInfo(q, m, s, c)
                self.functions[q] = f
                if q.endswith('.setter'):
                    c.setters[s.name] = f
                else:
                    c.methods[s.name] = f
            elif isinstance(s, ast.ClassDef):
                c.nested[s.name] = self._collect_class(m, s, f'{qual}.{s.name}', c)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                c.annots[s.target.id] = s.annotation
                if s.value is not None:
                    c.attrs[s.target.id] = s.value
            elif isinstance(s, ast.Assign):
                for tg in s.targets:
                    if isinstance(tg, ast.Name):
                        c.attrs[tg.id] = s.value
        return c

    def _index_class(self, c):
        for n, f in list(c.methods.items()):
            if f.is_property:
                c.props[n] = f
        for f in c.methods.values():
            for n in own_nodes(f.node):
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) \
                        and isinstance(n.target.value, ast.Name) and n.target.value.id == 'self':
                    c.annots.setdefault(n.target.attr, n.annotation)
                elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Name):
                    # self.x = param: take the parameter's annotation
                    for tg in n.targets:
                        if isinstance(tg, ast.Attribute) and isinstance(tg.value, ast.Name) and tg.value.id == 'self':
                            a = f.node.args
                            for p in a.posonlyargs + a.args + a.kwonlyargs:
                                if p.arg == n.value.id and p.annotation is not None:
                                    c.annots.setdefault(tg.attr, p.annotation)

    # -- names
    def canonical(self, q, depth=0):
        """Follow re-exports: cheval.ldf.LinkedDataFrame -> cheval.ldf.api.LinkedDataFrame."""
        if depth > 10 or q in self.classes or q in self.functions or q in self.modules:
            return q
        parts = q.split('.')
        for i in range(len(parts) - 1, 0, -1):
            mod = '.'.join(parts[:i])
            if mod in self.modules:
                m = self.modules[mod]
                rest = parts[i:]
                if rest[0] in m.names and m.names[rest[0]] != f'{mod}.{rest[0]}':
                    return self.canonical('.'.join([m.names[rest[0]]] + rest[1:]), depth + 1)
                return q
        return q

    def resolve(self, module, name, cls=None):
        c = cls
        if name in module.names:
            return self.canonical(module.names[name])
        while c is not None:  # annotations may name nested classes
            if name in c.nested:
                return c.nested[name].qual
            c = c.outer
        return None

    def resolve_expr(self, module, e, cls=None):
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                return self.resolve_expr(module, ast.parse(e.value, mode='eval').body, cls)
            except SyntaxError:
                return None
        if isinstance(e, ast.Name):
            return self.resolve(module, e.id, cls) or f'builtins.{e.id}'
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(module, e.value, cls)
            if b is None:
                return None
            if b in self.classes and e.attr in self.classes[b].nested:
                return self.classes[b].nested[e.attr].qual
            return self.canonical(f'{b}.{e.attr}')
        return None

    def deco_name(self, m, d):
        if isinstance(d, ast.Call):
            d = d.func
        return self.resolve_expr(m, d) or ast.unparse(d)

    # -- classes
    def mro(self, qual):
        out, todo = [], [qual]
        while todo:
            q = todo.pop(0)
            c = self.classes.get(q)
            if c is None or c in out:
                continue
            out.append(c)
            todo.extend(c.bases)
        return out

    def lookup(self, qual, name, kind='methods'):
        for c in self.mro(qual):
            d = getattr(c, kind)
            if name in d:
                return d[name]
        return None

    def subclasses(self, qual):
        out, todo = [], [qual]
        while todo:
            for c in self._subclasses.get(todo.pop(), []):
                if c not in out:
                    out.append(c)
                    todo.append(c.qual)
        return out

    def has_base(self, qual, base):
        todo, seen = [qual], set()
        while todo:
            q = todo.pop()
            if q == base or q.split('.')[-1] == base:
                return True
            if q in seen:
                continue
            seen.add(q)
            if q in self.classes:
                todo.extend(self.classes[q].bases)
        return False

    # -- required anchors
    def cls(self, qual):
        if qual not in self.classes:
            raise Broken(f'class {qual} not found')
        return self.classes[qual]

    def fn(self, qual):
        if qual in self.functions:
            return self.functions[qual]
        parts = qual.split('.')
        cq = '.'.join(parts[:-1])
        if cq in self.classes:
            f = self.lookup(cq, parts[-1])
            if f is not None:
                return f
        raise Broken(f'function {qual} not found')

    def find_class(self, name):
        c = [x for q, x in self.classes.items() if x.name == name]
        if len(c) != 1:
            raise Broken(f'class {name}: {len(c)} definitions found')
        return c[0]

    def find_func(self, name):
        c = [x for q, x in self.functions.items() if x.name == name and x.cls is None]
        if len(c) != 1:
            raise Broken(f'function {name}: {len(c)} definitions found')
        return c[0]
