"""Loads the current source of /repo (AST) and resolves names; nothing is cached between runs."""
from __future__ import annotations
import ast
import os
from .values import ClassVal, FuncVal, Extern, Untranslatable

REPO = os.environ.get('VERIF_REPO', '/repo')


class Module:
    def __init__(self, world, name, path):
        self.world = world
        self.name = name
        self.path = path            # relative path, e.g. tm/num.py
        full = os.path.join(REPO, path)
        with open(full, encoding='utf-8') as f:
            self.text = f.read()
        self.tree = ast.parse(self.text)
        self.defs = {}              # name -> ('func', node) | ('class', node) | ('import', qualified) | ('assign', expr node)
        self.globals = {}           # resolved values
        self._scan(self.tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.defs[st.name] = ('func', st)
            elif isinstance(st, ast.ClassDef):
                self.defs[st.name] = ('class', st)
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    self.defs[a.asname or a.name] = ('import', (st.module, a.name))
            elif isinstance(st, ast.Import):
                for a in st.names:
                    self.defs[a.asname or a.name.split('.')[0]] = ('module', a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = ('assign', st.value)
                    elif isinstance(t, ast.Tuple):
                        for k, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.defs[e.id] = ('assign_item', (st.value, k))
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name) and st.value is not None:
                    self.defs[st.target.id] = ('assign', st.value)
            elif isinstance(st, ast.If):
                t = st.test
                if isinstance(t, ast.Name) and t.id == 'TYPE_CHECKING':
                    self._scan(st.orelse)
                else:
                    self._scan(st.body)
                    self._scan(st.orelse)
            elif isinstance(st, ast.Try):
                self._scan(st.body)


class World:
    """All modules of the repository that a verification run touches."""
    def __init__(self):
        self.modules = {}
        self.classes = {}

    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        rel = name.replace('.', '/') + '.py'
        if not os.path.exists(os.path.join(REPO, rel)):
            rel2 = name.replace('.', '/') + '/__init__.py'
            if os.path.exists(os.path.join(REPO, rel2)):
                rel = rel2
            else:
                return None
        m = Module(self, name, rel)
        self.modules[name] = m
        return m

    def by_path(self, path):
        name = path[:-3].replace('/', '.')
        if name.endswith('.__init__'):
            name = name[:-len('.__init__')]
        return self.module(name)

    def class_val(self, mod, name):
        key = (mod.name, name)
        if key in self.classes:
            return self.classes[key]
        node = mod.defs[name][1]
        bases = []
        for b in node.bases:
            if isinstance(b, ast.Name):
                if b.id in mod.defs:
                    kind, what = mod.defs[b.id]
                    if kind == 'class':
                        bases.append(self.class_val(mod, b.id))
                        continue
                    if kind == 'import':
                        tgt = self.resolve_import(*what)
                        bases.append(tgt)
                        continue
                import builtins
                v = getattr(builtins, b.id, None)
                bases.append(v if isinstance(v, type) else Extern(b.id))
            else:
                bases.append(Extern(ast.unparse(b)))
        members = {}
        cv = ClassVal(name, node, mod, bases, members)
        self.classes[key] = cv
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                members[st.name] = FuncVal(st, mod, f'{mod.path}:{name}.{st.name}', owner=cv)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        members[t.id] = ('expr', st.value, mod)
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                members[st.target.id] = ('expr', st.value, mod)
        return cv

    def resolve_import(self, modname, name):
        m = self.module(modname) if modname else None
        if m is None:
            return Extern(f'{modname}.{name}')
        if name in m.defs:
            kind, what = m.defs[name]
            if kind == 'class':
                return self.class_val(m, name)
            if kind == 'func':
                return FuncVal(what, m, f'{m.path}:{name}')
            if kind == 'import':
                return self.resolve_import(*what)
            return ('global', m, name)
        sub = self.module(f'{modname}.{name}')
        if sub is not None:
            return sub
        raise Untranslatable(f'import {modname}.{name}')

    def func(self, qual):
        """'tm/num.py:Add.__add__' -> FuncVal (or None when absent)"""
        path, dotted = qual.split(':')
        m = self.by_path(path)
        if m is None:
            return None
        parts = dotted.split('.')
        if len(parts) == 1:
            d = m.defs.get(parts[0])
            if d and d[0] == 'func':
                return FuncVal(d[1], m, qual)
            if d and d[0] == 'import':
                v = self.resolve_import(*d[1])
                return v if isinstance(v, FuncVal) else None
            return None
        d = m.defs.get(parts[0])
        if not d or d[0] != 'class':
            return None
        cv = self.class_val(m, parts[0])
        _, f = cv.lookup(parts[1])
        return f if isinstance(f, FuncVal) else None
