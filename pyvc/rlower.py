"""Lowers Rust syntax (rparse) to the Python syntax the engine interprets.

Structs and enums become classes (an enum: one class per variant), impl blocks and trait defaults their methods, Option and
Result explicit values, `?` an early return, match a chain of tests, closures nested functions.  References are dropped
(aliases are what Python has); values of types that derive Copy are copied where they are moved.  Dropped: what is
configured out of a release build (tests, debug printing), visibility, lifetimes, type parameters, attributes."""
from __future__ import annotations
import ast
import re
from .values import Untranslatable
from .rparse import N, parse

INTS = {'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize'}
PRIMS = INTS | {'bool', 'char', 'str', 'f32', 'f64'}
STD = {'Vec', 'BTreeMap', 'HashMap', 'BTreeSet', 'HashSet', 'VecDeque', 'String', 'Option', 'Result', 'Rc', 'Arc', 'Box', 'Cell',
       'RefCell', 'Mutex', 'MutexGuard', 'once', 'repeat', 'max', 'min', 'swap', 'take', 'replace', 'Reverse', 'zip',
       'Iterator', 'Default', 'From', 'Into', 'Clone', 'ToString', 'FromStr', 'Some', 'None', 'Ok', 'Err', 'drop', 'iter',
       'mem', 'cmp', 'successors', 'from_fn', 'empty', 'Ord', 'PartialOrd', 'repeat_n', 'Add', 'Mul', 'Sub'}


def loc(n, line):
    for x in ast.walk(n):
        if 'lineno' in getattr(x, '_attributes', ()) and not hasattr(x, 'lineno'):
            x.lineno = x.end_lineno = line
            x.col_offset = x.end_col_offset = 0
    return n


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def const(v):
    return ast.Constant(v)


def call(f, *a, **k):
    f = name(f) if isinstance(f, str) else f
    return ast.Call(f, list(a), [ast.keyword(x, y) for x, y in k.items()])


def attr(e, n, ctx=None):
    return ast.Attribute(e, n, ctx or ast.Load())


def store(n):
    return ast.Name(n, ast.Store())


def method(recv, m, *args):
    f = attr(recv, m)
    f.rust_method = True
    return ast.Call(f, list(args), [])


def strip(e):
    while e.k in ('paren', 'ref') or (e.k == 'unary' and e.op == '*'):
        e = e.e
    return e


def simple(x):
    return isinstance(x, (ast.Name, ast.Constant)) or (isinstance(x, ast.Attribute) and simple(x.value)
                                                       and not getattr(x, 'rust_method', False)) \
        or (isinstance(x, ast.Subscript) and simple(x.value) and isinstance(x.slice, ast.Constant))


def copy_(x):
    import copy
    return copy.deepcopy(x)


class Lower:
    """one source file"""
    def __init__(self, items, modname):
        self.modname = modname
        self.items = items
        self.types, self.structs, self.enums, self.traits, self.glob = {}, {}, {}, {}, {}
        self.uses = {}                  # local name -> (module path, name)
        self.body = []
        self.exts = []                  # impls for foreign types: (std type, class name)
        self.copies = set()
        self.froms = []                 # (class, source type)
        self.scan(items)

    def scan(self, items):
        for it in items:
            if it.k == 'mod':
                self.scan(it.items)
            elif it.k == 'type':
                self.types[it.name] = it.ty
            elif it.k == 'struct':
                self.structs[it.name] = it
                if 'Copy' in it.derives:
                    self.copies.add(it.name)
            elif it.k == 'enum':
                self.enums[it.name] = it
            elif it.k == 'trait':
                self.traits[it.name] = it
            elif it.k == 'use':
                for path, n, as_ in it.names:
                    if n == '*':
                        if path and path[-1] in {e.name for e in items if e.k == 'enum'}:
                            e = [e for e in items if e.k == 'enum' and e.name == path[-1]][0]
                            for v, tup, fs in e.variants:
                                self.glob[v] = (e.name, v)
                        continue
                    self.uses[as_] = (path, n)

    # ---------------------------------------------------------------- module
    def module(self):
        out = []
        for as_, (path, n) in self.uses.items():
            if path and path[0] in ('crate', 'self', 'super'):
                p = path[1:] if path[0] != 'self' else path[1:]
                m = f'src.{p[0]}' if p else 'src.lib'
                out.append(ast.ImportFrom(m, [ast.alias(n, as_ if as_ != n else None)], 0))
        classes = {}
        for it in self.flat(self.items):
            line = it.line
            if it.k == 'type':
                r = self.resolve(it.ty)
                if r[0] == 'std':
                    v = name(f'__r_type_{r[1]}')
                elif r[0] == 'class':
                    if r[1] == it.name:
                        continue
                    v = name(r[1])
                elif r[0] == 'prim':
                    v = name('__r_type_int' if r[1] in INTS else f'__r_type_{r[1]}')
                else:
                    continue
                out.append(loc(ast.Assign([store(it.name)], v), line))
            elif it.k == 'const' and it.e is not None:
                f = Fn(self, None, it)
                try:
                    v = f.expr(it.e)
                except Untranslatable:
                    continue
                if f.out:
                    continue
                out.append(loc(ast.Assign([store(it.name)], v), line))
            elif it.k == 'struct':
                out.append(self.cls(it.name, it.fields, line, classes))
            elif it.k == 'enum':
                c = self.cls(it.name, None, line, classes)
                out.append(c)
                for v, tup, fs in it.variants:
                    vc = self.cls(f'{it.name}__{v}', fs, line, classes, base=it.name)
                    out.append(vc)
                    if tup is None:
                        c.body.append(loc(ast.Assign([store(v)], call(f'{it.name}__{v}')), line))
                    else:
                        c.body.append(loc(ast.Assign([store(v)], name(f'{it.name}__{v}')), line))
            elif it.k == 'trait':
                c = self.cls(it.name, None, line, classes)
                out.append(c)
                self.methods(c, it.items, it.name, [])
            elif it.k == 'fn':
                out.append(self.fn(it, None))
        n = 0
        for it in self.flat(self.items):
            if it.k != 'impl':
                continue
            r = self.resolve(it.ty)
            if r[0] == 'class' and r[1] in classes:
                c = classes[r[1]]
                if it.trait is not None:
                    t = it.trait.path[-1]
                    if t == 'From':
                        self.froms.append((r[1], it.trait.args[0] if it.trait.args else None, it.generics))
                    tn = self.type_name(t)
                    if tn and tn not in [b.id for b in c.bases]:
                        c.bases.append(name(tn))
                self.methods(c, it.items, r[1], it.generics)
            elif r[0] == 'std':
                n += 1
                cn = f'__ext{n}_{r[1]}'
                c = self.cls(cn, None, it.line, classes)
                if it.trait is not None and self.type_name(it.trait.path[-1]):
                    c.bases.append(name(it.trait.path[-1]))
                self.exts.append((r[1], cn))
                self.methods(c, it.items, cn, it.generics)
                out.append(c)
            # other impls: for types this file does not define
        for x in out:
            loc(x, getattr(x, 'lineno', 1))
        return ast.Module(out, [])

    def type_name(self, t):
        if t in self.traits:
            return t
        if t in self.uses and self.uses[t][0] and self.uses[t][0][0] in ('crate', 'super', 'self'):
            return t
        return None

    def flat(self, items):
        for it in items:
            if it.k == 'mod':
                yield from self.flat(it.items)
            else:
                yield it

    def cls(self, nm, fields, line, classes, base=None):
        c = ast.ClassDef(nm, [name(base)] if base else [], [], [], [])
        c.lineno = line
        c.rust = True
        if fields is not None:
            body = [ast.Assign([attr(name('self'), f, ast.Store())], name(f)) for f, _ in fields]
            fd = ast.FunctionDef('__init__', ast.arguments([], [ast.arg('self')] + [ast.arg(f) for f, _ in fields], None, [], [], None, []),
                                 body or [ast.Pass()], [])
            fd.lineno = line
            c.body.append(loc(fd, line))
            c.rust_fields = [f for f, _ in fields]
        classes[nm] = c
        return c

    def methods(self, c, items, cname, generics):
        have = {s.name for s in c.body if isinstance(s, ast.FunctionDef)}
        for m in items:
            if m.k == 'fn' and m.body is not None and m.name != '__init__':
                if m.name in have:
                    continue
                c.body.append(self.fn(m, cname, generics))
            elif m.k == 'fn':
                c.__dict__.setdefault('rust_required', {})[m.name] = m.self_ is not None
            elif m.k == 'const' and m.e is not None:
                f = Fn(self, cname, m)
                c.body.append(loc(ast.Assign([store(m.name)], f.expr(m.e)), m.line))
            elif m.k == 'type':
                pass

    def fn(self, it, cname, generics=()):
        f = Fn(self, cname, it, generics)
        try:
            d = f.lower()
        except Untranslatable as e:
            d = ast.FunctionDef(it.name, ast.arguments([], ([ast.arg('self')] if it.self_ else []) + [
                ast.arg(f'a{i}') for i in range(len(it.params))], None, [], [], None, []),
                [ast.Expr(call('__r_untranslatable', const(str(e))))], [])
            if not it.self_ and cname:
                d.decorator_list = [name('staticmethod')]
        d.rust = True
        d.rust_self = it.self_
        return loc(d, it.line)

    # ---------------------------------------------------------------- types
    def resolve(self, ty, depth=0):
        """('std', name, args) | ('class', name, args) | ('prim', name) | ('other',)"""
        if ty is None or depth > 20:
            return ('other',)
        if ty.k == 'tref':
            return self.resolve(ty.ty, depth + 1)
        if ty.k == 'tslice':
            return ('std', 'Vec', [ty.ty])
        if ty.k == 'ttuple':
            return ('tuple', ty.ts)
        if ty.k != 'tpath':
            return ('other',)
        n = ty.path[-1]
        if n in self.types:
            r = self.resolve(self.types[n], depth + 1)
            return r
        if n in self.structs or n in self.enums or n in self.traits:
            return ('class', n, ty.args)
        return self.resolve_name(n, ty.args, depth)

    def resolve_name(self, n, args=(), depth=0):
        if n in self.types:
            return self.resolve(self.types[n], depth + 1)
        if n in self.structs or n in self.enums or n in self.traits:
            return ('class', n, args)
        if n in self.uses:
            path, orig = self.uses[n]
            if path and path[0] in ('crate', 'super', 'self') and len(path) > 1:
                o = lowered(f'src.{path[1]}')
                if o is not None and orig in o.types:
                    r = o.resolve(o.types[orig], depth + 1)
                    if r[0] == 'class':
                        return ('class', n, args)
                    return r
                return ('class', n, args)
            return ('std', orig, args)
        if n in PRIMS:
            return ('prim', n)
        if n in STD:
            return ('std', n, args)
        return ('other',)

    def has_copy(self):
        if self.copies:
            return True
        for n, (path, orig) in self.uses.items():
            if path and path[0] == 'crate' and len(path) > 1:
                o = lowered(f'src.{path[1]}')
                if o is not None and (orig in o.copies or self.resolve_name(n)[0] == 'class' and orig in o.types
                                      and o.resolve(o.types[orig])[1] in o.copies):
                    return True
        return False


CACHE = {}
SOURCES = {}


def lowered(modname):
    """the syntax of another module of the crate (types only)"""
    import os
    from . import source
    rel = modname.replace('.', '/') + '.rs'
    full = os.path.join(source.REPO, rel)
    if not os.path.exists(full):
        return None
    if full not in CACHE:
        CACHE[full] = None
        with open(full, encoding='utf-8') as f:
            CACHE[full] = Lower(parse(f.read()), modname)
    return CACHE[full]


class Fn:
    """one function"""
    def __init__(self, mod, cname, it, generics=()):
        self.mod, self.cname, self.it = mod, cname, it
        self.out = []
        self.scopes = [{}]
        self.used = {}
        self.tmp = 0
        self.loops = []
        self.generics = {g for g, _ in list(generics or ()) + list(getattr(it, 'generics', None) or ())}
        self.copying = mod.has_copy()
        self.ret = getattr(it, 'ret', None)

    def lower(self):
        it = self.it
        args, pre = [], []
        if it.self_:
            args.append(ast.arg('self'))
            self.bind_name('self')
        for p, ty in it.params:
            if p.k == 'pname' and p.sub is None:
                args.append(ast.arg(self.bind_name(p.name)))
            elif p.k == 'pref' and p.p.k == 'pname':
                args.append(ast.arg(self.bind_name(p.p.name)))
            elif p.k == 'pwild':
                args.append(ast.arg(self.temp()))
            else:
                t = self.temp()
                args.append(ast.arg(t))
                pre.append((p, t))
        for p, t in pre:
            self.destructure(p, name(t), it.line)
        self.block(it.body, ('ret',), self.ret)
        body = self.out or [ast.Pass()]
        d = ast.FunctionDef(it.name, ast.arguments([], args, None, [], [], None, []), body, [])
        if not it.self_ and self.cname:
            d.decorator_list = [name('staticmethod')]
        return d

    # ---------------------------------------------------------------- names
    def temp(self):
        self.tmp += 1
        return f'__t{self.tmp}'

    def bind_name(self, n):
        k = self.used.get(n, 0)
        self.used[n] = k + 1
        new = n if k == 0 else f'{n}${k}'
        self.scopes[-1][n] = new
        return new

    def find(self, n):
        for s in reversed(self.scopes):
            if n in s:
                return s[n]
        return None

    def emit(self, st, line):
        self.out.append(loc(st, line))

    def scoped(self, f):
        self.scopes.append({})
        try:
            return f()
        finally:
            self.scopes.pop()

    def sub(self, f):
        """the statements f emits"""
        save, self.out = self.out, []
        try:
            f()
            return self.out
        finally:
            self.out = save

    # ---------------------------------------------------------------- blocks, statements
    def block(self, b, dest, ty=None):
        self.scoped(lambda: self.block_(b, dest, ty))

    def block_(self, b, dest, ty):
        for s in b.stmts:
            self.stmt(s)
        if b.tail is not None:
            self.into(b.tail, dest, ty)
        elif dest and dest[0] == 'var':
            if not self.ends():
                self.emit(ast.Assign([store(dest[1])], const(None)), b.line)

    def ends(self):
        return bool(self.out) and isinstance(self.out[-1], (ast.Return, ast.Break, ast.Continue, ast.Raise))

    def stmt(self, s):
        if s.k == 'slet':
            return self.let(s)
        if s.k == 'sitem':
            if s.item.k == 'fn':
                f = Fn(self.mod, None, s.item)
                d = loc(f.lower(), s.line)
                d.name = self.bind_name(s.item.name)
                self.out.append(d)
                return
            if s.item.k == 'const':
                self.emit(ast.Assign([store(self.bind_name(s.item.name))], self.expr(s.item.e)), s.line)
                return
            if s.item.k == 'use':
                return
            raise Untranslatable(f'rust item {s.item.k} in a function (line {s.line})')
        self.into(s.e, None)

    def let(self, s):
        line = s.line
        if s.e is None:
            if s.p.k != 'pname':
                raise Untranslatable(f'let without a value (line {line})')
            self.bind_name(s.p.name)
            return
        if s.els is None and s.p.k == 'pname' and s.p.sub is None:
            k = s.e.k
            if k in ('if', 'match', 'loop', 'block') and not (k == 'if' and self.pure_if(s.e)):
                t = self.fresh_for(s.p.name)
                self.into(s.e, ('var', t), s.ty)
                self.scopes[-1][s.p.name] = t
                return
            v = self.value(s.e, s.ty)
            self.emit(ast.Assign([store(self.bind_name(s.p.name))], v), line)
            return
        if s.els is None:
            if s.p.k == 'pwild':
                self.into(s.e, None)
                return
            v = self.value(s.e, s.ty)
            self.destructure(s.p, v, line)
            return
        v = self.held(s.e, s.ty)
        tests, binds = self.pat(s.p, v)
        els = self.sub(lambda: self.block(s.els, None))
        self.emit(ast.If(neg(conj(tests)), els or [ast.Pass()], []), line)
        self.binds(binds, line)

    def fresh_for(self, n):
        k = self.used.get(n, 0)
        self.used[n] = k + 1
        return n if k == 0 else f'{n}${k}'

    def binds(self, binds, line):
        for n, e in binds:
            self.emit(ast.Assign([store(self.bind_name(n))], e), line)

    def held(self, e, ty=None):
        """evaluated once: a simple expression"""
        v = self.expr(e, ty)
        if isinstance(v, (ast.Name, ast.Constant)):
            return v
        t = self.temp()
        self.emit(ast.Assign([store(t)], v), e.line)
        return name(t)

    def destructure(self, p, v, line):
        tgt = self.plain_target(p)
        if tgt is not None:
            self.emit(ast.Assign([self.target(p)], v), line)
            return
        if not isinstance(v, ast.Name):
            t = self.temp()
            self.emit(ast.Assign([store(t)], v), line)
            v = name(t)
        tests, binds = self.pat(p, v)
        self.binds(binds, line)

    def plain_target(self, p):
        """names and tuples of names only"""
        if p.k == 'pref':
            return self.plain_target(p.p)
        if p.k == 'pname' and p.sub is None and not self.is_const(p.name):
            return True
        if p.k == 'pwild':
            return True
        if p.k == 'ptuple' and all(q.k != 'prest' for q in p.ps):
            return True if all(self.plain_target(q) for q in p.ps) else None
        return None

    def target(self, p):
        if p.k == 'pref':
            return self.target(p.p)
        if p.k == 'pname':
            return store(self.bind_name(p.name))
        if p.k == 'pwild':
            return store(self.temp())
        return ast.Tuple([self.target(q) for q in p.ps], ast.Store())

    # ---------------------------------------------------------------- destinations
    def into(self, e, dest, ty=None):
        """dest: None (value unused), ('ret',), ('var', name)"""
        k = e.k
        line = e.line
        if k == 'paren':
            return self.into(e.e, dest, ty)
        if k == 'block':
            return self.block(e, dest, ty)
        if k == 'if' and not (dest and self.pure_if(e)):
            return self.if_(e, dest, ty)
        if k == 'match':
            return self.match(e, dest, ty)
        if k in ('while', 'for', 'loop'):
            return self.loop(e, dest)
        if k == 'return':
            if e.e is None:
                self.emit(ast.Return(None), line)
            else:
                self.into(e.e, ('ret',), self.ret)
            return
        if k in ('break', 'continue'):
            return self.jump(e)
        if k == 'mac' and e.name in ('panic', 'unimplemented', 'unreachable', 'todo'):
            self.emit(ast.Raise(call('__r_panic'), None), line)
            return
        if k == 'mac' and e.name in ('assert', 'debug_assert'):
            if e.name == 'assert':
                self.emit(ast.Assert(self.expr(e.args[0])), line)
            return
        if k == 'mac' and e.name in ('assert_eq', 'assert_ne'):
            op = ast.Eq() if e.name == 'assert_eq' else ast.NotEq()
            a = self.expr(e.args[0])
            b = self.expr(e.args[1])
            self.emit(ast.Assert(ast.Compare(a, [op], [b])), line)
            return
        if k == 'mac' and e.name in ('println', 'print', 'eprintln', 'eprint', 'dbg', 'debug_assert_eq', 'debug_assert_ne'):
            return
        if k == 'assign':
            self.assign(e)
            if dest and dest[0] == 'ret':
                pass
            return
        v = self.value(e, ty) if dest else self.expr(e, ty)
        if dest is None:
            if isinstance(v, (ast.Constant, ast.Name)):
                return
            self.emit(ast.Expr(v), line)
        elif dest[0] == 'ret':
            if self.ends():
                return
            self.emit(ast.Return(v), line)
        else:
            if self.ends():
                return
            self.emit(ast.Assign([store(dest[1])], v), line)

    def jump(self, e):
        inner = self.loops[-1] if self.loops else None
        tgt = inner
        if e.label:
            c = [l for l in self.loops if l['label'] == e.label]
            if not c:
                raise Untranslatable(f'label {e.label}')
            tgt = c[-1]
        if tgt is None:
            raise Untranslatable('jump outside of a loop')
        if e.k == 'break' and e.e is not None:
            if tgt['dest'] is None:
                self.into(e.e, None)
            else:
                self.into(e.e, ('var', tgt['dest']))
        if tgt is inner:
            self.emit(ast.Break() if e.k == 'break' else ast.Continue(), e.line)
            return
        f = tgt.setdefault('flags', {}).setdefault(e.k, f'__{e.k}_{tgt["id"]}')
        for l in self.loops[self.loops.index(tgt) + 1:]:
            l['through'].add((f, e.k, tgt['id']))
        self.emit(ast.Assign([store(f)], const(True)), e.line)
        self.emit(ast.Break(), e.line)

    def loop(self, e, dest):
        line = e.line
        self.tmp += 1
        res = None
        if e.k == 'loop' and dest is not None:
            res = dest[1] if dest[0] == 'var' else self.temp()
        L = dict(label=getattr(e, 'label', None), id=self.tmp, through=set(), dest=res)
        if e.k == 'for':
            it = self.expr(e.e)
            it = it if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == '__r_range' else call('__r_into_iter', it)

            def body():
                self.loops.append(L)
                if self.plain_target(e.p):
                    t = self.target(e.p)
                    self.block(e.body, None)
                else:
                    v = self.temp()
                    t = store(v)
                    self.destructure(e.p, name(v), line)
                    self.block(e.body, None)
                self.loops.pop()
                return t
            box = []
            b = self.sub(lambda: box.append(self.scoped(body)))
            st = ast.For(box[0], it, b or [ast.Pass()], [])
        elif e.k == 'while':
            L0 = L

            def body(c=e.c):
                self.loops.append(L0)
                tests, binds, pre = self.cond(c)
                if not pre and not binds and len(tests) == 1:
                    test[0] = tests[0]
                else:
                    self.out += pre
                    self.emit(ast.If(neg(conj(tests)), [ast.Break()], []), line)
                    self.binds(binds, line)
                self.block(e.body, None)
                self.loops.pop()
            test = [const(True)]
            b = self.sub(lambda: self.scoped(body))
            st = ast.While(test[0], b or [ast.Pass()], [])
        else:
            def body():
                self.loops.append(L)
                self.block(e.body, None)
                self.loops.pop()
            b = self.sub(body)
            st = ast.While(const(True), b or [ast.Pass()], [])
        for f in L.get('flags', {}).values():
            self.emit(ast.Assign([store(f)], const(False)), line)
        if 'continue' in L.get('flags', {}):
            st.body.insert(0, ast.Assign([store(L['flags']['continue'])], const(False)))
        self.emit(st, line)
        for f, kind, tid in sorted(L['through']):
            outer = self.loops[-1]
            direct = outer['id'] == tid
            self.emit(ast.If(name(f), [ast.Break() if (kind == 'break' or not direct) else ast.Continue()], []), line)
        if e.k == 'loop' and dest is not None and dest[0] == 'ret' and not self.ends():
            if has_break(b):
                self.emit(ast.Return(name(res)), line)

    def assign(self, e):
        line = e.line
        l = e.l
        while l.k == 'paren':
            l = l.e
        if l.k == 'unary' and l.op == '*':
            tgt = self.expr(l.e)
            if e.op != '=':
                v = self.binop(e.op[:-1], call('__r_deref', copy_(tgt)), self.expr(e.r))
            else:
                v = self.value(e.r)
            self.emit(ast.Expr(call('__r_store', tgt, v)), line)
            return
        if l.k == 'tuple':
            v = self.value(e.r)
            self.emit(ast.Assign([ast.Tuple([self.place(x) for x in l.es], ast.Store())], v), line)
            return
        if l.k == 'path' and l.path == ('_',):
            self.into(e.r, None)
            return
        if e.op == '=' and e.r.k in ('if', 'match', 'block', 'loop') and l.k == 'path' and not (e.r.k == 'if' and self.pure_if(e.r)):
            self.into(e.r, ('var', self.find(l.path[0]) or l.path[0]))
            return
        if e.op == '=':
            v = self.value(e.r)
            self.emit(ast.Assign([self.place(l)], v), line)
            return
        v = self.expr(e.r)
        op = e.op[:-1]
        tgt = self.place(l)
        if op in ('/', '%', '<<', '>>', '&', '|', '^'):
            self.emit(ast.Assign([tgt], self.binop(op, self.expr(l), v)), line)
            return
        self.emit(ast.AugAssign(tgt, OPS[op](), v), line)

    def place(self, l):
        while l.k == 'paren':
            l = l.e
        if l.k == 'path' and len(l.path) == 1:
            return store(self.find(l.path[0]) or l.path[0])
        if l.k == 'field':
            return attr(self.expr(strip(l.e)), l.name, ast.Store())
        if l.k == 'index':
            return ast.Subscript(self.expr(strip(l.e)), self.index(l.i), ast.Store())
        raise Untranslatable(f'rust assignment to {l.k} (line {l.line})')

    # ---------------------------------------------------------------- conditions
    def cond(self, c):
        """(tests, bindings made after all tests, statements before); bindings inside a chain are walrus tests"""
        while c.k == 'paren':
            c = c.e
        parts = []

        def flat(x):
            while x.k == 'paren':
                x = x.e
            if x.k == 'bin' and x.op == '&&' and has_let(x):
                flat(x.l)
                flat(x.r)
            else:
                parts.append(x)
        flat(c)
        if not any(x.k == 'let' for x in parts):
            box = []
            pre = self.sub(lambda: box.append(self.expr(c)))
            return [box[0]], [], pre
        tests, binds, pre = [], [], []
        for i, x in enumerate(parts):
            last = i == len(parts) - 1
            if x.k == 'let':
                box = []
                st = self.sub(lambda: box.append(self.held(x.e)))
                if st and tests:
                    # evaluated late: only a single held assignment can be folded into the chain
                    if len(st) == 1 and isinstance(st[0], ast.Assign):
                        tests.append(call('__r_true', ast.NamedExpr(store(st[0].targets[0].id), st[0].value)))
                    else:
                        raise Untranslatable(f'rust let chain (line {x.line})')
                else:
                    pre += st
                ts, bs = self.pat(x.p, box[0])
                tests += ts
                if last:
                    binds += bs
                else:
                    for n, v in bs:
                        tests.append(call('__r_true', ast.NamedExpr(store(self.bind_name(n)), v)))
            else:
                box = []
                st = self.sub(lambda: box.append(self.expr(x)))
                if st:
                    if tests:
                        raise Untranslatable(f'rust let chain (line {x.line})')
                    pre += st
                tests.append(box[0])
        return tests, binds, pre

    def pure_if(self, e):
        if e.b is None or has_let(e.c) or e.a.stmts or e.a.tail is None:
            return False
        if e.b.k == 'if':
            if not self.pure_if(e.b):
                return False
        elif e.b.stmts or e.b.tail is None:
            return False
        return self.plain(e.a.tail) and (e.b.k == 'if' or self.plain(e.b.tail)) and self.plain(e.c)

    def plain(self, e):
        """lowers to an expression without statements"""
        box = []
        save = (self.tmp, dict(self.used))
        try:
            st = self.sub(lambda: box.append(self.expr(e)))
        except Untranslatable:
            return False
        finally:
            self.tmp, self.used = save
        return not st

    def if_(self, e, dest, ty):
        def go():
            tests, binds, pre = self.cond(e.c)
            self.out += pre

            def then():
                self.binds(binds, e.line)
                self.block(e.a, dest, ty)
            a = self.sub(lambda: self.scoped(then))
            return tests, a
        tests, a = self.scoped(go)
        b = []
        if e.b is not None:
            b = self.sub(lambda: self.into(e.b, dest, ty))
        elif dest and dest[0] == 'var':
            b = [loc(ast.Assign([store(dest[1])], const(None)), e.line)]
        self.emit(ast.If(conj(tests), a or [ast.Pass()], b), e.line)

    def match(self, e, dest, ty):
        v = self.held(e.e)
        chain = []
        for i, (p, g, body) in enumerate(e.arms):
            last = i == len(e.arms) - 1

            def arm():
                tests, binds = self.pat(p, v)
                if g is not None:
                    for n, x in binds:
                        tests.append(call('__r_true', ast.NamedExpr(store(self.bind_name(n)), x)))
                    ts, bs, pre = self.cond(g)
                    if pre or bs:
                        raise Untranslatable(f'rust match guard (line {body.line})')
                    tests += ts
                    binds = []
                st = self.sub(lambda: (self.binds(binds, body.line), self.into(body, dest, ty)))
                return tests, st
            tests, st = self.scoped(arm)
            if (last and g is None) or not tests:
                chain.append((None, st))
                break
            chain.append((conj(tests), st))
        cur = []
        for t, st in reversed(chain):
            cur = st if t is None else [loc(ast.If(t, st or [ast.Pass()], cur), e.line)]
        self.out += [loc(s, e.line) for s in cur]

    # ---------------------------------------------------------------- patterns
    def is_const(self, n):
        return n in self.mod.glob or (n.isupper() and len(n) > 1)

    def variant(self, path):
        """the class of an enum variant or struct named in a pattern"""
        if path[0] == 'Self':
            path = (self.cname,) + path[1:]
        if len(path) == 1:
            if path[0] in self.mod.glob:
                en, v = self.mod.glob[path[0]]
                return name(f'{en}__{v}')
            return name(self.cname) if path[0] == 'Self' else name(path[0])
        en, v = path[-2:]
        return attr(name(en), f'__variant__{v}')

    def pat(self, p, v):
        k = p.k
        if k == 'pwild' or k == 'prest':
            return [], []
        if k == 'pref':
            return self.pat(p.p, v)
        if k == 'pname':
            if p.name == 'None':
                return [call('__r_is_none', copy_(v))], []
            if self.is_const(p.name) and p.sub is None:
                return self.pat(N('ppath', p.line, path=(p.name,)), v)
            if p.sub is not None:
                t, b = self.pat(p.sub, v)
                return t, [(p.name, copy_(v))] + b
            return [], [(p.name, copy_(v))]
        if k == 'plit':
            return [ast.Compare(copy_(v), [ast.Eq()], [self.expr(p.e)])], []
        if k == 'prange':
            ts = []
            if p.lo is not None:
                ts.append(ast.Compare(copy_(v), [ast.GtE()], [self.expr(p.lo)]))
            if p.hi is not None:
                ts.append(ast.Compare(copy_(v), [ast.LtE() if p.incl else ast.Lt()], [self.expr(p.hi)]))
            return ts, []
        if k == 'ptuple':
            return self.seq_pat(p.ps, v, False)
        if k == 'pslice':
            return self.seq_pat(p.ps, v, True)
        if k == 'por':
            tests = []
            binds = None
            for q in p.ps:
                t, b = self.pat(q, v)
                if b:
                    key = [(n, ast.dump(x)) for n, x in b]
                    if binds is None:
                        binds = (key, b)
                    elif binds[0] != key:
                        raise Untranslatable(f'rust pattern alternatives (line {p.line})')
                tests.append(conj(t))
            return [ast.BoolOp(ast.Or(), tests)], (binds[1] if binds else [])
        if k == 'ppath':
            if p.path == ('None',):
                return [call('__r_is_none', copy_(v))], []
            if len(p.path) == 1 and p.path[0] not in self.mod.glob and p.path[0] not in self.mod.structs:
                return [ast.Compare(copy_(v), [ast.Eq()], [self.expr(N('path', p.line, path=p.path, targs=[]))])], []
            r = self.mod.resolve_name(p.path[0]) if len(p.path) > 1 and p.path[0] != 'Self' else ('class',)
            if r[0] == 'prim':
                return [ast.Compare(copy_(v), [ast.Eq()], [self.expr(N('path', p.line, path=p.path, targs=[]))])], []
            return [call('__r_isa', copy_(v), self.variant(p.path))], []
        if k == 'pts':
            if p.path in (('Some',), ('Ok',), ('Err',)) or p.path[-1] in ('Some', 'Ok', 'Err'):
                t, b = self.pat(p.ps[0], call('__r_inner', copy_(v)))
                return [call(f'__r_is_{p.path[-1].lower()}', copy_(v))] + t, b
            tests = [call('__r_isa', copy_(v), self.variant(p.path))]
            binds = []
            n = len(p.ps)
            for i, q in enumerate(p.ps):
                if q.k == 'prest':
                    if i != n - 1:
                        raise Untranslatable('.. inside a pattern')
                    break
                t, b = self.pat(q, attr(copy_(v), f'_{i}'))
                tests += t
                binds += b
            return tests, binds
        if k == 'pstruct':
            var = self.variant(p.path)
            one = len(p.path) == 1 and p.path[0] not in self.mod.glob
            tests = [] if one else [call('__r_isa', copy_(v), var)]
            binds = []
            for f, q in p.fs:
                t, b = self.pat(q, attr(copy_(v), f))
                tests += t
                binds += b
            return tests, binds
        raise Untranslatable(f'rust pattern {k} (line {p.line})')

    def seq_pat(self, ps, v, slice_):
        rest = [i for i, q in enumerate(ps) if q.k == 'prest' or (q.k == 'pname' and q.sub is not None and q.sub.k == 'prest')]
        tests, binds = [], []
        n = len(ps)
        if slice_:
            cmp = ast.GtE() if rest else ast.Eq()
            tests.append(ast.Compare(call('__r_len', copy_(v)), [cmp], [const(n - len(rest))]))
        if len(rest) > 1:
            raise Untranslatable('pattern with two rests')
        for i, q in enumerate(ps):
            if rest and i == rest[0]:
                if q.k == 'pname':
                    hi = const(-(n - 1 - i)) if i < n - 1 else None
                    binds.append((q.name, ast.Subscript(copy_(v), ast.Slice(const(i), hi), ast.Load())))
                continue
            idx = i if not rest or i < rest[0] else i - n
            t, b = self.pat(q, ast.Subscript(copy_(v), const(idx), ast.Load()))
            tests += t
            binds += b
        return tests, binds

    # ---------------------------------------------------------------- expressions
    def value(self, e, ty=None):
        """an expression whose value is stored: values of Copy types are copied"""
        v = self.expr(e, ty)
        if not self.copying:
            return v
        x = e
        while x.k == 'paren':
            x = x.e
        if x.k in ('index',) or (x.k == 'unary' and x.op == '*' and not isinstance(v, ast.Constant)):
            return call('__r_val', v)
        return v

    def expr(self, e, ty=None):
        m = getattr(self, f'x_{e.k}', None)
        if m is None:
            if e.k in ('return', 'break', 'continue'):
                self.into(e, None)
                return const(None)
            if e.k in ('if', 'match', 'block', 'loop', 'while', 'for', 'assign'):
                return self.held_block(e, ty)
            raise Untranslatable(f'rust expression {e.k} (line {e.line})')
        return loc(m(e, ty), e.line)

    def held_block(self, e, ty):
        if e.k == 'if' and self.pure_if(e):
            return loc(ast.IfExp(self.expr(e.c), self.expr(e.a.tail, ty), self.expr(e.b if e.b.k == 'if' else e.b.tail, ty)), e.line)
        if e.k == 'block' and not e.stmts and e.tail is not None:
            return self.expr(e.tail, ty)
        if e.k in ('while', 'for', 'assign'):
            self.into(e, None)
            return const(None)
        t = self.temp()
        self.into(e, ('var', t), ty)
        return name(t)

    def several(self, es, f=None):
        """evaluated left to right: what comes before an expression that needs statements is held"""
        out = []
        for e in es:
            box = []
            st = self.sub(lambda: box.append((f or self.expr)(e)))
            if st:
                for i, o in enumerate(out):
                    if not self.stable(o):
                        t = self.temp()
                        self.emit(ast.Assign([store(t)], o), e.line)
                        out[i] = name(t)
                self.out += st
            out.append(box[0])
        return out

    @staticmethod
    def stable(o):
        return isinstance(o, ast.Constant) or (isinstance(o, ast.Name) and (o.id.startswith('__') or True))

    def x_paren(self, e, ty):
        return self.expr(e.e, ty)

    def x_lit(self, e, ty):
        if e.ty == 'char':
            return call('__r_char', const(e.v))
        return const(e.v)

    def x_path(self, e, ty):
        p = e.path
        if len(p) == 1:
            n = p[0]
            f = self.find(n)
            if f:
                return name(f)
            if n == 'None':
                return const(None)
            if n == 'Self':
                return name(self.cname)
            if n in self.mod.glob:
                en, v = self.mod.glob[n]
                return attr(name(en), v)
            if n in ('Some', 'Ok', 'Err', 'once', 'repeat', 'max', 'min', 'drop', 'repeat_n', 'zip', 'swap'):
                if n not in self.mod.uses or (self.mod.uses[n][0] or ('',))[0] in ('std', 'core'):
                    return name(f'__r_{n}')
            return name(n)
        while p[0] in ('crate', 'self', 'super', 'std', 'core') and len(p) > 1:
            p = p[1:]
        if len(p) == 1:
            return self.x_path(N('path', e.line, path=p, targs=[]), ty)
        t, m = p[-2], p[-1]
        if t == 'Self':
            if self.cname.startswith('__ext') and m in ('new', 'default', 'from', 'with_capacity'):
                return name(f'__r_{self.cname.split("_", 3)[3]}_{m}')
            return attr(name(self.cname), m)
        if t in self.generics:
            return attr(call('__r_generic', const(t)), m)
        r = self.mod.resolve_name(t)
        if r[0] == 'prim':
            return name(f'__r_prim_{r[1]}_{m}')
        if r[0] == 'std':
            return name(f'__r_{r[1]}_{m}')
        if r[0] == 'class':
            if r[1] in self.mod.traits or self.is_trait(r[1]):
                return attr(call('__r_trait', name(r[1])), m)
            return attr(name(r[1]), m)
        if t[:1].islower() and t in ('mem', 'cmp', 'iter', 'fmt', 'process'):
            return name(f'__r_{m}')
        if t[:1].islower():
            f = lowered(f'src.{t}')
            if f is not None:
                if m not in self.mod.uses:
                    self.mod.uses[m] = (('crate', t), m)
                return name(m)
        raise Untranslatable(f'rust path {"::".join(p)} (line {e.line})')

    def is_trait(self, n):
        if n in self.mod.uses:
            path, orig = self.mod.uses[n]
            if path and path[0] == 'crate' and len(path) > 1:
                o = lowered(f'src.{path[1]}')
                return o is not None and orig in o.traits
        return False

    def x_qpath(self, e, ty):
        if e.trait is None:
            if e.ty.k == 'tpath':
                return self.x_path(N('path', e.line, path=e.ty.path + e.path, targs=[]), ty)
        elif e.ty.k == 'tpath':
            return self.x_path(N('path', e.line, path=e.ty.path + e.path, targs=[]), ty)
        raise Untranslatable(f'rust path (line {e.line})')

    def x_tuple(self, e, ty):
        ts = ty.ts if ty is not None and ty.k == 'ttuple' and len(ty.ts) == len(e.es) else [None] * len(e.es)
        if not e.es:
            return const(None)
        it = iter(ts)
        return ast.Tuple(self.several(e.es, lambda x: self.value(x, next(it))), ast.Load())

    def x_array(self, e, ty):
        return ast.List(self.several(e.es, self.value), ast.Load())

    def x_repeat(self, e, ty):
        a, n = self.several([e.e, e.n])
        return call('__r_vec_repeat', a, n)

    def x_struct_lit(self, e, ty):
        if e.base is not None:
            b = self.held(e.base)
            given = {f for f, _ in e.fs}
            st = self.mod.structs.get(self.cname if e.path == ('Self',) else e.path[-1])
            if st is None:
                raise Untranslatable('struct base of a foreign type')
            fs = list(e.fs)
            vs = self.several([x for _, x in fs], self.value)
            kw = {f: v for (f, _), v in zip(fs, vs)}
            for f, _ in st.fields:
                if f not in given:
                    kw[f] = attr(copy_(b), f)
            return call(name(st.name), **kw)
        cn = self.cname if e.path == ('Self',) else None
        sname = cn or e.path[-1]
        st = self.mod.structs.get(sname)
        tys = dict(st.fields) if st else {}
        it = iter([tys.get(f) for f, _ in e.fs])
        vs = self.several([x for _, x in e.fs], lambda x: self.value(x, next(it)))
        f = name(cn) if cn else (self.variant(e.path) if len(e.path) > 1 or e.path[0] in self.mod.glob else name(e.path[0]))
        return ast.Call(f, [], [ast.keyword(fn, v) for (fn, _), v in zip(e.fs, vs)])

    def x_field(self, e, ty):
        return attr(self.expr(strip(e.e)), e.name)

    def index(self, i):
        while i.k == 'paren':
            i = i.e
        if i.k == 'range':
            lo = self.expr(i.lo) if i.lo is not None else None
            hi = self.expr(i.hi) if i.hi is not None else None
            if i.incl and hi is not None:
                hi = ast.BinOp(hi, ast.Add(), const(1))
            return call('__r_slice', lo or const(None), hi or const(None))
        return self.expr(i)

    def x_index(self, e, ty):
        a, i = self.several([strip(e.e), e.i], lambda x: self.expr(x) if x is not e.i else self.index(x))
        return ast.Subscript(a, i, ast.Load())

    def x_ref(self, e, ty):
        x = e.e
        while x.k == 'paren':
            x = x.e
        if e.mut and x.k in ('index', 'field'):
            if x.k == 'index' and x.i.k != 'range':
                a, i = self.several([strip(x.e), x.i])
                return call('__r_refmut', a, i)
            if x.k == 'field':
                return call('__r_refattr', self.expr(strip(x.e)), const(x.name))
        return self.expr(e.e, ty.ty if ty is not None and ty.k == 'tref' else ty)

    def x_unary(self, e, ty):
        if e.op == '*':
            v = self.expr(e.e)
            return call('__r_deref', v)
        v = self.expr(e.e)
        if e.op == '!':
            return ast.UnaryOp(ast.Not(), v)
        if isinstance(v, ast.Constant) and isinstance(v.value, int):
            return const(-v.value)
        return ast.UnaryOp(ast.USub(), v)

    def x_bin(self, e, ty):
        if e.op in ('&&', '||'):
            a = self.expr(e.l)
            box = []
            st = self.sub(lambda: box.append(self.expr(e.r)))
            if not st:
                vals = []
                op = ast.And if e.op == '&&' else ast.Or
                for x in (a, box[0]):
                    vals += x.values if isinstance(x, ast.BoolOp) and isinstance(x.op, op) else [x]
                return ast.BoolOp(op(), vals)
            t = self.temp()
            self.emit(ast.Assign([store(t)], a), e.line)
            c = name(t) if e.op == '&&' else ast.UnaryOp(ast.Not(), name(t))
            self.emit(ast.If(c, st + [loc(ast.Assign([store(t)], box[0]), e.line)], []), e.line)
            return name(t)
        a, b = self.several([e.l, e.r])
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        if op in CMP:
            return ast.Compare(a, [CMP[op]()], [b])
        if op == '/':
            return call('__r_div', a, b)
        if op == '%':
            return call('__r_rem', a, b)
        if op in ('&', '|', '^', '<<', '>>'):
            return call('__r_bit', const(op), a, b)
        return ast.BinOp(a, OPS[op](), b)

    def x_cast(self, e, ty):
        v = self.expr(e.e)
        r = self.mod.resolve(e.ty)
        return call('__r_as', v, const(r[1] if r[0] == 'prim' else '?'))

    def x_range(self, e, ty):
        if e.lo is None or e.hi is None:
            return call('__r_range_open', self.expr(e.lo) if e.lo is not None else const(None),
                        self.expr(e.hi) if e.hi is not None else const(None))
        lo, hi = self.several([e.lo, e.hi])
        if e.incl:
            hi = const(hi.value + 1) if isinstance(hi, ast.Constant) else ast.BinOp(hi, ast.Add(), const(1))
        return call('__r_range', lo, hi)

    def x_let(self, e, ty):
        v = self.held(e.e)
        tests, binds = self.pat(e.p, v)
        if binds:
            raise Untranslatable(f'let inside an expression (line {e.line})')
        return conj(tests)

    def x_matches(self, e, ty):
        v = self.held(e.e)
        tests, binds = self.pat(e.p, v)

        def go():
            ts = list(tests)
            if e.g is not None:
                for n, x in binds:
                    ts.append(call('__r_true', ast.NamedExpr(store(self.bind_name(n)), x)))
                ts.append(self.expr(e.g))
            return conj(ts)
        return self.scoped(go)

    def x_try(self, e, ty):
        v = self.held(e.e)
        self.emit(ast.If(call('__r_fails', copy_(v)), [ast.Return(call('__r_failure', copy_(v)))], []), e.line)
        return call('__r_inner', v)

    @staticmethod
    def inline_args(args):
        """format!("{x}{}", y) as format!("{}{}", x, y)"""
        t, rest = args[0].v, list(args[1:])
        holes = re.findall(r'{(.*?)}', t)
        if not all(re.fullmatch(r'[A-Za-z_]\w*|', h) for h in holes) or sum(not h for h in holes) != len(rest) or '{{' in t:
            return args
        vals = [N('path', args[0].line, path=(h,), targs=[]) if h else rest.pop(0) for h in holes]
        return [N('lit', args[0].line, v=re.sub(r'{.*?}', '{}', t), ty='str')] + vals

    def x_mac(self, e, ty):
        if e.name == 'vec':
            return ast.List(self.several(e.args, self.value), ast.Load())
        if e.name == 'format' and e.args and e.args[0].k == 'lit' and isinstance(e.args[0].v, str):
            return call('__r_format', *self.several(self.inline_args(e.args)))
        if e.name in ('format', 'write', 'writeln', 'concat', 'stringify'):
            return call('__r_format', *self.several([a for a in e.args if not (a.k == 'path' and a.path == ('f',) and e.name != 'format')]))
        if e.name in ('panic', 'unimplemented', 'unreachable', 'todo', 'assert', 'assert_eq', 'assert_ne', 'println', 'dbg'):
            self.into(e, None)
            return const(None)
        raise Untranslatable(f'rust macro {e.name}! (line {e.line})')

    def x_closure(self, e, ty):
        f = f'__cl{self.temp()[3:]}'
        args, pre = [], []
        self.scopes.append({})
        saved = self.loops
        self.loops = []
        ret, self.ret = self.ret, None
        try:
            for p in e.ps:
                q = p
                while q.k == 'pref':
                    q = q.p
                if q.k == 'pname' and q.sub is None:
                    args.append(ast.arg(self.bind_name(q.name)))
                elif q.k == 'pwild':
                    args.append(ast.arg(self.temp()))
                else:
                    t = self.temp()
                    args.append(ast.arg(t))
                    pre.append((q, t))

            def body():
                for q, t in pre:
                    self.destructure(q, name(t), e.line)
                self.into(e.body, ('ret',))
            st = self.sub(body)
        finally:
            self.scopes.pop()
            self.loops = saved
            self.ret = ret
        for n in ast.walk(ast.Module(st, [])):
            if isinstance(n, (ast.Name,)) and isinstance(n.ctx, ast.Store):
                if any(n.id == s for sc in self.scopes for s in sc.values()):
                    raise Untranslatable(f'rust closure assigns a captured variable (line {e.line})')
        a = ast.arguments([], args, None, [], [], None, [])
        if len(st) == 1 and isinstance(st[0], ast.Return) and st[0].value is not None:
            return ast.Lambda(a, st[0].value)
        self.emit(ast.FunctionDef(f, a, st or [ast.Pass()], []), e.line)
        return name(f)

    def x_call(self, e, ty):
        f = e.f
        while f.k == 'paren':
            f = f.e
        if f.k == 'path':
            p = f.path
            if p in (('Some',), ('Ok',), ('Err',)):
                inner = None
                if ty is not None:
                    r = self.mod.resolve(ty)
                    if r[0] == 'std' and r[1] in ('Option', 'Result') and r[2]:
                        inner = r[2][0] if p != ('Err',) else r[2][-1]
                return call(f'__r_{p[0]}', self.value(e.args[0], inner))
            if len(p) == 1 and not self.find(p[0]) and p[0] in self.mod.structs:
                tys = iter([t for _, t in self.mod.structs[p[0]].fields])
                return call(name(p[0]), *self.several(e.args, lambda x: self.value(x, next(tys, None))))
            if p == ('Self',):
                return call(name(self.cname), *self.several(e.args, self.value))
            if len(p) > 1 and p[-2] in ('HashMap', 'BTreeMap', 'Vec', 'HashSet', 'BTreeSet') and self.mod.resolve_name(p[-2])[0] == 'other':
                pass
        fv = self.expr(f)
        args = self.several(e.args, self.value)
        return call(fv, *args)

    TURBO = ('collect', 'sum', 'product', 'into', 'unzip', 'parse')

    def x_mcall(self, e, ty):
        recv = e.e
        while recv.k in ('paren', 'ref'):
            recv = recv.e
        hints = []
        if e.name in self.TURBO:
            t = e.targs[0] if e.targs else ty
            hints = [const(self.kind(t))]
        box = self.several([recv] + list(e.args), lambda x: self.expr(x) if x is recv else self.value(x))
        r, args = box[0], box[1:]
        return method(r, e.name, *args, *hints)

    def kind(self, t):
        """what collect() makes"""
        if t is None:
            return '?'
        if t.k == 'ttuple':
            return 'tuple:' + ','.join(self.kind(x) for x in t.ts)
        if t.k == 'tpath' and t.path == ('Self',):
            for std, cn in self.mod.exts:
                if cn == self.cname:
                    return std
            return f'class:{self.cname}'
        r = self.mod.resolve(t)
        if r[0] == 'std':
            if r[1] in ('Option', 'Result') and r[2]:
                return f'{r[1]}:' + self.kind(r[2][0])
            return r[1]
        if r[0] == 'class':
            return f'class:{r[1]}'
        if r[0] == 'prim':
            return r[1]
        return '?'


OPS = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult}
CMP = {'==': ast.Eq, '!=': ast.NotEq, '<': ast.Lt, '>': ast.Gt, '<=': ast.LtE, '>=': ast.GtE}


def conj(tests):
    if not tests:
        return const(True)
    if len(tests) == 1:
        return tests[0]
    return ast.BoolOp(ast.And(), tests)


def neg(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    return ast.UnaryOp(ast.Not(), t)


def has_let(e):
    if not isinstance(e, N):
        return False
    if e.k == 'let':
        return True
    if e.k == 'bin' and e.op == '&&':
        return has_let(e.l) or has_let(e.r)
    if e.k == 'paren':
        return has_let(e.e)
    return False


def has_break(b):
    for s in b:
        for n in ast.walk(s):
            if isinstance(n, ast.Break):
                return True
    return False


def lower(text, modname):
    L = Lower(parse(text), modname)
    m = L.module()
    ast.fix_missing_locations(m)
    return m, L
