"""Domain of symbolic counts (tm/num.py): values, kinds, operator contracts, caches.

A Count is an int or an instance of Add/Mul/Div/Exp.  Its mathematical value V is an integer
expression; classes give V by their fields (the specification of the data structure):
  V(Add) = V(l)+V(r)   V(Mul) = V(l)*V(r)   V(Div)*den = V(num), den >= 1   V(Exp) = base**V(exp)
Tet is a display-only estimate and outside the domain."""
from __future__ import annotations
import itertools
import z3
from .values import *
from .engine import (Ext, ExcVal, FuncVal, SB, SI, SF, UnionV, BoundMethod, Builtin, zbool, zreal, same)
from . import engine
from . import prover, congr
from .prover import POW

NUM = 'tm/num.py'
KINDS = ('int', 'Add', 'Mul', 'Div', 'Exp')
FIELDS = {'Add': ('l', 'r'), 'Mul': ('l', 'r'), 'Div': ('num', 'den'), 'Exp': ('base', 'exp'), 'int': ()}


class Cnt(Ext):
    __slots__ = ('kinds', 'fields', 'v', 'up', 'attrs', 'cached', 'cid', 'building', 'label')
    _n = itertools.count()

    def __init__(self, v, kinds=KINDS, fields=None, label='c'):
        self.v = v
        self.kinds = frozenset(kinds)
        self.fields = fields
        self.up = None
        self.attrs = {}
        self.cached = True
        self.cid = next(Cnt._n)
        self.building = False
        self.label = label

    # union-find
    def root(self):
        x = self
        while x.up is not None:
            x = x.up
        return x

    @property
    def V(self):
        return self.root().v

    @property
    def kind(self):
        k = self.root().kinds
        return next(iter(k)) if len(k) == 1 else None

    def __repr__(self):
        r = self.root()
        return f'Cnt[{"|".join(sorted(r.kinds))}]({r.v})'

    # -------- kinds
    def is_kind(self, X, name):
        """python bool; forks"""
        r = self.root()
        if name not in r.kinds:
            return False
        if len(r.kinds) == 1:
            return True
        i = X.choose(2, f'{r.label}:{name}')
        if i == 0:
            self.set_kinds(X, {name})
            return True
        self.set_kinds(X, r.kinds - {name})
        return False

    def set_kinds(self, X, ks):
        r = self.root()
        ks = frozenset(ks) & r.kinds
        if not ks:
            raise engine.PathEnd
        r.kinds = ks
        if 'int' in ks and len(ks) == 1:
            X.domain.on_int(X, r)
            X.domain.check_symbolic(X)

    def need_kind(self, X):
        """decide the kind completely"""
        r = self.root()
        ks = [k for k in KINDS if k in r.kinds]
        if len(ks) > 1:
            i = X.choose(len(ks), f'{r.label}:kind')
            self.set_kinds(X, {ks[i]})
        return self.kind

    def is_int(self, X):
        return self.is_kind(X, 'int')

    def field(self, X, name):
        r = self.root()
        if r.fields is None:
            self.expand(X)
        return r.fields[name]

    def expand(self, X):
        r = self.root()
        k = self.kind
        D = X.domain
        if k == 'Add':
            l, rr = D.new(X, f'{r.label}.l'), D.new(X, f'{r.label}.r', KINDS[1:])
            r.fields = {'l': l, 'r': rr}
            D.define(X, r, l.V + rr.V)
        elif k == 'Mul':
            l, rr = D.new(X, f'{r.label}.l'), D.new(X, f'{r.label}.r', KINDS[1:])
            r.fields = {'l': l, 'r': rr}
            D.define(X, r, l.V * rr.V)
            # representation invariant: an int coefficient multiplies a power
            if l.is_kind(X, 'int'):
                rr.set_kinds(X, {'Exp'})
            D.mul_wf(X, l, rr)
        elif k == 'Div':
            n = D.new(X, f'{r.label}.num', KINDS[1:])
            d = SI(X.fresh(f'{r.label}.den'))
            X.assume(d.e >= 1)
            r.fields = {'num': n, 'den': d}
            # exactness: the numerator is a multiple of the denominator
            D.define(X, n, d.e * r.v)
        elif k == 'Exp':
            b = SI(X.fresh(f'{r.label}.base'))
            X.assume(b.e >= 2)
            e = D.new(X, f'{r.label}.exp')
            r.fields = {'base': b, 'exp': e}
            X.assume(e.V >= 1)
            D.define(X, r, POW(b.e, e.V))
        else:
            raise Untranslatable(f'fields of {r!r}')

    # -------- protocol
    def as_int(self):
        return SI(self.V)

    def isinstance(self, X, cls):
        if cls is int:
            return self.is_int(X)
        if isinstance(cls, ClassVal) and cls.module and cls.module.path == NUM:
            if cls.name == 'Num':
                return not self.is_int(X)
            if cls.name == 'Tet':
                return False
            if cls.name in KINDS:
                return self.is_kind(X, cls.name)
        if cls in (str, tuple, list, dict, set, bool):
            return False
        raise Untranslatable(f'isinstance(count, {cls!r})')

    def truth(self, X):
        if self.is_int(X):
            return SB(self.V != 0)
        return True

    def getattr(self, X, name):
        r = self.root()
        if name in ('depth', 'leaves', 'tower_est'):
            if self.is_int(X):
                raise PyRaise(AttributeError, (name,))
            if name not in r.attrs:
                a = X.fresh(f'{r.label}.{name}')
                X.assume(a >= 1)
                r.attrs[name] = SI(a)
            return r.attrs[name]
        if r.building:
            if name in (r.fields or {}):
                return r.fields[name]
            if name in r.attrs:
                return r.attrs[name]
        for k in KINDS[1:]:
            if name in FIELDS[k]:
                ks = frozenset(q for q in KINDS if name in FIELDS[q])
                if not (r.kinds & ks):
                    raise PyRaise(AttributeError, (name,))
                if not r.kinds <= ks:
                    if X.choose(2, f'{r.label} has {name}'):
                        self.set_kinds(X, r.kinds - ks)
                        raise PyRaise(AttributeError, (name,))
                    self.set_kinds(X, ks)
                self.need_kind(X)
                return self.field(X, name)
        if self.is_int(X):
            raise PyRaise(AttributeError, (name,))
        # a method or property of the class
        cv = X.domain.cls(X, 'Num')
        owners = [k for k in KINDS[1:] if k in r.kinds]
        found = {id(X.domain.cls(X, k).lookup(name)[1]): k for k in owners}
        if len(found) > 1:
            self.need_kind(X)
            owners = [self.kind]
        owner, m = X.domain.cls(X, owners[0]).lookup(name)
        if m is None:
            raise PyRaise(AttributeError, (name,))
        if isinstance(m, FuncVal):
            import ast
            decos = [ast.unparse(d) for d in m.node.decorator_list]
            if 'property' in decos:
                return X.call(m, [self], {})
            return BoundMethod(self, m)
        raise Untranslatable(f'attribute {name} of count')

    def setattr(self, X, name, v):
        r = self.root()
        if not r.building:
            if name in ('depth', 'leaves', 'tower_est'):
                X.prove('count-immutable', z3.BoolVal(False))
            X.prove('count-immutable', z3.BoolVal(False))
            return
        if name in FIELDS[self.kind]:
            if r.fields is None:
                r.fields = {}
            r.fields[name] = v
        else:
            r.attrs[name] = v

    def identity(self, X):
        return Opaque('id')

    def havoc(self, X, name):
        return X.domain.new(X, name)

    def to_int(self, X):
        return SI(self.V)

    # -------- operators: the class-level contracts
    def compare(self, X, op, other, refl):
        D = X.domain
        if op in ('is', '==', '!=', 'is not'):
            r = D.struct_eq(X, self, other)
            if op in ('!=', 'is not'):
                return (not r) if isinstance(r, bool) else SB(z3.Not(r.e))
            return r
        o = D.lift(X, other)
        if o is None:
            raise Untranslatable(f'comparison of a count with {other!r}')
        a, b = (o, self) if refl else (self, o)
        return D.order(X, op, a, b)

    def binop(self, X, op, other, refl):
        D = X.domain
        o = D.lift(X, other)
        if o is None:
            if isinstance(other, (SF, float)):
                return SF()
            raise Untranslatable(f'{op} of a count and {other!r}')
        a, b = (o, self) if refl else (self, o)
        return D.arith(X, op, a, b)

    def unary(self, X, op):
        D = X.domain
        if op == '-':
            if self.kind == 'int':
                return SI(-self.V)
            X.used.add('op:neg')
            return D.result(X, -self.V)
        raise Untranslatable(f'unary {op} on count')

    def abs(self, X):
        if self.is_int(X):
            return SI(z3.If(self.V >= 0, self.V, -self.V))
        raise PyRaise(TypeError, ())

    def divmod(self, X, other, refl):
        D = X.domain
        o = D.lift(X, other)
        a, b = (o, self) if refl else (self, o)
        return D.divmod(X, a, b)

    def contains(self, X, k):
        if self.is_int(X):
            raise PyRaise(TypeError, ())
        return SB(X.fresh('contains', 'bool'))


class CacheV(Ext):
    """one of the interning tables: table[first][second] is the unique object with these fields"""
    def __init__(self, kind):
        self.kind = kind

    def getitem(self, X, k):
        return CacheRow(self.kind, k)

    def call(self, X, args, kw):
        raise Untranslatable('cache call')

    def getattr(self, X, name):
        if name in ('clear', 'pop', 'update', 'popitem'):
            X.prove('interning-table-only-grows', z3.BoolVal(False))
        if name == 'setdefault':
            return Builtin('setdefault', lambda X, a, k: CacheRow(self.kind, a[0]))
        raise Untranslatable(f'{name} of an interning table')

    def setitem(self, X, k, v):
        raise Untranslatable('assignment to a row of an interning table')

    def truth(self, X):
        return SB(X.fresh('cache', 'bool'))


class CacheRow(Ext):
    def __init__(self, kind, first):
        self.kind = kind
        self.first = first

    def entry(self, X, k):
        D = X.domain
        f1, f2 = FIELDS[self.kind]
        key = (self.kind, self.first, k)
        for (kk, a, b, obj) in X.ghost.setdefault('stored', []):
            if kk == self.kind and same_val(X, a, self.first) and same_val(X, b, k):
                return obj
        if (self.kind, key_id(self.first), key_id(k)) in X.ghost.setdefault('absent', set()):
            return None
        if X.choose(2, f'interned {self.kind}') == 0:
            # hit: by the table invariant the stored object has exactly these fields
            obj = D.make(X, self.kind, {f1: self.first, f2: k})
            obj.cached = True
            X.ghost['stored'].append((self.kind, self.first, k, obj))
            return obj
        X.ghost['absent'].add((self.kind, key_id(self.first), key_id(k)))
        return None

    def getitem(self, X, k):
        obj = self.entry(X, k)
        if obj is None:
            raise PyRaise(KeyError, (k,))
        return obj

    def contains(self, X, k):
        return self.entry(X, k) is not None

    def setitem(self, X, k, v):
        f1, f2 = FIELDS[self.kind]
        ok = isinstance(v, Cnt) and v.kind == self.kind and v.root().fields is not None
        X.prove('interned-object-kind', z3.BoolVal(bool(ok)))
        r = v.root()
        X.prove(f'interned-under-its-own-{f1}', zeq(X, r.fields.get(f1), self.first))
        X.prove(f'interned-under-its-own-{f2}', zeq(X, r.fields.get(f2), k))
        absent = self.entry(X, k)
        X.prove('interned-entry-not-replaced', z3.BoolVal(absent is None or absent is v))
        r.cached = True
        X.ghost['stored'].append((self.kind, self.first, k, v))

    def getattr(self, X, name):
        if name == 'get':
            def get(X, a, k):
                o = self.entry(X, a[0])
                return o if o is not None else (a[1] if len(a) > 1 else None)
            return Builtin('get', get)
        if name == 'setdefault':
            def sd(X, a, k):
                o = self.entry(X, a[0])
                if o is None:
                    self.setitem(X, a[0], a[1])
                    o = a[1]
                return o
            return Builtin('setdefault', sd)
        raise Untranslatable(f'{name} of an interning row')


def key_id(v):
    if isinstance(v, Cnt):
        return ('c', v.root().cid)
    if isinstance(v, SI):
        return ('i', z3.simplify(v.e).get_id())
    return ('v', v)


def same_val(X, a, b):
    if isinstance(a, Cnt) and isinstance(b, Cnt):
        return a.root() is b.root()
    if is_int(a) and is_int(b):
        return z3.is_true(z3.simplify(zint(a) == zint(b)))
    return a is b


def zeq(X, a, b):
    """formula: a and b are the same key"""
    if isinstance(a, Cnt) and isinstance(b, Cnt):
        if a.root() is b.root():
            return z3.BoolVal(True)
        if a.kind == 'int' and b.kind == 'int':
            return a.V == b.V
        return z3.BoolVal(False)
    if isinstance(a, Cnt) and is_int(b):
        return a.V == zint(b) if a.kind == 'int' else z3.BoolVal(False)
    if isinstance(b, Cnt) and is_int(a):
        return zeq(X, b, a)
    if is_int(a) and is_int(b):
        return zint(a) == zint(b)
    return z3.BoolVal(a is b)


class NumDomain:
    """operator contracts and bookkeeping; `trust_order`: comparisons that answer are right"""
    externs = {}

    def __init__(self):
        self.order_axioms = False

    def reset(self, X):
        self.all = []
        self.exact = False
        self.diseq = []
        self.symbolic, self.closed, self.apart = [], [], set()
        X.ghost.clear()

    def cls(self, X, name):
        m = X.world.by_path(NUM)
        return X.world.class_val(m, name)

    def global_override(self, X, mod, name):
        if mod.path == NUM and name in ('ADDS', 'MULS', 'DIVS', 'EXPS'):
            return CacheV({'ADDS': 'Add', 'MULS': 'Mul', 'DIVS': 'Div', 'EXPS': 'Exp'}[name])
        return None

    # ---- construction
    def new(self, X, label, kinds=KINDS):
        c = Cnt(X.fresh(label), kinds, label=label)
        self.all.append(c)
        return c

    def of_int(self, X, v):
        if isinstance(v, Cnt):
            return v
        c = Cnt(zint(v), ('int',), label='i')
        self.all.append(c)
        self.on_int(X, c)
        return c

    def result(self, X, v, kinds=KINDS, label='res'):
        c = Cnt(z3.simplify(v), kinds, label=label)
        self.all.append(c)
        return c

    def lift(self, X, v):
        if isinstance(v, Cnt):
            return v
        if is_int(v):
            return self.of_int(X, v)
        return None

    def make(self, X, kind, fields):
        """an object of this kind with these fields (V determined by them)"""
        c = Cnt(self.value_of(X, kind, fields), (kind,), dict(fields), label=kind.lower())
        self.all.append(c)
        return c

    def value_of(self, X, kind, f):
        def V(x):
            return x.V if isinstance(x, Cnt) else zint(x)
        if kind == 'Add':
            return V(f['l']) + V(f['r'])
        if kind == 'Mul':
            return V(f['l']) * V(f['r'])
        if kind == 'Exp':
            return POW(V(f['base']), V(f['exp']))
        if kind == 'Div':
            q = X.fresh('quot')
            X.assume(V(f['num']) == V(f['den']) * q)
            return q
        raise Untranslatable(kind)

    def define(self, X, c, expr):
        """c.V is given by expr"""
        X.assume(c.root().v == expr)

    def mul_wf(self, X, l, r):
        pass

    def on_int(self, X, c):
        pass

    def owns_class(self, X, cv):
        return cv.module is not None and cv.module.path == NUM and cv.name in KINDS

    def instantiate(self, X, cv, args, kw):
        """constructor call: run the real __init__ on a fresh object"""
        if not X.ghost.get('ctor_ok'):
            X.prove('constructed-only-through-interning', z3.BoolVal(False))
        c = Cnt(None, (cv.name,), None, label=cv.name.lower())
        c.building = True
        c.cached = False
        _, init = cv.lookup('__init__')
        X.invoke(init, [c] + list(args), kw, force_inline=True)
        c.building = False
        f = c.fields or {}
        for n in FIELDS[cv.name]:
            if n not in f:
                X.prove(f'{cv.name}-field-{n}-set', z3.BoolVal(False))
                f[n] = self.new(X, n)
        c.v = self.value_of_checked(X, cv.name, f)
        self.all.append(c)
        return c

    def value_of_checked(self, X, kind, f):
        return self.value_of(X, kind, f)

    # ---- equality (identity of interned objects)
    def struct_eq(self, X, a, b):
        """bool or SB"""
        b2 = self.lift(X, b)
        if b2 is None:
            return False
        a, b = a.root(), b2.root()
        if a is b:
            return True
        if not (a.kinds & b.kinds):
            return False
        if a.kind == 'int' and b.kind == 'int':
            return SB(a.V == b.V)
        if a.kind == 'int' or b.kind == 'int':
            o = b if a.kind == 'int' else a
            if not o.is_kind(X, 'int'):
                return False
            return SB(a.V == b.V)
        if a.kind and a.kind == b.kind and a.fields and b.fields:
            out = []
            for n in FIELDS[a.kind]:
                r = self.struct_eq(X, a.fields[n], b.fields[n]) if isinstance(a.fields[n], Cnt) else \
                    (self.struct_eq(X, b.fields[n], a.fields[n]) if isinstance(b.fields[n], Cnt)
                     else X.eq(a.fields[n], b.fields[n]))
                if r is False or (isinstance(r, SB) and not X.truth(r)):
                    return False
            self.merge(X, a, b)
            return True
        for (p, q) in self.diseq:
            if {p.root(), q.root()} == {a, b}:
                return False
        # different values cannot be the same object
        if X.choose(2, f'{a.label}=={b.label}') == 0:
            self.merge(X, a, b)
            return True
        self.diseq.append((a, b))
        return False

    def merge(self, X, a, b):
        a, b = a.root(), b.root()
        if a is b:
            return
        ks = a.kinds & b.kinds
        if not ks:
            raise engine.PathEnd
        X.assume(a.v == b.v)
        if a.fields is None and b.fields is not None:
            a, b = b, a
        fa, fb = a.fields, b.fields
        b.up = a
        for k, v in b.attrs.items():
            if k in a.attrs:
                X.assume(zint(a.attrs[k]) == zint(v))
            else:
                a.attrs[k] = v
        if ks != a.kinds:
            a.kinds = ks
            if ks == frozenset(('int',)):
                self.on_int(X, a)
        if fa is not None and fb is not None:
            for n in FIELDS[a.kind]:
                x, y = fa[n], fb[n]
                if isinstance(x, Cnt) and isinstance(y, Cnt):
                    self.merge(X, x, y)
                else:
                    vx = x.V if isinstance(x, Cnt) else zint(x)
                    vy = y.V if isinstance(y, Cnt) else zint(y)
                    X.assume(vx == vy)
        for (p, q) in self.diseq:
            if p.root() is q.root():
                raise engine.PathEnd
        self.check_symbolic(X)

    def check_symbolic(self, X):
        """consequences of newly known plain ints"""
        for a, b in self.symbolic:
            if a.kind == 'int' and b.kind == 'int':
                raise engine.PathEnd
        for a, b, r in self.closed:
            if a.kind == 'int' and b.kind == 'int' and r.kind != 'int':
                r.set_kinds(X, {'int'})
        for p, q in self.diseq:
            if p.kind == 'int' and q.kind == 'int' and (p.cid, q.cid) not in self.apart:
                self.apart.add((p.cid, q.cid))
                X.assume(p.V != q.V)

    # ---- ordering
    def order(self, X, op, a, b):
        X.used.add('op:cmp')
        x, y = a.V, b.V
        if not (a.kind == 'int' and b.kind == 'int'):
            try:
                X.maybe_raise(NotImplementedError)
            except PyRaise:
                self.symbolic.append((a, b))        # at least one of them is not a plain int
                self.check_symbolic(X)
                raise
        return SB({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])

    # ---- arithmetic
    def arith(self, X, op, a, b):
        x, y = a.V, b.V
        if a.kind == 'int' and b.kind == 'int':
            return X.int_op(op, SI(x), SI(y))
        X.used.add('op:' + op)
        if op in ('+', '-', '*'):
            r = self.result(X, {'+': x + y, '-': x - y, '*': x * y}[op])
            self.closed.append((a, b, r))
            return r
        if op == '//':
            return self.floordiv(X, a, b)
        if op == '%':
            return self.mod(X, a, b)
        if op == '**':
            return self.power(X, a, b)
        raise Untranslatable(f'{op} on counts')

    def to_cnt(self, X, v):
        return self.lift(X, v)

    def floordiv(self, X, a, b):
        """exact division: requires the divisor to divide"""
        if a.is_int(X):
            if b.is_int(X):
                return X.int_op('//', SI(a.V), SI(b.V))
            raise PyRaise(TypeError, ())
        if X.truth(SB(b.V == 0)):
            raise PyRaise(ZeroDivisionError, ())
        q = self.exact_quotient(X, a.V, b.V)
        return self.result(X, q)

    def exact_quotient(self, X, x, y):
        """obligation: y divides x; returns the quotient"""
        q = divide_poly(X, x, y)
        if q is not None:
            X.prove('exact-division', q * y == x)
            return q
        q = X.fresh('quot')
        f = X.hooks.get('divisible')
        if f:
            r = f(X, x, y)
            if r is not None:
                return r
        from . import congr
        if congr.congruent(X, x, z3.IntVal(0), y):
            X.settled('exact-division', 'divisibility')
        else:
            X.prove('exact-division', z3.Exists([q], q * y == x))
        X.assume(q * y == x)
        return q

    def mod(self, X, a, b):
        if a.is_int(X):
            if b.is_int(X):
                return X.int_op('%', SI(a.V), SI(b.V))
            raise PyRaise(TypeError, ())
        if not b.is_int(X):
            raise Untranslatable('count % count')
        m = b.V
        if X.truth(SB(m <= 0)):
            raise Untranslatable('modulo by a non-positive number')
        self.raise_mod(X)
        K, r = X.fresh('modq'), X.fresh('modr')
        X.assume(z3.And(r >= 0, r < m, a.V == m * K + r))
        return SI(r)

    def raise_mod(self, X):
        m = X.world.by_path(NUM)
        for n in ('ExpModLimit', 'ModDepthLimit'):
            if n in m.defs:
                X.maybe_raise(X.world.class_val(m, n))

    def divmod(self, X, a, b):
        if a.is_int(X):
            if b.is_int(X):
                return X.int_op('//', SI(a.V), SI(b.V)), X.int_op('%', SI(a.V), SI(b.V))
            raise PyRaise(TypeError, ())
        if not b.is_int(X):
            raise Untranslatable('divmod by a count')
        m = b.V
        X.used.add('op:divmod')
        if X.truth(SB(m <= 0)):
            raise Untranslatable('divmod by a non-positive number')
        self.raise_mod(X)
        K, r = X.fresh('divq'), X.fresh('divr')
        X.assume(z3.And(r >= 0, r < m, a.V == m * K + r))
        return self.result(X, K), SI(r)

    def exponent(self, X, e):
        """precondition of making a power; an int exponent < 1 raises"""
        e = self.lift(X, e)
        if e.is_int(X):
            if X.truth(SB(e.V < 1)):
                raise PyRaise(ValueError, ())
            return
        X.prove('exponent-not-negative', e.V >= 0)
        X.assume(e.V >= 1)          # assumption S: a symbolic exponent that is not negative is positive

    def big_exponent(self, X, e, k):
        """assumption S: a symbolic exponent exceeds the logarithm of every plain divisor"""
        if isinstance(e, Cnt) and not e.is_int(X):
            X.assume(k <= e.V)

    def prove_congruent(self, X, name, s, r, m):
        if not X.replaying() and congr.congruent(X, s, r, m):
            X.settled(name, 'congruence procedure')
            return
        K = X.fresh('K')
        X.prove(name, z3.Exists([K], s - r == m * K))

    def power(self, X, a, b):
        if a.is_int(X):
            if not self.exact and X.truth(SB(b.V < 0)):
                raise Untranslatable('negative exponent')
            X.prove('power-base', a.V >= 2)
            self.exponent(X, b)
            return self.result(X, X.pow(a.V, b.V), ('Exp',))
        if a.is_kind(X, 'Exp'):
            base, e = a.field(X, 'base'), a.field(X, 'exp')
            return self.result(X, POW(zint(base), self.arith_value(X, e, b)), ('Exp',))
        raise Untranslatable('power of a count')

    def arith_value(self, X, e, b):
        return e.V * b.V

    def tuple_repeat(self, X, t, n):
        raise Untranslatable('tuple repeat')

    def opaque_comp(self, X, e, gens, fr, first, inner, kind):
        raise Untranslatable('comprehension over an opaque collection')

    def enumerate(self, X, v, start):
        raise Untranslatable('enumerate')

    def zip(self, X, a):
        raise Untranslatable('zip')


def divide_poly(X, x, y):
    """syntactic quotient of the polynomial x by the polynomial y (None when there is none)"""
    try:
        pc = prover.PolyCtx()
        prover.orient(pc, X.facts)
        p, q = pc.of(x), pc.of(y)
    except (OverflowError, RecursionError):
        return None
    if q.is_zero():
        return None
    if len(q.t) != 1:
        return None
    (m, c), = q.t.items()
    out = {}
    for mm, cc in p.t.items():
        rest = list(mm)
        for a in m:
            if a in rest:
                rest.remove(a)
            else:
                return None
        if cc % c:
            return None
        out[tuple(rest)] = cc // c
    return to_z3(pc, prover.Poly(out))


def to_z3(pc, p):
    r = z3.IntVal(0)
    for m, c in p.t.items():
        t = z3.IntVal(c)
        for a in m:
            t = t * atom_term(pc, a)
        r = r + t
    return z3.simplify(r)


def atom_term(pc, a):
    t = pc.terms[a]
    if isinstance(t, tuple):
        return POW(to_z3(pc, t[1]), to_z3(pc, t[2]))
    return t
