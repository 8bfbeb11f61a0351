"""The interpreter for lowered Rust (rlower): the engine of pyvc plus Option, references, Rust's method tables and static
dispatch.  Integers are mathematical (wrapping, casts that lose bits and unsigned underflow are not modelled)."""
from __future__ import annotations
import ast
import os
import itertools
import z3
from . import source, rlower
from .values import *
from .engine import Interp, Ext, METHODS, ExcVal, RangeV, SliceV, b_zip, b_enumerate, b_map, b_len, zbool, CountV
from .seq import SeqV, SeqTail, as_seq, slice_seq, concat as seq_concat, const_seq, term


# -------------------------------------------------------------------- world
class RModule(source.Module):
    def __init__(self, world, name, path):
        self.world, self.name, self.path = world, name, path
        with open(os.path.join(source.REPO, path), encoding='utf-8') as f:
            self.text = f.read()
        self.tree, self.low = rlower.lower(self.text, name)
        self.defs, self.globals = {}, {}
        self._scan(self.tree.body)


class RWorld(source.World):
    def __init__(self):
        super().__init__()
        rlower.CACHE.clear()

    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name and name.startswith('src.'):
            rel = name.replace('.', '/') + '.rs'
            if not os.path.exists(os.path.join(source.REPO, rel)):
                return None
            m = RModule(self, name, rel)
            self.modules[name] = m
            return m
        return super().module(name)


class Panic(Exception):
    """Rust panic"""


# -------------------------------------------------------------------- values
class Wrap(Val):
    """Some, Ok, Err"""
    __slots__ = ('kind', 'v')

    def __init__(self, kind, v):
        self.kind, self.v = kind, v

    def __repr__(self):
        return f'{self.kind}({self.v!r})'


def Some(v):
    return Wrap('Some', v)


class Ref(Val):
    """&mut to a place"""
    __slots__ = ('get', 'set')

    def __init__(self, get, set):
        self.get, self.set = get, set


class TraitV(Val):
    __slots__ = ('cls', 'name')

    def __init__(self, name, cls=None):
        self.name, self.cls = name, cls


CELL = ClassVal('Cell', ast.parse('class Cell: pass').body[0], None, [], {})


def cell(v):
    return Obj(CELL, {'v': v})


def deref(v):
    return v.get() if isinstance(v, Ref) else v


PURE = (Wrap, tuple)


class RInterp(Interp):
    # ---------------------------------------------------------------- names
    def global_name(self, name, mod):
        if name.startswith('__r_'):
            return Builtin(name, r_builtin(name))
        return super().global_name(name, mod)

    # ---------------------------------------------------------------- attributes
    def getattr(self, o, name):
        o = deref(o)
        if isinstance(o, tuple) and name[:1] == '_' and name[1:].isdigit():
            return o[int(name[1:])]
        if isinstance(o, TraitV):
            return Builtin(f'{o.name}.{name}', lambda X, a, k: X.trait_call(o, name, a))
        if isinstance(o, ClassVal) and name.startswith('__variant__'):
            return self.world.class_val(o.module, f'{o.name}__{name[11:]}')
        return super().getattr(o, name)

    def setattr(self, o, name, v):
        o = deref(o)
        if isinstance(o, tuple):
            raise Untranslatable('part of a tuple assigned')
        super().setattr(o, name, v)

    def trait_call(self, t, name, args):
        """Trait::method(args): the method of the class the bound stands for"""
        if args:
            o = deref(args[0])
            if isinstance(o, Obj) and self.is_method(o.cls, name):
                return self.rmethod(o, name, args[1:])
            if isinstance(o, Ext):
                return self.rmethod(o, name, args[1:])
        c = self.domain.generic(self, t.name)
        if c is None:
            raise Untranslatable(f'type parameter {t.name}')
        _, m = c.lookup(name)
        if not isinstance(m, FuncVal):
            raise Untranslatable(f'{t.name}::{name}')
        return self.call(m, list(args), {})

    @staticmethod
    def is_method(c, name):
        _, m = c.lookup(name)
        return isinstance(m, FuncVal) and bool(getattr(m.node, 'rust_self', True))

    # ---------------------------------------------------------------- calls
    def e_Call(self, e, fr):
        f = e.func
        if getattr(f, 'rust_method', False):
            o = self.eval(f.value, fr)
            args = [self.eval(x, fr) for x in e.args]
            return self.rmethod(o, f.attr, args)
        return super().e_Call(e, fr)

    def rmethod(self, o, name, args):
        o = deref(o)
        if isinstance(o, Obj):
            if o.cls is CELL:
                return cell_method(self, o, name, args)
            _, m = o.cls.lookup(name)
            if isinstance(m, FuncVal):
                return self.call(m, [o] + list(args), {})
            if name == 'into':
                return self.domain.into(self, o, args[0] if args else '?')
            r = self.domain.rmethod(self, o, name, args)
            if r is not NotImplemented:
                return r
            if name in ('clone', 'to_owned'):
                return self.rclone(o)
            if name in ('borrow', 'borrow_mut', 'as_ref', 'as_mut', 'by_ref', 'iter', 'lock', 'unwrap', 'into_inner', 'deref'):
                return o
            if name == 'to_string':
                return Opaque('str')
            raise Untranslatable(f'method {name} of {o.cls.name}')
        r = self.domain.rmethod(self, o, name, args)
        if r is not NotImplemented:
            return r
        if isinstance(o, Ext):
            f = getattr(o, 'rm_' + name, None)
            if f is not None:
                return f(self, *args)
            if isinstance(o, SeqV):
                return iter_method(self, o, name, args)
            c = o.rust_class(self) if hasattr(o, 'rust_class') else None
            if c is not None:
                _, m = c.lookup(name)
                if isinstance(m, FuncVal):
                    return self.call(m, [o] + list(args), {})
            if name == 'into' and c is not None:
                return self.domain.into(self, o, args[0] if args else '?')
            if name in ('clone', 'to_owned', 'as_ref', 'borrow') and getattr(o, 'rust_value', False):
                return o
            raise Untranslatable(f'method {name} of {o!r}')
        ext = self.ext_method(o, name)
        if ext is not None:
            return self.call(ext, [o] + list(args), {})
        if o is None or isinstance(o, Wrap):
            return opt_method(self, o, name, args)
        if isinstance(o, (bool, SB)):
            return bool_method(self, o, name, args)
        if isinstance(o, (int, SI)):
            return int_method(self, o, name, args)
        if isinstance(o, Lst):
            return vec_method(self, o, name, args)
        if isinstance(o, Dct):
            return map_method(self, o, name, args)
        if isinstance(o, SetV):
            return set_method(self, o, name, args)
        if isinstance(o, (GenV, RangeV)):
            return iter_method(self, o, name, args)
        if isinstance(o, str):
            return str_method(self, o, name, args)
        if isinstance(o, tuple):
            if name in ('clone', 'to_owned', 'as_ref', 'borrow'):
                return tuple(self.rclone(x) for x in o) if name == 'clone' else o
            if name in ('max', 'min'):
                return args[0] if self.truth(self.compare('>' if name == 'min' else '<=', o, args[0])) else o
        if isinstance(o, Opaque):
            return Opaque(o.tag)
        if isinstance(o, FuncVal) and name == 'clone':
            return o
        raise Untranslatable(f'method {name} of {o!r}')

    def ext_method(self, o, name):
        """methods the crate adds to types of the library"""
        if not isinstance(o, (Dct, Lst)):
            return None
        want = ('BTreeMap', 'HashMap') if isinstance(o, Dct) else ('Vec',)
        for m in list(self.world.modules.values()):
            low = getattr(m, 'low', None)
            for std, cn in getattr(low, 'exts', ()):
                if std in want:
                    _, f = self.world.class_val(m, cn).lookup(name)
                    if isinstance(f, FuncVal):
                        return f
        return None

    def rclone(self, o):
        o = deref(o)
        h = self.domain.clone(self, o)
        if h is not NotImplemented:
            return h
        if isinstance(o, Obj):
            if o.cls is CELL and o.ghost.get('rc'):
                return o
            _, m = o.cls.lookup('clone')
            if isinstance(m, FuncVal):
                return self.call(m, [o], {})
            return Obj(o.cls, {k: self.rclone(v) for k, v in o.attrs.items()})
        if isinstance(o, Lst):
            if o.tail is not None:
                s = o.tail.as_seq(o)
                return Lst([], SeqTail(SeqV(s.n, lambda X, k: X.rclone(s.at(X, k)), 'list', label=s.label)))
            return Lst([self.rclone(x) for x in o.items])
        if isinstance(o, Dct):
            return Dct({k: self.rclone(v) for k, v in o.d.items()}, o.default)
        if isinstance(o, SetV):
            return SetV(o.s)
        if isinstance(o, Wrap):
            return Wrap(o.kind, self.rclone(o.v))
        if isinstance(o, tuple):
            return tuple(self.rclone(x) for x in o)
        if isinstance(o, Ext) and not getattr(o, 'rust_value', False) and not isinstance(o, SeqV):
            f = getattr(o, 'rm_clone', None)
            if f is None:
                raise Untranslatable(f'clone of {o!r}')
            return f(self)
        return o

    # ---------------------------------------------------------------- truth / equality
    def truth(self, v):
        return super().truth(deref(v))

    def eq(self, a, b):
        a, b = deref(a), deref(b)
        if isinstance(a, Wrap) or isinstance(b, Wrap):
            if isinstance(a, Ext) and hasattr(a, 'opt_some'):
                if not self.truth(SB(a.opt_some(self))):
                    return False
                return self.eq(a.opt_inner(self), b.v)
            if isinstance(b, Ext) and hasattr(b, 'opt_some'):
                return self.eq(b, a)
            if not (isinstance(a, Wrap) and isinstance(b, Wrap)) or a.kind != b.kind:
                return False
            return self.eq(a.v, b.v)
        if isinstance(a, Obj) and isinstance(b, Obj) and a is not b:
            _, m = a.cls.lookup('eq')
            if isinstance(m, FuncVal):
                return self.call(m, [a, b], {})
            r = self.domain.equal(self, a, b)
            if r is not NotImplemented:
                return r
            if a.cls is not b.cls:
                return False
            return self.conj([self.eqb(a.attrs[k], b.attrs[k]) for k in a.attrs])
        if isinstance(a, Lst) and isinstance(b, Lst) and a is not b and (a.tail is not None or b.tail is not None):
            r = self.domain.equal(self, a, b)
            if r is not NotImplemented:
                return r
            return as_seq(self, a).compare(self, '==', b, False)
        if isinstance(a, Opaque) and isinstance(b, (str, Opaque)) or isinstance(b, Opaque) and isinstance(a, str):
            return a is b or SB(self.fresh('streq', 'bool'))
        return super().eq(a, b)

    def compare(self, op, a, b):
        return super().compare(op, deref(a), deref(b))

    def binop(self, op, a, b):
        a, b = deref(a), deref(b)
        if isinstance(a, Obj) and not isinstance(b, Ext):
            n = {'+': 'add', '-': 'sub', '*': 'mul'}.get(op)
            if n and self.is_method(a.cls, n):
                return self.rmethod(a, n, [b])
        return super().binop(op, a, b)

    def unary(self, op, a):
        return super().unary(op, deref(a))

    def s_AugAssign(self, st, fr):
        if isinstance(st.target, ast.Name):
            cur = self.lookup(st.target.id, fr)
            if isinstance(cur, Ref):
                from .engine import BINOPS
                cur.set(self.binop(BINOPS[type(st.op)], cur.get(), self.eval(st.value, fr)))
                return
        super().s_AugAssign(st, fr)

    # ---------------------------------------------------------------- indexing
    def getitem(self, o, k):
        o, k = deref(o), deref(k)
        try:
            r = super().getitem(o, k)
        except PyRaise as e:
            if e.cls in (IndexError, KeyError):
                raise PyRaise(Panic, e.args_)
            raise
        return r

    def setitem(self, o, k, v):
        o = deref(o)
        try:
            return super().setitem(o, k, v)
        except PyRaise as e:
            if e.cls in (IndexError, KeyError):
                raise PyRaise(Panic, e.args_)
            raise

    # ---------------------------------------------------------------- iteration
    def iterate(self, v):
        v = deref(v)
        if isinstance(v, Dct):
            return iter([(k, x) for k, x in self.dict_order(v)])
        if v is None:
            return iter(())
        if isinstance(v, Wrap):
            return iter((v.v,))
        return super().iterate(v)

    def dict_order(self, d):
        """the order of a BTreeMap where it is known (else the order does not matter or is not modelled)"""
        ks = list(d.d)
        if all(plain(k) for k in ks):
            ks.sort(key=skey)
        return [(k, d.d[k]) for k in ks]

    def havoc_like(self, v, name):
        if isinstance(v, Wrap):
            from .engine import _Havocked
            return _Havocked(name)
        return super().havoc_like(v, name)


def plain(k):
    return isinstance(k, (int, bool, str)) or isinstance(k, tuple) and all(plain(x) for x in k)


def skey(k):
    return tuple(skey(x) for x in k) if isinstance(k, tuple) else k


class RDomain:
    """hooks with their defaults"""
    def generic(self, X, name):
        return None

    def rmethod(self, X, o, name, args):
        return NotImplemented

    def clone(self, X, o):
        return NotImplemented

    def equal(self, X, a, b):
        return NotImplemented

    def global_override(self, X, mod, name):
        return None

    def owns_class(self, X, cv):
        return False

    def reset(self, X):
        pass

    def into(self, X, v, kind):
        v = deref(v)
        if isinstance(v, (int, SI)):
            return v
        if isinstance(v, (bool, SB)):
            return SI(z3.If(zbool(v), 1, 0)) if isinstance(v, SB) else int(v)
        c = v.cls if isinstance(v, Obj) else v.rust_class(X) if hasattr(v, 'rust_class') else None
        for m in list(X.world.modules.values()):
            low = getattr(m, 'low', None)
            for cn, src, generics in getattr(low, 'froms', ()):
                t = src
                while t is not None and t.k == 'tref':
                    t = t.ty
                if t is None or t.k != 'tpath':
                    continue
                if kind.startswith('class:') and kind[6:] != cn:
                    continue
                n = t.path[-1]
                gs = {g: b for g, b in generics or ()}
                ok = False
                if n in gs:
                    ok = any(any(x.name == b.path[-1] for x in c.mro() if isinstance(x, ClassVal)) for b in gs[n])
                elif c is not None:
                    r = low.resolve(t)
                    ok = r[0] == 'class' and r[1] == c.name
                if ok:
                    _, f = X.world.class_val(m, cn).lookup('from')
                    return X.call(f, [v], {})
        raise Untranslatable(f'into of {v!r}')


# -------------------------------------------------------------------- builtins
def is_none(X, v):
    v = deref(v)
    if v is None:
        return True
    if isinstance(v, Wrap):
        return False
    if isinstance(v, Ext) and hasattr(v, 'opt_some'):
        return not X.truth(SB(v.opt_some(X)))
    raise Untranslatable(f'option {v!r}')


def inner(X, v):
    v = deref(v)
    if isinstance(v, Wrap):
        return v.v
    if isinstance(v, Ext) and hasattr(v, 'opt_inner'):
        return v.opt_inner(X)
    raise Untranslatable(f'inner of {v!r}')


def trunc_div(X, a, b):
    """quotient towards zero"""
    a, b = deref(a), deref(b)
    if isinstance(a, int) and isinstance(b, int):
        if b == 0:
            raise PyRaise(Panic, ('division by zero',))
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q
    if isinstance(a, Ext) or isinstance(b, Ext):
        return X.binop('//', a, b)
    x, y = zint(a), zint(b)
    if X.branch(y == 0, 'div0'):
        raise PyRaise(Panic, ('division by zero',))
    if z3.is_int_value(y) and y.as_long() > 0:
        return SI(z3.simplify(z3.If(x >= 0, x / y, -((-x) / y))))
    sx = X.branch(x >= 0, 'posnum')
    sy = X.branch(y > 0, 'posden')
    q, _ = X.divmod_terms(x if sx else -x, y if sy else -y)
    return SI(q if sx == sy else z3.simplify(-q))


def trunc_rem(X, a, b):
    a, b = deref(a), deref(b)
    if isinstance(a, int) and isinstance(b, int):
        if b == 0:
            raise PyRaise(Panic, ('division by zero',))
        r = abs(a) % abs(b)
        return r if a >= 0 else -r
    if isinstance(a, Ext) or isinstance(b, Ext):
        return X.binop('%', a, b)
    x, y = zint(a), zint(b)
    if X.branch(y == 0, 'div0'):
        raise PyRaise(Panic, ('division by zero',))
    if z3.is_int_value(y) and y.as_long() > 0:
        return SI(z3.simplify(z3.If(x >= 0, x % y, -((-x) % y))))
    sx = X.branch(x >= 0, 'posnum')
    sy = X.branch(y > 0, 'posden')
    _, r = X.divmod_terms(x if sx else -x, y if sy else -y)
    return SI(r if sx else z3.simplify(-r))


def r_isa(X, a, k):
    v, c = deref(a[0]), a[1]
    if isinstance(v, Ext):
        return v.isinstance(X, c)
    return isinstance(v, Obj) and v.cls.is_sub(c)


def r_as(X, a, k):
    v, t = deref(a[0]), a[1]
    h = getattr(X.domain, 'cast', None)
    if h is not None:
        r = h(X, v, t)
        if r is not NotImplemented:
            return r
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, SB):
        return SI(z3.If(v.e, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(v, str) and len(v) == 1:
        return ord(v)
    if t == 'char' and isinstance(v, int):
        return chr(v)
    return v


def r_store(X, a, k):
    p, v = a
    if isinstance(p, Ref):
        p.set(v)
        return None
    if isinstance(p, Obj) and isinstance(v, Obj) and p.cls is v.cls:
        for n, x in v.attrs.items():
            X.setattr(p, n, x)
        return None
    raise Untranslatable('store through a reference')


def r_refattr(X, a, k):
    o, n = deref(a[0]), a[1]
    v = X.getattr(o, n)
    if isinstance(v, (Obj, Lst, Dct, SetV, Ext)):
        return v if not (isinstance(v, Ext) and is_place_value(v)) else Ref(lambda: X.getattr(o, n), lambda w: X.setattr(o, n, w))
    return Ref(lambda: X.getattr(o, n), lambda w: X.setattr(o, n, w))


def is_place_value(v):
    return getattr(v, 'rust_value', False)


def r_refmut(X, a, k):
    o, i = deref(a[0]), deref(a[1])
    v = X.getitem(o, i)
    if isinstance(v, (Obj, Lst, Dct, SetV)) or isinstance(v, Ext) and not is_place_value(v):
        return v
    return Ref(lambda: X.getitem(o, i), lambda w: X.setitem(o, i, w))


def r_val(X, a, k):
    v = deref(a[0])
    if isinstance(v, Obj) and v.cls is not CELL:
        m = v.cls.module
        low = getattr(m, 'low', None)
        base = v.cls.name.split('__')[0]
        if low is not None and base in low.copies:
            return Obj(v.cls, dict(v.attrs))
    return v


def r_vec_repeat(X, a, k):
    v, n = a
    if isinstance(n, int):
        return Lst([X.rclone(v) for _ in range(n)])
    h = getattr(X.domain, 'repeated', None)
    if h is not None:
        return h(X, v, n)
    return Lst([], SeqTail(SeqV(z3.If(term(n) >= 0, term(n), 0), lambda X, k: v, 'list', label='repeat')))


def r_range_open(X, a, k):
    if a[1] is None and a[0] is not None:
        return CountV(a[0])
    return SliceV(a[0], a[1], None)


def r_bit(X, a, k):
    op, p, q = a[0], deref(a[1]), deref(a[2])
    if isinstance(p, (bool, SB)) and isinstance(q, (bool, SB)):
        x, y = zbool(p), zbool(q)
        return SB({'&': z3.And(x, y), '|': z3.Or(x, y), '^': z3.Xor(x, y)}[op])
    return X.binop(op, p, q)


def r_generic(X, a, k):
    return TraitV(a[0])


def r_trait(X, a, k):
    return TraitV(a[0].name, a[0])


def r_raise_panic(X, a, k):
    return ExcVal(Panic, ())


def r_minmax(name):
    return lambda X, a, k: X.rmethod(a[0], name, [a[1]])


def r_untranslatable(X, a, k):
    raise Untranslatable(f'rust: {a[0]}')


def fresh_container(kind):
    return {'Vec': Lst, 'VecDeque': Lst, 'BTreeMap': Dct, 'HashMap': Dct, 'HashSet': SetV, 'BTreeSet': SetV}[kind]()


def r_from(kind):
    def f(X, a, k):
        return collect(X, X.need_iter(a[0]), kind)
    return f


def r_deref(X, a, k):
    v = deref(a[0])
    if isinstance(v, Obj) and v.cls is CELL:
        return v.attrs['v']
    return v


def r_into_iter(X, a, k):
    v = deref(a[0])
    if isinstance(v, Obj):
        if X.is_method(v.cls, 'next'):
            raise Untranslatable('iteration by next()')
        if X.is_method(v.cls, 'into_iter'):
            return X.rmethod(v, 'into_iter', [])
    return v


R_BUILTINS = {
    '__r_Some': lambda X, a, k: Some(a[0]),
    '__r_Ok': lambda X, a, k: Wrap('Ok', a[0]),
    '__r_Err': lambda X, a, k: Wrap('Err', a[0]),
    '__r_is_some': lambda X, a, k: not is_none(X, a[0]),
    '__r_is_none': lambda X, a, k: is_none(X, a[0]),
    '__r_is_ok': lambda X, a, k: deref(a[0]).kind == 'Ok',
    '__r_is_err': lambda X, a, k: deref(a[0]).kind == 'Err',
    '__r_inner': lambda X, a, k: inner(X, a[0]),
    '__r_fails': lambda X, a, k: is_none(X, a[0]) or getattr(deref(a[0]), 'kind', '') == 'Err',
    '__r_failure': lambda X, a, k: None if is_none(X, a[0]) else deref(a[0]),
    '__r_true': lambda X, a, k: True,
    '__r_deref': r_deref,
    '__r_val': r_val,
    '__r_store': r_store,
    '__r_refattr': r_refattr,
    '__r_refmut': r_refmut,
    '__r_isa': r_isa,
    '__r_as': r_as,
    '__r_div': lambda X, a, k: trunc_div(X, *a),
    '__r_rem': lambda X, a, k: trunc_rem(X, *a),
    '__r_bit': r_bit,
    '__r_char': lambda X, a, k: a[0],
    '__r_slice': lambda X, a, k: SliceV(deref(a[0]), deref(a[1]), None),
    '__r_range': lambda X, a, k: RangeV(deref(a[0]), deref(a[1])),
    '__r_range_open': r_range_open,
    '__r_into_iter': r_into_iter,
    '__r_vec_repeat': r_vec_repeat,
    '__r_len': lambda X, a, k: X.rmethod(a[0], 'len', []),
    '__r_panic': r_raise_panic,
    '__r_format': lambda X, a, k: rformat(X, a),
    '__r_generic': r_generic,
    '__r_trait': r_trait,
    '__r_once': lambda X, a, k: GenV(iter([a[0]])),
    '__r_repeat': lambda X, a, k: RepeatV(a[0]),
    '__r_max': r_minmax('max'),
    '__r_min': r_minmax('min'),
    '__r_drop': lambda X, a, k: None,
    '__r_untranslatable': r_untranslatable,
    '__r_Rc_new': lambda X, a, k: a[0],
    '__r_Rc_clone': lambda X, a, k: deref(a[0]),
    '__r_Arc_new': lambda X, a, k: a[0],
    '__r_Arc_clone': lambda X, a, k: deref(a[0]),
    '__r_Box_new': lambda X, a, k: a[0],
    '__r_Cell_new': lambda X, a, k: cell(a[0]),
    '__r_RefCell_new': lambda X, a, k: cell(a[0]),
    '__r_Mutex_new': lambda X, a, k: cell(a[0]),
    '__r_Arc_try_unwrap': lambda X, a, k: Wrap('Ok', a[0]),
    '__r_Into_into': lambda X, a, k: X.domain.into(X, a[0], '?'),
    '__r_ToString_to_string': lambda X, a, k: Opaque('str'),
    '__r_Clone_clone': lambda X, a, k: X.rclone(a[0]),
    '__r_type_int': lambda X, a, k: a[0],
}


def r_builtin(name):
    if name in R_BUILTINS:
        return R_BUILTINS[name]
    p = name[4:].split('_', 1)
    if len(p) == 2 and p[0] in ('Vec', 'BTreeMap', 'HashMap', 'HashSet', 'BTreeSet', 'VecDeque'):
        if p[1] in ('new', 'with_capacity', 'default'):
            return lambda X, a, k: fresh_container(p[0])
        if p[1] == 'from':
            return r_from(p[0])

        def assoc(X, a, k):
            want = ('BTreeMap', 'HashMap') if p[0].endswith('Map') else (p[0],)
            for m in list(X.world.modules.values()):
                for std, cn in getattr(getattr(m, 'low', None), 'exts', ()):
                    if std in want:
                        _, f = X.world.class_val(m, cn).lookup(p[1])
                        if isinstance(f, FuncVal):
                            return X.call(f, list(a), {})
            raise Untranslatable(name)
        return assoc
    if name.startswith('__r_prim_') and name.endswith('_from'):
        return lambda X, a, k: r_as(X, [a[0], 'u64'], k)
    if name.startswith('__r_prim_') and name.endswith('_MAX'):
        raise Untranslatable(name)
    if name.startswith('__r_type_'):
        def ty(X, a, k):
            raise Untranslatable(name)
        return ty
    raise Untranslatable(f'rust name {name}')


class TypeCtor:
    pass


def rformat(X, a):
    h = getattr(X.domain, 'format', None)
    if h is not None:
        r = h(X, a)
        if r is not NotImplemented:
            return r
    if a and isinstance(a[0], str) and len(a) == 1 and '{' not in a[0]:
        return a[0]
    if a and a[0] == '{}' and len(a) == 2 and isinstance(deref(a[1]), (str, Opaque)):
        return deref(a[1])
    if a and isinstance(a[0], str) and a[0].count('{}') == len(a) - 1 and a[0].count('{') == len(a) - 1 \
            and all(isinstance(deref(x), (str, int)) and not isinstance(deref(x), bool) for x in a[1:]):
        return a[0].format(*[deref(x) for x in a[1:]])
    return Opaque('str')


class RepeatV(Ext):
    def __init__(self, v):
        self.v = v

    def rm_take(self, X, n):
        if isinstance(n, int):
            return GenV(iter([self.v] * n))
        return SeqV(z3.If(term(n) >= 0, term(n), 0), lambda X, k: self.v, 'gen', label='repeat')


# -------------------------------------------------------------------- methods
def cell_method(X, o, name, a):
    if name in ('get', 'borrow', 'borrow_mut', 'into_inner', 'take_inner'):
        v = o.attrs['v']
        if name == 'borrow_mut' and not isinstance(v, (Obj, Lst, Dct, SetV, Ext)):
            return Ref(lambda: o.attrs['v'], lambda w: X.setattr(o, 'v', w))
        return v
    if name == 'set':
        X.setattr(o, 'v', a[0])
        return None
    if name == 'lock':
        return Wrap('Ok', o)
    if name in ('clone', 'as_ref', 'unwrap'):
        return o
    return X.rmethod(o.attrs['v'], name, a)


def opt_method(X, o, name, a):
    if name in ('is_some', 'is_ok'):
        return o is not None and o.kind != 'Err'
    if name in ('is_none', 'is_err'):
        return o is None or o.kind == 'Err'
    fails = o is None or o.kind == 'Err'
    if name in ('unwrap', 'expect'):
        if fails:
            raise PyRaise(Panic, ())
        return o.v
    if name == 'unwrap_or':
        return a[0] if fails else o.v
    if name == 'unwrap_or_else':
        return X.call(a[0], [] if o is None else [o.v], {}) if fails else o.v
    if name == 'unwrap_or_default':
        if fails:
            raise Untranslatable('unwrap_or_default')
        return o.v
    if name == 'map':
        return o if fails else Wrap(o.kind, X.call(a[0], [o.v], {}))
    if name == 'map_or':
        return a[0] if fails else X.call(a[1], [o.v], {})
    if name == 'map_or_else':
        return X.call(a[0], [] if o is None else [o.v], {}) if fails else X.call(a[1], [o.v], {})
    if name == 'and_then':
        return o if fails else X.call(a[0], [o.v], {})
    if name == 'or_else':
        return X.call(a[0], [] if o is None else [o.v], {}) if fails else o
    if name == 'or':
        return a[0] if fails else o
    if name == 'filter':
        return o if not fails and X.truth(X.call(a[0], [o.v], {})) else None
    if name == 'is_some_and':
        return not fails and X.truth(X.call(a[0], [o.v], {}))
    if name == 'is_none_or':
        return fails or X.truth(X.call(a[0], [o.v], {}))
    if name == 'ok_or':
        return Wrap('Err', a[0]) if fails else Wrap('Ok', o.v)
    if name == 'ok':
        return None if fails else Some(o.v)
    if name == 'clone':
        return X.rclone(o)
    if name in ('as_ref', 'copied', 'cloned', 'as_mut', 'as_deref', 'by_ref', 'to_owned'):
        return X.rclone(o) if name == 'cloned' else (o if o is None else Wrap(o.kind, deref(o.v)) if name == 'copied' else o)
    if name in ('iter', 'into_iter'):
        return GenV(iter(() if fails else (o.v,)))
    raise Untranslatable(f'Option::{name}')


def bool_method(X, o, name, a):
    if name == 'then':
        return Some(X.call(a[0], [], {})) if X.truth(o) else None
    if name == 'then_some':
        return Some(a[0]) if X.truth(o) else None
    if name in ('clone', 'to_owned', 'borrow'):
        return o
    if name == 'into':
        return r_as(X, [o, 'u64'], {})
    if name == 'not':
        return X.not_(o)
    raise Untranslatable(f'bool::{name}')


def int_method(X, o, name, a):
    a = [deref(x) for x in a]
    if name in ('min', 'max'):
        if isinstance(o, int) and isinstance(a[0], int):
            return min(o, a[0]) if name == 'min' else max(o, a[0])
        x, y = zint(o), zint(a[0])
        return SI(z3.simplify(z3.If(x <= y if name == 'min' else x >= y, x, y)))
    if name in ('abs', 'unsigned_abs'):
        if isinstance(o, int):
            return abs(o)
        return SI(z3.simplify(z3.If(o.e >= 0, o.e, -o.e)))
    if name == 'abs_diff':
        d = X.binop('-', o, a[0])
        return int_method(X, d, 'abs', [])
    if name in ('clone', 'to_owned', 'into', 'borrow', 'as_ref', 'try_into_inner'):
        return o
    if name in ('checked_add', 'checked_sub', 'checked_mul'):
        # no overflow of mathematical integers; the overflow branch is an arbitrary one
        if X.domain is not None and getattr(X.domain, 'may_overflow', False) and X.choose(2, name):
            return None
        return Some(X.binop({'checked_add': '+', 'checked_sub': '-', 'checked_mul': '*'}[name], o, a[0]))
    if name in ('wrapping_add', 'wrapping_sub', 'wrapping_mul'):
        return X.binop({'add': '+', 'sub': '-', 'mul': '*'}[name[9:]], o, a[0])
    if name == 'saturating_sub':
        d = zint(X.binop('-', o, a[0]))
        return SI(z3.simplify(z3.If(d >= 0, d, 0)))
    if name == 'pow':
        return X.binop('**', o, a[0])
    if name == 'signum':
        return SI(z3.If(zint(o) > 0, 1, z3.If(zint(o) < 0, -1, 0)))
    if name == 'is_positive':
        return X.compare('>', o, 0)
    if name == 'is_negative':
        return X.compare('<', o, 0)
    if name == 'div_euclid':
        return X.binop('//', o, a[0])
    if name == 'rem_euclid':
        return X.binop('%', o, a[0])
    if name == 'is_multiple_of':
        return X.eq(trunc_rem(X, o, a[0]), 0)
    if name == 'cmp':
        raise Untranslatable('cmp')
    if name == 'to_string':
        return str(o) if isinstance(o, int) else Opaque('str')
    raise Untranslatable(f'int::{name}')


def vec_iter(X, o):
    if o.tail is None:
        return GenV(iter(list(o.items)))
    return o.tail.as_seq(o)


def vec_method(X, o, name, a):
    if name == 'len':
        return b_len(X, [o], {})
    if name == 'is_empty':
        return not X.truth(o)
    if name in ('push', 'push_back'):
        METHODS['Lst', 'append'](X, o, a[0])
        return None
    if name == 'push_front':
        o.items.insert(0, a[0])
        return None
    if name in ('pop', 'pop_back'):
        if o.tail is not None:
            f = getattr(o.tail, 'pop_last', None)
            if f is None:
                raise Untranslatable('pop of a list of unknown length')
            return f(X, o)
        return Some(o.items.pop()) if o.items else None
    if name == 'pop_front':
        return Some(METHODS['Lst', 'pop'](X, o, 0)) if X.truth(o) else None
    if name == 'insert':
        METHODS['Lst', 'insert'](X, o, a[0], a[1])
        return None
    if name == 'remove':
        try:
            return METHODS['Lst', 'pop'](X, o, a[0])
        except PyRaise:
            raise PyRaise(Panic, ())
    if name in ('first', 'first_mut'):
        if not X.truth(o):
            return None
        v = X.getitem(o, 0)
        return Some(r_refmut(X, [o, 0], {}) if name == 'first_mut' else v)
    if name in ('last', 'last_mut'):
        if o.tail is not None:
            raise Untranslatable('last of a list of unknown length')
        if not o.items:
            return None
        return Some(r_refmut(X, [o, len(o.items) - 1], {}) if name == 'last_mut' else o.items[-1])
    if name == 'split_last':
        if o.tail is not None:
            raise Untranslatable('split_last')
        return Some((o.items[-1], Lst(o.items[:-1]))) if o.items else None
    if name == 'split_first':
        if not X.truth(o):
            return None
        return Some((o.items[0], Lst(o.items[1:], o.tail)))
    if name in ('get', 'get_mut'):
        i = a[0]
        n = b_len(X, [o], {})
        if not X.truth(X.compare('<', i, n)):
            return None
        v = r_refmut(X, [o, i], {}) if name == 'get_mut' else X.getitem(o, i)
        return Some(v)
    if name in ('iter', 'par_iter', 'as_slice', 'into_par_iter'):
        return vec_iter(X, o)
    if name == 'into_iter':
        return vec_iter(X, o)
    if name == 'iter_mut':
        if o.tail is not None:
            return vec_iter(X, o)
        return GenV(iter([r_refmut(X, [o, i], {}) for i in range(len(o.items))]))
    if name == 'drain':
        if a and isinstance(a[0], SliceV) and a[0].lo is None and a[0].hi is None:
            r = Lst(o.items, o.tail)
            o.items, o.tail = [], None
            return vec_iter(X, r)
        raise Untranslatable('drain')
    if name == 'clear':
        o.items, o.tail = [], None
        return None
    if name == 'truncate':
        if o.tail is None and isinstance(a[0], int):
            del o.items[a[0]:]
            return None
        raise Untranslatable('truncate')
    if name == 'retain':
        if o.tail is None:
            o.items = [x for x in o.items if X.truth(X.call(a[0], [x], {}))]
            return None
        raise Untranslatable('retain on a list of unknown length')
    if name in ('extend', 'extend_from_slice', 'append'):
        v = deref(a[0])
        h = getattr(X.domain, 'extend', None)
        if h is not None:
            r = h(X, o, v)
            if r is not NotImplemented:
                return None
        if o.tail is None and not X.iterate_unknown(v):
            o.items += list(X.need_iter(v))
        else:
            s = as_seq(X, v)
            if s is None or o.tail is not None and not hasattr(o.tail, 'as_seq'):
                raise Untranslatable('extend')
            if o.tail is None:
                o.tail = s.to_list(X).tail
            else:
                j = seq_concat([o.tail.as_seq(o), s])
                o.items, o.tail = [], j.to_list(X).tail
        if name == 'append':
            v.items, v.tail = [], None
        return None
    if name == 'contains':
        if o.tail is None:
            return X.contains(o, deref(a[0]))
        s = as_seq(X, o)
        v = deref(a[0])
        return SeqV(s.n, lambda X, k: X.eq(s.at(X, k), v), 'gen', label=f'{s.label} contains').any(X)
    if name in ('clone', 'to_vec', 'to_owned'):
        return X.rclone(o)
    if name in ('sort', 'sort_unstable', 'dedup', 'sort_unstable_by_key', 'reverse'):
        if name == 'reverse' and o.tail is None:
            o.items.reverse()
            return None
        if o.tail is None and len(o.items) <= 1:
            return None
        if o.tail is None and all(plain(x) for x in o.items):
            if name == 'dedup':
                o.items = [x for i, x in enumerate(o.items) if i == 0 or o.items[i - 1] != x]
                return None
            if name in ('sort', 'sort_unstable'):
                o.items.sort(key=skey)
                return None
        raise Untranslatable(f'{name} of symbolic values')
    if name == 'starts_with':
        v = deref(a[0])
        if o.tail is None and v.tail is None:
            return X.eq(Lst(o.items[:len(v.items)]), v)
        p, q = as_seq(X, o), as_seq(X, v)
        if p is None or q is None:
            raise Untranslatable('starts_with')
        from .seq import seq_eq
        return X.truth(SB(q.n <= p.n)) and seq_eq(X, slice_seq(X, p, SliceV(None, SI(q.n), None)), q)
    if name == 'split_at':
        n = a[0]
        if isinstance(n, int) and o.tail is None:
            if n < 0 or n > len(o.items):
                raise PyRaise(Panic, ())
            return Lst(o.items[:n]), Lst(o.items[n:])
        raise Untranslatable('split_at')
    if name == 'concat' or name == 'join':
        if o.tail is None and all(isinstance(x, str) for x in o.items):
            return (a[0] if a else '').join(o.items)
        return Opaque('str')
    if name in ('as_ref', 'borrow', 'borrow_mut', 'as_mut', 'unwrap', 'by_ref', 'as_mut_slice', 'lock'):
        return o
    if name == 'swap':
        i, j = a
        x, y = X.getitem(o, i), X.getitem(o, j)
        X.setitem(o, i, y)
        X.setitem(o, j, x)
        return None
    if name == 'capacity' or name == 'reserve':
        return None
    return iter_method(X, vec_iter(X, o), name, a)


class EntryV(Val):
    __slots__ = ('d', 'k')

    def __init__(self, d, k):
        self.d, self.k = d, k


class LazyDefault(Ext):
    """a default value whose type is not known yet: the first method called on it decides"""
    def __init__(self, place):
        self.place = place

    def rm(self, X, name, args):
        kind = {'push': Lst, 'extend': Lst, 'insert': (Dct if len(args) == 2 else SetV), 'entry': Dct}.get(name)
        if kind is None:
            raise Untranslatable('default value')
        v = kind()
        self.place(v)
        return X.rmethod(v, name, args)

    def __getattr__(self, name):
        if name.startswith('rm_'):
            return lambda X, *a: self.rm(X, name[3:], a)
        raise AttributeError(name)


def entry_method(X, e, name, a):
    for k in list(e.d.d):
        if X.truth(X.eqb(k, e.k)):
            v = e.d.d[k]
            break
    else:
        if name == 'or_default':
            return LazyDefault(lambda v: X.dict_set(e.d, e.k, v))
        if name == 'or_insert':
            v = a[0]
        elif name == 'or_insert_with':
            v = X.call(a[0], [], {})
        else:
            raise Untranslatable(f'Entry::{name}')
        X.dict_set(e.d, e.k, v)
        k = e.k
    if isinstance(v, (Obj, Lst, Dct, SetV, Ext)):
        return v
    return Ref(lambda: e.d.d[k], lambda w: e.d.d.__setitem__(k, w))


def map_method(X, o, name, a):
    if name == 'len':
        return len(o.d)
    if name == 'is_empty':
        return not o.d
    if name in ('get', 'get_mut'):
        k = deref(a[0])
        for x in list(o.d):
            if X.truth(X.eqb(x, k)):
                return Some(o.d[x])
        return None
    if name == 'contains_key':
        return X.contains(o, deref(a[0]))
    if name == 'insert':
        old = map_method(X, o, 'get', [a[0]])
        X.dict_set(o, a[0], a[1])
        return old
    if name == 'remove':
        for x in list(o.d):
            if X.truth(X.eqb(x, deref(a[0]))):
                return Some(o.d.pop(x))
        return None
    if name == 'entry':
        return EntryB(X, o, a[0])
    if name == 'keys':
        return GenV(iter([k for k, _ in X.dict_order(o)]))
    if name in ('values', 'values_mut', 'into_values'):
        return GenV(iter([v for _, v in X.dict_order(o)]))
    if name in ('iter', 'into_iter', 'iter_mut', 'drain'):
        return GenV(iter(X.dict_order(o)))
    if name == 'retain':
        for k, v in X.dict_order(o):
            if not X.truth(X.call(a[0], [k, v], {})):
                del o.d[k]
        return None
    if name == 'clear':
        o.d.clear()
        return None
    if name in ('clone', 'to_owned'):
        return X.rclone(o)
    if name in ('as_ref', 'borrow', 'borrow_mut', 'lock', 'unwrap', 'as_mut'):
        return o
    if name == 'extend':
        for k, v in X.need_iter(a[0]):
            X.dict_set(o, k, v)
        return None
    raise Untranslatable(f'BTreeMap::{name}')


class EntryB(Ext):
    def __init__(self, X, d, k):
        self.e = EntryV(d, k)

    def rm_or_default(self, X):
        return entry_method(X, self.e, 'or_default', [])

    def rm_or_insert(self, X, v):
        return entry_method(X, self.e, 'or_insert', [v])

    def rm_or_insert_with(self, X, f):
        return entry_method(X, self.e, 'or_insert_with', [f])


def set_method(X, o, name, a):
    if name == 'len':
        return len(o.s)
    if name == 'is_empty':
        return not o.s
    if name == 'contains':
        return X.contains(o, deref(a[0]))
    if name == 'insert':
        if X.truth(X.contains(o, a[0])):
            return False
        o.s.append(a[0])
        return True
    if name == 'remove':
        for i, x in enumerate(o.s):
            if X.truth(X.eqb(x, deref(a[0]))):
                del o.s[i]
                return True
        return False
    if name in ('iter', 'into_iter', 'drain'):
        return GenV(iter(sorted(o.s, key=skey) if all(plain(x) for x in o.s) else list(o.s)))
    if name == 'clear':
        o.s.clear()
        return None
    if name in ('clone', 'to_owned'):
        return SetV(o.s)
    if name == 'extend':
        for v in X.need_iter(a[0]):
            set_method(X, o, 'insert', [v])
        return None
    if name == 'retain':
        o.s = [x for x in o.s if X.truth(X.call(a[0], [x], {}))]
        return None
    if name in ('is_subset', 'is_superset'):
        p, q = (o, deref(a[0])) if name == 'is_subset' else (deref(a[0]), o)
        return all(X.truth(X.contains(q, x)) for x in p.s)
    if name in ('as_ref', 'borrow', 'borrow_mut', 'lock', 'unwrap'):
        return o
    raise Untranslatable(f'HashSet::{name}')


def str_method(X, o, name, a):
    if name in ('to_string', 'to_owned', 'clone', 'as_str', 'as_ref', 'into', 'borrow'):
        return o
    if name == 'len':
        return len(o)
    if name == 'is_empty':
        return not o
    if name == 'chars':
        return GenV(iter(list(o)))
    if name == 'trim':
        return o.strip()
    if name == 'split':
        return GenV(iter(o.split(a[0])))
    if name == 'split_whitespace':
        return GenV(iter(o.split()))
    if name == 'to_digit':
        d = int(o, 36) if o.isalnum() and o.isascii() else 99
        return Some(d) if d < a[0] else None
    if name == 'contains':
        return a[0] in o
    if name == 'starts_with':
        return o.startswith(a[0])
    if name == 'replace':
        return o.replace(a[0], a[1])
    if name == 'is_ascii_digit':
        return o.isascii() and o.isdigit()
    if name == 'parse':
        try:
            return Wrap('Ok', int(o))
        except ValueError:
            return Wrap('Err', Opaque('parse error'))
    raise Untranslatable(f'str::{name}')


def collect(X, it, kind):
    """what the items are collected into"""
    if kind in ('Vec', '?', 'VecDeque', 'tslice'):
        return Lst(list(it))
    if kind in ('HashSet', 'BTreeSet'):
        return X.mkset(list(it))
    if kind in ('BTreeMap', 'HashMap'):
        d = Dct()
        for k, v in it:
            X.dict_set(d, k, v)
        return d
    if kind == 'String':
        items = list(it)
        return ''.join(items) if all(isinstance(x, str) for x in items) else Opaque('str')
    if kind.startswith('Option:') or kind.startswith('Result:'):
        out = []
        for x in it:
            if is_none(X, x) or getattr(x, 'kind', '') == 'Err':
                return x
            out.append(inner(X, x))
        r = collect(X, out, kind.split(':', 1)[1])
        return Wrap('Some' if kind.startswith('Option') else 'Ok', r)
    raise Untranslatable(f'collect into {kind}')


def iter_method(X, o, name, a):
    """methods of iterators"""
    known = not X.iterate_unknown(o)
    heap = X.heap_writes
    if name in ('iter', 'into_iter', 'by_ref', 'copied', 'cloned', 'into_par_iter', 'par_iter', 'peekable', 'iter_mut', 'fuse'):
        if name == 'cloned':
            return iter_method(X, o, 'map', [lambda X, a, k: X.rclone(a[0])])
        if known and not isinstance(o, GenV):
            return GenV(X.need_iter(o))
        return o
    if name == 'clone':
        if isinstance(o, GenV):
            items = list(o.it)
            o.it = iter(items)
            return GenV(iter(list(items)))
        return o
    if known:
        it = X.need_iter(o)
        if name == 'map':
            return GenV(X.call(a[0], [x], {}) for x in it)
        if name == 'filter':
            return GenV(x for x in it if X.truth(X.call(a[0], [x], {})))
        if name == 'filter_map':
            def fm():
                for x in it:
                    r = X.call(a[0], [x], {})
                    if not is_none(X, r):
                        yield inner(X, r)
            return GenV(fm())
        if name in ('flat_map', 'flatten'):
            def fl():
                for x in it:
                    r = X.call(a[0], [x], {}) if name == 'flat_map' else x
                    if X.iterate_unknown(deref(r)):
                        raise Untranslatable('flat_map into collections of unknown size')
                    yield from X.need_iter(r)
            if name == 'flat_map' and hasattr(X.domain, 'flat_known'):
                r = X.domain.flat_known(X, it, a[0])
                if r is not NotImplemented:
                    return r
            return GenV(fl())
        if name == 'enumerate':
            return GenV(enumerate(it))
        if name == 'zip':
            return b_zip(X, [GenV(it), deref(a[0])], {})
        if name == 'take':
            n = a[0]
            if isinstance(n, int):
                return GenV(itertools.islice(it, n))
            return iter_method(X, const_seq(list(it), 'gen'), 'take', a)
        if name == 'skip':
            if isinstance(a[0], int):
                return GenV(itertools.islice(it, a[0], None))
            raise Untranslatable('skip')
        if name == 'step_by':
            if isinstance(a[0], int):
                return GenV(itertools.islice(it, 0, None, a[0]))
            raise Untranslatable('step_by')
        if name == 'take_while':
            return GenV(itertools.takewhile(lambda x: X.truth(X.call(a[0], [x], {})), it))
        if name == 'skip_while':
            return GenV(itertools.dropwhile(lambda x: X.truth(X.call(a[0], [x], {})), it))
        if name == 'rev':
            return GenV(iter(list(it)[::-1]))
        if name == 'chain':
            v = deref(a[0])
            if X.iterate_unknown(v):
                return seq_concat([const_seq(list(it), 'gen'), as_seq(X, v)])
            return GenV(itertools.chain(it, X.need_iter(v)))
        if name == 'all':
            for x in it:
                if not X.truth(X.call(a[0], [x], {})):
                    return False
            return True
        if name == 'any':
            for x in it:
                if X.truth(X.call(a[0], [x], {})):
                    return True
            return False
        if name in ('find', 'find_map', 'position'):
            for i, x in enumerate(it):
                r = X.call(a[0], [x], {})
                if name == 'find_map':
                    if not is_none(X, r):
                        return r
                elif X.truth(r):
                    return Some(i if name == 'position' else x)
            return None
        if name in ('sum', 'product'):
            r = 0 if name == 'sum' else 1
            for x in it:
                r = X.binop('+' if name == 'sum' else '*', r, x)
            return r
        if name == 'count':
            return sum(1 for _ in it)
        if name in ('max', 'min'):
            best = None
            for x in it:
                x = deref(x)
                best = x if best is None else X.rmethod(best, name, [x])
            return None if best is None else Some(best)
        if name == 'fold':
            acc = a[0]
            for x in it:
                acc = X.call(a[1], [acc, x], {})
            return acc
        if name == 'try_fold':
            raise Untranslatable('try_fold')
        if name == 'for_each':
            for x in it:
                X.call(a[0], [x], {})
            return None
        if name == 'collect':
            return collect(X, it, a[0])
        if name == 'unzip':
            ps = [X.to_list(p) for p in it]
            return Lst([p[0] for p in ps]), Lst([p[1] for p in ps])
        if name == 'next':
            for x in it:
                return Some(x)
            return None
        if name == 'last':
            r = None
            for x in it:
                r = Some(x)
            return r
        if name == 'nth':
            for i, x in enumerate(it):
                if i == a[0]:
                    return Some(x)
            return None
        if name in ('len',):
            items = list(it)
            if isinstance(o, GenV):
                o.it = iter(items)
            return len(items)
        if name == 'is_empty':
            raise Untranslatable('is_empty of an iterator')
        if name == 'join':
            items = list(it)
            return (a[0] if a else '').join(items) if all(isinstance(x, str) for x in items) else Opaque('str')
        if name == 'contains' and isinstance(o, RangeV):
            return X.conj([X.compare('>=', a[0], o.lo), X.compare('<', a[0], o.hi)])
        raise Untranslatable(f'Iterator::{name}')
    if isinstance(o, RangeV):
        if name == 'contains':
            return X.conj([X.eqb(True, X.compare('>=', a[0], o.lo)), X.eqb(True, X.compare('<', a[0], o.hi))])
        o = o.seq()
    s = as_seq(X, o)
    if s is None:
        raise Untranslatable(f'Iterator::{name} of {o!r}')

    def lazily(fn):
        return lambda X, k: X.lazily(heap, lambda: fn(X, k))

    def derived(fn, label, cond=None, n=None):
        r = SeqV(s.n if n is None else n, lazily(fn), 'gen', cond if cond is not None else s.cond, label=label)
        r.source = s
        return r
    if name == 'map':
        return derived(lambda X, k: X.call(a[0], [s.at(X, k)], {}), f'map {s.label}')
    if name == 'filter':
        def cond(X, k):
            if s.cond is not None and not X.truth(s.cond(X, k)):
                return False
            return X.lazily(heap, lambda: X.call(a[0], [s.at(X, k)], {}))
        r = SeqV(s.n, s.fn, 'gen', cond, label=f'filter {s.label}')
        r.source = s
        return r
    if name == 'filter_map':
        def cond(X, k):
            if s.cond is not None and not X.truth(s.cond(X, k)):
                return False
            return X.lazily(heap, lambda: not is_none(X, X.call(a[0], [s.at(X, k)], {})))
        return derived(lambda X, k: inner(X, X.call(a[0], [s.at(X, k)], {})), f'filter_map {s.label}', cond)
    if name == 'enumerate':
        s.plain()
        return derived(lambda X, k: (SI(z3.simplify(k)) if not z3.is_int_value(k) else k.as_long(), s.at(X, k)), f'enum {s.label}')
    if name == 'zip':
        return X.domain.zip(X, [s, deref(a[0])])
    if name == 'take':
        s.plain()
        n = term(a[0])
        return derived(s.fn, f'take {s.label}', n=z3.If(n < s.n, z3.If(n >= 0, n, 0), s.n))
    if name == 'skip':
        s.plain()
        return slice_seq(X, s, SliceV(a[0], None, None))
    if name == 'rev':
        return s.reversed(X)
    if name == 'chain':
        other = as_seq(X, deref(a[0]))
        if other is None and not X.iterate_unknown(deref(a[0])):
            other = const_seq(list(X.need_iter(deref(a[0]))), 'gen')
        if other is None:
            raise Untranslatable('chain')
        return seq_concat([s, other])
    if name == 'flat_map':
        r = X.domain.flat_map(X, s, a[0]) if hasattr(X.domain, 'flat_map') else None
        if r is None:
            raise Untranslatable('flat_map')
        return r
    if name == 'all':
        return derived(lambda X, k: X.call(a[0], [s.at(X, k)], {}), f'all {s.label}').all(X)
    if name == 'any':
        return derived(lambda X, k: X.call(a[0], [s.at(X, k)], {}), f'any {s.label}').any(X)
    if name in ('find', 'next', 'find_map'):
        q = s
        if name == 'find':
            q = iter_method(X, s, 'filter', a)
        elif name == 'find_map':
            q = iter_method(X, s, 'filter_map', a)
        g = SeqV(q.n, q.fn, 'gen', q.cond, label=q.label)
        r = g.next(X, [_NONE])
        return None if r is _NONE else Some(r)
    if name == 'sum':
        return s.sum(X, 0)
    if name in ('len', 'count'):
        return s.length(X)
    if name in ('max', 'min'):
        r = s.extreme(X, '>' if name == 'max' else '<', default=_NONE)
        return None if r is _NONE else Some(r)
    if name == 'collect':
        if a[0] in ('Vec', '?'):
            if s.cond is not None:
                return s
            return SeqV(s.n, s.fn, 'list', label=s.label).to_list(X)
        h = getattr(X.domain, 'collect', None)
        if h is not None:
            return h(X, s, a[0])
        raise Untranslatable(f'collect of unknown size into {a[0]}')
    if name in ('is_empty',):
        return X.not_(s.truth(X))
    raise Untranslatable(f'Iterator::{name} of a sequence of unknown length')


_NONE = object()
