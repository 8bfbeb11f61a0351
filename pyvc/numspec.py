"""Contracts of tm/num.py."""
from __future__ import annotations
import ast
import z3
from .values import *
from .engine import Contract, Cong, LoopSpec, SB, SI, PathEnd, zbool, MAX_PATHS
from . import prover
from .prover import POW
from .numdom import Cnt, NumDomain, KINDS, NUM, FIELDS

EXACT = ('__add__', '__radd__', '__sub__', '__rsub__', '__neg__')
MULS = ('__mul__', '__rmul__', '__pow__', '__rpow__')
DIVS = ('__floordiv__', '__divmod__')
MODS = ('__mod__',)
CMPS = ('__lt__', '__le__', '__gt__', '__ge__')
EQS = ('__eq__', '__ne__')
GROUPS = {'N01': EXACT, 'N02': MULS, 'N03': DIVS, 'N04': MODS, 'N05': CMPS, 'N06': EQS}


def V(x):
    return x.V if isinstance(x, Cnt) else zint(x)


class OpContract(Contract):
    """x OP y for self of one class; the postcondition is the mathematical meaning of OP"""
    def __init__(self, key, cls, meth):
        self.key, self.cls, self.meth = key, cls, meth

    def setup(self, X):
        D = X.domain
        s = D.new(X, 'self', KINDS[1:] if self.cls == 'Num' else (self.cls,))
        if self.cls != 'Num':
            s.expand(X)
        m = self.meth
        self.s = s
        if m == '__neg__':
            return [s]
        if m in ('__radd__', '__rmul__'):
            self.o = SI(X.fresh('other'))
        elif m == '__rpow__':
            self.o = SI(X.fresh('other'))
            X.assume(self.o.e >= 2)
            X.assume(s.V >= 1)
        elif m in ('__mod__', '__divmod__'):
            self.o = SI(X.fresh('mod'))
            X.assume(self.o.e >= 1)
        else:
            self.o = D.new(X, 'other')
            if m == '__rsub__':
                pass
            if m == '__floordiv__':
                self.q = X.fresh('q')
                X.assume(self.o.V >= 1)
                X.assume(s.V == self.o.V * self.q)
            if m == '__pow__':
                X.assume(self.o.V >= 1)
        return [s, self.o]

    def post(self, X, args, res):
        m = self.meth
        s = V(args[0])
        o = V(args[1]) if len(args) > 1 else None
        if m in CMPS:
            want = {'__lt__': s < o, '__le__': s <= o, '__gt__': s > o, '__ge__': s >= o}[m]
            r = zbool(res)
            if not isinstance(res, (bool, SB)):
                raise Untranslatable('comparison result')
            X.prove('value', r == want)
            return
        if m in EQS:
            want = zbool(X.domain.struct_eq(X, args[0], args[1]))
            r = zbool(res)
            X.prove('identity', (r == want) if m == '__eq__' else (r == z3.Not(want)))
            return
        if m == '__divmod__':
            if not (isinstance(res, tuple) and len(res) == 2):
                X.prove('pair', z3.BoolVal(False))
                return
            q, r = res
            X.prove('value', s == V(q) * o + V(r))
            X.prove('range', z3.And(V(r) >= 0, V(r) < o))
            return
        if m == '__mod__':
            r = V(res)
            X.prove('range', z3.And(r >= 0, r < o))
            prove_congruent(X, 'value', s, r, o)
            return
        want = {'__add__': lambda: s + o, '__radd__': lambda: s + o, '__sub__': lambda: s - o,
                '__rsub__': lambda: o - s, '__neg__': lambda: -s, '__mul__': lambda: s * o,
                '__rmul__': lambda: s * o, '__floordiv__': lambda: self.q,
                '__rpow__': lambda: POW(o, s), '__pow__': lambda: POW(s, o)}[m]()
        if res is None or not isinstance(res, (Cnt, int, SI)):
            X.prove('value', z3.BoolVal(False))
            return
        X.prove('value', V(res) == want)

    def apply(self, X, args, kw):
        D = X.domain
        op = {'__add__': '+', '__sub__': '-', '__mul__': '*', '__floordiv__': '//', '__mod__': '%',
              '__pow__': '**'}.get(self.meth)
        a = D.lift(X, args[0])
        if self.meth == '__neg__':
            return a.unary(X, '-')
        b = D.lift(X, args[1])
        if self.meth in CMPS:
            return D.order(X, {'__lt__': '<', '__le__': '<=', '__gt__': '>', '__ge__': '>='}[self.meth], a, b)
        if self.meth in EQS:
            r = D.struct_eq(X, a, b)
            return r if self.meth == '__eq__' else X.not_(r)
        if self.meth == '__divmod__':
            return D.divmod(X, a, b)
        if op:
            return D.arith(X, op, a, b)
        rop = {'__radd__': '+', '__rmul__': '*', '__rsub__': '-', '__rpow__': '**'}[self.meth]
        return D.arith(X, rop, b, a)


def prove_congruent(X, name, s, r, m):
    """m divides s - r"""
    X.domain.prove_congruent(X, name, s, r, m)


class MakeContract(Contract):
    """interning constructor: result is the unique object with these fields, and has the right value"""
    def __init__(self, kind):
        self.kind = kind
        self.key = f'{NUM}:make_{kind.lower()}'

    def setup(self, X):
        D = X.domain
        k = self.kind
        X.ghost['ctor_ok'] = True
        if k in ('Add', 'Mul'):
            l, r = D.new(X, 'l'), D.new(X, 'r', KINDS[1:])
            if k == 'Mul':
                if l.is_kind(X, 'int'):
                    r.set_kinds(X, {'Exp'})
            return [l, r]
        if k == 'Div':
            n = D.new(X, 'num', KINDS[1:])
            d = SI(X.fresh('den'))
            q = X.fresh('q')
            X.assume(z3.And(d.e >= 1, n.V == d.e * q))
            return [n, d]
        b = SI(X.fresh('base'))
        e = D.new(X, 'exp')
        X.assume(z3.And(b.e >= 2, e.V >= 1))
        return [b, e]

    def want(self, X, args):
        a, b = args
        if self.kind == 'Add':
            return V(a) + V(b)
        if self.kind == 'Mul':
            return V(a) * V(b)
        if self.kind == 'Exp':
            return POW(V(a), V(b))

    def post(self, X, args, res):
        ok = isinstance(res, Cnt) and res.kind == self.kind
        X.prove('kind', z3.BoolVal(bool(ok)))
        if self.kind == 'Div':
            X.prove('value', V(res) * V(args[1]) == V(args[0]))
        else:
            X.prove('value', V(res) == self.want(X, args))
        X.prove('interned', z3.BoolVal(bool(res.root().cached)))

    def apply(self, X, args, kw):
        D = X.domain
        a, b = args
        names = {'Add': ('l', 'r'), 'Mul': ('l', 'r'), 'Div': ('num', 'den'), 'Exp': ('base', 'exp')}[self.kind]
        if self.kind in ('Add', 'Mul', 'Div'):
            n = b if self.kind != 'Div' else a
            if not isinstance(n, Cnt) or n.is_int(X):
                # an int has no .depth / cannot be a numerator: not a representable value
                raise PyRaise(AttributeError, ('depth',))
        if self.kind == 'Mul':
            la = D.lift(X, a)
            if la.is_int(X) and not D.lift(X, b).is_kind(X, 'Exp'):
                raise PyRaise(AssertionError, ())
        if self.kind == 'Div':
            X.prove('make_div:positive-denominator', V(b) >= 1)
            q = D.exact_quotient(X, V(a), V(b))
            return D.result(X, q, ('Div',), label='div')
        if self.kind == 'Exp':
            X.prove('make_exp:base>=2', V(a) >= 2)
            D.exponent(X, b)
        return D.result(X, self.want(X, args), (self.kind,), label=self.kind.lower())


class AddExponents(Contract):
    key = f'{NUM}:add_exponents'

    def setup(self, X):
        D = X.domain
        l, r = D.new(X, 'le', ('Exp',)), D.new(X, 're', ('Exp',))
        return [(l, D.new(X, 'lco')), (r, D.new(X, 'rco'))]

    def post(self, X, args, res):
        (l, lc), (r, rc) = args
        X.prove('value', V(res) == V(l) * V(lc) + V(r) * V(rc))

    def apply(self, X, args, kw):
        (l, lc), (r, rc) = args
        if not (isinstance(l, Cnt) and l.is_kind(X, 'Exp') and isinstance(r, Cnt) and r.is_kind(X, 'Exp')):
            raise PyRaise(AttributeError, ())
        X.maybe_raise(NotImplementedError)
        return X.domain.result(X, V(l) * V(lc) + V(r) * V(rc))


class Gcd(Contract):
    key = f'{NUM}:gcd'

    def setup(self, X):
        D = X.domain
        l = SI(X.fresh('l'))
        X.assume(l.e >= 1)
        return [l, D.new(X, 'r')]

    def post(self, X, args, res):
        l, r = args
        g = V(res)
        X.prove('positive', g >= 1)
        X.prove('divides-first', divides(X, g, V(l)))
        if isinstance(r, Cnt) and r.kind == 'Add':
            # recorded defect: the smaller of the divisors of the two parts is returned
            parts = {}
            for lv, rv, gv in X.ghost.get('gcds', ()):
                for n in ('l', 'r'):
                    if z3.eq(lv, V(l)) and z3.eq(rv, V(r.field(X, n))):
                        parts.setdefault(n, gv)
            if len(parts) == 2:
                a, b = parts['l'], parts['r']
                if X.prove_known('divides-second', divides(X, g, V(r)), g == z3.If(a <= b, a, b)):
                    return
        X.prove('divides-second', divides(X, g, V(r)))

    def apply(self, X, args, kw):
        l, r = args
        if isinstance(l, Cnt):
            if not l.is_int(X):
                raise PyRaise(TypeError, ())
        X.prove('gcd:positive-first', V(l) >= 1)
        g, p, q = X.fresh('g'), X.fresh('gp'), X.fresh('gq')
        X.assume(z3.And(g >= 1, V(l) == g * p, p >= 1, V(r) == g * q))
        X.ghost.setdefault('gcds', []).append((V(l), V(r), g))
        return SI(g)


def divides(X, g, v):
    from .numdom import divide_poly
    q = divide_poly(X, v, g)
    if q is not None:
        return v == g * q
    c = pow_multiple(X, v, g)
    if c is not None:
        return c
    k = X.fresh('k')
    return z3.Exists([k], v == g * k)


def pow_multiple(X, v, g):
    """g divides the power v: g = b^k with k <= e, or g divides the base and e >= 1"""
    for a in X.facts:
        if z3.is_eq(a) and z3.eq(a.arg(0), v) and a.arg(1).decl().eq(POW):
            v = a.arg(1)
            break
    if not (z3.is_app(v) and v.decl().eq(POW)):
        return None
    b, e = v.arg(0), v.arg(1)
    ks = [p for p in prover.collect_pows(list(X.facts) + [g]) if z3.eq(p.arg(0), b)]
    for p in ks:
        if z3.eq(p, v):
            continue
        if prover.smt(X.facts, g == p, 800)[0] == 'ok':
            return z3.And(p.arg(1) >= 0, p.arg(1) <= e)          # lemma pow_add
    h = b
    from .numdom import divide_poly
    q = divide_poly(X, b, g)
    if q is not None:
        return z3.And(e >= 1, b == g * q)                        # lemma pow_zero
    return None


class MultipliesWith(Contract):
    """heuristic choice of the order of multiplication: any answer is right"""
    key = f'{NUM}:Exp.multiplies_with'

    def setup(self, X):
        s = X.domain.new(X, 'self', ('Exp',))
        s.expand(X)
        return [s, X.domain.new(X, 'other')]

    def post(self, X, args, res):
        X.prove('boolean', z3.BoolVal(isinstance(res, (bool, SB))))

    def apply(self, X, args, kw):
        return SB(X.fresh('multiplies', 'bool'))


# ------------------------------------------------------------------ loop invariants
class NumLoop(LoopSpec):
    home = ''

    def applies(self, X, node, fr, it):
        return X.target == f'{NUM}:{self.home}' and fr.module.path == NUM

    def base(self, X):
        raise NotImplementedError


class MakeExpLoop(NumLoop):
    """the power is unchanged while squares move from the base to the exponent"""
    name, home, roles = 'square-root', 'make_exp', ('base', 'exp')

    def pre(self, X, L):
        L.p0 = POW(V(L.get('base')), V(L.get('exp')))

    def havoc(self, X, L, names):
        L.set('base', SI(X.fresh('base')))
        L.set('exp', X.domain.new(X, 'exp'))

    def inv(self, X, L):
        b, e = V(L.get('base')), V(L.get('exp'))
        return [('power', POW(b, e) == L.p0), ('base', b >= 2), ('exponent', e >= 1)]


class StripLoop(NumLoop):
    """powers of the base move out of the int factor: factor * base^idx is unchanged"""
    name, roles = 'strip', ('other',)

    def __init__(self, home, positive):
        self.home, self.positive = home, positive

    def b(self, X):
        return V(X.root_args[0].field(X, 'base'))

    def pre(self, X, L):
        L.o0 = V(L.get('other'))

    def havoc(self, X, L, names):
        L.set('other', SI(X.fresh('other')))

    def inv(self, X, L):
        o = V(L.get('other'))
        return [('factor', o * POW(self.b(X), L.idx) == L.o0), ('sign', o >= 1 if self.positive else o != 0)]


class StripExpLoop(StripLoop):
    """as StripLoop, with the exponent kept up to date inside the loop"""
    name, roles = 'strip-exp', ('other', 'exp')

    def pre(self, X, L):
        L.o0, L.e0 = V(L.get('other')), V(L.get('exp'))

    def havoc(self, X, L, names):
        L.set('other', SI(X.fresh('other')))
        L.set('exp', X.domain.new(X, 'exp'))

    def inv(self, X, L):
        o, e = V(L.get('other')), V(L.get('exp'))
        d = (L.e0 - e) if self.positive else (e - L.e0)
        return [('factor', o * POW(self.b(X), d) == L.o0), ('moved', d >= 0),
                ('sign', o >= 1 if self.positive else o != 0)]


class GcdLoop(NumLoop):
    """over is the blog-th power of the base, and blog does not exceed the exponent"""
    name, home, roles = 'largest-power', 'gcd', ('blog', 'over')

    def inv(self, X, L):
        r = X.root_args[1]
        b, e = V(r.field(X, 'base')), r.field(X, 'exp')
        o, k = V(L.get('over')), V(L.get('blog'))
        X.domain.big_exponent(X, e, k)
        return [('power', o == POW(b, k)), ('nonnegative', k >= 0), ('at-most-exponent', k <= V(e))]


class GcdExpLoop(NumLoop):
    """blog does not exceed the exponent"""
    name, home, roles = 'largest-exponent', 'gcd', ('blog',)

    def inv(self, X, L):
        e = X.root_args[1].field(X, 'exp')
        k = V(L.get('blog'))
        X.domain.big_exponent(X, e, k)
        return [('nonnegative', k >= 0), ('at-most-exponent', k <= V(e))]


class PeriodLoop(NumLoop):
    """val is the idx-th power of the base modulo mod"""
    name, home, roles = 'powers', 'find_period', ('val',)

    def inv(self, X, L):
        b, m = X.root_args
        v = V(L.get('val'))
        return [('power', Cong(POW(V(b), L.idx), v, V(m)))]


class NextPeriodLoop(PeriodLoop):
    """val is the next power of the base modulo mod"""
    name = 'next-powers'

    def inv(self, X, L):
        b, m = X.root_args
        return [('power', Cong(POW(V(b), L.idx + 1), V(L.get('val')), V(m)))]


class ModPowLoop(NumLoop):
    """res * base^exp is unchanged modulo mod"""
    name, home, roles = 'modular-power', 'Exp.__mod__', ('res', 'exp', 'base')

    def pre(self, X, L):
        L.p0 = V(L.get('res')) * POW(V(L.get('base')), V(L.get('exp')))

    def havoc(self, X, L, names):
        for n in self.roles:
            L.set(n, SI(X.fresh(n)))

    def inv(self, X, L):
        m = V(X.root_args[1])
        r, e, b = (V(L.get(n)) for n in self.roles)
        return [('power', Cong(r * POW(b, e), L.p0, m)), ('range', z3.And(r >= 0, r < m, e >= 0)),
                ('base', b >= 0)]


LOOPS = [MakeExpLoop(), StripLoop('Exp.__rmul__', False), StripExpLoop('Exp.__rmul__', False),
         StripLoop('Exp.__floordiv__', True), StripExpLoop('Exp.__floordiv__', True),
         GcdLoop(), GcdExpLoop(), PeriodLoop(), NextPeriodLoop(), ModPowLoop()]


class FindPeriod(Contract):
    """returns 0 or p >= 1 with base**p = 1 (mod m)"""
    key = f'{NUM}:find_period'

    def setup(self, X):
        b, m = SI(X.fresh('base')), SI(X.fresh('mod'))
        X.assume(z3.And(b.e >= 2, m.e >= 2))
        return [b, m]

    def post(self, X, args, res):
        b, m = args
        p = V(res)
        X.prove('nonnegative', p >= 0)
        if X.branch(p >= 1):
            prove_congruent(X, 'period', POW(V(b), p), z3.IntVal(1), V(m))

    def apply(self, X, args, kw):
        b, m = args
        X.prove('find_period:domain', z3.And(V(b) >= 2, V(m) >= 2))
        p, K = X.fresh('period'), X.fresh('pk')
        X.assume(p >= 0)
        X.assume(z3.Implies(p >= 1, POW(V(b), p) == 1 + V(m) * K))
        X.ghost.setdefault('periods', []).append((V(b), p, V(m), K))
        return SI(p)


def op_contracts(world):
    """one contract per operator method defined in a Count class of the current source"""
    out = {}
    m = world.by_path(NUM)
    for name, (kind, node) in m.defs.items():
        if kind != 'class' or name in ('Tet',):
            continue
        cv = world.class_val(m, name)
        if name != 'Num' and not any(getattr(b, 'name', '') == 'Num' for b in cv.mro()):
            continue
        for meth, fv in cv.members.items():
            if not isinstance(fv, FuncVal):
                continue
            if any('abstractmethod' in ast.unparse(d) for d in fv.node.decorator_list):
                continue
            if meth in EXACT + MULS + DIVS + MODS + CMPS + EQS:
                c = OpContract(fv.qual, name, meth)
                out[c.key] = c
    for k in ('Add', 'Mul', 'Div', 'Exp'):
        out[f'{NUM}:make_{k.lower()}'] = MakeContract(k)
    for c in (AddExponents(), Gcd(), FindPeriod(), MultipliesWith()):
        out[c.key] = c
    return out
