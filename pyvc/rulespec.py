"""Contracts of tm/rules.py: learning a rule from four counts, and applying it.

The meaning of an operation: an int p adds p; (mul, add) maps c to mul * c + add; a sequence of ops maps c to the end of
the chain of its steps, where '+', '*', '**' are the sum, product and power with the op's number, '//' is the rounded-down
quotient, '~' takes the exponent of a power."""
from __future__ import annotations
import z3
from .values import *
from .engine import Contract, Ext, LoopIter, LoopSpec, SB, SI, PathEnd, RangeV, zbool
from .seq import SeqV, SeqTail, SeqDomain, as_seq, instantiate, term
from .numdom import Cnt, NumDomain, KINDS, NUM
from .numspec import V, MakeContract
from .prover import POW

RULES = 'tm/rules.py'
I, B = z3.IntSort(), z3.BoolSort()
OPS = z3.DeclareSort('Ops')
POS = z3.DeclareSort('Pos')
CH = z3.Function('chain', OPS, I, I, B)             # all ops, in order, lead from x to y
RCH = z3.Function('rchain', OPS, I, I, B)           # all ops, last first
PCH = z3.Function('prefix-chain', OPS, I, I, I, B)  # the first j ops lead from x to y
ITER = z3.Function('iter', OPS, I, I, I, B)         # n chains lead from x to y
LEN = z3.Function('len-ops', OPS, I)
GEO = z3.Function('geo', I, I, I)                   # 1 + m + ... + m**(n-1)
OPNAMES = ('+', '*', '//', '**', '~')


def rel(op, val, x, y, base=None):
    """one op leads from x to y"""
    if op == '+':
        return y == x + val
    if op == '*':
        return y == x * val
    if op == '//':
        d = x - val * y
        return z3.Or(d == 0, z3.And(val > 0, d > 0, d < val), z3.And(val < 0, d < 0, d > val))
    if op == '**':
        return y == POW(val, x)
    if op == '~':
        b = val if base is None else base
        return z3.And(b >= 2, x == POW(b, y))
    return z3.BoolVal(False)


class RuleDomain(SeqDomain, NumDomain):
    """counts of unknown kind; quotients inside rules are exact, exponents positive (assumptions)"""
    exact = False

    def reset(self, X):
        NumDomain.reset(self, X)
        self.exact = False

    def exact_quotient(self, X, x, y):
        if self.exact:
            q = X.fresh('quot')
            X.assume(q * y == x)
            return q
        return NumDomain.exact_quotient(self, X, x, y)

    def mul_wf(self, X, l, r):
        X.assume(l.V != 0)

    def exponent(self, X, e):
        if self.exact:
            e = self.lift(X, e)
            if e.is_int(X) and X.truth(SB(e.V < 1)):
                raise PyRaise(ValueError, ())
            X.assume(e.V >= 1)
            return
        return NumDomain.exponent(self, X, e)

    def tuple_repeat(self, X, t, n):
        raise Untranslatable('tuple repeat')

    def identity(self, X, v):
        return None


class OpsV(Ext):
    """a sequence of ops of unknown length"""
    def __init__(self, X, o=None):
        self.o = o if o is not None else X.fresh('ops', OPS)
        self.memo = {}

    def item(self, X, k):
        key = term(k).sexpr()
        if key not in self.memo:
            op = OPNAMES[X.choose(5, f'op[{key}]')]
            val = X.fresh('val')
            if op == '**':
                X.assume(val >= 2)
            elif op == '//':
                X.assume(val != 0)
            self.memo[key] = (op, SI(val))
        return self.memo[key]

    def to_tuple(self, X):
        return self

    def getitem(self, X, k):
        if not is_int(k):
            raise Untranslatable('part of an op sequence')
        i = zint(k)
        if X.truth(SB(z3.And(i >= 0, i < LEN(self.o)))):
            return self.item(X, i)
        if X.truth(SB(z3.And(i < 0, i >= -LEN(self.o)))):
            return self.item(X, i + LEN(self.o))
        raise PyRaise(IndexError, ())

    def loop_iter(self, X):
        return LoopIter(lambda i: i < LEN(self.o), lambda X, i: self.item(X, i), 'ops')

    def length(self, X):
        X.assume(LEN(self.o) >= 0)
        return SI(LEN(self.o))

    def isinstance(self, X, cls):
        return cls is tuple

    def match_sequence(self, X, p):
        return None             # its elements are pairs

    def truth(self, X):
        return SB(LEN(self.o) > 0)

    def compare(self, X, op, other, refl):
        if op in ('==', '!='):
            eq = other is self
            if not eq and isinstance(other, OpsV):
                raise Untranslatable('comparison of op sequences')
            return eq if op == '==' else not eq
        raise Untranslatable('order of op sequences')


class OpList(Ext):
    """the list of ops built by a loop: an unknown part, then the ops appended (front: put before it) in this iteration"""
    def __init__(self, const, items=(), front=False):
        self.const, self.items, self.front, self.flip = const, list(items), front, False

    def getattr(self, X, name):
        if name == 'append' and not self.front and not self.flip:
            def append(X, a, k):
                self.items.append(a[0])
            return append
        if name == 'insert' and self.front and not self.flip:
            def insert(X, a, k):
                if a[0] != 0:
                    raise Untranslatable('insert')
                self.items.append(a[1])
            return insert
        if name == 'reverse':
            def reverse(X, a, k):
                self.flip = not self.flip
            return reverse
        raise Untranslatable(f'{name} of a list of ops')

    def reversed(self, X):
        return OpPart(self, True)

    def to_tuple(self, X):
        return OpPart(self, False)

    def isinstance(self, X, cls):
        return cls is list

    def getitem(self, X, k):
        if hasattr(k, 'py') and k.concrete() and k.py() == slice(None, None, -1):
            return OpPart(self, True)
        raise Untranslatable('part of a list of ops')

    def binop(self, X, op, other, refl):
        return OpPart(self, False).binop(X, op, other, refl)


class OpPart(Ext):
    def __init__(self, lst, rev):
        self.lst, self.rev = lst, rev != lst.flip

    def to_tuple(self, X):
        return self

    def to_list(self, X):
        return self

    def isinstance(self, X, cls):
        return cls is tuple

    def part(self, X):
        if self.lst.items:
            raise Untranslatable('ops appended after the loop')
        return (RCH if self.rev else CH), self.lst.const

    def isinstance(self, X, cls):
        return cls in (tuple, list)

    def binop(self, X, op, other, refl):
        if op != '+':
            raise Untranslatable('ops')
        if isinstance(other, OpList):
            other = OpPart(other, False)
        if not isinstance(other, OpPart):
            raise Untranslatable('ops')
        a, b = (other, self) if refl else (self, other)
        fa, ca = a.part(X)
        fb, cb = b.part(X)
        r = OpsV(X)
        x, y, z = z3.Ints('x y z')
        X.assume(z3.ForAll([x, y, z], z3.Implies(z3.And(fa(ca, x, y), fb(cb, y, z)), CH(r.o, x, z)),
                           patterns=[z3.MultiPattern(fa(ca, x, y), fb(cb, y, z))]))
        return r


def tupled(X, v):
    return v.to_tuple(X) if isinstance(v, OpList) else v


# ------------------------------------------------------------------ the counts given to the rule
def op_rel(X, op, cs):
    """the op explains the counts: [(name, formula)]"""
    vs = [V(c) for c in cs]
    pairs = list(zip(vs, vs[1:]))
    if op is None:
        return [('all-equal', z3.And([a == b for a, b in pairs]))]
    if is_int(op):
        return [('explains', z3.And([b == a + zint(op) for a, b in pairs]))]
    if isinstance(op, Cnt):
        return [('kind', z3.BoolVal(op.kind == 'int')), ('explains', z3.And([b == a + V(op) for a, b in pairs]))]
    if isinstance(op, tuple) and len(op) == 2 and all(is_int(x) or isinstance(x, Cnt) for x in op):
        m, d = V(op[0]), V(op[1])
        return [('explains', z3.And([b == m * a + d for a, b in pairs])), ('mul>=2', m >= 2),
                ('growing', z3.And([a < b for a, b in pairs])),
                ('kind', z3.BoolVal(all(getattr(x, 'kind', 'int') == 'int' for x in op)))]
    if isinstance(op, OpsV):
        return [(f'explains-{i + 1}', CH(op.o, a, b)) for i, (a, b) in enumerate(pairs)]
    return [('kind', z3.BoolVal(False))]


def any_op(X, label, cs=None):
    """an arbitrary op (forks), with its facts about the counts"""
    i = X.choose(4, label)
    if i == 0:
        op = None
    elif i == 1:
        op = SI(X.fresh('plus'))
    elif i == 2:
        m, a = X.fresh('mul'), X.fresh('add')
        X.assume(m >= 2)
        op = (SI(m), SI(a))
    else:
        op = OpsV(X)
    if cs is not None:
        for n, f in op_rel(X, op, cs):
            X.assume(f)
    return op


class CalculateDiff(Contract):
    """the returned op explains all four counts; None: they are equal"""
    key = f'{RULES}:calculate_diff'

    def setup(self, X):
        X.domain.exact = True
        cs = [X.domain.new(X, f'c{i}') for i in range(1, 5)]
        for c in cs:
            X.assume(c.V >= 1)
        return cs

    def post(self, X, args, res):
        if isinstance(res, tuple) and len(res) == 2 and all(is_int(x) or isinstance(x, Cnt) for x in res):
            m, c = V(res[0]), V(args[0])
            X.assume(z3.Implies(z3.And(m <= 0, c >= 1), m * c <= 0))      # lemma sign
            X.branch(m == 1)
        for n, f in op_rel(X, res, args):
            X.prove(n, f)

    def apply(self, X, args, kw):
        if len(args) != 4:
            raise Untranslatable('calculate_diff of other than four counts')
        for n in ('UnknownRule', 'RuleLimit', 'SuspectedRule'):
            X.maybe_raise(X.world.class_val(X.world.by_path(RULES), n))
        for c in args:
            X.prove('pre:counts-positive', V(c) >= 1)
        return any_op(X, 'op', args)


class CalculateOpSeq(Contract):
    """the chain of ops leads from each count to the next"""
    key = f'{RULES}:calculate_op_seq'

    def setup(self, X):
        X.domain.exact = True
        cs = [X.domain.new(X, f'c{i}', KINDS[1:]) for i in range(1, 5)]
        for c in cs:
            X.assume(c.V >= 1)
        return cs

    def post(self, X, args, res):
        if not isinstance(res, OpsV):
            X.prove('kind', z3.BoolVal(False))
        for n, f in op_rel(X, res, args):
            X.prove(n, f)

    def apply(self, X, args, kw):
        if len(args) != 4:
            raise Untranslatable('calculate_op_seq of other than four counts')
        X.maybe_raise(X.world.class_val(X.world.by_path(RULES), 'RuleLimit'))
        r = OpsV(X)
        for n, f in op_rel(X, r, args):
            X.assume(f)
        return r


def chain_inv(lst, x, old, new, chain=CH):
    """descent: from the start x to the current new"""
    if isinstance(lst, Lst):
        return x == new if not lst.items else z3.BoolVal(False)
    if not lst.items:
        return chain(lst.const, x, new)
    if len(lst.items) == 1:
        op, val = lst.items[0]
        return z3.And(chain(lst.const, x, old), rel(op, V(val), old, new))
    return z3.BoolVal(False)


def rchain_inv(lst, old, new, end):
    """ascent, read backwards: from the current new to the end"""
    RCH = globals()['CH' if getattr(lst, 'front', False) else 'RCH']
    if isinstance(lst, Lst):
        return new == end if not lst.items else z3.BoolVal(False)
    if not lst.items:
        return RCH(lst.const, new, end)
    if len(lst.items) == 1:
        op, val = lst.items[0]
        return z3.And(rel(op, V(val), new, old), RCH(lst.const, old, end))
    return z3.BoolVal(False)


class Descent(LoopSpec):
    name, roles, up, front = 'descent', ('sub', 'descent'), False, False

    def applies(self, X, node, fr, it):
        return X.target == CalculateOpSeq.key and isinstance(it, RangeV) and bool(X.ghost.get('descended')) == self.up

    def pre(self, X, L):
        L.old = V(L.get(self.roles[0]))

    def havoc(self, X, L, names):
        a, b = self.roles
        c = X.domain.new(X, a)
        L.set(a, c)
        L.old = c.V
        L.set(b, OpList(X.fresh('oplist', OPS), front=self.front))

    def inv(self, X, L):
        cur, lst = L.get(self.roles[0]), L.get(self.roles[1])
        c1, c2 = (V(x) for x in X.root_args[:2])
        if not isinstance(lst, (OpList, Lst)):
            raise Untranslatable('list of ops')
        if self.up:
            return [('chain', rchain_inv(lst, L.old, V(cur), c2))]
        return [('chain', chain_inv(lst, c1, L.old, V(cur)))]

    def on_exit(self, X, L):
        if not self.up:
            X.ghost['descended'] = True

    on_break = on_exit


class Ascent(Descent):
    name, roles, up = 'ascent', ('sup', 'ascent'), True


class AscentFront(Ascent):
    front = True


# ------------------------------------------------------------------ applying
class ApplyOps(Contract):
    """times chains of ops lead from the count to the result"""
    key = f'{RULES}:apply_ops'

    def setup(self, X):
        X.domain.exact = True
        c = X.domain.new(X, 'count')
        if X.choose(2, 'times is int') == 0:
            t = SI(X.fresh('times'))
            X.assume(t.e >= 1)
        else:
            t = X.domain.new(X, 'times', KINDS[1:])
        return [c, t, OpsV(X)]

    def post(self, X, args, res):
        c, t, ops = args
        if not isinstance(res, (Cnt, SI, int)):
            X.prove('kind', z3.BoolVal(False))
        X.prove('times-chains', ITER(ops.o, V(t), V(c), V(res)))

    def apply(self, X, args, kw):
        c, t, ops = args
        if not isinstance(ops, OpsV):
            raise Untranslatable('apply_ops of other ops')
        X.maybe_raise(X.world.class_val(X.world.by_path(RULES), 'RuleLimit'))
        r = X.domain.new(X, 'applied')
        n = V(t)
        X.assume(ITER(ops.o, n, V(c), r.V))
        X.assume(z3.Implies(n == 1, CH(ops.o, V(c), r.V)))      # definition of ITER
        return r


class TimesLoop(LoopSpec):
    """idx chains done"""
    name, roles = 'times', ('result',)

    def applies(self, X, node, fr, it):
        return X.target == ApplyOps.key and isinstance(it, RangeV)

    def pre(self, X, L):
        L.ops, L.c = X.root_args[2].o, V(X.root_args[0])
        x = V(L.get('result'))
        X.assume(ITER(L.ops, 0, x, x))          # definition

    def havoc(self, X, L, names):
        c = X.domain.new(X, 'result')
        L.set('result', c)
        L.old = c.V

    def inv(self, X, L):
        return [('chains', ITER(L.ops, L.idx, L.c, V(L.get('result'))))]

    def step(self, X, L):
        y = V(L.get('result'))
        X.assume(z3.Implies(z3.And(ITER(L.ops, L.idx - 1, L.c, L.old), CH(L.ops, L.old, y)), ITER(L.ops, L.idx, L.c, y)))


class OpsLoop(LoopSpec):
    """the first idx ops done"""
    name, roles = 'ops', ('result',)

    def applies(self, X, node, fr, it):
        return X.target == ApplyOps.key and isinstance(it, OpsV)

    def pre(self, X, L):
        L.ops = L.iterable.o
        L.x = V(L.get('result'))
        X.assume(PCH(L.ops, 0, L.x, L.x))       # definition

    def havoc(self, X, L, names):
        L.cnt = X.domain.new(X, 'result')
        L.old = L.cnt.V
        L.set('result', L.cnt)

    def inv(self, X, L):
        return [('prefix', PCH(L.ops, L.idx, L.x, V(L.get('result'))))]

    def step(self, X, L):
        y = V(L.get('result'))
        op, val = L.elem
        base = None
        if op == '~':
            r = L.cnt.root()
            base = V(r.fields['base']) if r.kind == 'Exp' and r.fields else z3.IntVal(0)
        X.assume(z3.Implies(z3.And(PCH(L.ops, L.idx - 1, L.x, L.old), rel(op, V(val), L.old, y, base)),
                            PCH(L.ops, L.idx, L.x, y)))

    def on_exit(self, X, L):
        y = V(L.get('result'))
        X.assume(LEN(L.ops) >= 0)
        X.assume(z3.Implies(z3.And(PCH(L.ops, L.idx, L.x, y), L.idx == LEN(L.ops)), CH(L.ops, L.x, y)))


def affine(m, a, n, c):
    """n times c -> m * c + a"""
    return POW(m, n) * c + a * GEO(m, n)


def geo_facts(X, m, n):
    """lemma (pyvc.lemmas): m**n - 1 = (m - 1) * geo(m, n), and the first values"""
    X.assume(POW(m, n) - 1 == (m - 1) * GEO(m, n))
    X.assume(z3.Implies(n == 1, z3.And(GEO(m, n) == 1, POW(m, n) == m)))


class ApplyMult(Contract):
    """the result is the times-fold image of the count under c -> mul * c + add"""
    key = f'{RULES}:apply_mult'

    def setup(self, X):
        D = X.domain
        c, t = D.new(X, 'count'), D.new(X, 'times')
        m, a = SI(X.fresh('mul')), SI(X.fresh('add'))
        X.assume(z3.And(m.e >= 2, t.V >= 1, c.V >= 1))
        geo_facts(X, m.e, t.V)
        X.hooks['divisible'] = self.divisible
        return [c, t, m, a]

    def divisible(self, X, x, y):
        c, t, m, a = X.root_args
        g = GEO(m.e, t.V)
        for q in (g - 1, g):
            if X.prover_ok(z3.And(y * q == x, y != 0)):
                X.assume(y * q == x)
                return z3.simplify(q)
        return None

    def post(self, X, args, res):
        c, t, m, a = args
        if not isinstance(res, (Cnt, SI, int)):
            X.prove('kind', z3.BoolVal(False))
        X.prove('value', V(res) == affine(m.e, a.e, V(t), V(c)))

    def apply(self, X, args, kw):
        c, t, m, a = args
        X.prove('pre:apply_mult', z3.And(V(m) >= 2, V(t) >= 1, V(c) >= 1))
        X.maybe_raise(X.world.class_val(X.world.by_path(RULES), 'RuleLimit'))
        return X.domain.result(X, affine(V(m), V(a), V(t), V(c)))


# ------------------------------------------------------------------ rules and tapes as maps
class PosV(Ext):
    """a position (side, index)"""
    def __init__(self, p):
        self.p = p

    def compare(self, X, op, other, refl):
        if op in ('is', 'is not'):
            op = {'is': '==', 'is not': '!='}[op]
        if op not in ('==', '!='):
            raise Untranslatable('order of positions')
        r = self.p == other.p if isinstance(other, PosV) else z3.BoolVal(False)
        return SB(r if op == '==' else z3.Not(r))

    def isinstance(self, X, cls):
        return cls is tuple


class SymRule(Ext):
    """a rule: distinct positions with arbitrary ops; k0 is an arbitrary fixed entry"""
    def __init__(self, X):
        self.n, self.k0 = X.fresh('entries'), X.fresh('k0')
        X.assume(z3.And(self.n >= 0, self.k0 >= 0, self.k0 < self.n))
        u = next(X.fresh_n)
        self.pos = z3.Function(f'pos!{u}', I, POS)
        self.inv = z3.Function(f'entry!{u}', POS, I)
        self.memo = []
        self.seen = []

    def op(self, X, k):
        for kk, v in self.memo:
            if kk is k or z3.eq(kk, k) or X.branch(kk == k):
                return v
        v = None
        while v is None:
            v = any_op(X, f'rule[{k}]')
            if v is None:
                raise PathEnd
        self.memo.append((k, v))
        return v

    def at(self, X, k):
        k = term(k)
        X.assume(self.inv(self.pos(k)) == k)
        if not any(z3.eq(k, s) for s in self.seen):
            self.seen.append(k)
        for f in X.ghost.get('rule-facts', ()):
            f(k)
        return PosV(self.pos(k)), self.op(X, k)

    def items(self, X):
        s = SeqV(self.n, lambda X, k: self.at(X, k), 'items', label='rule')
        s.rule = self
        return s

    def getattr(self, X, name):
        if name == 'items':
            return lambda X, a, k: self.items(X)
        if name == 'values':
            return lambda X, a, k: SeqV(self.n, lambda X, i: self.at(X, i)[1], 'values', label='rule')
        if name == 'keys':
            return lambda X, a, k: self.keys(X)
        raise Untranslatable(f'rule.{name}')

    def keys(self, X):
        return SeqV(self.n, lambda X, i: self.at(X, i)[0], 'keys', label='rule')

    def loop_iter(self, X):
        return self.keys(X).loop_iter(X)

    def as_seq(self, X):
        return self.keys(X)

    def length(self, X):
        return SI(self.n)

    def getitem(self, X, k):
        for i in self.seen:
            if isinstance(k, PosV) and z3.eq(k.p, self.pos(i)):
                return self.op(X, i)
        raise Untranslatable('rule[...]')


class SymTape(Ext):
    """get_count/set_count on positions"""
    def __init__(self, X):
        self.c0 = z3.Const(f'counts!{next(X.fresh_n)}', z3.ArraySort(POS, I))
        self.mem = self.c0
        self.memo = []

    def get(self, X, pos):
        if not isinstance(pos, PosV):
            raise Untranslatable('position')
        for m, p, c in self.memo:
            if z3.eq(m, self.mem) and z3.eq(p, pos.p):
                return c
        c = X.domain.new(X, 'count')
        X.assume(c.V == z3.Select(self.mem, pos.p))
        self.memo.append((self.mem, pos.p, c))
        f = X.ghost.get('count-facts')
        if f:
            f(pos, c)
        return c

    def getattr(self, X, name):
        if name == 'get_count':
            return lambda X, a, k: self.get(X, a[0])
        if name == 'set_count':
            def st(X, a, k):
                if not isinstance(a[0], PosV):
                    raise Untranslatable('position')
                v = a[1]
                if not isinstance(v, (Cnt, SI, int)):
                    X.prove('count-set-to-a-count', z3.BoolVal(False))
                self.mem = z3.Store(self.mem, a[0].p, V(v))
            return st
        raise Untranslatable(f'tape.{name}')


def dec(op):
    """(is decreasing, amount)"""
    if is_int(op):
        return zint(op) < 0, -zint(op)
    return z3.BoolVal(False), z3.IntVal(1)


class CountApps(Contract):
    """the largest number of times all decreasing counts stay positive, and an entry that then cannot decrease again"""
    key = f'{RULES}:count_apps'

    def setup(self, X):
        r, t = SymRule(X), SymTape(X)
        self.assumptions(X, r, t)
        self.op0 = r.at(X, r.k0)[1]
        return [r, t]

    def assumptions(self, X, r, t):
        def facts(k):
            X.assume(z3.Select(t.c0, r.pos(k)) >= 1)
        X.ghost['rule-facts'] = [facts]

        def counts(pos, c):
            # a symbolic count is larger than what a rule subtracts
            if c.kind != 'int':
                for k, op in r.memo:
                    d, a = dec(op)
                    X.assume(z3.Implies(z3.And(pos.p == r.pos(k), d), c.V > a))
        X.ghost['count-facts'] = counts

    def post(self, X, args, res):
        r, t = args
        X.prove('tape-unchanged', t.mem == t.c0)
        c0 = z3.Select(t.c0, r.pos(r.k0))
        d0, a0 = dec(self.op0)
        if res is None:
            stuck = [z3.Not(d0)]
            for k, op in r.memo:
                d, a = dec(op)
                c = z3.Select(t.c0, r.pos(k))
                stuck.append(z3.And(k >= 0, k < r.n, d, c <= a))
            X.prove('none-only-if-not-applicable', z3.Or(stuck))
            return
        X.prove('triple', z3.BoolVal(isinstance(res, tuple) and len(res) == 3 and isinstance(res[1], PosV)))
        times, pos, left = V(res[0]), res[1], V(res[2])
        mono(X, times, a0)
        X.prove('stays-positive', z3.Implies(d0, c0 - a0 * times >= 1))
        X.prove('at-least-once', times >= 1)
        prove_min(X, r, t, times, pos, left)

    def apply(self, X, args, kw):
        r, t = args
        if not isinstance(r, SymRule) or not isinstance(t, SymTape):
            raise Untranslatable('count_apps of another rule')
        if not z3.eq(t.mem, t.c0):
            raise Untranslatable('count_apps of a changed tape')
        X.maybe_raise(X.world.class_val(X.world.by_path(RULES), 'RuleLimit'))
        if X.choose(2, 'apps') == 0:
            X.ghost['apps'] = None
            return None
        w, times, left = X.fresh('w'), X.fresh('times'), X.fresh('left')
        X.assume(z3.And(w >= 0, w < r.n, times >= 1))
        X.assume(r.inv(r.pos(w)) == w)
        tc = X.domain.result(X, times, label='times')

        def facts(k):
            op = r.op(X, k)
            d, a = dec(op)
            c = z3.Select(t.c0, r.pos(k))
            X.assume(z3.Implies(d, c - a * times >= 1))
            X.assume(z3.Implies(k == w, z3.And(d, left == c - a * times, left >= 1, left <= a)))
        X.ghost['rule-facts'].append(facts)
        for k in list(r.seen):
            facts(k)
        X.ghost['apps'] = (times, w, left)
        return tc, PosV(r.pos(w)), SI(left)


def mono(X, times, a):
    """if times <= t then a * times <= a * t, for every other number of applications in sight (a >= 1)"""
    for t in X.ghost.get('times-seen', ()):
        X.assume(z3.Implies(z3.And(a >= 1, times <= t), a * times <= a * t))


def prove_min(X, r, t, times, pos, left):
    """the reported entry is decreasing and left with 1..amount"""
    alts = []
    for k, op in r.memo + X.ghost.get('min-witness', []):
        d, a = dec(op)
        c = z3.Select(t.c0, r.pos(k))
        alts.append(z3.And(k >= 0, k < r.n, pos.p == r.pos(k), d, left == c - a * times, left >= 1, left <= a))
    X.prove('limiting-entry', z3.Or(alts))


class AppsLoop(LoopSpec):
    name, roles = 'apps', ('apps',)

    def applies(self, X, node, fr, it):
        return X.target == CountApps.key and isinstance(it, (SeqV, SymRule))

    def havoc(self, X, L, names):
        r, t = X.root_args
        if X.choose(2, 'apps so far') == 0:
            L.set('apps', None)
            return
        w, times, left = X.fresh('w'), X.fresh('times'), X.fresh('left')
        op = SI(X.fresh('plus'))
        L.w = w
        X.ghost.setdefault('min-witness', []).append((w, op))
        X.ghost.setdefault('times-seen', []).append(times)
        X.assume(r.inv(r.pos(w)) == w)
        L.set('apps', (X.domain.result(X, times, label='times'), PosV(r.pos(w)), X.domain.result(X, left, label='left')))

    def inv(self, X, L):
        r, t = X.root_args
        apps = L.get('apps')
        op0 = X.contract.op0
        d0, a0 = dec(op0)
        c0 = z3.Select(t.c0, r.pos(r.k0))
        out = [('tape', t.mem == t.c0)]
        if apps is None:
            return out + [('none-decreasing-yet', z3.Not(z3.And(r.k0 < L.idx, d0)))]
        if not (isinstance(apps, tuple) and len(apps) == 3 and isinstance(apps[1], PosV)):
            return out + [('triple', z3.BoolVal(False))]
        times, pos, left = V(apps[0]), apps[1], V(apps[2])
        mono(X, times, a0)
        alts = []
        for k, op in r.memo + X.ghost.get('min-witness', []):
            d, a = dec(op)
            c = z3.Select(t.c0, r.pos(k))
            alts.append(z3.And(k >= 0, k < L.idx, pos.p == r.pos(k), d, left == c - a * times, left >= 1, left <= a))
        return out + [('stays-positive', z3.Implies(z3.And(r.k0 < L.idx, d0), c0 - a0 * times >= 1)),
                      ('at-least-once', times >= 1), ('limiting-entry', z3.Or(alts) if alts else z3.BoolVal(False))]

    def step(self, X, L):
        seen = X.ghost.setdefault('times-seen', [])

        def add(v):
            if isinstance(v, (Cnt, SI)):
                seen.append(V(v))
            elif isinstance(v, tuple):
                for x in v:
                    add(x)
        for v in list(L.fr.vars.values()):
            add(v)


class AppsLoop3(AppsLoop):
    """the same with three variables"""
    roles = ('times', 'pos', 'left')

    def applies(self, X, node, fr, it):
        return super().applies(X, node, fr, it) and not any(
            n in fr.vars for n in X.assigned_names(node) if False) and sum(
            1 for n in X.assigned_names(node) if n in fr.vars) >= 3

    def havoc(self, X, L, names):
        class Box:
            fr, idx = L.fr, L.idx

            def set(_, role, v):
                for r, x in zip(self.roles, v if v is not None else (None,) * 3):
                    L.set(r, x)
        super().havoc(X, Box(), names)

    def inv(self, X, L):
        vs = tuple(L.get(r) for r in self.roles)

        class Box:
            fr, idx = L.fr, L.idx

            def get(_, role):
                return None if all(v is None for v in vs) else vs
        if any(v is None for v in vs) and not all(v is None for v in vs):
            return [('triple', z3.BoolVal(False))]
        return super().inv(X, Box())


class ApplyRule(Contract):
    """None: nothing changed.  Otherwise every entry's count becomes its times-fold image, decreasing ones stay positive and
    one of them cannot decrease again; other counts are unchanged"""
    key = f'{RULES}:apply_rule'

    def setup(self, X):
        r, t = SymRule(X), SymTape(X)
        X.ghost['rule-facts'] = [lambda k: X.assume(z3.And(z3.Select(t.c0, r.pos(k)) >= 1, r.pos(k) != self.other))]
        self.other = X.fresh('other', POS)
        X.ghost['apps'] = 'none'
        self.op0 = r.at(X, r.k0)[1]
        return [r, t]

    def image(self, X, op, times, old, new):
        if is_int(op):
            return z3.And(new == old + zint(op) * times, z3.Implies(zint(op) < 0, new >= 1))
        if isinstance(op, tuple):
            return new == affine(V(op[0]), V(op[1]), times, old)
        return ITER(op.o, times, old, new)

    def post(self, X, args, res):
        r, t = args
        p0 = r.pos(r.k0)
        new, old = z3.Select(t.mem, p0), z3.Select(t.c0, p0)
        X.prove('other-counts-unchanged', z3.Select(t.mem, self.other) == z3.Select(t.c0, self.other))
        apps = X.ghost['apps']
        if res is None:
            X.prove('not-applied-unchanged', new == old)
            X.prove('none-only-if-not-applicable', z3.BoolVal(apps is None))
            return
        X.prove('times', z3.BoolVal(isinstance(apps, tuple)))
        X.prove('times', V(res) == apps[0])
        X.prove('image', self.image(X, self.op0, apps[0], old, new))
        if is_int(self.op0):
            X.prove('cannot-be-applied-again', z3.Implies(r.k0 == apps[1], z3.And(zint(self.op0) < 0, new <= -zint(self.op0))))


class ApplyLoop(LoopSpec):
    name, roles = 'entries', ()

    def applies(self, X, node, fr, it):
        return X.target == ApplyRule.key and isinstance(it, (SeqV, SymRule))

    def pre(self, X, L):
        pass

    def havoc(self, X, L, names):
        r, t = X.root_args
        t.mem = z3.Const(f'counts!{next(X.fresh_n)}', z3.ArraySort(POS, I))
        L.fresh_mem = t.mem

    def inv(self, X, L):
        r, t = X.root_args
        c = X.contract
        apps = X.ghost['apps']
        if not isinstance(apps, tuple):
            return [('applied-only-when-applicable', z3.BoolVal(False))]
        p0 = r.pos(r.k0)
        new, old = z3.Select(t.mem, p0), z3.Select(t.c0, p0)
        return [('done', z3.Implies(r.k0 < L.idx, c.image(X, c.op0, apps[0], old, new))),
                ('to-do', z3.Implies(r.k0 >= L.idx, new == old)),
                ('other', z3.Select(t.mem, c.other) == z3.Select(t.c0, c.other))]

    def inv_assume(self, X, L):
        """the same invariant at the entry of this iteration"""
        r, t = X.root_args
        r.at(X, L.idx)
        p = r.pos(L.idx)
        return [z3.Select(t.mem, p) == z3.Select(t.c0, p)]


# ------------------------------------------------------------------ making a rule
class RuleMap(Ext):
    """the rule under construction: only the entry at the fixed position is followed"""
    def __init__(self, X, c, val=None, has=False):
        self.c, self.val, self.has = c, val, has
        self.wit = None

    def setitem(self, X, k, v):
        if not (isinstance(k, tuple) and len(k) == 2):
            raise Untranslatable('key of a rule')
        s, i = k
        if X.truth(X.eqb(s, self.c.s0)) and X.truth(SB(zint(i) == self.c.i0)):
            self.has, self.val = True, v

    def values(self, X):
        n, K0 = X.fresh('entries'), X.fresh('K0')
        X.assume(n >= 0)
        if self.has:
            X.assume(z3.And(K0 >= 0, K0 < n))
        memo = []

        def at(X, k):
            if self.has and X.branch(k == K0):
                return self.val
            for kk, v in memo:
                if z3.eq(kk, k):
                    return v
            v = any_op(X, f'value[{k}]')
            if v is None:
                raise PathEnd
            memo.append((k, v))
            return v
        s = SeqV(n, at, 'values', label='values')
        s.rulemap, s.K0 = self, K0
        self.wit = s
        self.read = lambda: list(memo)
        return s

    def items(self, X):
        vs = self.values(X)

        def at(X, k):
            v = vs.at(X, k)
            if self.has and v is self.val and X.branch(term(k) == vs.K0):
                return (self.c.s0, SI(self.c.i0)), v
            return (SI(X.fresh('s')), SI(X.fresh('i'))), v
        r = SeqV(vs.n, at, 'items', label='items')
        r.source = vs
        return r

    def getattr(self, X, name):
        if name == 'values':
            return lambda X, a, k: self.values(X)
        if name == 'items':
            return lambda X, a, k: self.items(X)
        raise Untranslatable(f'rule.{name}')

    def truth(self, X):
        return True if self.has else SB(X.fresh('nonempty', 'bool'))

    def length(self, X):
        n = X.fresh('entries')
        X.assume(n >= (1 if self.has else 0))
        return SI(n)


class MakeRule(Contract):
    """every position of the shortest spans: its op explains the four counts (no entry: equal counts); some entry decreases.
    InfiniteRule: no entry decreases"""
    key = f'{RULES}:make_rule'

    def setup(self, X):
        self.s0 = X.choose(2, 'side')
        self.i0 = X.fresh('i0')
        out, self.cols = [], []
        for j in range(4):
            pair = []
            for s in range(2):
                n = X.fresh(f'len{j}{s}')
                X.assume(n >= 0)
                pair.append(CountList(X, n, f'{j}{s}'))
            self.cols.append(pair)
            out.append(tuple(p.lst for p in pair))
        for j in range(4):
            X.assume(z3.And(self.i0 >= 0, self.i0 < self.cols[j][self.s0].n))
        self.cs = [self.cols[j][self.s0].at(X, self.i0) for j in range(4)]
        return out

    def entry(self, X, rule, what):
        if rule.has:
            for n, f in op_rel(X, rule.val, self.cs):
                X.prove(f'{what}:{n}', f)
        else:
            for n, f in op_rel(X, None, self.cs):
                X.prove(f'{what}:{n}', f)

    def exc(self, X, args, e):
        if e.name != 'InfiniteRule':
            return
        rule = X.ghost.get('rule')
        if rule is None:
            X.prove('infinite-rule-after-all-positions', z3.BoolVal(False))
        self.entry(X, rule, 'infinite')
        v = [c.V for c in self.cs]
        if rule.has and not isinstance(rule.val, OpsV):
            if rule.wit is not None:
                instantiate(X, rule.wit.K0)
            X.prove('infinite:nothing-decreases', z3.And([a <= b for a, b in zip(v, v[1:])]))

    def post(self, X, args, res):
        if res is None:
            return
        if not isinstance(res, RuleMap):
            raise Untranslatable(f'make_rule returns {res!r}')
        self.entry(X, res, 'entry')
        ok = []
        for s, w in X.ghost.get('witness', ()):
            while getattr(s, 'source', None) is not None:
                s = s.source
            v = s.at(X, w)
            if v is not None and is_int(v):
                ok.append(zint(v) < 0)
        X.prove('something-decreases', z3.Or(ok) if ok else z3.BoolVal(False))


class CountList:
    """the counts of one side of one tape"""
    def __init__(self, X, n, label):
        self.n = n
        self.f = z3.Function(f'cnt{label}!{next(X.fresh_n)}', I, I)
        self.memo = []
        self.lst = Lst([], SeqTail(SeqV(n, self.at, 'list', label=f'counts{label}')))

    def at(self, X, k):
        k = term(k)
        for kk, c in self.memo:
            if z3.eq(kk, k):
                return c
        c = X.domain.new(X, 'count')
        X.assume(z3.And(c.V == self.f(k), c.V >= 1))
        self.memo.append((k, c))
        return c


class BuildLoop(LoopSpec):
    name, roles = 'positions', ('rule',)

    def applies(self, X, node, fr, it):
        if X.target != MakeRule.key or not isinstance(it, SeqV):
            return False
        while it is not None:
            if getattr(it, 'rulemap', None) is not None:
                return False
            it = getattr(it, 'source', None)
        return True

    def pre(self, X, L):
        side = X.ghost.get('sides', 0)
        L.side = side
        X.ghost['sides'] = side + 1

    def havoc(self, X, L, names):
        L.set('rule', RuleMap(X, X.contract))
        X.ghost['rule'] = L.get('rule')

    def processed(self, X, L, idx):
        c = X.contract
        if L.side != c.s0:
            return L.side > c.s0
        return X.branch(c.i0 < idx)

    def inv(self, X, L):
        c = X.contract
        rule = L.get('rule')
        if isinstance(rule, RuleMap) and getattr(L, 'assumed', None) is None:
            L.assumed = True
            return []               # the arbitrary state: see inv_assume
        if isinstance(rule, Dct):
            if rule.d:
                raise Untranslatable('rule')
            return [('empty', z3.BoolVal(not self.processed(X, L, L.idx)))] if L.side == c.s0 or L.side > c.s0 else []
        if self.processed(X, L, L.idx):
            fs = op_rel(X, rule.val if rule.has else None, c.cs)
            return [(n, f) for n, f in fs]
        return [('not-yet', z3.BoolVal(not rule.has))]

    def inv_assume(self, X, L):
        c, rule = X.contract, L.get('rule')
        if self.processed(X, L, L.idx):
            rule.val = any_op(X, 'entry', c.cs)
            rule.has = rule.val is not None
        return []


def rule_contracts(world):
    out = {}
    for c in (CalculateDiff(), CalculateOpSeq(), ApplyOps(), ApplyMult(), CountApps(), ApplyRule(), MakeRule()):
        out[c.key] = c
    m = MakeContract('Exp')
    m.verify = False
    out[m.key] = m
    return out


LOOPS = [Descent(), Ascent(), AscentFront(), AppsLoop3(), TimesLoop(), OpsLoop(), AppsLoop(), ApplyLoop(), BuildLoop()]
