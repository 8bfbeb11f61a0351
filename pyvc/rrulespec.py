"""Contracts of src/rules.rs: learning and applying rules in the compiled library.  Meaning and invariants are those of rulespec; an op
is Plus(p) or Mult((q, r)), and rules with Mult are not applied (the code panics)."""
from __future__ import annotations
import z3
from . import rulespec as R
from .values import *
from .engine import Contract, Ext, LoopSpec, SB, SI, PathEnd, zbool
from .rengine import RDomain, Some, Wrap, inner, is_none
from .seq import SeqV, SeqTail, SeqDomain, as_seq, instantiate, term

RR = 'src/rules.rs'
I, B = z3.IntSort(), z3.BoolSort()


def rcls(X, name):
    return X.world.class_val(X.world.by_path(RR), name)


def plus(X, p):
    return Obj(rcls(X, 'Op__Plus'), dict(_0=SI(p)))


def amount(op):
    """the constant a Plus adds (None: another op)"""
    if isinstance(op, Obj) and op.cls.name == 'Op__Plus':
        return zint(op.attrs['_0'])
    return None


def dec(op):
    p = amount(op)
    if p is None and is_int(op):
        p = zint(op)
    return (z3.BoolVal(False), z3.IntVal(1)) if p is None else (p < 0, -p)


def op_rel(X, op, cs):
    pairs = list(zip(cs, cs[1:]))
    if op is None:
        return [('all-equal', z3.And([a == b for a, b in pairs]))]
    p = amount(op)
    if p is not None:
        return [('explains', z3.And([b == a + p for a, b in pairs]))]
    if isinstance(op, Obj) and op.cls.name == 'Op__Mult':
        v = op.attrs['_0']
        q, r = zint(v[0]), zint(v[1])
        return [('explains', z3.And([b == q * a + r for a, b in pairs]))]
    return [('kind', z3.BoolVal(False))]


def any_op(X, label, cs=None):
    i = X.choose(3, label)
    if i == 0:
        op = None
    elif i == 1:
        op = plus(X, X.fresh('plus'))
    else:
        op = Obj(rcls(X, 'Op__Mult'), dict(_0=(SI(X.fresh('mul')), SI(X.fresh('add')))))
    if cs is not None:
        for n, f in op_rel(X, op, cs):
            X.assume(f)
    return op


class RRuleDomain(RDomain, SeqDomain):
    def generic(self, X, name):
        return None


class PosV(R.PosV):
    rust_value = True


class SymRule(R.SymRule):
    def op(self, X, k):
        for kk, v in self.memo:
            if kk is k or z3.eq(kk, k) or X.branch(kk == k):
                return v
        v = any_op(X, f'rule[{k}]')
        if v is None:
            raise PathEnd
        self.memo.append((k, v))
        return v

    def at(self, X, k):
        p, op = super().at(X, k)
        return PosV(p.p), op

    def loop_iter(self, X):
        return self.items(X).loop_iter(X)

    def as_seq(self, X):
        return self.items(X)

    def rm_iter(self, X):
        return self.items(X)
    rm_into_iter = rm_iter

    def rm_values(self, X):
        return SeqV(self.n, lambda X, i: self.at(X, i)[1], 'values', label='rule')

    def rm_keys(self, X):
        return SeqV(self.n, lambda X, i: self.at(X, i)[0], 'keys', label='rule')

    def rm_len(self, X):
        return SI(self.n)

    def rm_is_empty(self, X):
        return SB(self.n == 0)

    def rm_get(self, X, k):
        return Some(self.getitem(X, k))


class SymTape(R.SymTape):
    def get(self, X, pos):
        if not isinstance(pos, R.PosV):
            raise Untranslatable('position')
        return SI(z3.Select(self.mem, pos.p))

    def rm_get_count(self, X, pos):
        return self.get(X, pos)

    def rm_set_count(self, X, pos, v):
        if not isinstance(pos, R.PosV):
            raise Untranslatable('position')
        self.mem = z3.Store(self.mem, pos.p, zint(v))


class CalculateDiff(Contract):
    """None: the counts are equal; Got(op): op explains them; Unknown otherwise"""
    key = f'{RR}:calculate_diff'

    def setup(self, X):
        cs = [X.fresh(f'c{i}') for i in range(1, 5)]
        for c in cs:
            X.assume(c >= 1)
        self.cs = cs
        return [SI(c) for c in cs]

    def post(self, X, args, res):
        if res is None:
            r = None
        else:
            X.prove('some', z3.BoolVal(isinstance(res, Wrap)))
            r = res.v
            if isinstance(r, Obj) and r.cls.name == 'DiffResult__Unknown':
                X.prove('unknown-only-if-not-constant', z3.Not(z3.And(self.cs[1] - self.cs[0] == self.cs[2] - self.cs[1],
                                                                     self.cs[2] - self.cs[1] == self.cs[3] - self.cs[2])))
                return
            X.prove('got', z3.BoolVal(isinstance(r, Obj) and r.cls.name == 'DiffResult__Got'))
            r = r.attrs['_0']
        for n, f in op_rel(X, r, self.cs):
            X.prove(n, f)
        if r is not None and amount(r) is not None:
            X.prove('not-for-equal-counts', amount(r) != 0)

    def apply(self, X, args, kw):
        if len(args) != 4:
            raise Untranslatable('calculate_diff of other than four counts')
        cs = [zint(a) for a in args]
        for c in cs:
            X.prove('pre:counts-positive', c >= 1)
        if X.choose(2, 'unknown') == 1:
            X.ghost['unknown'] = True
            return Some(Obj(rcls(X, 'DiffResult__Unknown'), {}))
        op = any_op(X, 'op', cs)
        if op is None:
            return None
        if amount(op) is not None:
            X.assume(amount(op) != 0)
        return Some(Obj(rcls(X, 'DiffResult__Got'), dict(_0=op)))


def unwrap(res):
    return res.v if isinstance(res, Wrap) else res


def limiting(X, r, t, times, pos, left, bound):
    alts = []
    for k, op in r.memo + X.ghost.get('min-witness', []):
        d, a = dec(op)
        c = z3.Select(t.c0, r.pos(k))
        alts.append(z3.And(k >= 0, k < bound, pos.p == r.pos(k), d, left == c - a * times, left >= 1, left <= a))
    return z3.Or(alts) if alts else z3.BoolVal(False)


class CountApps(R.CountApps):
    key = f'{RR}:count_apps'

    def setup(self, X):
        r, t = SymRule(X), SymTape(X)
        X.ghost['rule-facts'] = [lambda k: X.assume(z3.Select(t.c0, r.pos(k)) >= 1)]
        self.op0 = r.at(X, r.k0)[1]
        return [r, t]

    def post(self, X, args, res):
        r, t = args
        X.prove('tape-unchanged', t.mem == t.c0)
        c0 = z3.Select(t.c0, r.pos(r.k0))
        d0, a0 = dec(self.op0)
        if res is None:
            stuck = [z3.Not(d0)]
            for k, op in r.memo:
                d, a = dec(op)
                stuck.append(z3.And(k >= 0, k < r.n, d, z3.Select(t.c0, r.pos(k)) <= a))
            X.prove('none-only-if-not-applicable', z3.Or(stuck))
            return
        v = unwrap(res)
        X.prove('triple', z3.BoolVal(isinstance(v, tuple) and len(v) == 3 and isinstance(v[1], R.PosV)))
        times, pos, left = zint(v[0]), v[1], zint(v[2])
        R.mono(X, times, a0)
        X.prove('stays-positive', z3.Implies(d0, c0 - a0 * times >= 1))
        X.prove('at-least-once', times >= 1)
        X.prove('limiting-entry', limiting(X, r, t, times, pos, left, r.n))

    def apply(self, X, args, kw):
        r, t = args
        if not isinstance(r, SymRule) or not isinstance(t, SymTape) or not z3.eq(t.mem, t.c0):
            raise Untranslatable('count_apps of another rule or a changed tape')
        if X.choose(2, 'apps') == 0:
            X.ghost['apps'] = None
            return None
        w, times, left = X.fresh('w'), X.fresh('times'), X.fresh('left')
        X.assume(z3.And(w >= 0, w < r.n, times >= 1, r.inv(r.pos(w)) == w))

        def facts(k):
            op = r.op(X, k)
            d, a = dec(op)
            c = z3.Select(t.c0, r.pos(k))
            X.assume(z3.Implies(d, c - a * times >= 1))
            X.assume(z3.Implies(k == w, z3.And(d, left == c - a * times, left >= 1, left <= a)))
        X.ghost['rule-facts'].append(facts)
        for k in list(r.seen):
            facts(k)
        X.ghost['apps'] = (times, w, left)
        return Some((SI(times), PosV(r.pos(w)), SI(left)))


class AppsLoop(LoopSpec):
    name, roles = 'apps', ('apps',)

    def applies(self, X, node, fr, it):
        return X.target == CountApps.key and isinstance(it, (SeqV, SymRule))

    def havoc(self, X, L, names):
        r, t = X.root_args
        if X.choose(2, 'apps so far') == 0:
            L.set('apps', None)
            return
        w, times, left = X.fresh('w'), X.fresh('times'), X.fresh('left')
        op = SI(X.fresh('plus'))
        X.ghost.setdefault('min-witness', []).append((w, op))
        X.ghost.setdefault('times-seen', []).append(times)
        X.assume(r.inv(r.pos(w)) == w)
        L.set('apps', Some((SI(times), PosV(r.pos(w)), SI(left))))

    def inv(self, X, L):
        r, t = X.root_args
        apps = L.get('apps')
        d0, a0 = dec(X.contract.op0)
        c0 = z3.Select(t.c0, r.pos(r.k0))
        out = [('tape', t.mem == t.c0)]
        if apps is None:
            return out + [('none-decreasing-yet', z3.Not(z3.And(r.k0 < L.idx, d0)))]
        apps = unwrap(apps)
        if not (isinstance(apps, tuple) and len(apps) == 3 and isinstance(apps[1], R.PosV)):
            return out + [('triple', z3.BoolVal(False))]
        times, pos, left = zint(apps[0]), apps[1], zint(apps[2])
        R.mono(X, times, a0)
        return out + [('stays-positive', z3.Implies(z3.And(r.k0 < L.idx, d0), c0 - a0 * times >= 1)),
                      ('at-least-once', times >= 1), ('limiting-entry', limiting(X, r, t, times, pos, left, L.idx))]

    def step(self, X, L):
        seen = X.ghost.setdefault('times-seen', [])

        def add(v):
            if isinstance(v, SI):
                seen.append(v.e)
            elif isinstance(v, tuple):
                for x in v:
                    add(x)
            elif isinstance(v, Wrap):
                add(v.v)
        for v in list(L.fr.vars.values()):
            add(v)


class ApplyRule(R.ApplyRule):
    key = f'{RR}:apply_rule'

    def setup(self, X):
        r, t = SymRule(X), SymTape(X)
        self.other = X.fresh('other', R.POS)
        X.ghost['rule-facts'] = [lambda k: X.assume(z3.And(z3.Select(t.c0, r.pos(k)) >= 1, r.pos(k) != self.other))]
        X.ghost['apps'] = 'none'
        self.op0 = r.at(X, r.k0)[1]
        return [r, t]

    def image(self, X, op, times, old, new):
        p = amount(op)
        if p is None:
            return z3.BoolVal(False)
        return z3.And(new == old + p * times, z3.Implies(p < 0, new >= 1))

    def post(self, X, args, res):
        r, t = args
        p0 = r.pos(r.k0)
        new, old = z3.Select(t.mem, p0), z3.Select(t.c0, p0)
        X.prove('other-counts-unchanged', z3.Select(t.mem, self.other) == z3.Select(t.c0, self.other))
        apps = X.ghost['apps']
        if res is None:
            X.prove('not-applied-unchanged', new == old)
            X.prove('none-only-if-not-applicable', z3.BoolVal(apps is None))
            return
        X.prove('times', z3.BoolVal(isinstance(apps, tuple)))
        X.prove('times', zint(unwrap(res)) == apps[0])
        X.prove('image', self.image(X, self.op0, apps[0], old, new))
        p = amount(self.op0)
        if p is not None:
            X.prove('cannot-be-applied-again', z3.Implies(r.k0 == apps[1], z3.And(p < 0, new <= -p)))


class ApplyLoop(R.ApplyLoop):
    def applies(self, X, node, fr, it):
        return X.target == ApplyRule.key and isinstance(it, (SeqV, SymRule))

    def inv_assume(self, X, L):
        r, t = X.root_args
        r.at(X, L.idx)
        p = r.pos(L.idx)
        return [z3.Select(t.mem, p) == z3.Select(t.c0, p)]


class RuleMap(R.RuleMap):
    def rm_insert(self, X, k, v):
        had = self.has
        self.setitem(X, k, v)
        return None

    def rm_len(self, X):
        return self.length(X)

    def rm_is_empty(self, X):
        return X.not_(self.truth(X))


class MakeRule(Contract):
    """every position of the shortest spans: its op explains the four counts (no entry: equal counts); the rule has only such entries"""
    key = f'{RR}:make_rule'

    def setup(self, X):
        self.s0 = X.choose(2, 'side')
        self.i0 = X.fresh('i0')
        out, self.cols = [], []
        for j in range(4):
            pair = [CountList(X, f'{j}{s}') for s in range(2)]
            self.cols.append(pair)
            out.append(tuple(p.lst for p in pair))
        for j in range(4):
            X.assume(z3.And(self.i0 >= 0, self.i0 < self.cols[j][self.s0].n))
        self.cs = [zint(self.cols[j][self.s0].at(X, self.i0)) for j in range(4)]
        return out

    def post(self, X, args, res):
        if res is None:
            X.prove('none-only-if-a-position-has-no-op', z3.BoolVal(bool(X.ghost.get('unknown'))))
            return
        rule = unwrap(res)
        if isinstance(rule, Dct) and not rule.d:
            X.prove('all-equal', op_rel(X, None, self.cs)[0][1])
            return
        if not isinstance(rule, RuleMap):
            raise Untranslatable(f'make_rule returns {res!r}')
        for n, f in op_rel(X, rule.val if rule.has else None, self.cs):
            X.prove(f'entry:{n}', f)


class CountList:
    def __init__(self, X, label):
        self.n = X.fresh(f'len{label}')
        X.assume(self.n >= 0)
        self.f = z3.Function(f'cnt{label}!{next(X.fresh_n)}', I, I)
        self.lst = Lst([], SeqTail(SeqV(self.n, self.at, 'list', label=f'counts{label}')))

    def at(self, X, k):
        c = self.f(term(k))
        X.assume(c >= 1)
        return SI(c)


class BuildLoop(R.BuildLoop):
    def applies(self, X, node, fr, it):
        return X.target == MakeRule.key and isinstance(it, SeqV)

    def havoc(self, X, L, names):
        L.set('rule', RuleMap(X, X.contract))
        X.ghost['rule'] = L.get('rule')

    def inv(self, X, L):
        c = X.contract
        rule = L.get('rule')
        if isinstance(rule, RuleMap) and getattr(L, 'assumed', None) is None:
            L.assumed = True
            return []
        if isinstance(rule, Dct):
            if rule.d:
                raise Untranslatable('rule')
            return [('empty', z3.BoolVal(not self.processed(X, L, L.idx)))] if L.side >= c.s0 else []
        if self.processed(X, L, L.idx):
            return op_rel(X, rule.val if rule.has else None, c.cs)
        return [('not-yet', z3.BoolVal(not rule.has))]

    def inv_assume(self, X, L):
        c, rule = X.contract, L.get('rule')
        if self.processed(X, L, L.idx):
            rule.val = any_op(X, 'entry', c.cs)
            rule.has = rule.val is not None
        return []


def contracts(world):
    return {c.key: c for c in (CalculateDiff(), CountApps(), ApplyRule(), MakeRule())}


LOOPS = [AppsLoop(), ApplyLoop(), BuildLoop()]
