"""Contracts of the backward reasoner (src/reason.rs): cant_halt, cant_blank, cant_spin_out.

A Some(_) answer means: the run from the blank tape in state 0 never reaches the target.  The argument over the contracts: suppose the
run C(0), C(1), ... first hits the target at C(N), N >= 1.  The configurations held at depth k contain C(N - k) (loop invariant of
cant_reach), so the list is never empty and N > k always; a Some return is infeasible.

Concrete configurations are the sort Conc, partly known tapes the sort AT; what is used about them (AxA, AxB, ...) follows from the
cell-level contracts of rbackspec by the lemmas at the end of this file, proved on every run."""
from __future__ import annotations
import z3
from . import rbackspec as RBK
from .rbackspec import RB, rcls, new_back, BackDomain
from .values import *
from .engine import Contract, Ext, LoopSpec, LoopIter, unit_steps, RangeV, SB, SI, PathEnd, zbool
from .rengine import Some, Wrap, deref, is_none, inner
from .seq import SeqV, SeqTail, as_seq, instantiate, term

I, B = z3.IntSort(), z3.BoolSort()
CONC, AT = z3.DeclareSort('Conc'), z3.DeclareSort('AT')
F = z3.Function
ST, COL, NXT, BL = F('st', CONC, I), F('col', CONC, I), F('nxt', CONC, CONC), F('bl', I, CONC)
GAM, OK, BK = F('gam', AT, CONC, B), F('ok', AT, B, I, B), F('bk', AT, B, I, AT)
TBL = F('tblank', AT, B)
DFN, PR, SH, TO = F('dfn', I, I, B), F('pr', I, I, I), F('sh', I, I, B), F('to', I, I, I)
SIDEB = F('sideblank', CONC, B, B)
INITH, INITB, INITS = F('init_halt', I, AT), F('init_blank', I, AT), F('init_spinout', B, AT)
REACH, SAME, FH = F('reach', CONC, I, B), F('same', CONC, CONC, I, B), F('first', CONC, I, B)
INS, PS, PC = F('core', I, B), F('pred_state', I, I), F('pred_color', I, I)
ZERO = z3.IntVal(0)


def slot(x):
    return ST(x), COL(x)


def mem(x, at, s):
    """x is among the configurations (at, s) stands for"""
    return z3.And(ST(x) == s, GAM(at, x))


def child(at, s, c):
    return BK(at, SH(s, c), c)


def tgt(mode, x):
    s, c = slot(x)
    if mode == 'halt':
        return z3.Not(DFN(s, c))
    if mode == 'blank':
        return z3.And(DFN(s, c), PR(s, c) == 0, c != 0, SIDEB(x, z3.BoolVal(False)), SIDEB(x, z3.BoolVal(True)))
    return z3.And(DFN(s, c), c == 0, TO(s, c) == s, SIDEB(x, SH(s, c)))


# ---- facts (proved in lemmas())
def ax_a(X, at, x):
    """the step that leads to a member is found, and leads from a member"""
    s, c = slot(x)
    X.assume(z3.Implies(z3.And(DFN(s, c), GAM(at, NXT(x))), z3.And(OK(at, SH(s, c), PR(s, c)), GAM(child(at, s, c), x))))
    nxt_facts(X, x)


def ax_b(X, at, s, c, x):
    """members of the predecessor step to members"""
    X.assume(z3.Implies(z3.And(DFN(s, c), ST(x) == s, OK(at, SH(s, c), PR(s, c)), GAM(child(at, s, c), x)),
                        z3.And(COL(x) == c, GAM(at, NXT(x)))))
    nxt_facts(X, x)


def nxt_facts(X, x):
    X.assume(z3.Implies(DFN(*slot(x)), ST(NXT(x)) == TO(*slot(x))))


def ax_inj(X, x, y):
    """a step is undone in one way, once its slot is known"""
    X.assume(z3.Implies(z3.And(DFN(*slot(x)), ST(x) == ST(y), COL(x) == COL(y), NXT(x) == NXT(y)), x == y))


def ax_blank(X, at, q):
    X.assume(z3.And(TBL(at) == GAM(at, BL(q)), ST(BL(q)) == q, COL(BL(q)) == 0))


def ax_init(X, at_of, arg, x):
    f, t = z3.BoolVal(False), z3.BoolVal(True)
    if at_of is INITH:
        X.assume(GAM(INITH(arg), x) == (COL(x) == arg))
    elif at_of is INITB:
        X.assume(GAM(INITB(arg), x) == z3.And(COL(x) == arg, SIDEB(x, f), SIDEB(x, t)))
    else:
        X.assume(GAM(INITS(arg), x) == z3.And(COL(x) == 0, SIDEB(x, arg)))


def ax_ext(X, x, y):
    f, t = z3.BoolVal(False), z3.BoolVal(True)
    X.assume(z3.Implies(z3.And(ST(x) == ST(y), COL(x) == COL(y), SIDEB(x, f), SIDEB(x, t), SIDEB(y, f), SIDEB(y, t)), x == y))


def unfold(X, mode, x, y, k):
    """reach, same and first at k + 1 and at 0"""
    same_slot = z3.And(ST(x) == ST(y), COL(x) == COL(y))
    for v in (x, y):
        X.assume(REACH(v, ZERO) == tgt(mode, v))
        X.assume(z3.Implies(k >= 0, REACH(v, k + 1) == z3.And(DFN(*slot(v)), REACH(NXT(v), k))))
        X.assume(FH(v, ZERO))
        X.assume(z3.Implies(k >= 0, FH(v, k + 1) == z3.And(z3.Not(tgt(mode, v)), FH(NXT(v), k))))
    X.assume(SAME(x, y, ZERO) == same_slot)
    X.assume(z3.Implies(k >= 0, SAME(x, y, k + 1) == z3.And(same_slot, SAME(NXT(x), NXT(y), k))))


def core_facts(X, s, c=None):
    X.assume(z3.Implies(INS(s), z3.And(DFN(PS(s), PC(s)), TO(PS(s), PC(s)) == s, INS(PS(s)))))
    if c is not None:
        X.assume(z3.Implies(z3.And(INS(s), DFN(s, c)), INS(TO(s, c))))


# ------------------------------------------------------------------ the program
class CompV(Ext):
    """CompProg: BTreeMap<Slot, Instr> of any size"""
    def __init__(self, X):
        self.n = X.fresh('entries')
        X.assume(self.n >= 0)
        i = next(X.fresh_n)
        self.s, self.c, self.ix = F(f'cs!{i}', I, I), F(f'cc!{i}', I, I), F(f'cix!{i}', I, I, I)

    def known(self, X, k):
        s, c = self.s(k), self.c(k)
        X.assume(z3.Implies(z3.And(k >= 0, k < self.n), z3.And(DFN(s, c), self.ix(s, c) == k)))
        self.nat(X, s, c)
        return s, c

    def nat(self, X, s, c):
        X.assume(z3.Implies(DFN(s, c), z3.And(s >= 0, c >= 0, PR(s, c) >= 0, TO(s, c) >= 0)))

    def index(self, X, s, c):
        """the index of a defined slot"""
        k = self.ix(s, c)
        X.assume(z3.Implies(DFN(s, c), z3.And(k >= 0, k < self.n, self.s(k) == s, self.c(k) == c)))
        self.nat(X, s, c)
        return k

    def entry(self, X, k):
        s, c = self.known(X, k)
        return (SI(s), SI(c)), instr(s, c)

    def rm_iter(self, X):
        s = SeqV(self.n, self.entry, 'gen', label='program')
        s.comp = self
        return s
    rm_into_iter = rm_iter

    def as_seq(self, X):
        return self.rm_iter(X)

    def loop_iter(self, X):
        return self.rm_iter(X).loop_iter(X)

    def rm_keys(self, X):
        s = SeqV(self.n, lambda X, k: self.entry(X, k)[0], 'gen', label='slots')
        s.comp = self
        return s

    def rm_values(self, X):
        return SeqV(self.n, lambda X, k: self.entry(X, k)[1], 'gen', label='instrs')

    def rm_len(self, X):
        return SI(self.n)

    def rm_is_empty(self, X):
        return SB(self.n == 0)

    def rm_contains_key(self, X, k):
        s, c = (zint(v) for v in deref(k))
        self.index(X, s, c)
        return SB(DFN(s, c))

    def rm_get(self, X, k):
        s, c = (zint(v) for v in deref(k))
        self.index(X, s, c)
        return Some(instr(s, c)) if X.truth(SB(DFN(s, c))) else None

    def getitem(self, X, k):
        r = self.rm_get(X, k)
        if r is None:
            raise PyRaise(KeyError, ())
        return r.v


def instr(s, c):
    return SI(PR(s, c)), SB(SH(s, c)), SI(TO(s, c))


# ------------------------------------------------------------------ partly known tapes, used through their contracts
class BackV(Ext):
    def __init__(self, at):
        self.at = at

    def rust_class(self, X):
        return rcls(X, 'Backstepper')

    def rm_clone(self, X):
        return BackV(self.at)
    rm_to_owned = rm_clone

    def getattr(self, X, name):
        if name in ('scan', 'head'):
            return SI(X.fresh(name))
        raise Untranslatable(f'{name} of a partly known tape')

    def setattr(self, X, name, v):
        raise Untranslatable('a partly known tape is changed')


def at_of(X, v):
    v = deref(v)
    if isinstance(v, BackV):
        return v.at
    raise Untranslatable(f'tape {v!r}')


class CheckStep(RBK.CheckStep):
    def apply(self, X, args, kw):
        t, shift, p = args
        return Some(SB(X.fresh('at_edge', 'bool'))) if X.branch(OK(at_of(X, t), zbool(shift), zint(p))) else None


class Backstep(RBK.Backstep):
    def apply(self, X, args, kw):
        t, shift, c = args
        t.at = BK(at_of(X, t), zbool(shift), zint(c))


class Blank(RBK.Blank):
    def apply(self, X, args, kw):
        return SB(TBL(at_of(X, args[0])))


class Init(RBK.Init):
    def inline_for(self, X):
        return X.target.startswith(f'{RB}:Backstepper.')

    def apply(self, X, args, kw):
        a = args[0]
        if self.name == 'init_halt':
            f, a = INITH, zint(a)
        elif self.name == 'init_blank':
            f, a = INITB, zint(a)
        else:
            f, a = INITS, zbool(a)
        v = BackV(f(a))
        v.init = (f, a)
        return v


class LinRec(Contract):
    """some answer, from &self: nothing changes.  A true answer only leads to None"""
    key = f'{RB}:Config.lin_rec'
    verify = False

    def apply(self, X, args, kw):
        return SB(X.fresh('lin_rec', 'bool'))


def config(X, state, at, **ghost):
    o = Obj(rcls(X, 'Config'), dict(state=SI(state), tape=BackV(at), recs=SI(X.fresh('recs')), prev=Opaque('earlier configs')))
    o.ghost.update(ghost)
    return o


def parts(X, o):
    """(tape, state) of a configuration"""
    o = deref(o)
    if not isinstance(o, Obj) or o.cls.name != 'Config':
        raise Untranslatable(f'configuration {o!r}')
    return at_of(X, o.attrs['tape']), zint(o.attrs['state'])


class GhostList(Ext):
    """a list that is only pushed to: what the contract says of each element is proved when it is pushed"""
    def __init__(self, X, on_push, **flags):
        self.m = X.fresh('length')
        X.assume(self.m >= 0)
        self.on_push = on_push
        self.__dict__.update(flags)

    def rm_push(self, X, v):
        self.on_push(X, self, deref(v))
        self.m = self.m + 1
    rm_push_back = rm_push

    def rm_len(self, X):
        return SI(self.m)

    def rm_is_empty(self, X):
        return SB(self.m == 0)

    def length(self, X):
        return SI(self.m)

    def truth(self, X):
        return SB(self.m > 0)


def empty(v):
    v = deref(v)
    return isinstance(v, Lst) and not v.items and v.tail is None


def flag(v, name):
    """a flag of a ghost list; an empty list has none set"""
    if isinstance(v, GhostList) and name in v.__dict__:
        return getattr(v, name)
    if empty(v):
        return z3.BoolVal(False)
    raise Untranslatable(f'list {v!r}')


# ------------------------------------------------------------------ the configurations held at one depth
class Level(Ext):
    """Vec<Config>: element i is (at(i), st(i))"""
    def __init__(self, X, n, at, st, inst, disjoint, tracked=None):
        self.n, self.at, self.st, self.inst, self.disjoint, self.tracked = n, at, st, inst, disjoint, tracked

    def inside(self, i):
        return z3.And(i >= 0, i < self.n)

    def has(self, i, x):
        return z3.And(self.inside(i), mem(x, self.at(i), self.st(i)))

    def item(self, X, i):
        return config(X, self.st(i), self.at(i), place=(self, i))

    def as_seq(self, X):
        s = SeqV(self.n, self.item, 'list', label='configs')
        s.level = self
        return s
    rm_iter = rm_into_iter = as_seq

    def rm_drain(self, X, r):
        if not (getattr(r, 'lo', 0) is None and getattr(r, 'hi', 0) is None):
            raise Untranslatable('drain of a part')
        return self.as_seq(X)

    def loop_iter(self, X):
        return self.as_seq(X).loop_iter(X)

    def rm_len(self, X):
        return SI(self.n)

    def rm_is_empty(self, X):
        return SB(self.n == 0)

    def length(self, X):
        return SI(self.n)

    def rm_retain(self, X, f):
        if self.tracked is not None:
            self.on_tracked(X)
            if not X.truth(X.call(f, [self.item(X, self.tracked)], {})):
                X.prove('configuration-on-the-run-kept', z3.BoolVal(False))
                raise PathEnd
        i = next(X.fresh_n)
        n, at, st, inst, disjoint = self.n, self.at, self.st, self.inst, self.disjoint
        m = X.fresh('kept')
        old, new = F(f'old!{i}', I, I), F(f'new!{i}', I, I)
        X.assume(z3.And(m >= 0, m <= n))

        def known(k):
            X.assume(z3.Implies(z3.And(k >= 0, k < m), z3.And(old(k) >= 0, old(k) < n, new(old(k)) == k)))
        self.n, self.at, self.st = m, lambda k: at(old(k)), lambda k: st(old(k))
        self.inst = lambda X, k, x, y: (known(k), inst(X, old(k), x, y))
        self.disjoint = lambda X, a, b, x: (known(a), known(b), disjoint(X, old(a), old(b), x))
        if self.tracked is not None:
            t = self.tracked
            X.assume(z3.And(old(new(t)) == t, new(t) >= 0, new(t) < m))
            self.tracked = new(t)

    on_tracked = staticmethod(lambda X: None)


def new_level(X, name):
    i = next(X.fresh_n)
    n = X.fresh(f'{name}_len')
    X.assume(n >= 0)
    return n, F(f'{name}_at!{i}', I, AT), F(f'{name}_st!{i}', I, I)


# ------------------------------------------------------------------ the target configurations
class GetConfigs(Contract):
    """every listed configuration stands for target configurations of one slot only, no target configuration is in two of them, and
    every target configuration (of a slot within the table) is in one"""
    total = False

    def __init__(self, name, mode):
        self.name, self.mode = name, mode
        self.key = f'{RB}:{name}'

    def setup(self, X):
        comp = CompV(X)
        self.comp = comp
        self.x, self.y, self.t = (X.fresh(v, CONC) for v in ('x', 'y', 'target'))
        self.s, self.c = slot(self.t)
        X.assume(tgt(self.mode, self.t))
        X.assume(z3.And(self.s >= 0, self.c >= 0))
        comp.index(X, self.s, self.c)
        ax_ext(X, self.x, self.y)
        self.inside = True
        self.w = None
        if self.mode == 'halt':
            self.inside = X.choose(2, 'slot within the table') == 0
            if self.inside:
                self.w = X.fresh('row'), X.fresh('column')
                for w, v, f in ((self.w[0], self.s, comp.s), (self.w[1], self.c, comp.c)):
                    X.assume(z3.And(w >= 0, w < comp.n, f(w) >= v))
                    comp.known(X, w)
        return [comp]

    def fold_inv(self, X, acc, i):
        """the largest state and colour so far are at least those of the tracked keys"""
        if not (isinstance(acc, tuple) and len(acc) == 2):
            raise Untranslatable('fold')
        if self.w is None:
            return z3.BoolVal(True)
        return z3.And(z3.Implies(self.w[0] < i, zint(acc[0]) >= self.s), z3.Implies(self.w[1] < i, zint(acc[1]) >= self.c))

    def facts(self, X, v):
        if not hasattr(v, 'init'):
            raise Untranslatable('tape of a target configuration')
        f, a = v.init
        for x in (self.x, self.y, self.t):
            ax_init(X, f, a, x)

    def check(self, X, o):
        at, s = parts(X, o)
        self.facts(X, o.attrs['tape'])
        x, y = self.x, self.y
        X.prove('only-targets', z3.Implies(mem(x, at, s), tgt(self.mode, x)))
        X.prove('one-slot', z3.Implies(z3.And(mem(x, at, s), mem(y, at, s)), COL(x) == COL(y)))
        if self.mode == 'blank':
            X.prove('one-configuration', z3.Implies(z3.And(mem(x, at, s), mem(y, at, s)), x == y))
        return at, s

    def on_push(self, X, l, o):
        at, s = self.check(X, o)
        X.prove('listed-once', z3.Implies(mem(self.x, at, s), z3.Not(l.seen)))
        l.seen = z3.Or(l.seen, mem(self.x, at, s))
        l.has = z3.Or(l.has, mem(self.t, at, s))

    def post(self, X, args, res):
        name = 'every-target-listed' if self.inside else 'undefined-slot-beyond-the-table-listed'
        res = deref(res)
        if isinstance(res, GhostList) or empty(res):
            goal = flag(res, 'has')
            if self.inside:
                X.prove(name, goal)
            else:
                X.prove_known(name, goal, z3.BoolVal(True))
            return
        q = as_seq(X, res)
        if q is None:
            raise Untranslatable(f'configurations {res!r}')
        what = X.choose(3, 'part')
        if what == 0:
            k = X.fresh('k')
            X.assume(z3.And(k >= 0, k < q.n))
            if q.cond is not None and not X.truth(q.cond(X, k)):
                raise PathEnd
            self.check(X, q.at(X, k))
        elif what == 1:
            ks = [X.fresh('k1'), X.fresh('k2')]
            for k in ks:
                X.assume(z3.And(k >= 0, k < q.n))
                if q.cond is not None and not X.truth(q.cond(X, k)):
                    raise PathEnd
                o = q.at(X, k)
                self.facts(X, o.attrs['tape'])
                X.assume(mem(self.x, *parts(X, o)))
            X.prove('listed-once', ks[0] == ks[1])
        else:
            k = self.comp.index(X, self.s, self.c)
            X.assume(DFN(self.s, self.c))
            X.prove(name, z3.And(k >= 0, k < q.n))
            if q.cond is not None and not X.truth(q.cond(X, k)):
                X.prove(name, z3.BoolVal(False))
                return
            o = q.at(X, k)
            self.facts(X, o.attrs['tape'])
            X.prove(name, mem(self.t, *parts(X, o)))

    def apply(self, X, args, kw):
        if not isinstance(args[0], CompV):
            raise Untranslatable('program')
        n, at, st = new_level(X, 'start')
        mode = X.ghost['mode']
        if mode != self.mode:
            X.prove('target-of-the-question', z3.BoolVal(False))

        def inst(X, i, x, y):
            for a in (x, y):
                X.assume(z3.Implies(z3.And(i >= 0, i < n, mem(a, at(i), st(i))), tgt(mode, a)))
            both = z3.And(i >= 0, i < n, mem(x, at(i), st(i)), mem(y, at(i), st(i)))
            X.assume(z3.Implies(both, COL(x) == COL(y)))
            if mode == 'blank':
                X.assume(z3.Implies(both, x == y))

        def disjoint(X, a, b, x):
            has = lambda i: z3.And(i >= 0, i < n, mem(x, at(i), st(i)))
            X.assume(z3.Implies(z3.And(has(a), has(b)), a == b))
        l = Level(X, n, at, st, inst, disjoint)
        R = X.ghost['run']
        t = X.fresh('listed')
        X.assume(l.has(t, R.C(R.N)))
        l.tracked = t
        l.on_tracked = lambda X: R.at(X, R.N)
        return l


class HaltLoops(LoopSpec):
    """for state in 0..=max_state { for color in 0..=max_color {..} }"""
    name, roles = 'slots', ('configs',)

    def applies(self, X, node, fr, it):
        return X.target == f'{RB}:halt_configs' and isinstance(it, RangeV)

    def pre(self, X, L):
        L.outer = X.ghost.get('outer')
        for w in X.contract.w or ():
            instantiate(X, w)
        if not (isinstance(L.iterable.lo, int) and L.iterable.lo == 0):
            raise Untranslatable('range')

    def havoc(self, X, L, names):
        c = X.contract
        L.set('configs', GhostList(X, c.on_push, has=X.fresh('has', 'bool'), seen=X.fresh('seen', 'bool')))

    def before(self, L, s, c):
        """the slot (s, c) has been looked at"""
        if L.outer is None:
            return s < L.idx
        return z3.Or(s < L.outer, z3.And(s == L.outer, c < L.idx))

    def inv(self, X, L):
        c = X.contract
        v = deref(L.get('configs'))
        out = [('listed', z3.Implies(self.goal(X, L), flag(v, 'has'))),
               ('once', z3.Implies(flag(v, 'seen'), self.before(L, *slot(c.x))))]
        return out

    def goal(self, X, L):
        c = X.contract
        col_in = z3.BoolVal(True)
        if L.outer is None:      # a whole row: its columns reach to the largest colour
            m = X.ghost.get('columns')
            col_in = z3.BoolVal(True) if m is None else c.c < m
        return z3.And(self.before(L, c.s, c.c), col_in, z3.BoolVal(c.inside))

    def inv_assume(self, X, L):
        if L.outer is None:
            X.ghost['outer'] = L.idx
        return []

    def on_exit(self, X, L):
        if L.outer is None:
            X.ghost['outer'] = None


class HaltLoopsByColor(HaltLoops):
    """the same, colors outside"""
    def before(self, L, s, c):
        return super().before(L, c, s)

    def goal(self, X, L):
        return z3.And(self.before(L, X.contract.s, X.contract.c), z3.BoolVal(X.contract.inside))


class Maxima(LoopSpec):
    """the largest state and color of the keys so far"""
    name, roles = 'maxima', ('max_state', 'max_color')

    def applies(self, X, node, fr, it):
        return X.target == f'{RB}:halt_configs' and (isinstance(it, CompV) or hasattr(it, 'comp'))

    def havoc(self, X, L, names):
        for r in self.roles:
            L.set(r, SI(X.fresh(r)))

    def inv(self, X, L):
        return [('at-least-the-tracked', X.contract.fold_inv(X, tuple(deref(L.get(r)) for r in self.roles), L.idx))]


# ------------------------------------------------------------------ the entries by the state they lead to
class VecView(Ext):
    """the entries of one state"""
    def __init__(self, m, key):
        self.m, self.key = m, key

    def mine(self):
        return self.key == TO(*self.m.z)

    def rm_push(self, X, e):
        m = self.m
        sl, ins = deref(e)
        s, c = (zint(v) for v in deref(sl))
        p, d, q = (deref(v) for v in deref(ins))
        X.prove('entry-of-the-program', z3.And(DFN(s, c), zint(p) == PR(s, c), zbool(d) == SH(s, c), zint(q) == TO(s, c)))
        X.prove('filed-under-its-target', self.key == TO(s, c))
        here = z3.And(s == m.z[0], c == m.z[1])
        X.prove('entry-once', z3.Not(z3.And(here, m.has)))
        m.has = z3.Or(m.has, here)
        m.dirty = True

    def rm_retain(self, X, f):
        m = self.m
        if X.branch(z3.And(self.mine(), m.has)):
            s, c = m.z
            r = X.truth(X.call(f, [((SI(s), SI(c)), instr(s, c))], {}))
            m.uses(X)
            if not r:
                m.has = z3.BoolVal(False)
        m.dirty = True

    def rm_is_empty(self, X):
        e = X.fresh('empty', 'bool')
        X.assume(z3.Implies(z3.And(self.mine(), self.m.has), z3.Not(e)))
        return SB(e)

    def rm_len(self, X):
        n = X.fresh('len')
        X.assume(z3.And(n >= 0, z3.Implies(z3.And(self.mine(), self.m.has), n >= 1)))
        return SI(n)


class KeySet(Ext):
    """a set of the states that are keys"""
    rust_value = True

    def __init__(self, m):
        self.m, self.key = m, m.key

    def rm_contains(self, X, q):
        return SB(self.key(zint(deref(q))))

    def contains(self, X, q):
        return self.rm_contains(X, q)

    def rm_len(self, X):
        return SI(self.m.size)

    def rm_is_empty(self, X):
        return SB(self.m.size == 0)


class BuildMap(Ext):
    """BTreeMap<State, Vec<(Slot, Instr)>> under construction: has says whether the tracked entry is in it"""
    def __init__(self, X, z, has):
        i = next(X.fresh_n)
        self.z, self.has, self.dirty = z, has, False
        self.size = X.fresh('states')
        X.assume(self.size >= 0)
        self.key, self.kat, self.kix = F(f'key!{i}', I, B), F(f'kat!{i}', I, I), F(f'kix!{i}', I, I)
        self.entry = F(f'entry!{i}', I, I, B)

    def head(self, X):
        """at the head of a round: entries from the core are there, so their states are keys"""
        s, c = self.z
        for a, b in ((s, c), (PS(s), PC(s))):
            X.assume(z3.Implies(z3.And(DFN(a, b), INS(a)), self.entry(a, b)))
            X.assume(z3.Implies(self.entry(a, b), self.key(TO(a, b))))
        for q in (s, TO(s, c)):
            X.assume(z3.Implies(self.key(q), z3.And(self.kix(q) >= 0, self.kix(q) < self.size, self.kat(self.kix(q)) == q)))
        core_facts(X, s, c)
        X.assume(self.has == self.entry(s, c))

    def uses(self, X):
        for q in (self.z[0], TO(*self.z)):
            if X.branch(self.key(q)):
                instantiate(X, self.kix(q))

    def rm_entry(self, X, k):
        return EntryV(self, zint(deref(k)))

    def rm_len(self, X):
        if not self.dirty:
            return SI(self.size)
        n = X.fresh('states')
        X.assume(n >= 0)
        return SI(n)

    def rm_is_empty(self, X):
        e = X.fresh('empty', 'bool')
        X.assume(z3.Implies(self.has, z3.Not(e)))
        return SB(e)

    def clean(self):
        if self.dirty:
            raise Untranslatable('keys of a changed map')

    def rm_keys(self, X):
        self.clean()
        s = SeqV(self.size, lambda X, k: SI(self.kat(k)), 'gen', label='keys')
        s.keys_of = self
        return s

    def rm_contains_key(self, X, k):
        self.clean()
        return SB(self.key(zint(deref(k))))

    def rm_values_mut(self, X):
        s = SeqV(self.size, lambda X, k: VecView(self, self.kat(k)), 'gen', label='values')
        s.values_of = self
        return s

    def loop_iter(self, X):
        return self.rm_iter_mut(X).loop_iter(X)

    def rm_iter_mut(self, X):
        s = SeqV(self.size, lambda X, k: (SI(self.kat(k)), VecView(self, self.kat(k))), 'gen', label='items')
        s.values_of = self
        return s

    def rm_retain(self, X, f):
        k = TO(*self.z)
        if X.branch(self.has):
            r = X.truth(X.call(f, [SI(k), VecView(self, k)], {}))
            self.uses(X)
            if not r:
                self.has = z3.BoolVal(False)
        self.dirty = True


class EntryV(Ext):
    def __init__(self, m, k):
        self.m, self.k = m, k

    def rm_or_default(self, X):
        return VecView(self.m, self.k)

    def rm_or_insert(self, X, v):
        if not empty(v):
            raise Untranslatable('or_insert')
        return VecView(self.m, self.k)

    def rm_or_insert_with(self, X, f):
        return VecView(self.m, self.k)


class GetEntrypoints(Contract):
    """every entry is one of the program's, filed under the state it leads to, once; the entries whose state is in the core are all
    there (the core: any set of states each of which is led to from the set)"""
    key = f'{RB}:get_entrypoints'

    def setup(self, X):
        comp = CompV(X)
        z = X.fresh('state'), X.fresh('color')
        self.z, self.comp = z, comp
        X.assume(DFN(*z))
        comp.index(X, *z)
        self.core = X.choose(2, 'entry of a core state') == 0
        if self.core:
            X.assume(INS(z[0]))
            core_facts(X, *z)
        else:
            X.assume(z3.And(z[0] == 0, z3.Not(INS(z[0]))))
        return [comp]

    def post(self, X, args, res):
        m = deref(res)
        if not isinstance(m, BuildMap):
            raise Untranslatable(f'entries {res!r}')
        if self.core:
            X.prove('entry-of-a-core-state-kept', m.has)
        else:
            X.prove_known('entry-of-the-start-state-kept', m.has, z3.BoolVal(True))

    def apply(self, X, args, kw):
        if not isinstance(args[0], CompV):
            raise Untranslatable('program')
        return EntryMap(X, args[0])


class BuildLoop(LoopSpec):
    name, roles = 'entries', ('entrypoints',)

    def applies(self, X, node, fr, it):
        return X.target == GetEntrypoints.key and (isinstance(it, CompV) or hasattr(it, 'comp'))

    def havoc(self, X, L, names):
        L.set('entrypoints', BuildMap(X, X.contract.z, X.fresh('has', 'bool')))

    def inv(self, X, L):
        c, v = X.contract, deref(L.get('entrypoints'))
        if isinstance(v, BuildMap):
            has = v.has
        elif isinstance(v, Dct) and not v.d:
            has = z3.BoolVal(False)
        else:
            raise Untranslatable('entries')
        return [('filed', has == (c.comp.ix(*c.z) < L.idx))]


class RoundLoop(LoopSpec):
    name, roles = 'rounds', ('entrypoints',)

    def applies(self, X, node, fr, it):
        return X.target == GetEntrypoints.key and (it is None or isinstance(it, RangeV))

    def havoc(self, X, L, names):
        m = BuildMap(X, X.contract.z, X.fresh('has', 'bool'))
        m.head(X)
        L.set('entrypoints', m)

    def inv(self, X, L):
        m = deref(L.get('entrypoints'))
        if not isinstance(m, BuildMap):
            raise Untranslatable('entries')
        if not X.contract.core:
            return []
        return [('core-entry-kept', m.has)]


class FilterLoop(LoopSpec):
    name, roles = 'filter', ()

    def applies(self, X, node, fr, it):
        return X.target == GetEntrypoints.key and (isinstance(it, BuildMap) or hasattr(it, 'values_of'))

    def pre(self, X, L):
        L.map = L.iterable if isinstance(L.iterable, BuildMap) else L.iterable.values_of

    def havoc(self, X, L, names):
        m = L.map
        m.has = X.fresh('has', 'bool')
        m.dirty = True

    def inv(self, X, L):
        if not X.contract.core:
            return []
        return [('core-entry-kept', L.map.has)]


class EntryMap(Ext):
    """what get_entrypoints returns"""
    def __init__(self, X, comp):
        i = next(X.fresh_n)
        self.comp = comp
        self.has, self.key = F(f'has!{i}', I, I, B), F(f'haskey!{i}', I, B)
        self.n, self.s, self.c, self.pos = F(f'en!{i}', I, I), F(f'es!{i}', I, I, I), F(f'ec!{i}', I, I, I), F(f'epos!{i}', I, I, I)

    def core(self, X, s, c):
        """the entry of a core state"""
        X.assume(z3.Implies(z3.And(DFN(s, c), INS(s)), self.has(s, c)))
        self.place(X, s, c)

    def place(self, X, s, c):
        q, j = TO(s, c), self.pos(s, c)
        X.assume(z3.Implies(self.has(s, c), z3.And(DFN(s, c), self.key(q), j >= 0, j < self.n(q), self.s(q, j) == s, self.c(q, j) == c)))

    def rm_contains_key(self, X, k):
        R = X.ghost.get('run')
        if R is not None:
            R.at(X, R.N - R.depth)
            self.core(X, *slot(R.C(R.N - R.depth - 1)))
        return SB(self.key(zint(deref(k))))

    def of(self, X, k):
        q = zint(deref(k))

        def at(X, j):
            s, c = self.s(q, j), self.c(q, j)
            X.assume(z3.Implies(z3.And(j >= 0, j < self.n(q)), z3.And(self.has(s, c), DFN(s, c), TO(s, c) == q, self.pos(s, c) == j)))
            X.ghost['entry'] = j
            return (SI(s), SI(c)), instr(s, c)
        X.assume(self.n(q) >= 0)
        r = SeqV(self.n(q), at, 'list', label='entries')
        r.entries = (self, q)
        return r

    def getitem(self, X, k):
        if not X.truth(SB(self.key(zint(deref(k))))):
            raise PyRaise(KeyError, ())
        return self.of(X, k)

    def rm_get(self, X, k):
        return Some(self.of(X, k)) if X.truth(SB(self.key(zint(deref(k))))) else None


# ------------------------------------------------------------------ one step back: which entries fit
class Steps(Ext):
    """ValidatedSteps: element v is the configuration (at(v), st(v)) and the slots (s(v, j), c(v, j)) of the entries that lead to it"""
    def __init__(self, X):
        i = next(X.fresh_n)
        self.n = X.fresh('steps')
        X.assume(self.n >= 0)
        self.at, self.st, self.m = F(f'vat!{i}', I, AT), F(f'vst!{i}', I, I), F(f'vm!{i}', I, I)
        self.s, self.c, self.pos = F(f'vs!{i}', I, I, I), F(f'vc!{i}', I, I, I), F(f'vpos!{i}', I, I, I, I)
        self.own = F(f'own!{i}', CONC, I)

    def inside(self, v):
        return z3.And(v >= 0, v < self.n)

    def slot(self, v, j):
        return self.s(v, j), self.c(v, j)

    def child(self, v, j):
        return child(self.at(v), *self.slot(v, j))

    def triple(self, X, v, j):
        s, c = self.slot(v, j)
        X.assume(z3.Implies(z3.And(self.inside(v), j >= 0, j < self.m(v)),
                            z3.And(DFN(s, c), TO(s, c) == self.st(v), OK(self.at(v), SH(s, c), PR(s, c)), self.pos(v, s, c) == j)))

    def owned(self, X, v, x):
        X.assume(z3.Implies(z3.And(self.inside(v), mem(x, self.at(v), self.st(v))), self.own(x) == v))

    def place(self, x):
        v = self.own(NXT(x))
        return v, self.pos(v, *slot(x))

    def in_child(self, x, v, j):
        return z3.And(self.inside(v), j >= 0, j < self.m(v), mem(x, self.child(v, j), self.s(v, j)))

    def facts(self, X, v, j, xs):
        """what membership in child (v, j) means for the configurations xs"""
        self.triple(X, v, j)
        s, c = self.slot(v, j)
        for x in xs:
            ax_b(X, self.at(v), s, c, x)
            self.owned(X, v, NXT(x))

    def triples(self, X, v, xs):
        def at(X, j):
            self.facts(X, v, j, xs(j))
            X.ghost['place'] = (v, j)
            s, c = self.slot(v, j)
            return SI(c), SB(SH(s, c)), SI(s)
        X.assume(self.m(v) >= 0)
        r = SeqV(self.m(v), at, 'list', label='triples')
        r.triples_of = (self, v)
        return r

    def item(self, X, v):
        xs = X.ghost.get('watched') or (lambda S, v, j: [])
        X.ghost['step'] = v
        o = config(X, self.st(v), self.at(v), step=v)
        X.ghost['parent'] = o.attrs['tape']
        return Lst([], SeqTail(self.triples(X, v, lambda j: xs(self, v, j)))), o

    def as_seq(self, X):
        r = SeqV(self.n, self.item, 'list', label='steps')
        r.steps = self
        return r
    rm_iter = rm_into_iter = as_seq

    def rm_drain(self, X, r):
        return self.as_seq(X)

    def loop_iter(self, X):
        return self.as_seq(X).loop_iter(X)

    def rm_len(self, X):
        return SI(self.n)

    def rm_is_empty(self, X):
        return SB(self.n == 0)

    def length(self, X):
        return SI(self.n)


def parent_same(X):
    """the tape of the configuration looked at was not changed"""
    t, at = X.ghost['parent'], X.ghost['parent_at']
    return ('its-tape-unchanged', t.at == at)


class GetValidSteps(Contract):
    """for every configuration the entries that fit (each once), with the configuration; an entry that fits is not left out"""
    key = f'{RB}:get_valid_steps'

    def setup(self, X):
        n, at, st = new_level(X, 'level')
        self.level = Level(X, n, at, st, None, None)
        comp = CompV(X)
        self.map = EntryMap(X, comp)
        self.i0, self.i1 = X.fresh('i0'), X.fresh('i1')
        self.z0 = X.fresh('s0'), X.fresh('c0')
        self.z1 = X.fresh('s1'), X.fresh('c1')
        s, c = self.z0
        X.assume(z3.And(self.level.inside(self.i0), self.map.has(s, c), TO(s, c) == st(self.i0), OK(at(self.i0), SH(s, c), PR(s, c))))
        for z in (self.z0, self.z1):
            self.map.place(X, *z)
        return [self.level, self.map]

    def push_step(self, X, l, v):
        v = [deref(x) for x in v] if isinstance(v, tuple) else ()
        if len(v) != 3:
            raise Untranslatable('step')
        c, d, s = zint(v[0]), zbool(v[1]), zint(v[2])
        at, st = self.level.at(l.i), self.level.st(l.i)
        X.prove('entry-that-fits', z3.And(DFN(s, c), d == SH(s, c), TO(s, c) == st, OK(at, SH(s, c), PR(s, c))))
        for z in (self.z1,):
            X.prove('entry-once', z3.Implies(z3.And(s == z[0], c == z[1]), z3.Not(l.seen)))
            l.seen = z3.Or(l.seen, z3.And(s == z[0], c == z[1]))
        l.has = z3.Or(l.has, z3.And(l.i == self.i0, s == self.z0[0], c == self.z0[1]))

    def push_checked(self, X, l, v):
        v = [deref(x) for x in v] if isinstance(v, tuple) else ()
        if len(v) != 2 or not isinstance(v[0], GhostList) or not hasattr(v[0], 'i'):
            raise Untranslatable('validated step')
        g, o = v
        at, st = parts(X, o)
        X.prove('with-its-configuration', z3.And(at == self.level.at(g.i), st == self.level.st(g.i)))
        X.prove('configuration-once', z3.Implies(g.i == self.i1, z3.Not(l.seen)))
        l.seen = z3.Or(l.seen, g.i == self.i1)
        l.has = z3.Or(l.has, g.has)

    def post(self, X, args, res):
        if res is None:
            return
        X.prove('fitting-entry-listed', flag(deref(inner(X, res)), 'has'))

    def apply(self, X, args, kw):
        l, m = deref(args[0]), deref(args[1])
        if not isinstance(l, Level) or not isinstance(m, EntryMap):
            raise Untranslatable('get_valid_steps')
        if X.choose(2, 'valid steps') == 0:
            return None
        S = Steps(X)
        i = next(X.fresh_n)
        S.src, S.vpos, S.level, S.map = F(f'src!{i}', I, I), F(f'vp!{i}', I, I), l, m

        def known(X, v):
            k = S.src(v)
            X.assume(z3.Implies(S.inside(v), z3.And(l.inside(k), S.at(v) == l.at(k), S.st(v) == l.st(k), S.vpos(k) == v)))
        S.known = known

        def fits(X, k, s, c):
            m.place(X, s, c)
            v = S.vpos(k)
            j = S.pos(v, s, c)
            X.assume(z3.Implies(z3.And(l.inside(k), m.has(s, c), TO(s, c) == l.st(k), OK(l.at(k), SH(s, c), PR(s, c))),
                                z3.And(S.inside(v), S.src(v) == k, j >= 0, j < S.m(v), S.s(v, j) == s, S.c(v, j) == c)))
            known(X, v)
            S.triple(X, v, j)
            return v, j
        S.fits = fits
        if l.tracked is not None and 'run' in X.ghost:
            R = X.ghost['run']
            y = R.back(X, l)
            ax_a(X, l.at(l.tracked), y)
            m.core(X, *slot(y))
            fits(X, l.tracked, *slot(y))
        return Some(S)


class ValidOuter(LoopSpec):
    name, roles = 'configs', ('checked',)

    def applies(self, X, node, fr, it):
        return X.target == GetValidSteps.key and (isinstance(it, Level) or hasattr(it, 'level'))

    def havoc(self, X, L, names):
        c = X.contract
        L.set('checked', GhostList(X, c.push_checked, has=X.fresh('has', 'bool'), seen=X.fresh('seen', 'bool')))

    def inv(self, X, L):
        c, v = X.contract, deref(L.get('checked'))
        return [('listed', z3.Implies(c.i0 < L.idx, flag(v, 'has'))), ('once', z3.Implies(flag(v, 'seen'), c.i1 < L.idx))]

    def inv_assume(self, X, L):
        X.ghost['config'] = L.idx
        return []


class ValidInner(LoopSpec):
    name, roles = 'entries', ('good_steps',)

    def applies(self, X, node, fr, it):
        return X.target == GetValidSteps.key and hasattr(it, 'entries')

    def pre(self, X, L):
        L.i = X.ghost.get('config')
        if L.i is None:
            raise Untranslatable('entries outside the loop over the configurations')

    def havoc(self, X, L, names):
        g = GhostList(X, X.contract.push_step, has=X.fresh('has', 'bool'), seen=X.fresh('seen', 'bool'), i=L.i)
        X.assume(z3.Implies(g.has, g.m >= 1))
        L.set('good_steps', g)

    def inv(self, X, L):
        c, v = X.contract, deref(L.get('good_steps'))
        m, q = L.iterable.entries
        X.prove('entries-of-its-state', q == c.level.st(L.i)) if z3.is_int_value(L.idx) else None
        has, seen = flag(v, 'has'), flag(v, 'seen')
        out = [('listed', z3.Implies(z3.And(L.i == c.i0, m.pos(*c.z0) < L.idx), has)),
               ('only-its-own', z3.Implies(has, L.i == c.i0)),
               ('once', z3.Implies(z3.And(seen, TO(*c.z1) == q), m.pos(*c.z1) < L.idx)),
               ('once-only-entries', z3.Implies(seen, TO(*c.z1) == q))]
        if isinstance(v, GhostList):
            out.append(('not-empty', z3.Implies(has, v.m >= 1)))
        return out


# ------------------------------------------------------------------ one step back: the configurations before
class BlankSet(Ext):
    """HashSet<State>: states whose blank configuration was met"""
    def __init__(self, X, now):
        self.now = now               # state -> Bool

    def rm_contains(self, X, q):
        q = zint(deref(q))
        return SB(self.now(q))

    def contains(self, X, q):
        return self.rm_contains(X, q)

    def rm_insert(self, X, q):
        q = zint(deref(q))
        old = self.now
        X.contract.inserts(X, self, q)
        self.now = lambda r: z3.Or(old(r), r == q)
        return SB(z3.Not(old(q)))

    def rm_len(self, X):
        n = X.fresh('len')
        X.assume(n >= 0)
        return SI(n)

    def rm_is_empty(self, X):
        return SB(X.fresh('empty', 'bool'))


class StepConfigs(Contract):
    """every configuration listed is the one before a step of a configuration given, each once, never the blank one in state 0; a
    configuration that leads to a given one is in one of them, unless the blank one of its state was met before; states are added
    to the set for blank configurations before a step only"""
    key = f'{RB}:step_configs'

    def setup(self, X):
        S = Steps(X)
        self.S = S
        self.x, self.y = X.fresh('x', CONC), X.fresh('y', CONC)
        self.q = ST(self.y)
        self.b = BL(self.q)
        i = next(X.fresh_n)
        self.mem0 = F(f'met!{i}', I, B)
        v, j = S.place(self.y)
        self.vt, self.jt = v, j
        X.assume(z3.And(S.in_child(self.y, v, j), S.s(v, j) == ST(self.y), S.c(v, j) == COL(self.y)))
        X.ghost['watched'] = lambda S, v, j: [self.x, self.y, self.b, BL(S.s(v, j))]
        for a in (self.x, self.y, self.b):
            self.pos_facts(X, v, j)
        self.blanks = BlankSet(X, lambda q: self.mem0(q))
        return [S, self.blanks]

    def pos_facts(self, X, v, j):
        S = self.S
        S.facts(X, v, j, [self.x, self.y, self.b])
        for q in (self.q, S.s(v, j)):
            ax_blank(X, S.child(v, j), q)

    def here(self, X):
        p = X.ghost.get('place')
        if p is None:
            raise Untranslatable('outside the loop over the steps')
        self.pos_facts(X, *p)
        return p

    def inserts(self, X, s, q):
        v, j = self.here(X)
        X.prove('blank-configuration-before-a-step', z3.And(q == self.S.s(v, j), TBL(self.S.child(v, j))))

    def on_push(self, X, l, o):
        S = self.S
        v, j = self.here(X)
        at, s = parts(X, o)
        X.prove('before-a-step', z3.And(s == S.s(v, j), at == S.child(v, j)))
        X.prove('not-the-start', z3.Not(z3.And(s == 0, TBL(at))))
        X.prove('listed-once', z3.Implies(mem(self.x, at, s), z3.Not(l.seen)))
        l.seen = z3.Or(l.seen, mem(self.x, at, s))
        l.has = z3.Or(l.has, mem(self.y, at, s))

    def pruned(self):
        return z3.And(self.mem0(self.q), TBL(self.S.child(self.vt, self.jt)))

    def past(self, place, v, j=None):
        a, b = place
        return a < v if j is None else z3.Or(a < v, z3.And(a == v, b < j))

    def inv(self, X, out, v, j=None):
        """out: the list so far; the steps before (v, j) are done"""
        return [('predecessor-listed', z3.Implies(self.past((self.vt, self.jt), v, j), z3.Or(flag(out, 'has'), self.pruned()))),
                ('once', z3.Implies(flag(out, 'seen'), self.past(self.S.place(self.x), v, j))),
                ('blank-state-added-only-then', z3.Implies(self.blanks.now(self.q),
                                                          z3.Or(self.mem0(self.q), self.past(self.S.place(self.b), v, j))))]

    def havoc(self, X):
        m = F(f'met!{next(X.fresh_n)}', I, B)
        self.blanks.now = lambda q: m(q)
        return GhostList(X, self.on_push, has=X.fresh('has', 'bool'), seen=X.fresh('seen', 'bool'))

    def post(self, X, args, res):
        if res is None:
            return
        l = deref(inner(X, res))
        X.prove('predecessor-listed', z3.Or(flag(l, 'has'), self.pruned()))

    def apply(self, X, args, kw):
        S, blanks = deref(args[0]), deref(args[1])
        if not isinstance(S, Steps) or not isinstance(blanks, BlankSet):
            raise Untranslatable('step_configs')
        # precondition: no configuration is in two of them
        v1, v2, x = X.fresh('v1'), X.fresh('v2'), X.fresh('x', CONC)
        for v in (v1, v2):
            S.known(X, v)
        S.level.disjoint(X, S.src(v1), S.src(v2), x)
        X.prove('pre:in-one-configuration-only', z3.Implies(z3.And([z3.And(S.inside(v), mem(x, S.at(v), S.st(v))) for v in (v1, v2)]), v1 == v2))
        if X.choose(2, 'stepped') == 0:
            m = F(f'met!{next(X.fresh_n)}', I, B)
            blanks.now = lambda q: m(q)
            return None
        i = next(X.fresh_n)
        n, at, st = new_level(X, 'next')
        pv, pj = F(f'pv!{i}', I, I), F(f'pj!{i}', I, I)
        R = X.ghost['run']
        old = S.level

        def parent(X, k, xs):
            v, j = pv(k), pj(k)
            X.assume(z3.Implies(z3.And(k >= 0, k < n), z3.And(S.inside(v), j >= 0, j < S.m(v), at(k) == S.child(v, j), st(k) == S.s(v, j),
                                                             z3.Not(z3.And(st(k) == 0, TBL(at(k)))))))
            S.known(X, v)
            S.facts(X, v, j, xs)
            return v, j

        def inst(X, k, x, y):
            v, j = parent(X, k, [x, y])
            old.inst(X, S.src(v), NXT(x), NXT(y))
            if X.ghost['mode'] == 'blank':
                ax_inj(X, x, y)

        def disjoint(X, a, b, x):
            has = lambda i: z3.And(i >= 0, i < n, mem(x, at(i), st(i)))
            X.assume(z3.Implies(z3.And(has(a), has(b)), a == b))
        l = Level(X, n, at, st, inst, disjoint)
        before, after = blanks.now, F(f'met!{i}', I, B)
        blanks.now = lambda q: after(q)
        k = R.depth

        def added(X, q):
            """a state in the set now was there, or its blank configuration is before a step"""
            x = BL(q)
            v, j = S.place(x)
            X.assume(z3.Implies(after(q), z3.Or(before(q), S.in_child(x, v, j))))
            ax_blank(X, S.child(v, j), q)
            S.known(X, v)
            S.facts(X, v, j, [x])
            old.inst(X, S.src(v), NXT(x), NXT(x))
            unfold(X, X.ghost['mode'], x, x, k)
        blanks.added = (added, before)
        y = R.C(R.N - k - 1)
        R.at(X, R.N - k - 1)
        if old.tracked is None:
            raise Untranslatable('no configuration to follow')
        v, j = S.fits(X, old.tracked, *slot(y))
        S.facts(X, v, j, [y])
        X.prove('predecessor-on-the-run', S.in_child(y, v, j))
        if X.choose(2, 'listed') == 0:
            t = X.fresh('listed')
            X.assume(l.has(t, y))
            l.tracked = t
            parent(X, t, [y])
            ax_blank(X, at(t), ST(y))
            return Some(l)
        # left out: the blank configuration of its state was met before
        q = ST(y)
        b = BL(q)
        X.assume(z3.And(before(q), TBL(S.child(v, j))))
        ax_blank(X, S.child(v, j), q)
        S.facts(X, v, j, [b])
        old.inst(X, S.src(v), NXT(y), NXT(b))
        mode = X.ghost['mode']
        unfold(X, mode, y, b, k)
        if mode == 'blank':
            ax_inj(X, y, b)
        kq = R.blank_depth(X, q)
        X.prove('left-out:met-earlier', z3.And(kq >= 0, kq <= k, REACH(b, kq)))
        X.prove('left-out:reaches', z3.And(REACH(y, k + 1), REACH(b, k + 1)))
        X.prove('left-out:same-steps', y == b if mode == 'blank' else SAME(y, b, k + 1))
        X.prove('left-out:first', FH(y, k + 1))
        raise PathEnd        # lemma 'prune': these four are impossible together


class StepOuter(LoopSpec):
    name, roles = 'steps', ('stepped',)

    def applies(self, X, node, fr, it):
        return X.target == StepConfigs.key and (isinstance(it, Steps) or hasattr(it, 'steps'))

    def havoc(self, X, L, names):
        L.set('stepped', X.contract.havoc(X))

    def inv(self, X, L):
        return X.contract.inv(X, deref(L.get('stepped')), L.idx)


class StepInner(LoopSpec):
    name, roles = 'triples', ('stepped',)

    def applies(self, X, node, fr, it):
        s = as_seq(X, it)
        return X.target == StepConfigs.key and s is not None and s.label == 'triples'

    def pre(self, X, L):
        L.v = X.ghost.get('step')
        if L.v is None:
            raise Untranslatable('triples')
        L.parent, L.at = X.ghost['parent'], self.at(X, L)

    def at(self, X, L):
        return X.contract.S.at(L.v)

    def havoc(self, X, L, names):
        L.set('stepped', X.contract.havoc(X))

    def inv(self, X, L):
        c = X.contract
        if not z3.is_int_value(L.idx):
            c.pos_facts(X, L.v, z3.simplify(L.idx))
        return c.inv(X, deref(L.get('stepped')), L.v, L.idx) + [('tape-of-the-configuration-unchanged', L.parent.at == L.at)]


# ------------------------------------------------------------------ the search
class Run:
    """the run C(0), C(1), ..., C(N) from the blank tape; C(N) is the first target"""
    def __init__(self, X, mode):
        self.mode = mode
        self.C = F(f'run!{next(X.fresh_n)}', I, CONC)
        self.N = X.fresh('N')
        self.depth = ZERO
        X.assume(z3.And(self.N >= 1, self.C(0) == BL(ZERO), tgt(mode, self.C(self.N)), INS(ZERO)))
        X.assume(z3.And(ST(BL(ZERO)) == 0, COL(BL(ZERO)) == 0))
        self.at(X, self.N)
        self.at(X, ZERO)

    def at(self, X, j):
        """facts of C(j) and of its predecessor"""
        C, N = self.C, self.N
        X.assume(z3.Implies(z3.And(j >= 0, j <= N), INS(ST(C(j)))))
        for i in (j, j - 1):
            x = C(i)
            X.assume(z3.Implies(z3.And(i >= 0, i < N), z3.And(DFN(*slot(x)), NXT(x) == C(i + 1), z3.Not(tgt(self.mode, x)), INS(ST(x)))))
            nxt_facts(X, x)

    def back(self, X, l):
        self.at(X, self.N - self.depth)
        return self.C(self.N - self.depth - 1)

    def blank_depth(self, X, q):
        return self.blanks.kq(X, q)


class CantReach(Contract):
    """Some(_): the run from the blank tape never reaches the target (from a start that is none)"""
    def __init__(self, name, mode):
        self.name, self.mode = name, mode
        self.key = f'{RB}:{name}'

    def setup(self, X):
        comp = CompV(X)
        X.ghost['mode'] = self.mode
        X.ghost['run'] = Run(X, self.mode)
        d = X.fresh('depth')
        X.assume(d >= 0)
        return [comp, SI(d)]

    def post(self, X, args, res):
        if res is not None:
            X.prove('not-reached', z3.BoolVal(False))

    def collect(self, X, seq, kind):
        """the states of the blank target configurations"""
        src = seq
        while not hasattr(src, 'level'):
            src = getattr(src, 'source', None)
            if src is None:
                raise Untranslatable('set of unknown size')
        l = src.level
        k = X.fresh('k')

        def check():
            X.assume(l.inside(k))
            if seq.cond is not None and not X.truth(seq.cond(X, k)):
                raise PathEnd
            q = zint(deref(seq.at(X, k)))
            b = BL(q)
            ax_blank(X, l.at(k), q)
            l.inst(X, k, b, b)
            unfold(X, self.mode, b, b, ZERO)
            X.prove('blank-target', REACH(b, ZERO))
        if X.choose(2, 'set of blank targets') == 0:
            check()
            raise PathEnd
        m = F(f'met!{next(X.fresh_n)}', I, B)
        s = BlankSet(X, lambda q: m(q))
        s.known = lambda X, q: X.assume(z3.Implies(m(q), REACH(BL(q), ZERO)))
        return s

    def inserts(self, X, s, q):
        if getattr(s, 'level', None) is None:
            raise Untranslatable('insert')
        b = BL(q)
        ax_blank(X, s.level.at(s.idx), q)
        X.assume(s.level.inside(s.idx))
        s.level.inst(X, s.idx, b, b)
        unfold(X, self.mode, b, b, ZERO)
        X.prove('blank-target', REACH(b, ZERO))


class BlankLoop(LoopSpec):
    """the states of the blank target configurations, collected by a loop"""
    name, roles = 'blank-targets', ('blanks',)

    def applies(self, X, node, fr, it):
        return isinstance(X.contract, CantReach) and (isinstance(it, Level) or hasattr(it, 'level'))

    def havoc(self, X, L, names):
        m = F(f'met!{next(X.fresh_n)}', I, B)
        s = BlankSet(X, lambda q: m(q))
        s.known = lambda X, q: X.assume(z3.Implies(m(q), REACH(BL(q), ZERO)))
        L.set('blanks', s)
        L.set_now = s
        s.level = L.iterable if isinstance(L.iterable, Level) else L.iterable.level

    def inv_assume(self, X, L):
        L.set_now.idx = L.idx
        return []

    def inv(self, X, L):
        v = deref(L.get('blanks'))
        if not isinstance(v, BlankSet) and not (isinstance(v, SetV) and not v.s):
            raise Untranslatable('blank states')
        return []

    def on_exit(self, X, L):
        L.set_now.level = None


class Search(LoopSpec):
    """at depth k: one of the configurations held contains C(N - k), N > k; from each of their members the target is k steps away, by
    the same steps; no configuration is in two of them; blank configurations met reach the target in at most k steps"""
    name, roles = 'search', ('configs', 'blanks')

    def applies(self, X, node, fr, it):
        return isinstance(X.contract, CantReach) and (it is None or isinstance(it, RangeV))

    def havoc(self, X, L, names):
        R = X.ghost['run']
        mode = X.ghost['mode']
        k = X.fresh('depth')
        L.k = k
        R.depth = k
        n, at, st = new_level(X, 'level')

        def has(i, x):
            return z3.And(i >= 0, i < n, mem(x, at(i), st(i)))

        def inst(X, i, x, y):
            X.assume(z3.Implies(has(i, x), REACH(x, k)))
            X.assume(z3.Implies(has(i, y), REACH(y, k)))
            X.assume(z3.Implies(z3.And(has(i, x), has(i, y)), x == y if mode == 'blank' else SAME(x, y, k)))

        def disjoint(X, a, b, x):
            X.assume(z3.Implies(z3.And(has(a, x), has(b, x)), a == b))
        l = Level(X, n, at, st, inst, disjoint)
        t = X.fresh('tracked')
        X.assume(z3.And(l.has(t, R.C(R.N - k)), R.N > k, FH(R.C(R.N - k), k)))
        R.at(X, R.N - k)
        unfold(X, mode, R.C(R.N - k - 1), R.C(R.N - k - 1), k)
        l.tracked = t
        i = next(X.fresh_n)
        m, kq = F(f'met!{i}', I, B), F(f'kq!{i}', I, I)
        b = BlankSet(X, lambda q: m(q))

        def kq_(X, q):
            X.assume(z3.Implies(m(q), z3.And(kq(q) >= 0, kq(q) <= k, REACH(BL(q), kq(q)))))
            return kq(q)
        b.kq = kq_
        R.blanks = b
        L.fresh = l
        L.assumed = False
        L.set('configs', l)
        L.set('blanks', b)

    def pre(self, X, L):
        L.start = {}
        for n, by in unit_steps(L.node).items():
            v = L.fr.vars.get(n)
            if isinstance(v, (int, SI)) and by == 1:
                L.start[n] = zint(v)

    def havoc_local(self, X, L, n):
        """a counter of the iterations"""
        if n in L.start:
            X.assign_name(n, SI(L.start[n] + L.k), L.fr)
            L.counters = {**getattr(L, 'counters', {}), n: L.start[n]}

    def inv_assume(self, X, L):
        return [L.k == L.idx]

    def inv(self, X, L):
        out = self.inv_(X, L)
        if out:
            for n, v0 in getattr(L, 'counters', {}).items():
                out.append((f'counts-{n}', zint(deref(X.lookup(n, L.fr))) == v0 + L.k + 1))
        return out

    def inv_(self, X, L):
        R, mode = X.ghost['run'], X.ghost['mode']
        l, b = deref(L.get('configs')), deref(L.get('blanks'))
        if not isinstance(l, Level) or not isinstance(b, BlankSet):
            raise Untranslatable('configurations')
        if l is getattr(L, 'fresh', None) and not L.assumed:
            L.assumed = True
            return []
        first = not hasattr(L, 'fresh')
        k = ZERO if first else L.k + 1
        out = []
        i, i2, x, y, q = X.fresh('i'), X.fresh('i2'), X.fresh('x', CONC), X.fresh('y', CONC), X.fresh('q')
        l.inst(X, i, x, y)
        unfold(X, mode, x, y, ZERO if first else L.k)
        out.append(('members-reach-the-target', z3.Implies(l.has(i, x), REACH(x, k))))
        both = z3.And(l.has(i, x), l.has(i, y))
        out.append(('members-by-the-same-steps', z3.Implies(both, x == y if mode == 'blank' else SAME(x, y, k))))
        l.disjoint(X, i, i2, x)
        out.append(('members-of-one-only', z3.Implies(z3.And(l.has(i, x), l.has(i2, x)), i == i2)))
        if l.tracked is None:
            out.append(('configuration-on-the-run', z3.BoolVal(False)))
        else:
            c = R.C(R.N - k)
            out.append(('configuration-on-the-run', z3.And(l.has(l.tracked, c), R.N > k, FH(c, k)) if not first else
                        z3.And(l.has(l.tracked, R.C(R.N)), R.N > 0)))
        if first:
            if not hasattr(b, 'known'):
                raise Untranslatable('blank states')
            b.known(X, q)
            out.append(('blank-states', z3.Implies(b.now(q), REACH(BL(q), ZERO))))
        elif hasattr(b, 'added') and b is R.blanks:
            added, before = b.added
            added(X, q)
            w = z3.If(before(q), b.kq(X, q), L.k + 1)
            out.append(('blank-states', z3.Implies(b.now(q), z3.And(w >= 0, w <= L.k + 1, REACH(BL(q), w)))))
        else:
            out.append(('blank-states', z3.BoolVal(False)))
        return out


class ReasonDomain(BackDomain):
    def rmethod(self, X, o, name, args):
        if name == 'fold' and isinstance(o, SeqV) and hasattr(X.contract, 'fold_inv'):
            return self.fold(X, o, *args)
        return NotImplemented

    def fold(self, X, s, acc, f):
        """a fold with an invariant"""
        c = X.contract
        s.plain()
        X.prove('fold:init', c.fold_inv(X, acc, ZERO))
        fresh = lambda: tuple(SI(X.fresh('acc')) for _ in acc)
        if X.choose(2, 'fold') == 0:
            i = X.fresh('idx')
            X.assume(z3.And(i >= 0, i < s.n))
            a = fresh()
            X.assume(c.fold_inv(X, a, i))
            r = X.call(f, [a, s.at(X, i)], {})
            X.prove('fold:step', c.fold_inv(X, tuple(deref(v) for v in r), i + 1))
            raise PathEnd
        a = fresh()
        X.assume(c.fold_inv(X, a, s.n))
        return a

    def collect(self, X, seq, kind):
        if hasattr(seq, 'keys_of') and kind in ('HashSet', 'BTreeSet'):
            return KeySet(seq.keys_of)
        f = getattr(X.contract, 'collect', None)
        if f is not None and kind in ('HashSet', 'BTreeSet'):
            return f(X, seq, kind)
        raise Untranslatable(f'collect of unknown size into {kind}')


LOOPS = [HaltLoops(), HaltLoopsByColor(), Maxima(), BlankLoop(), BuildLoop(), RoundLoop(), FilterLoop(), ValidOuter(), ValidInner(), StepOuter(), StepInner(), Search()]
ROOTS = ('cant_halt', 'cant_blank', 'cant_spin_out')


def contracts(world):
    cs = [CheckStep(), Backstep(), Blank()] + [Init(n) for n in ('init_halt', 'init_blank', 'init_spinout')]
    cs += [LinRec(), GetEntrypoints(), GetValidSteps(), StepConfigs()]
    cs += [GetConfigs('halt_configs', 'halt'), GetConfigs('erase_configs', 'blank'), GetConfigs('zero_reflexive_configs', 'spin')]
    cs += [CantReach('cant_halt', 'halt'), CantReach('cant_blank', 'blank'), CantReach('cant_spin_out', 'spin')]
    return {c.key: c for c in cs}
