"""Contracts of the tree of programs (src/tree.rs): build_tree, branch, leaf, run_for_undefined, make_instrs, tree_progs.

G is any full table (a function from slots to instructions).  HARV counts the programs harvested that G extends.  The tree walks down
G's own run: W(p, q, t, rem) says, unfolded one level at a time, how many programs it harvests below the partial table p in
configuration (q, t) that G extends:
 - p is not part of G, or the next slot of G's run holds an instruction not in order (a state or colour beyond the next new one): 0;
 - the run of p meets no undefined slot within the limit (or spins out, or blanks the tape), or one slot after the next is left: p
   (with it filled from G) counts once if the last state and the last colour are used in it;
 - else what is harvested below p with that slot filled from G.
So every table in order is covered by exactly one harvested program, if its leaf uses all states and colours, and none twice.

Programs are arrays from slots to instructions; tapes are those of T04, uninterpreted here.  ONRUN(p, q, t): a configuration of the run
of p from the blank tape."""
from __future__ import annotations
import ast
import z3
from .rtapespec import RT, rcls as tcls
from .rrunspec import Given
from .values import *
from .engine import Contract, Ext, LoopSpec, LoopIter, RangeV, PathEnd, SB, SI, zbool, unit_steps
from .rengine import RDomain, Some, Wrap, Panic, deref, is_none, inner
from .seq import SeqV, SeqDomain, term

TREE = "src/tree.rs"
I, B = z3.IntSort(), z3.BoolSort()
F = z3.Function
INS = z3.Datatype('Instr')
INS.declare('none')
INS.declare('some', ('pr', I), ('sh', B), ('to', I))
INS = INS.create()
NONE, SOME, pr, sh, to = INS.none, INS.some, INS.pr, INS.sh, INS.to
ROW, PROG = z3.ArraySort(I, INS), z3.ArraySort(I, z3.ArraySort(I, INS))
TT = z3.DeclareSort('TreeTape')
EMPTY = z3.K(I, z3.K(I, NONE))
FIRST = SOME(1, z3.BoolVal(True), 1)
S, C, LIM, HALT0 = z3.Ints('S C LIM HALT0')
TOTAL = S * C
SCAN, EDGE, BLK, TSTEP, T0 = F('t_scan', TT, I), F('t_edge', TT, B, B), F('t_blank', TT, B), F('t_step', TT, B, I, B, TT), z3.Const('t_stepped', TT)
G = F('G', I, I, INS)
SUB, SIZE, MS, MC = F('SUB', PROG, B), F('SIZE', PROG, I), F('MS', PROG, I), F('MC', PROG, I)
TOPS, TOPC = F('TOPS', PROG, B), F('TOPC', PROG, B)
TSQ, TSC, TCQ, TCC = (F(x, PROG, I) for x in ('tsq', 'tsc', 'tcq', 'tcc'))       # where such instructions are
ONRUN, CLOSED = F('ONRUN', PROG, I, TT, B), F('CLOSED', PROG, B)
KIND, RQ, RC, RT_ = F('KIND', PROG, I, TT, I, I), F('RQ', PROG, I, TT, I, I), F('RC', PROG, I, TT, I, I), F('RT', PROG, I, TT, I, TT)
W = F('W', PROG, I, TT, I, I)
NOTHING, UNDEF, ERR = 0, 1, 2


def get(p, q, c):
    return z3.Select(z3.Select(p, q), c)


def put(p, q, c, v):
    return z3.Store(p, q, z3.Store(z3.Select(p, q), c, v))


def kmax(a, b):
    return z3.If(a >= b, a, b)


def kmin(a, b):
    return z3.If(a <= b, a, b)


def full(p):
    return z3.And(TOPS(p), TOPC(p))


def put_facts(p, q, c, v):
    """what changes when an undefined slot is filled"""
    n = put(p, q, c, v)
    return z3.Implies(z3.And(get(p, q, c) == NONE, v != NONE), z3.And(
        SUB(n) == z3.And(SUB(p), v == G(q, c)), SIZE(n) == SIZE(p) + 1, MS(n) == kmax(MS(p), to(v)), MC(n) == kmax(MC(p), pr(v)),
        TOPS(n) == z3.Or(TOPS(p), to(v) >= S - 1), TOPC(n) == z3.Or(TOPC(p), pr(v) >= C - 1)))


def empty_facts():
    return z3.And(SUB(EMPTY), SIZE(EMPTY) == 0, MS(EMPTY) == 0, MC(EMPTY) == 0, z3.Not(TOPS(EMPTY)), z3.Not(TOPC(EMPTY)))


def grown(p, q, c, v, x, t):
    """a configuration of the run still is one when an undefined slot is filled"""
    return z3.Implies(z3.And(get(p, q, c) == NONE, ONRUN(p, x, t)), ONRUN(put(p, q, c, v), x, t))


def run_facts(X, p, q, t):
    """one step of the run from (q, t)"""
    i = get(p, q, SCAN(t))
    X.assume(z3.Implies(ONRUN(p, q, t), z3.And(q >= 0, SCAN(t) >= 0, q <= MS(p), SCAN(t) <= MC(p))))
    X.assume(z3.Implies(z3.And(ONRUN(p, q, t), i != NONE), ONRUN(p, to(i), TSTEP(t, sh(i), pr(i), q == to(i)))))


def unfold_run(X, p, q, t, k):
    """the run of at most k steps to an undefined slot"""
    run_facts(X, p, q, t)
    c = SCAN(t)
    i = get(p, q, c)
    same = q == to(i)
    t2, q2 = TSTEP(t, sh(i), pr(i), same), to(i)
    rest = z3.And([f(p, q, t, k) == f(p, q2, t2, k - 1) for f in (KIND, RQ, RC, RT_)])
    X.assume(z3.If(k <= 0, KIND(p, q, t, k) == NOTHING, z3.If(i == NONE, z3.And(KIND(p, q, t, k) == UNDEF, RQ(p, q, t, k) == q, RC(p, q, t, k) == c, RT_(p, q, t, k) == t),
                                                        z3.If(z3.Or(z3.And(same, EDGE(t, sh(i))), BLK(t2)), KIND(p, q, t, k) == ERR, rest))))


def in_order(p, v):
    """the instruction goes to a state and prints a colour used, or the next new one"""
    return z3.And(v != NONE, to(v) >= 0, pr(v) >= 0, to(v) < kmin(S, 2 + MS(p)), pr(v) < kmin(C, 2 + MC(p)))


def one(b):
    return z3.If(b, z3.IntVal(1), z3.IntVal(0))


def unfold_tree(X, p, q, t, rem):
    """the definition of W, one level"""
    x, c, t2 = (f(p, q, t, LIM) for f in (RQ, RC, RT_))
    v = G(x, c)
    p2 = put(p, x, c, v)
    X.assume(W(p, q, t, rem) == z3.If(z3.Not(SUB(p)), z3.IntVal(0), z3.If(KIND(p, q, t, LIM) != UNDEF, one(full(p)), z3.If(
        z3.Not(in_order(p, v)), z3.IntVal(0), z3.If(rem <= 1, one(full(p2)), W(p2, x, t2, rem - 1))))))
    X.assume(put_facts(p, x, c, v))


# ------------------------------------------------------------------ values
def instr(v):
    """(colour, shift, state) as a term"""
    v = deref(v)
    if isinstance(v, tuple) and len(v) == 3:
        a, b, c = v
        return SOME(zint(deref(a)), zbool(deref(b)), zint(deref(c)))
    raise Untranslatable(f'instruction {v!r}')


def tup(e):
    return (SI(pr(e)), SB(sh(e)), SI(to(e)))


class ProgV(Ext):
    """the partial table"""
    def __init__(self, X, arr):
        self.arr, self.prev = arr, None

    def slot(self, k):
        q, c = deref(k)
        return zint(deref(q)), zint(deref(c))

    def rm_get(self, X, k):
        q, c = self.slot(k)
        e = get(self.arr, q, c)
        if not X.branch(e != NONE):
            return None
        X.assume(z3.And(to(e) >= 0, pr(e) >= 0, to(e) <= MS(self.arr), pr(e) <= MC(self.arr)))
        return Some(tup(e))
    rm_get_instr = rm_get

    def rm_contains_key(self, X, k):
        q, c = self.slot(k)
        return SB(get(self.arr, q, c) != NONE)

    def getitem(self, X, k):
        r = self.rm_get(X, k)
        if r is None:
            raise PyRaise(Panic, ())
        return r.v

    def rm_insert(self, X, k, v):
        (q, c), e = self.slot(k), instr(v)
        old = self.arr
        X.prove('fills-an-undefined-slot', get(old, q, c) == NONE)
        X.assume(e != NONE)
        X.assume(put_facts(old, q, c, e))
        for x, t in X.ghost.get('configs', ()):
            X.assume(grown(old, q, c, e, x, t))
        self.arr, self.prev = put(old, q, c, e), old
        X.heap_writes += 1
        return None

    def rm_remove(self, X, k):
        q, c = self.slot(k)
        e = get(self.arr, q, c)
        some = X.branch(e != NONE)
        self.arr, self.prev = put(self.arr, q, c, NONE), None
        X.heap_writes += 1
        return Some(tup(e)) if some else None

    def rm_clone(self, X):
        p = ProgV(X, self.arr)
        p.prev = self.prev
        return p

    def rm_len(self, X):
        return SI(SIZE(self.arr))

    def rm_values(self, X):
        return ValuesV(self.arr, False)

    def rm_iter(self, X):
        return ValuesV(self.arr, True)

    def rm_show(self, X, params):
        return ShownV(self.arr, deref(params))


class ShownV(Ext):
    """the text of a program"""
    rust_value = True

    def __init__(self, arr, params):
        self.arr, self.params = arr, params


class ValuesV(Ext):
    """the instructions of the table"""
    def __init__(self, arr, keys):
        self.arr, self.keys = arr, keys

    def elem(self, X, q, c):
        e = get(self.arr, q, c)
        X.assume(z3.Implies(e != NONE, z3.And(to(e) >= 0, pr(e) >= 0, to(e) <= MS(self.arr), pr(e) <= MC(self.arr),
                                              z3.Implies(to(e) >= S - 1, TOPS(self.arr)), z3.Implies(pr(e) >= C - 1, TOPC(self.arr)))))
        return ((SI(q), SI(c)), tup(e)) if self.keys else tup(e)

    def as_seq(self, X):
        """in some order: place k is the slot (qf(k), cf(k)); the witnesses of the last state and colour have their places"""
        p, n = self.arr, next(X.fresh_n)
        qf, cf = F(f'slot!{n}', I, I), F(f'read!{n}', I, I)

        def at(X, k):
            X.assume(z3.Implies(z3.And(k >= 0, k < SIZE(p)), get(p, qf(k), cf(k)) != NONE))
            return self.elem(X, qf(k), cf(k))
        s = SeqV(SIZE(p), at, 'list', label='values')
        s.places = []
        X.ghost['values'] = s
        for top, q, c, last in ((TOPS, TSQ(p), TSC(p), lambda e: to(e) >= S - 1), (TOPC, TCQ(p), TCC(p), lambda e: pr(e) >= C - 1)):
            k, e = X.fresh('place'), get(p, q, c)
            X.assume(z3.Implies(top(p), z3.And(e != NONE, last(e), k >= 0, k < SIZE(p), qf(k) == q, cf(k) == c)))
            s.places.append((top(p), k))
        X.assume(SIZE(p) >= 0)
        return s
    rm_into_iter = as_seq
    rm_copied = rm_cloned = lambda self, X: self

    def loop_iter(self, X):
        return self.as_seq(X).loop_iter(X)

    def rm_all(self, X, f):
        p = self.arr
        if X.choose(2, 'all') == 0:
            for top, q, c, at in ((TOPS, TSQ(p), TSC(p), lambda e: to(e) >= S - 1), (TOPC, TCQ(p), TCC(p), lambda e: pr(e) >= C - 1)):
                e = get(p, q, c)
                X.assume(z3.Implies(top(p), z3.And(e != NONE, at(e))))
                x = self.elem(X, q, c)
                if X.branch(e != NONE):
                    X.assume(zbool(deref(X.call(f, [x], {}))))
            return True
        q, c = X.fresh('q'), X.fresh('c')
        X.assume(get(p, q, c) != NONE)
        X.assume(z3.Not(zbool(deref(X.call(f, [self.elem(X, q, c)], {})))))
        return False

    def rm_any(self, X, f):
        p = self.arr
        if X.choose(2, 'any') == 0:
            for top, q, c, at in ((TOPS, TSQ(p), TSC(p), lambda e: to(e) >= S - 1), (TOPC, TCQ(p), TCC(p), lambda e: pr(e) >= C - 1)):
                e = get(p, q, c)
                X.assume(z3.Implies(top(p), z3.And(e != NONE, at(e))))
                x = self.elem(X, q, c)
                if X.branch(e != NONE):
                    X.assume(z3.Not(zbool(deref(X.call(f, [x], {})))))
            return False
        q, c = X.fresh('q'), X.fresh('c')
        X.assume(get(p, q, c) != NONE)
        X.assume(zbool(deref(X.call(f, [self.elem(X, q, c)], {}))))
        return True


class TreeTape(Ext):
    """a tape, through the contracts of T04"""
    def __init__(self, t):
        self.t = t

    def rust_class(self, X):
        return tcls(X, 'Tape')

    def rm_scan(self, X):
        return SI(SCAN(self.t))

    def getattr(self, X, name):
        if name == 'scan':
            return SI(SCAN(self.t))
        raise Untranslatable(name)

    def rm_clone(self, X):
        return TreeTape(self.t)
    rm_to_owned = rm_clone

    def rm_at_edge(self, X, edge):
        return SB(EDGE(self.t, zbool(deref(edge))))

    def rm_blank(self, X):
        return SB(BLK(self.t))

    def rm_step(self, X, shift, color, skip):
        self.t = TSTEP(self.t, zbool(deref(shift)), zint(deref(color)), zbool(deref(skip)))
        X.heap_writes += 1
        n = X.fresh('stepped')
        X.assume(n >= 1)
        return SI(n)


class Instrs(Ext):
    """Vec<Instr>: every instruction of so many states and colours, each once; ix finds them"""
    def __init__(self, n, at, ix, states, colors, cut=None):
        self.n, self.at, self.ix, self.states, self.colors = n, at, ix, states, colors

    def inside(self, v):
        return z3.And(v != NONE, to(v) >= 0, to(v) < self.states, pr(v) >= 0, pr(v) < self.colors)

    def facts(self, X, k):
        v = self.at(k)
        X.assume(z3.Implies(z3.And(k >= 0, k < self.n), z3.And(self.inside(v), self.ix(v) == k)))
        return v

    def of(self, X, v):
        """the place of an instruction within"""
        i = self.ix(v)
        X.assume(z3.Implies(self.inside(v), z3.And(i >= 0, i < self.n, self.at(i) == v)))
        return i

    def as_seq(self, X):
        s = SeqV(self.n, lambda X, k: tup(self.facts(X, k)), 'list', label='instructions')
        s.instrs = self
        return s
    rm_iter = rm_into_iter = rm_copied = rm_cloned = as_seq

    def rm_par_iter(self, X):
        return ParV(self)
    rm_into_par_iter = rm_par_iter

    def loop_iter(self, X):
        return self.as_seq(X).loop_iter(X)

    def rm_len(self, X):
        return SI(self.n)

    def rm_is_empty(self, X):
        return SB(self.n == 0)

    def rm_split_last(self, X):
        if not X.branch(self.n > 0):
            return None
        return Some((tup(self.facts(X, self.n - 1)), Part(self)))

    def rm_last(self, X):
        return Some(tup(self.facts(X, self.n - 1))) if X.branch(self.n > 0) else None

    def rm_pop(self, X):
        r = self.rm_last(X)
        if r is not None:
            self.n = self.n - 1
            X.heap_writes += 1
        return r

    def rm_clone(self, X):
        return self


class Part(Instrs):
    """all but the last"""
    def __init__(self, whole):
        super().__init__(whole.n - 1, whole.at, whole.ix, whole.states, whole.colors)
        self.whole = whole

    def facts(self, X, k):
        return self.whole.facts(X, k)

    def of(self, X, v):
        return self.whole.of(X, v)


class ParV(Ext):
    """rayon's parallel iterator: the closure once for each element, in any order"""
    def __init__(self, instrs):
        self.instrs = instrs

    def rm_for_each(self, X, f):
        g, v = X.ghost, self.instrs
        want = g.get('below')
        if want is None:
            raise Untranslatable('for_each')
        gv, ok, w = want
        h = g['harv']
        if X.choose(2, 'for_each') == 0:
            k, some = X.fresh('k'), X.fresh('harvested')
            X.assume(z3.And(k >= 0, k < v.n))
            e = v.facts(X, k)
            g['harv'] = some
            X.call(f, [tup(e)], {})
            X.prove('for_each.below', g['harv'] == some + z3.If(e == gv, w, 0))
            raise PathEnd
        i = v.of(X, gv)
        g['harv'] = h + z3.If(z3.And(v.inside(gv), i >= 0, i < v.n), w, 0)
        return None

    def rm_copied(self, X):
        return self
    rm_cloned = rm_copied


class Harvester(Ext):
    """what is done with each program"""
    def call(self, X, args, kw):
        p = deref(args[0])
        if not isinstance(p, ProgV):
            raise Untranslatable('harvest')
        a = p.arr
        X.prove('harvested.all-used', full(a))
        X.prove('harvested.closed', CLOSED(a))
        X.prove('harvested.first-instruction', get(a, 0, 0) == FIRST)
        X.prove('harvested.within', z3.And(MS(a) < S, MC(a) < C))
        X.ghost['harv'] = X.ghost['harv'] + one(SUB(a))
        X.heap_writes += 1
        return None


def prog_of(X, v):
    v = deref(v)
    if isinstance(v, ProgV):
        return v
    if isinstance(v, Dct) and all(isinstance(k, tuple) and all(isinstance(x, int) for x in k) for k in v.d):
        return table(X, sorted(v.d.items()))
    raise Untranslatable(f'program {v!r}')


def tape_of(v):
    v = deref(v)
    if isinstance(v, TreeTape):
        return v
    raise Untranslatable(f'tape {v!r}')


def new_ghosts(X):
    g = X.ghost
    if 'harv' in g:
        return
    g['harv'] = X.fresh('harvested')
    g['configs'] = []
    X.assume(z3.And(S >= 2, C >= 2, LIM >= 0, z3.Or(HALT0 == 0, HALT0 == 1), TOTAL - 2 - HALT0 >= 1))
    X.assume(empty_facts())


def well(p):
    """what holds of every table in the tree"""
    return z3.And(get(p, 0, 0) == FIRST, MS(p) < S, MC(p) < C, MS(p) >= 1, MC(p) >= 1)


# ------------------------------------------------------------------ contracts
class MakeInstrs(Contract):
    """every instruction of so many states and colours, each once"""
    key = f'{TREE}:make_instrs'
    total = True

    def setup(self, X):
        new_ghosts(X)
        s, c = X.fresh('states'), X.fresh('colors')
        X.assume(z3.And(s >= 1, c >= 1))
        v = SOME(X.fresh('gc'), X.fresh('gd', 'bool'), X.fresh('gs'))
        X.ghost.update(v=v, bounds=(s, c))
        return [SI(s), SI(c)]

    def post(self, X, args, res):
        s, c = (a.e for a in args)
        v = X.ghost['v']
        res = collected(X, res)
        X.prove('each-once', res.cnt == one(z3.And(to(v) >= 0, to(v) < s, pr(v) >= 0, pr(v) < c)))

    def apply(self, X, args, kw):
        s, c = (zint(deref(a)) for a in args)
        X.prove('make_instrs.some', z3.And(s >= 1, c >= 1))
        k = next(X.fresh_n)
        n = X.fresh('instrs')
        out = Instrs(n, F(f'instr!{k}', I, INS), F(f'place!{k}', INS, I), s, c)
        X.assume(n >= 1)
        return out


class Collected(Ext):
    """the vector being built: how often the tracked instruction is in it"""
    def __init__(self):
        self.cnt = z3.IntVal(0)

    def rm_push(self, X, v):
        e = instr(v)
        self.cnt = self.cnt + one(e == X.ghost['v'])
        X.heap_writes += 1

    def rm_reserve(self, X, n):
        return None


def collected(X, v):
    v = deref(v)
    if isinstance(v, Collected):
        return v
    if isinstance(v, (SeqV, Counted)):
        return Counted(conds_of(X, v)).rm_collect(X)
    if isinstance(v, Lst) and v.tail is None:
        r = Collected()
        for x in v.items:
            r.rm_push(X, x)
        return r
    raise Untranslatable(f'instructions {v!r}')


def counted(X, L):
    """a loop that counts up to a bound: (the counter, where it starts, how many rounds); a for loop over a range alike"""
    if isinstance(L.node, ast.For):
        r = deref(L.iterable)
        return None, zint(r.lo), z3.If(zint(r.hi) > zint(r.lo), zint(r.hi) - zint(r.lo), 0)
    t = L.node.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
        raise Untranslatable('while loop without a counter')
    a, op, b = t.left, t.ops[0], t.comparators[0]
    if isinstance(op, (ast.Gt, ast.GtE)):
        a, b, op = b, a, ast.Lt() if isinstance(op, ast.Gt) else ast.LtE()
    if not isinstance(a, ast.Name) or not isinstance(op, (ast.Lt, ast.NotEq)) or unit_steps(L.node).get(a.id) != 1:
        raise Untranslatable('while loop without a counter')
    x0, hi = zint(deref(X.lookup(a.id, L.fr))), zint(deref(X.eval(b, L.fr)))
    return a.id, x0, z3.If(hi > x0, hi - x0, 0)


class CountLoop(LoopSpec):
    """a loop with a counter"""
    def counting(self, X, L):
        L.ctr, L.lo, L.n = counted(X, L)
        if L.ctr is not None:
            X.prove('counter.bound', z3.Or(L.n > 0, z3.Not(zbool(deref(X.eval(L.node.test, L.fr))))))

    def havoc_local(self, X, L, n):
        if n == L.ctr:
            X.assign_name(n, SI(X.fresh(n)), L.fr)

    def counter_inv(self, X, L):
        if L.ctr is None:
            return []
        return [('counter', z3.And(zint(deref(X.lookup(L.ctr, L.fr))) == L.lo + L.idx, L.idx >= 0, L.idx <= L.n))]


class MakeLoop(CountLoop):
    """how often the tracked instruction was pushed, by the counters of the loops around"""
    name = 'instructions'

    def applies(self, X, node, fr, it):
        return isinstance(X.contract, MakeInstrs) and (isinstance(node, ast.While) or isinstance(deref(it), RangeV))

    def pre(self, X, L):
        f = L.fr
        L.vec = None
        while f is not None:
            for n, v in list(f.vars.items()):
                v = deref(v)
                if isinstance(v, Lst) and v.tail is None and not v.items:
                    f.vars[n] = Collected()
                if isinstance(deref(f.vars[n]), Collected):
                    L.vec = deref(f.vars[n])
            f = f.parent
        if L.vec is None:
            raise Untranslatable('the vector of instructions')
        self.counting(X, L)
        L.n0, L.parts = L.vec.cnt, []
        v = X.ghost['v']
        s, c = X.ghost['bounds']
        mine = {L.ctr} if L.ctr else {n.id for n in ast.walk(L.node.target) if isinstance(n, ast.Name)}
        inside = X.assigned_names(L.node)
        for elts in self.pushed(L.node):
            part, match = None, z3.BoolVal(True)
            for i, e in enumerate(elts):
                g = (pr, sh, to)[i](v)
                if isinstance(e, ast.Name) and e.id in mine:
                    part = g
                elif isinstance(e, ast.Name) and e.id in inside:
                    # a loop within goes through all of these
                    match = z3.And(match, True if i == 1 else z3.And(g >= 0, g < (c, 0, s)[i]))
                else:
                    now = deref(X.eval(e, L.fr))
                    match = z3.And(match, g == (zbool(now) if i == 1 else zint(now)))
            if part is None:
                raise Untranslatable('the loop variable is not pushed')
            L.parts.append((part, match))

    def pushed(self, node):
        """the parts of the instructions that are pushed"""
        out = []
        for n in ast.walk(node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'push':
                t = n.args[0]
                if not (isinstance(t, ast.Tuple) and len(t.elts) == 3 and all(isinstance(e, (ast.Name, ast.Constant)) for e in t.elts)):
                    raise Untranslatable('what is pushed')
                out.append(t.elts)
        return out

    def havoc(self, X, L, names):
        super().havoc(X, L, names)
        L.vec.cnt = X.fresh('count')

    def inv(self, X, L):
        return [('pushed', L.vec.cnt == L.n0 + z3.Sum([one(z3.And(m, p >= L.lo, p < L.lo + L.idx)) for p, m in L.parts]))] + self.counter_inv(X, L)


class Counted(Ext):
    """an iterator over instructions: conditions, the sum of which is how often the tracked one is in it"""
    def __init__(self, conds):
        self.conds = conds

    def rm_collect(self, X, *a):
        c = Collected()
        c.cnt = z3.Sum([z3.IntVal(0)] + [one(f) for f in self.conds])
        return c

    def rm_flatten(self, X):
        return self


def over(X, conds, k, n, elem):
    """the conditions with k through 0 .. n - 1, of which only one value fits: that where elem is the colour or state of the tracked one"""
    v, out = X.ghost['v'], []
    inside = z3.And(k >= 0, k < n)
    for f in conds:
        for part in (pr(v), to(v)):
            d = z3.simplify(part - (elem - k))
            if not mentions(d, k) and X.prover_ok(z3.Implies(z3.And(inside, f), k == d)):
                out.append(z3.And(d >= 0, d < n, z3.substitute(f, (k, d))))
                break
        else:
            raise Untranslatable('which round an instruction comes from')
    return out


def mentions(e, k):
    return z3.eq(e, k) or any(mentions(c, k) for c in e.children())


def conds_of(X, v):
    """the conditions for what the iterator goes through"""
    v = deref(v)
    if isinstance(v, Counted):
        return v.conds
    if isinstance(v, SeqV) and v.cond is None:
        k = X.fresh('k')
        e = instr(v.at(X, k))
        f = e == X.ghost['v']
        for elem in (pr(e), to(e)):
            elem = z3.simplify(elem)
            try:
                return over(X, [f], k, v.n, elem)
            except Untranslatable:
                pass
    if isinstance(v, Lst) and v.tail is None:
        return [instr(x) == X.ghost['v'] for x in v.items]
    if not X.iterate_unknown(v):
        return [instr(x) == X.ghost['v'] for x in X.need_iter(v)]
    raise Untranslatable('how often an instruction is in an iterator')


class RunForUndefined(Contract):
    """the undefined slot the run meets within the limit, and the tape there; or none; or it spins out or the tape is blank"""
    key = f'{TREE}:run_for_undefined'
    total = True

    def setup(self, X):
        new_ghosts(X)
        p, q, t, k = X.fresh('prog', PROG), X.fresh('state'), X.fresh('tape', TT), X.fresh('sim_lim')
        X.assume(k >= 0)
        X.ghost['at'] = p, q, t, k
        unfold_run(X, p, q, t, k)
        return [ProgV(X, p), SI(q), TreeTape(t), SI(k)]

    def post(self, X, args, res):
        p, q, t, k = X.ghost['at']
        r = deref(res)
        X.prove('program-unchanged', args[0].arr == p)
        kind = KIND(p, q, t, k)
        if not isinstance(r, Wrap) or r.kind not in ('Ok', 'Err'):
            X.prove('result', z3.BoolVal(False))
            return
        if r.kind == 'Err':
            X.prove('spins-out-or-blank', kind == ERR)
            return
        if is_none(X, r.v):
            X.prove('nothing-undefined', kind == NOTHING)
            return
        x, c = (zint(deref(v)) for v in deref(inner(X, r.v)))
        X.prove('undefined', kind == UNDEF)
        X.prove('slot', z3.And(x == RQ(p, q, t, k), c == RC(p, q, t, k)))
        X.prove('tape', tape_of(args[2]).t == RT_(p, q, t, k))
        X.prove('slot-of-the-tape', z3.And(c == SCAN(tape_of(args[2]).t), get(p, x, c) == NONE))
        X.prove('on-the-run', z3.Implies(ONRUN(p, q, t), ONRUN(p, x, tape_of(args[2]).t)))

    def apply(self, X, args, kw):
        P, q, T, k = prog_of(X, args[0]), zint(deref(args[1])), tape_of(args[2]), zint(deref(args[3]))
        p, t = P.arr, T.t
        at = (p, q, t, k)
        X.prove('run_for_undefined.limit', k >= 0)
        r = ('none', 'undef', 'err')[X.choose(3, 'run_for_undefined')]
        X.assume(KIND(*at) == dict(none=NOTHING, undef=UNDEF, err=ERR)[r])
        X.heap_writes += 1
        if r != 'undef':
            T.t = X.fresh('tape', TT)
            return Wrap('Ok', None) if r == 'none' else Wrap('Err', None)
        x, c, t2 = (f(*at) for f in (RQ, RC, RT_))
        T.t = t2
        X.assume(z3.And(c == SCAN(t2), get(p, x, c) == NONE, z3.Implies(ONRUN(p, q, t), ONRUN(p, x, t2))))
        run_facts(X, p, x, t2)
        X.ghost['configs'].append((x, t2))
        if 'below_of' in X.ghost:
            X.ghost['below'] = X.ghost['below_of'](p, x, c, t2)
        return Wrap('Ok', Some((SI(x), SI(c))))


class RunLoop(CountLoop):
    """the run goes on: what is left of it ends as the whole"""
    name = 'run'

    def applies(self, X, node, fr, it):
        return isinstance(X.contract, RunForUndefined) and (isinstance(node, ast.While) or isinstance(deref(it), RangeV))

    def pre(self, X, L):
        f = L.fr
        L.tape, L.states = deref(X.ghost['args'][2]) if 'args' in X.ghost else None, []
        while f is not None:
            for n, v in f.vars.items():
                if isinstance(deref(v), TreeTape):
                    L.tape = deref(v)
            f = f.parent
        L.names = [n for n in X.assigned_names(L.node) if X.has_local(n, L.fr) and X.has_local(n, L.fr) and isinstance(deref(X.lookup(n, L.fr)), (int, SI)) and
                   not isinstance(deref(X.lookup(n, L.fr)), bool)]
        p, q, t, k = X.ghost['at']
        L.names = [n for n in L.names if z3.eq(zint(deref(X.lookup(n, L.fr))), q)]
        if len(L.names) != 1:
            raise Untranslatable('the state of the run')
        self.counting(X, L)

    def havoc(self, X, L, names):
        super().havoc(X, L, [n for n in names if n not in L.names])
        self.havoc_local(X, L, L.names[0])
        L.tape.t = X.fresh('tape', TT)

    def havoc_local(self, X, L, n):
        super().havoc_local(X, L, n)
        if n in L.names:
            X.assign_name(n, SI(X.fresh(n)), L.fr)

    def at(self, X, L):
        p, q, t, k = X.ghost['at']
        return p, zint(deref(X.lookup(L.names[0], L.fr))), L.tape.t, k - L.idx

    def inv(self, X, L):
        p, q, t, k = X.ghost['at']
        now = self.at(X, L)
        return [('ends-alike', z3.And(KIND(*now) == KIND(p, q, t, k), z3.Implies(KIND(*now) == UNDEF, z3.And(
            [f(*now) == f(p, q, t, k) for f in (RQ, RC, RT_)])))), ('on-the-run', z3.Implies(ONRUN(p, q, t), ONRUN(p, now[1], now[2])))] + self.counter_inv(X, L)

    def inv_assume(self, X, L):
        unfold_run(X, *self.at(X, L))
        return []

    def on_exit(self, X, L):
        unfold_run(X, *self.at(X, L))


class LeafLoop(LoopSpec):
    """the flags: whether the last state, the last colour was among the instructions so far"""
    name = 'leaf'
    roles = ('state_flag', 'color_flag')

    def applies(self, X, node, fr, it):
        return isinstance(X.contract, Leaf) and isinstance(node, ast.For) and (isinstance(deref(it), ValuesV) or 'values' in X.ghost)

    def pre(self, X, L):
        L.start = [deref(L.get(r)) for r in self.roles]
        if not all(isinstance(b, bool) for b in L.start):
            raise Untranslatable('flags')

    def inv(self, X, L):
        out = []
        for r, b0, (top, k) in zip(self.roles, L.start, X.ghost['values'].places):
            f = zbool(deref(L.get(r)))
            f = z3.Not(f) if b0 else f
            out += [(f'{r}.only-then', z3.Implies(f, top)), (f'{r}.seen', z3.Implies(z3.And(top, k < L.idx), f))]
        return out


class Leaf(Contract):
    """the program is harvested, once, if it uses the last state and the last colour"""
    key = f'{TREE}:leaf'
    total = True

    def setup(self, X):
        new_ghosts(X)
        p = X.fresh('prog', PROG)
        X.assume(z3.And(well(p), CLOSED(p)))
        X.ghost.update(p=p, harv0=X.ghost['harv'])
        return [ProgV(X, p), (SI(S), SI(C)), Harvester()]

    def post(self, X, args, res):
        g = X.ghost
        X.prove('program-unchanged', prog_of(X, args[0]).arr == g['p'])
        X.prove('harvested-if-all-used', g['harv'] == g['harv0'] + one(z3.And(full(g['p']), SUB(g['p']))))

    def apply(self, X, args, kw):
        p, (s, c), h = prog_of(X, args[0]).arr, deref(args[1]), deref(args[2])
        if not isinstance(h, Harvester):
            raise Untranslatable('harvester')
        X.prove('leaf.params', z3.And(zint(deref(s)) == S, zint(deref(c)) == C))
        closed_facts(X, p)
        X.prove('leaf.table', well(p))
        X.prove('leaf.closed', CLOSED(p))
        X.ghost['harv'] = X.ghost['harv'] + one(z3.And(full(p), SUB(p)))
        X.heap_writes += 1


def closed_facts(X, p):
    """a table may be harvested when only the slots to be left are left, or its run meets none of them within the limit"""
    X.assume(z3.Implies(SIZE(p) == TOTAL - HALT0, CLOSED(p)))
    if 'at' in X.ghost:
        p0, q, t, rem = X.ghost['at']
        X.assume(z3.Implies(z3.And(p == p0, ONRUN(p0, q, t), KIND(p0, q, t, LIM) != UNDEF), CLOSED(p)))


def below(rem):
    """what is harvested below the table with its next slot filled from G"""
    def f(p, x, c, t2):
        v = G(x, c)
        p2 = put(p, x, c, v)
        return v, in_order(p, v), z3.If(z3.And(SUB(p), in_order(p, v)), z3.If(rem <= 1, one(full(p2)), W(p2, x, t2, rem - 1)), 0)
    return f


class Branch(Contract):
    """below the table, the programs that G extends are harvested W times; the table is left as it was"""
    key = f'{TREE}:branch'
    total = True

    def setup(self, X):
        new_ghosts(X)
        g = X.ghost
        p, q, t, rem = X.fresh('prog', PROG), X.fresh('state'), X.fresh('tape', TT), X.fresh('remaining')
        m, n, s, c = X.fresh('m'), X.fresh('n'), X.fresh('avail_states'), X.fresh('avail_colors')
        e = SOME(X.fresh('color'), X.fresh('shift', 'bool'), X.fresh('next'))
        for f in self.pre(p, q, t, rem, e, s, c, m, n).values():
            X.assume(f)
        run_facts(X, p, q, t)
        g.update(at=(p, q, t, rem), harv0=g['harv'], below_of=below(rem))
        unfold_tree(X, p, q, t, rem)
        g['configs'].append((q, t))
        return [tup(e), ProgV(X, p), (SI(q), TreeTape(t)), SI(LIM), (SI(s), SI(c)), (SI(S), SI(C)), SI(rem), Harvester()]

    @staticmethod
    def pre(p, q, t, rem, e, s, c, m, n):
        """m, n: the last state and colour used before the instruction e was filled in"""
        return {'table': well(p), 'on-the-run': ONRUN(p, q, t), 'remaining': z3.And(rem >= 1, SIZE(p) + rem == TOTAL - HALT0),
                'states-available': z3.And(m >= 1, s == kmin(S, 2 + m), MS(p) == kmax(m, to(e)), to(e) >= 0, to(e) < s),
                'colours-available': z3.And(n >= 1, c == kmin(C, 2 + n), MC(p) == kmax(n, pr(e)), pr(e) >= 0, pr(e) < c)}

    def post(self, X, args, res):
        g = X.ghost
        X.prove('program-restored', prog_of(X, args[1]).arr == g['at'][0])
        X.prove('harvested-below', g['harv'] == g['harv0'] + W(*g['at']))

    def apply(self, X, args, kw):
        e, P, (q, T), lim, (s, c), (ms, mc), rem, h = (deref(a) for a in args)
        e, P, q, T = instr(e), prog_of(X, P), zint(deref(q)), tape_of(T)
        lim, s, c, ms, mc, rem = (zint(deref(v)) for v in (lim, s, c, ms, mc, rem))
        if not isinstance(deref(h), Harvester):
            raise Untranslatable('harvester')
        p, t = P.arr, T.t
        if P.prev is None:
            raise Untranslatable('branch after no insertion')
        X.prove('branch.parameters', z3.And(lim == LIM, ms == S, mc == C))
        for n, f in self.pre(p, q, t, rem, e, s, c, MS(P.prev), MC(P.prev)).items():
            X.prove(f'branch.{n}', f)
        X.assume(z3.Implies(z3.Not(SUB(p)), W(p, q, t, rem) == 0))
        X.ghost['harv'] = X.ghost['harv'] + W(p, q, t, rem)
        T.t = X.fresh('tape', TT)
        X.heap_writes += 1


class InstrLoop(LoopSpec):
    """below the instructions tried so far, what is harvested is counted; the table is as before"""
    name = 'instructions'

    def applies(self, X, node, fr, it):
        it = deref(it)
        return 'below' in X.ghost and isinstance(getattr(it, 'instrs', it), Instrs) and isinstance(node, (ast.For, ast.While))

    def pre(self, X, L):
        it = deref(L.iterable)
        L.list = getattr(it, 'instrs', it)
        L.gv, L.ok, L.w = X.ghost['below']
        L.h0 = X.ghost['harv']
        L.progs, L.tapes = [], []
        f = L.fr
        while f is not None:
            for v in map(deref, f.vars.values()):
                if isinstance(v, ProgV) and not any(v is o for o, _ in L.progs):
                    L.progs.append((v, v.arr))
                if isinstance(v, TreeTape) and not any(v is o for o, _ in L.tapes):
                    L.tapes.append((v, v.t))
            f = f.parent
        L.place = L.list.of(X, L.gv)

    def havoc(self, X, L, names):
        super().havoc(X, L, names)
        X.ghost['harv'] = X.fresh('harvested')
        for p, _ in L.progs:
            p.arr, p.prev = X.fresh('prog', PROG), None
        for t, _ in L.tapes:
            t.t = X.fresh('tape', TT)

    def inv(self, X, L):
        got = z3.And(L.list.inside(L.gv), L.place >= 0, L.place < L.idx)
        return [('table-restored', z3.And([z3.BoolVal(True)] + [p.arr == a for p, a in L.progs])),
                ('tape-kept', z3.And([z3.BoolVal(True)] + [t.t == a for t, a in L.tapes])),
                ('harvested-below', X.ghost['harv'] == L.h0 + z3.If(got, L.w, 0))]

    def inv_assume(self, X, L):
        """the arrays are the same terms again"""
        for p, a in L.progs:
            if X.prover_ok(p.arr == a):
                p.arr = a
        for t, a in L.tapes:
            if X.prover_ok(t.t == a):
                t.t = a
        L.list.facts(X, L.idx)
        return []


class BuildTree(Contract):
    """from the table with 1RB and any second instruction in order; the programs that G extends are harvested W times"""
    key = f'{TREE}:build_tree'
    total = True

    def setup(self, X):
        new_ghosts(X)
        g = X.ghost
        h = X.fresh('halt', 'bool')
        X.assume(HALT0 == one(h))
        p1 = put(EMPTY, z3.IntVal(0), z3.IntVal(0), FIRST)
        rem = TOTAL - 2 - HALT0
        v = G(1, 0)
        p2 = put(p1, z3.IntVal(1), z3.IntVal(0), v)
        for f in (put_facts(EMPTY, z3.IntVal(0), z3.IntVal(0), FIRST), put_facts(p1, z3.IntVal(1), z3.IntVal(0), v)):
            X.assume(f)
        g.update(harv0=g['harv'], below=(v, in_order(p1, v), z3.If(z3.And(SUB(p1), in_order(p1, v)), W(p2, 1, T0, rem), 0)))
        g['configs'].append((z3.IntVal(1), T0))
        # after 1RB the run is in state 1 on the tape stepped once, whatever the other slots hold
        X.assume(ONRUN(p1, 1, T0))
        return [(SI(S), SI(C)), SB(h), SI(LIM), Harvester()]

    def post(self, X, args, res):
        g = X.ghost
        X.prove('harvested-below-the-root', g['harv'] == g['harv0'] + g['below'][2])

    def apply(self, X, args, kw):
        """the harvester is called with each program of the tree; it is shown to add the program's text to the list, for any program"""
        (s, c), halt, lim, f = (deref(a) for a in args)
        X.prove('build_tree.params', z3.And(zint(deref(s)) == S, zint(deref(c)) == C))
        X.prove('build_tree.halt', one(zbool(deref(halt))) == HALT0)
        X.prove('build_tree.limit', zint(deref(lim)) == LIM)
        lists, fr = [], getattr(f, 'closure', None)
        while fr is not None:
            for v in fr.vars.values():
                v = deref(v)
                while isinstance(v, Obj) and 'v' in v.attrs:
                    v = deref(v.attrs['v'])
                if isinstance(v, Lst) and not any(v is x for x in lists):
                    lists.append(v)
            fr = fr.parent
        if len(lists) != 1 or lists[0].tail is not None:
            raise Untranslatable('where the programs go')
        lst, = lists
        X.prove('starts-empty', z3.BoolVal(not lst.items))
        p = X.fresh('prog', PROG)
        X.call(f, [ProgV(X, p)], {})
        t = deref(lst.items[-1]) if len(lst.items) == 1 else None
        t = t.v if isinstance(t, Wrap) and t.kind == 'Some' else t
        X.prove('one-text-for-each', z3.BoolVal(isinstance(t, ShownV)))
        if isinstance(t, ShownV):
            s2, c2 = shown_params(t)
            X.prove('text-of-the-program', z3.And(t.arr == p, s2 == S, c2 == C))
        lst.items[:] = [HARVEST]
        X.heap_writes += 1


def shown_params(t):
    w = t.params
    if not isinstance(w, Wrap) or w.kind != 'Some':
        raise Untranslatable('show without parameters')
    s, c = deref(w.v)
    return zint(deref(s)), zint(deref(c))


class Harvest(Ext):
    """the texts of all programs harvested, each as often as it was harvested"""
    rust_value = True


HARVEST = Harvest()


class TreeProgs(Contract):
    """the texts of the programs of the tree, with all states and colours shown"""
    key = f'{TREE}:tree_progs'
    total = True

    def setup(self, X):
        new_ghosts(X)
        h = X.fresh('halt', 'bool')
        X.assume(HALT0 == one(h))
        return [(SI(S), SI(C)), SB(h), SI(LIM)]

    def post(self, X, args, res):
        res = deref(res)
        X.prove('all-and-no-others', z3.BoolVal(isinstance(res, Lst) and res.items == [HARVEST]))


def table(X, items):
    """CompProg::from"""
    p = ProgV(X, EMPTY)
    for k, v in items:
        p.rm_insert(X, k, v)
    return p


def init_stepped(X, args, kw):
    return TreeTape(T0)


class TreeDomain(RDomain, SeqDomain):
    def generic(self, X, name):
        raise Untranslatable(f'generic {name}')

    def flat_map(self, X, seq, f):
        if not isinstance(X.contract, MakeInstrs) or seq.cond is not None:
            return None
        k = X.fresh('k')
        x = seq.at(X, k)
        return Counted(over(X, conds_of(X, X.call(f, [x], {})), k, seq.n, zint(deref(x))))

    def flat_known(self, X, it, f):
        if not isinstance(X.contract, MakeInstrs):
            return NotImplemented
        return Counted([c for x in it for c in conds_of(X, X.call(f, [x], {}))])

    def collect(self, X, seq, kind):
        if isinstance(X.contract, MakeInstrs) and kind in ('Vec', '?'):
            return Counted(conds_of(X, seq)).rm_collect(X)
        return NotImplemented


LOOPS = (InstrLoop(), LeafLoop(), MakeLoop(), RunLoop())


def contracts(world):
    cs = [MakeInstrs(), RunForUndefined(), Leaf(), Branch(), BuildTree(), TreeProgs(), Given(f'{RT}:Tape.init_stepped', init_stepped)]
    return {c.key: c for c in cs}
