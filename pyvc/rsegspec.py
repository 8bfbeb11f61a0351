"""Contracts of the segment reasoner (src/segment.rs): segment_cant_halt.

A window of seg - 2 cells, and a position on either side of it for everything beyond.  Two layers:
 - Tape and Span at the level of cells (Cells: a vector of colours), for windows of any size;
 - the search, where a window tape is a value of sort TP and the operations on it are uninterpreted functions; what is used about
   them follows from the first layer by the lemmas in prove_segment.

The argument over the contracts: the run of (q, tp) inside the window either goes on for ever (INF) or ends in a configuration
(ENDQ, ENDT), where a slot is undefined or the head has left.  Seen configurations are on the list or handled (Explored below); a
search that ends without an answer has handled all, so a halting run from the blank tape, laid over the window in every way, would
have reached its halting state at every position, and the search would have said so."""
from __future__ import annotations
import ast
import z3
from .values import *
from .engine import Contract, Ext, LoopSpec, RangeV, SB, SI, PathEnd, unit_steps, zbool
from .rengine import RDomain, Some, Panic, deref, is_none, inner, iter_method
from .seq import SeqV, SeqDomain, as_seq, instantiate, term

RS = 'src/segment.rs'
I, B = z3.IntSort(), z3.BoolSort()
F = z3.Function
ZERO = z3.IntVal(0)


def scls(X, name):
    return X.world.class_val(X.world.by_path(RS), name)


# ================================================================== cells
class Cells(Ext):
    """Vec<Color> of any length"""

    def __init__(self, n, at):
        self.n, self.at = n, at

    def rm_clone(self, X):
        return Cells(self.n, self.at)
    rm_to_vec = rm_to_owned = rm_clone

    def rm_len(self, X):
        return SI(self.n)

    def rm_is_empty(self, X):
        return SB(self.n == 0)

    def rm_insert(self, X, i, v):
        i, v, old = zint(deref(i)), zint(deref(v)), self.at
        if not X.branch(z3.And(i >= 0, i <= self.n)):
            raise PyRaise(Panic, ())
        self.at = lambda k: z3.If(k < i, old(k), z3.If(k == i, v, old(k - 1)))
        self.n = self.n + 1
        X.heap_writes += 1

    def rm_push(self, X, v):
        self.rm_insert(X, SI(self.n), v)
    rm_push_back = rm_push

    def rm_push_front(self, X, v):
        self.rm_insert(X, 0, v)

    def rm_remove(self, X, i):
        i, old = zint(deref(i)), self.at
        if not X.branch(z3.And(i >= 0, i < self.n)):
            raise PyRaise(Panic, ())
        self.at = lambda k: z3.If(k < i, old(k), old(k + 1))
        self.n = self.n - 1
        X.heap_writes += 1
        return SI(old(i))

    def rm_pop(self, X):
        return Some(self.rm_remove(X, SI(self.n - 1))) if X.branch(self.n > 0) else None

    def rm_first(self, X):
        return Some(SI(self.at(ZERO))) if X.branch(self.n > 0) else None

    def rm_last(self, X):
        return Some(SI(self.at(self.n - 1))) if X.branch(self.n > 0) else None

    def rm_get(self, X, i):
        i = zint(deref(i))
        return Some(SI(self.at(i))) if X.branch(z3.And(i >= 0, i < self.n)) else None

    def getitem(self, X, i):
        r = self.rm_get(X, i)
        if r is None:
            raise PyRaise(Panic, ())
        return r.v

    def rm_drain(self, X, r):
        r = deref(r)
        if getattr(r, 'lo', None) not in (0, None) or getattr(r, 'hi', None) != 1:
            raise Untranslatable('drain')
        v = self.rm_remove(X, 0)
        return SeqV(z3.IntVal(1), lambda X, k: v, 'gen', label='first cell')

    def as_seq(self, X):
        at = self.at
        return SeqV(self.n, lambda X, k: SI(at(k)), 'list', label='cells')
    rm_iter = rm_into_iter = rm_as_slice = as_seq

    def loop_iter(self, X):
        return self.as_seq(X).loop_iter(X)

    def length(self, X):
        return SI(self.n)


def cells_of(X, v):
    """the vector of a span"""
    v = deref(v)
    if isinstance(v, Obj) and v.cls.name == 'Span':
        v = deref(v.attrs['_0'])
    if isinstance(v, Cells):
        return v
    if isinstance(v, Lst) and v.tail is None:
        items = [zint(deref(x)) for x in v.items]

        def at(k):
            r = ZERO
            for j, x in enumerate(items):
                r = z3.If(k == j, x, r)
            return r
        return Cells(z3.IntVal(len(items)), at)
    raise Untranslatable(f'cells {v!r}')


class View:
    """what a tape says: position, whether a cell is scanned, and the colour of the window cells 1 .. cells"""
    def __init__(self, X, t):
        t = deref(t)
        self.l, self.r = (cells_of(X, t.attrs[s]).rm_clone(X) for s in ('lspan', 'rspan'))
        s = t.attrs['scan']
        self.ins = not is_none(X, s)
        self.scan = zint(deref(inner(X, s))) if self.ins else z3.IntVal(-1)
        nl = self.l.n
        self.pos = nl + 1 if self.ins else z3.If(nl > 0, nl + 1, 0)

    def wf(self, cells):
        nl, nr = self.l.n, self.r.n
        if self.ins:
            return z3.And(nl >= 0, nr >= 0, nl + nr + 1 == cells)
        return z3.Or(z3.And(nl == 0, nr == cells), z3.And(nr == 0, nl == cells))

    def cell(self, i):
        return z3.If(i < self.pos, self.l.at(self.pos - 1 - i), z3.If(i == self.pos, self.scan, self.r.at(i - self.pos - 1)))


def new_span(X, nm):
    n, f = X.fresh(f'{nm}_len'), F(f'{nm}!{next(X.fresh_n)}', I, I)
    X.assume(n >= 0)
    c = Cells(n, f)
    return Obj(scls(X, 'Span'), dict(_0=c)), n, f


def new_tape(X, inside=None):
    ins = X.choose(2, 'inside') == 0 if inside is None else inside
    (l, nl, fl), (r, nr, fr) = new_span(X, 'l'), new_span(X, 'r')
    scan = X.fresh('scan')
    cells = X.fresh('cells')
    X.assume(cells >= 2)
    t = Obj(scls(X, 'Tape'), dict(scan=Some(SI(scan)) if ins else None, lspan=l, rspan=r))
    v = View(X, t)
    X.assume(v.wf(cells))
    t.ghost.update(view=v, cells=cells)
    k0 = X.fresh('k0')
    X.assume(z3.And(k0 >= 1, k0 <= cells))
    X.ghost['k0'] = k0
    return t


class TapeContract(Contract):
    total = True
    inside = None
    fn = ''

    @property
    def key(self):
        return f'{RS}:Tape.{self.fn}'

    def inline_for(self, X):
        """within the functions of the tape the bodies are used"""
        return X.target.startswith((f'{RS}:Tape.', f'{RS}:Span.'))

    def setup(self, X):
        return [new_tape(X, self.inside)]

    def same(self, X, t):
        v, w = t.ghost['view'], View(X, t)
        k = X.ghost['k0']
        X.prove('tape-unchanged', z3.And(z3.BoolVal(v.ins == w.ins), w.wf(t.ghost['cells']), v.pos == w.pos, v.cell(k) == w.cell(k)))


class TInit(TapeContract):
    """blank, at the position"""
    fn = 'init'

    def setup(self, X):
        seg, pos, k0 = X.fresh('seg'), X.fresh('pos'), X.fresh('k0')
        X.assume(z3.And(seg >= 4, pos >= 0, pos < seg, k0 >= 1, k0 <= seg - 2))
        X.ghost['k0'] = k0
        return [SI(seg), SI(pos)]

    def post(self, X, args, res):
        seg, pos = (a.e for a in args)
        v = View(X, res)
        X.prove('window', v.wf(seg - 2))
        X.prove('position', v.pos == pos)
        X.prove('blank', z3.Implies(z3.Or(v.ins, X.ghost['k0'] != v.pos), v.cell(X.ghost['k0']) == 0))

    def apply(self, X, args, kw):
        seg, pos = (zint(deref(a)) for a in args)
        X.prove('init.window', z3.And(seg == SEG, seg >= 4, pos >= 0, pos < seg))
        X.assume(z3.And(POS(INITT(pos)) == pos, BLK(INITT(pos))))
        return tapev(X, INITT(pos))


class TBlank(TapeContract):
    """true exactly when every cell of the window is blank"""
    fn = 'blank'

    def post(self, X, args, res):
        t, = args
        v = t.ghost['view']
        k0 = X.ghost['k0']
        if X.truth(res):
            for j in (v.pos - 1 - k0, k0 - v.pos - 1):
                instantiate(X, z3.simplify(j))
            X.prove('blank', v.cell(k0) == 0)
        else:
            alts = [v.scan != 0] if v.ins else []
            for _, w in X.ghost.get('witness', []):
                alts += [z3.And(w >= 0, w < s.n, s.at(w) != 0) for s in (v.l, v.r)]
            X.prove('a-cell-not-blank', z3.Or(alts))
        self.same(X, t)

    def apply(self, X, args, kw):
        return SB(BLK(tp_of(args[0])))


class TAtEdge(TapeContract):
    """true only on a blank cell with the window blank beyond it"""
    fn = 'at_edge'

    def setup(self, X):
        return super().setup(X) + [SB(X.fresh('edge', 'bool'))]

    def post(self, X, args, res):
        t, edge = args
        v, k0 = t.ghost['view'], X.ghost['k0']
        if X.truth(res):
            for j in (v.pos - 1 - k0, k0 - v.pos - 1):
                instantiate(X, z3.simplify(j))
            X.prove('on-a-cell', z3.BoolVal(v.ins))
            X.prove('blank-cell', v.scan == 0)
            X.prove('blank-beyond', z3.Implies(z3.If(zbool(edge), k0 > v.pos, k0 < v.pos), v.cell(k0) == 0))
        self.same(X, t)

    def apply(self, X, args, kw):
        tp = tp_of(args[0])
        b = X.fresh('at_edge', 'bool')
        X.assume(z3.Implies(b, z3.And(AHEAD(tp, zbool(deref(args[1]))), INS(tp), COL(tp) == 0)))
        return SB(b)


class TPos(TapeContract):
    """the position of the head"""
    fn = 'pos'

    def post(self, X, args, res):
        X.prove('position', zint(deref(res)) == args[0].ghost['view'].pos)
        self.same(X, args[0])

    def apply(self, X, args, kw):
        return SI(POS(tp_of(args[0])))


class TSide(TapeContract):
    """which side the head has left at: true for the right"""
    fn = 'side'
    inside = False

    def post(self, X, args, res):
        t, = args
        X.prove('side', zbool(deref(res)) == (t.ghost['view'].pos == t.ghost['cells'] + 1))
        self.same(X, t)

    def apply(self, X, args, kw):
        tp = tp_of(args[0])
        X.prove('side.outside', z3.Not(INS(tp)))
        return SB(SIDE(tp))


class TStepIn(TapeContract):
    """the head moves on the outermost cell"""
    fn = 'step_in'
    inside = False

    def setup(self, X):
        t, = super().setup(X)
        return [t, SB(t.ghost['view'].pos == 0)]

    def post(self, X, args, res):
        t, shift = args
        v, w, k = t.ghost['view'], View(X, t), X.ghost['k0']
        X.prove('window', w.wf(t.ghost['cells']))
        X.prove('on-a-cell', z3.BoolVal(w.ins))
        X.prove('one-step', w.pos == v.pos + z3.If(shift.e, 1, -1))
        X.prove('cells-kept', w.cell(k) == v.cell(k))

    def apply(self, X, args, kw):
        t, tp, sh = deref(args[0]), tp_of(args[0]), zbool(deref(args[1]))
        X.prove('step_in.inwards', z3.And(z3.Not(INS(tp)), sh == z3.Not(SIDE(tp))))
        t.set(X, STEPIN(tp, sh))


class TStep(TapeContract):
    """the scanned cell is printed on, the head moves"""
    fn = 'step'
    inside = True

    def setup(self, X):
        p = X.fresh('print')
        X.assume(p >= 0)
        return super().setup(X) + [SB(X.fresh('shift', 'bool')), SI(p)]

    def post(self, X, args, res):
        t, shift, p = args
        v, w, k = t.ghost['view'], View(X, t), X.ghost['k0']
        X.prove('window', w.wf(t.ghost['cells']))
        X.prove('one-step', w.pos == v.pos + z3.If(shift.e, 1, -1))
        X.prove('printed', w.cell(k) == z3.If(k == v.pos, p.e, v.cell(k)))

    def apply(self, X, args, kw):
        t, tp = deref(args[0]), tp_of(args[0])
        sh, p = zbool(deref(args[1])), zint(deref(args[2]))
        X.prove('step.inside', INS(tp))
        t.set(X, STEPT(tp, sh, p))


# ================================================================== the search
TP = z3.DeclareSort('TP')
SEG, NS, NC = z3.Int('SEG'), z3.Int('STATES'), z3.Int('COLORS')
NEVER = z3.Bool('NEVER')            # the run from the blank tape meets no undefined slot
INS, COL, POS, BLK, SIDE = F('ins', TP, B), F('col', TP, I), F('pos', TP, I), F('blk', TP, B), F('side', TP, B)
AHEAD, INITT = F('ahead', TP, B, B), F('initt', I, TP)
STEPT, STEPIN = F('stept', TP, B, I, TP), F('stepin', TP, B, TP)
DFN, PR, SH, TO, HALT = F('dfn', I, I, B), F('pr', I, I, I), F('sh', I, I, B), F('to', I, I, I), F('halt', I, B)
INF, ENDQ, ENDT, LEN = F('inf', I, TP, B), F('endq', I, TP, I), F('endt', I, TP, TP), F('len', I, TP, I)
RL, RLP = F('rl', I, TP, B), F('rlp', I, TP, B)     # in the window part of the run from the blank tape; after at least one step


def slot_facts(X, q, c):
    X.assume(z3.Implies(DFN(q, c), z3.And(TO(q, c) >= 0, TO(q, c) < NS, PR(q, c) >= 0, PR(q, c) < NC)))
    X.assume(z3.Implies(z3.And(q >= 0, q < NS, c >= 0, c < NC, z3.Not(DFN(q, c))), HALT(q)))


def tape_facts(X, tp):
    X.assume(z3.And(POS(tp) >= 0, POS(tp) < SEG, INS(tp) == z3.And(POS(tp) >= 1, POS(tp) <= SEG - 2), SEG >= 4))
    X.assume(z3.Implies(z3.Not(INS(tp)), SIDE(tp) == (POS(tp) == SEG - 1)))
    X.assume(z3.Implies(BLK(tp), tp == INITT(POS(tp))))
    p = POS(tp)
    X.assume(z3.And(POS(INITT(p)) == p, BLK(INITT(p)), RL(ZERO, INITT(p)), z3.Implies(RLP(ZERO, INITT(p)), NEVER)))


def stop(q, tp):
    return z3.Or(z3.Not(INS(tp)), z3.Not(DFN(q, COL(tp))))


def nxt(q, tp):
    c = COL(tp)
    return TO(q, c), STEPT(tp, SH(q, c), PR(q, c))


def unfold(X, q, tp):
    """the run inside the window from (q, tp)"""
    slot_facts(X, q, COL(tp))
    tape_facts(X, tp)
    s, (q2, t2) = stop(q, tp), nxt(q, tp)
    X.assume(z3.If(s, z3.And(z3.Not(INF(q, tp)), ENDQ(q, tp) == q, ENDT(q, tp) == tp, LEN(q, tp) == 0),
                   z3.And(INF(q, tp) == INF(q2, t2), ENDQ(q, tp) == ENDQ(q2, t2), ENDT(q, tp) == ENDT(q2, t2),
                          z3.Implies(z3.Not(INF(q, tp)), LEN(q, tp) == LEN(q2, t2) + 1))))
    X.assume(LEN(q, tp) >= 0)
    X.assume(z3.Implies(z3.And(RL(q, tp), z3.Not(s)), z3.And(RL(q2, t2), RLP(q2, t2))))
    X.assume(z3.Implies(z3.And(RL(q, tp), INF(q, tp)), NEVER))
    X.assume(z3.Implies(z3.And(RL(q, tp), z3.Not(s), q2 == q, COL(tp) == 0, AHEAD(tp, SH(q, COL(tp)))), NEVER))


class TapeV(Ext):
    """a window tape, through its contracts"""
    def __init__(self, X, tp):
        self.set(X, tp)

    def set(self, X, tp):
        self.tp = tp
        tape_facts(X, tp)
        X.heap_writes += 1

    def rust_class(self, X):
        return scls(X, 'Tape')

    def rm_clone(self, X):
        return TapeV(X, self.tp)
    rm_to_owned = rm_clone

    def getattr(self, X, name):
        if name == 'scan':
            return Some(SI(COL(self.tp))) if X.truth(SB(INS(self.tp))) else None
        raise Untranslatable(f'{name} of a window tape')

    def setattr(self, X, name, v):
        raise Untranslatable('a window tape is changed')

    def compare(self, X, op, other, refl):
        if op not in ('==', '!='):
            raise Untranslatable(op)
        e = self.tp == tp_of(other)
        return SB(e) if op == '==' else SB(z3.Not(e))


def tapev(X, tp):
    return TapeV(X, tp)


def tp_of(v):
    v = deref(v)
    if isinstance(v, TapeV):
        return v.tp
    raise Untranslatable(f'window tape {v!r}')


class ProgS(Ext):
    """the program"""
    def rm_get(self, X, k):
        q, c = (zint(deref(v)) for v in deref(k))
        slot_facts(X, q, c)
        return Some((SI(PR(q, c)), SB(SH(q, c)), SI(TO(q, c)))) if X.truth(SB(DFN(q, c))) else None
    rm_get_instr = rm_get

    def rm_contains_key(self, X, k):
        q, c = (zint(deref(v)) for v in deref(k))
        slot_facts(X, q, c)
        return SB(DFN(q, c))

    def getitem(self, X, k):
        r = self.rm_get(X, k)
        if r is None:
            raise PyRaise(Panic, ())
        return r.v

    def rm_clone(self, X):
        return self


def key(v):
    v = deref(v)
    return v.tp if isinstance(v, TapeV) else zint(v)


def empty(v):
    v = deref(v)
    return isinstance(v, (Lst, Dct, SetV)) and getattr(v, 'tail', None) is None and not (v.items if isinstance(v, Lst) else v.d if isinstance(v, Dct) else v.s)


class Sets(Ext):
    """a map from states to sets; no set is the empty set"""
    def __init__(self, X, sort, m=None, n=None, has=None):
        no = z3.K(I, z3.BoolVal(False))
        self.sort = sort
        self.m = z3.K(I, z3.K(sort, z3.BoolVal(False))) if m is None else m      # the members
        self.n = z3.K(I, ZERO) if n is None else n                               # how many
        self.has = no if has is None else has

    @classmethod
    def any(cls, X, sort):
        return cls(X, sort, X.fresh('members', z3.ArraySort(I, z3.ArraySort(sort, B))), X.fresh('sizes', z3.ArraySort(I, I)),
                   X.fresh('keys', z3.ArraySort(I, B)))

    def facts(self, X, q):
        X.assume(z3.Select(self.n, q) >= 0)
        X.assume(z3.Implies(z3.Not(z3.Select(self.has, q)),
                            z3.And(z3.Select(self.n, q) == 0, z3.Select(self.m, q) == z3.K(self.sort, z3.BoolVal(False)))))

    def mem(self, q, x):
        return z3.Select(z3.Select(self.m, q), x)

    def rm_entry(self, X, q):
        return SetEntry(self, zint(deref(q)))

    def rm_get(self, X, q):
        q = zint(deref(q))
        self.facts(X, q)
        return Some(SetAt(self, q)) if X.truth(SB(z3.Select(self.has, q))) else None
    rm_get_mut = rm_get

    def rm_contains_key(self, X, q):
        return SB(z3.Select(self.has, zint(deref(q))))

    def getitem(self, X, q):
        r = self.rm_get(X, q)
        if r is None:
            raise PyRaise(Panic, ())
        return r.v

    def rm_insert(self, X, q, v):
        q = zint(deref(q))
        if not empty(v):
            raise Untranslatable('insert of a set')
        self.facts(X, q)
        self.m = z3.Store(self.m, q, z3.K(self.sort, z3.BoolVal(False)))
        self.n = z3.Store(self.n, q, ZERO)
        self.has = z3.Store(self.has, q, z3.BoolVal(True))
        X.heap_writes += 1
        return None


class SetEntry(Ext):
    def __init__(self, d, q):
        self.d, self.q = d, q

    def rm_or_default(self, X):
        self.d.facts(X, self.q)
        self.d.has = z3.Store(self.d.has, self.q, z3.BoolVal(True))
        return SetAt(self.d, self.q)

    def rm_or_insert(self, X, v):
        if not empty(v):
            raise Untranslatable('or_insert')
        return self.rm_or_default(X)

    def rm_or_insert_with(self, X, f):
        return self.rm_or_insert(X, X.call(f, [], {}))


class SetAt(Ext):
    """the set of a state"""
    def __init__(self, d, q):
        self.d, self.q = d, q

    def rm_contains(self, X, v):
        return SB(self.d.mem(self.q, key(v)))

    def contains(self, X, v):
        return self.rm_contains(X, v)

    def rm_insert(self, X, v):
        d, q, v = self.d, self.q, key(v)
        old = d.mem(q, v)
        d.m = z3.Store(d.m, q, z3.Store(z3.Select(d.m, q), v, z3.BoolVal(True)))
        d.n = z3.Store(d.n, q, z3.Select(d.n, q) + z3.If(old, 0, 1))
        X.heap_writes += 1
        return SB(z3.Not(old))

    def rm_remove(self, X, v):
        d, q, v = self.d, self.q, key(v)
        old = d.mem(q, v)
        d.m = z3.Store(d.m, q, z3.Store(z3.Select(d.m, q), v, z3.BoolVal(False)))
        d.n = z3.Store(d.n, q, z3.Select(d.n, q) - z3.If(old, 1, 0))
        X.heap_writes += 1
        return SB(old)

    def rm_len(self, X):
        X.assume(z3.Select(self.d.n, self.q) >= 0)
        return SI(z3.Select(self.d.n, self.q))

    def rm_is_empty(self, X):
        return SB(z3.Select(self.d.n, self.q) == 0)

    def rm_clear(self, X):
        self.d.rm_insert(X, SI(self.q), SetV(()))


# ---- configurations
def config(X, q, tp, init):
    return Obj(scls(X, 'Config'), dict(state=SI(q), tape=TapeV(X, tp), init=init if isinstance(init, bool) else SB(init)))


def parts(X, o):
    o = deref(o)
    if not isinstance(o, Obj) or o.cls.name != 'Config':
        raise Untranslatable(f'configuration {o!r}')
    return zint(deref(o.attrs['state'])), tp_of(o.attrs['tape']), zbool(deref(o.attrs['init']))


def valid(q, tp, init):
    """init: it is the start of a run from the blank tape, unless the head is outside (where init is not looked at)"""
    return z3.And(q >= 0, q < NS, z3.Implies(z3.And(init, INS(tp)), z3.And(q == 0, BLK(tp))))


def is_x(X, q, tp):
    return z3.And(q == X.ghost['xq'], tp == X.ghost['xt'])


class Todo(Ext):
    """Vec<Config>: whether the tracked configuration is in it"""
    def __init__(self, X, n=None, has=None):
        self.n, self.has = ZERO if n is None else n, z3.BoolVal(False) if has is None else has

    @classmethod
    def any(cls, X):
        t = cls(X, X.fresh('todo'), X.fresh('listed', 'bool'))
        X.assume(z3.And(t.n >= 0, z3.Implies(t.has, t.n > 0)))
        return t

    def rm_push(self, X, c):
        q, tp, init = parts(X, c)
        X.prove('listed.valid', valid(q, tp, init))
        self.has = z3.Or(self.has, is_x(X, q, tp))
        self.n = self.n + 1
        X.heap_writes += 1
    rm_push_back = rm_push_front = rm_push

    def rm_pop(self, X):
        if not X.branch(self.n > 0):
            return None
        q, tp, init, had = X.fresh('state'), X.fresh('tape', TP), X.fresh('init', 'bool'), self.has
        c = config(X, q, tp, init)
        X.assume(valid(q, tp, init))
        self.n, self.has = self.n - 1, X.fresh('listed', 'bool')
        X.assume(z3.And(z3.Implies(had, z3.Or(self.has, is_x(X, q, tp))), z3.Implies(self.has, self.n > 0)))
        X.heap_writes += 1
        return Some(c)
    rm_pop_back = rm_pop_front = rm_pop

    def rm_len(self, X):
        return SI(self.n)

    def rm_is_empty(self, X):
        return SB(self.n == 0)


def new_ghosts(X):
    g = X.ghost
    if 'xq' in g:
        return
    g['xq'], g['xt'] = X.fresh('xq'), X.fresh('xt', TP)
    g['sc'], g['h'], g['p0'] = X.fresh('sc'), X.fresh('h'), X.fresh('p0')
    X.assume(z3.And(SEG >= 4, NS >= 1, NC >= 1, g['p0'] >= 0, g['p0'] < SEG, g['sc'] >= 0, g['sc'] < NC))
    tape_facts(X, g['xt'])


SORTS = dict(seen=TP, blanks=I, reached=I)


def new_configs(X, any=True):
    new_ghosts(X)
    d = dict(seg=SI(SEG), todo=Todo.any(X) if any else Todo(X))
    for n, s in SORTS.items():
        d[n] = Sets.any(X, s) if any else Sets(X, s)
    o = Obj(scls(X, 'Configs'), d)
    return o


def adopt(X, o):
    """a Configs built by the code: empty lists and maps as ours"""
    new_ghosts(X)
    a = o.attrs
    if empty(a.get('todo')):
        a['todo'] = Todo(X)
    for n, s in SORTS.items():
        if empty(a.get(n)):
            a[n] = Sets(X, s)
    if not isinstance(a['todo'], Todo) or not all(isinstance(a[n], Sets) for n in SORTS):
        raise Untranslatable('Configs')
    return o


def configs_of(X, v):
    v = deref(v)
    if isinstance(v, Obj) and v.cls.name == 'Configs':
        return adopt(X, v)
    raise Untranslatable(f'{v!r}')


def havoc_configs(X, o, only=None):
    a = o.attrs
    for n, s in SORTS.items():
        if only is None or n in only:
            a[n] = Sets.any(X, s)
    if only is None or 'todo' in only:
        a['todo'] = Todo.any(X)
    X.heap_writes += 1


class State:
    """what the lists of a Configs say now"""
    def __init__(self, o):
        a = o.attrs
        self.todo, self.has, self.n = a['todo'], a['todo'].has, a['todo'].n
        self.m = {k: a[k].m for k in SORTS}
        self.len = {k: a[k].n for k in SORTS}
        self.keys = {k: a[k].has for k in SORTS}

    def mem(self, k, q, x):
        return z3.Select(z3.Select(self.m[k], q), x)

    def seen(self, q, tp):
        return z3.If(BLK(tp), self.mem('blanks', q, POS(tp)), self.mem('seen', q, tp))

    def x(self, X):
        return self.seen(X.ghost['xq'], X.ghost['xt'])

    def same(self, other, which):
        return z3.And([z3.And(self.m[k] == other.m[k], self.len[k] == other.len[k], self.keys[k] == other.keys[k]) for k in which])

    def handled(self, X, q=None, tp=None):
        """what follows (q, tp) is seen and its halting state noted, or it never stops"""
        g = X.ghost
        q, tp = (g['xq'], g['xt']) if q is None else (q, tp)
        eq, et, sc = ENDQ(q, tp), ENDT(q, tp), g['sc']
        slot_facts(X, eq, sc)
        tape_facts(X, et)
        nq, sh = TO(eq, sc), SH(eq, sc)
        tape_facts(X, STEPIN(et, sh))
        return z3.Or(INF(q, tp), z3.And(
            z3.Implies(HALT(eq), self.mem('reached', eq, POS(et))),
            z3.Implies(z3.And(z3.Not(INS(et)), DFN(eq, sc)), z3.And(
                z3.Implies(nq != eq, self.seen(nq, et)),
                z3.Implies(sh == z3.Not(SIDE(et)), self.seen(nq, STEPIN(et, sh)))))))

    def small(self, X):
        return z3.Select(self.len['reached'], X.ghost['h']) < SEG

    def keyed(self, X, q):
        """the states watched are those that can halt"""
        return z3.Select(self.keys['reached'], q) == HALT(q)


def grown(X, a, b, extra=None):
    """from a to b: only more is seen, and what is new is listed (or extra); what was listed still is"""
    x = z3.BoolVal(False) if extra is None else extra
    return [('seen-kept', z3.Implies(a.x(X), b.x(X))), ('new-listed', z3.Implies(b.x(X), z3.Or(a.x(X), b.has, x))),
            ('listed-kept', z3.Implies(a.has, z3.Or(b.has, x)))]


# ---- lists of states
class States(Ext):
    """Vec<State>; ix finds the members"""
    def __init__(self, n, at, ix):
        self.n, self.at, self.ix = n, at, ix

    def member(self, v, n=None):
        i = self.ix(v)
        return z3.And(i >= 0, i < (self.n if n is None else n), self.at(i) == v)

    def item(self, X, k):
        v = self.at(k)
        X.assume(z3.Implies(z3.And(k >= 0, k < self.n), z3.And(v >= 0, v < NS)))
        return SI(v)

    def as_seq(self, X):
        s = SeqV(self.n, self.item, 'list', label='states')
        s.states = self
        return s
    rm_iter = rm_into_iter = rm_copied = as_seq

    def loop_iter(self, X):
        return self.as_seq(X).loop_iter(X)

    def rm_len(self, X):
        return SI(self.n)

    def rm_is_empty(self, X):
        return SB(self.n == 0)

    def rm_split_last(self, X):
        if not X.branch(self.n > 0):
            return None
        return Some((self.item(X, self.n - 1), States(self.n - 1, self.at, self.ix)))

    def rm_last(self, X):
        return Some(self.item(X, self.n - 1)) if X.branch(self.n > 0) else None

    def rm_clone(self, X):
        return self


def new_states(X, nm):
    i = next(X.fresh_n)
    n = X.fresh(f'{nm}_len')
    X.assume(n >= 0)
    return States(n, F(f'{nm}_at!{i}', I, I), F(f'{nm}_ix!{i}', I, I))


class DirsV(Ext):
    """the states entered from q, by direction"""
    def __init__(self, X, q):
        self.q, self.lists = q, [new_states(X, 'left'), new_states(X, 'right')]

    def getitem(self, X, k):
        return self.lists[1 if X.truth(SB(zbool(deref(k)))) else 0]

    def rm_get(self, X, k):
        return Some(self.getitem(X, k))

    def contains_next(self, X, c):
        """every instruction of q in its list"""
        q = self.q
        for d in (0, 1):
            X.assume(z3.Implies(z3.And(DFN(q, c), SH(q, c) == z3.BoolVal(bool(d))), self.lists[d].member(TO(q, c))))


class BranchesV(Ext):
    """state -> (the other states entered from it, those entered by direction)"""
    def getitem(self, X, q):
        q = zint(deref(q))
        if not X.branch(z3.And(q >= 0, q < NS)):
            raise PyRaise(Panic, ())
        g = X.ghost
        diff, dirs = new_states(X, 'diff'), DirsV(X, q)
        diff.q = q
        c = g['sc']
        slot_facts(X, q, c)
        dirs.contains_next(X, c)
        X.assume(z3.Implies(z3.And(DFN(q, c), TO(q, c) != q), diff.member(TO(q, c))))
        return (diff, dirs)

    def rm_get(self, X, q):
        return Some(self.getitem(X, q))


class HaltsV(Ext):
    """HashSet<State>: the states with an undefined slot"""
    def __init__(self, X):
        i = next(X.fresh_n)
        self.n, self.at, self.ix = X.fresh('halts'), F(f'halts!{i}', I, I), F(f'halt_ix!{i}', I, I)
        X.assume(self.n >= 0)

    def item(self, X, k):
        q = self.at(k)
        X.assume(z3.Implies(z3.And(k >= 0, k < self.n), z3.And(HALT(q), self.ix(q) == k)))
        return SI(q)

    def within(self, X, q, n):
        """whether q is among the first n"""
        X.assume(HALT(q) == z3.And(self.ix(q) >= 0, self.ix(q) < self.n, self.at(self.ix(q)) == q))
        return z3.And(HALT(q), self.ix(q) < n)

    def loop_iter(self, X):
        return self.as_seq(X).loop_iter(X)

    def as_seq(self, X):
        s = SeqV(self.n, self.item, 'gen', label='halting states')
        s.halts = self
        return s
    rm_iter = rm_into_iter = as_seq

    def rm_contains(self, X, q):
        return SB(HALT(zint(deref(q))))

    def rm_len(self, X):
        return SI(self.n)

    def rm_is_empty(self, X):
        return SB(self.n == 0)


def analyzed(X):
    return Obj(scls(X, 'AnalyzedProg'), dict(prog=ProgS(), halts=HaltsV(X), branches=BranchesV()))


# ---- contracts
def any_pair(X):
    """any configuration: seen, it stays so"""
    g = X.ghost
    g['gs2'], g['gt2'] = X.fresh('gs2'), X.fresh('gt2', TP)
    tape_facts(X, g['gt2'])


def any_kept(X, a, b):
    gs, gt = X.ghost['gs2'], X.ghost['gt2']
    X.prove('seen-kept-any', z3.Implies(a.seen(gs, gt), b.seen(gs, gt)))


def watched_kept(X, a, b):
    """any_kept of the configurations handled() of the tracked one speaks of"""
    g = X.ghost
    eq, et = ENDQ(g['xq'], g['xt']), ENDT(g['xq'], g['xt'])
    nq = TO(eq, g['sc'])
    for q, tp in ((nq, et), (nq, STEPIN(et, SH(eq, g['sc'])))):
        tape_facts(X, tp)
        X.assume(z3.Implies(a.seen(q, tp), b.seen(q, tp)))


class CheckDepth(Contract):
    """some answer, from &self"""
    key = f'{RS}:Configs.check_depth'
    verify = False

    def apply(self, X, args, kw):
        return SB(X.fresh('too_many', 'bool'))


class ConfigsNew(Contract):
    """nothing seen or listed; the states watched are those that can halt"""
    key = f'{RS}:Configs.new'
    total = True

    def setup(self, X):
        new_ghosts(X)
        return [SI(SEG), HaltsV(X)]

    def post(self, X, args, res):
        o = configs_of(X, res)
        s = State(o)
        X.prove('window', zint(deref(o.attrs['seg'])) == SEG)
        X.prove('nothing-listed', z3.And(z3.Not(s.has), s.n == 0))
        X.prove('nothing-seen', z3.Not(s.x(X)))
        X.prove('nothing-reached', z3.Select(s.len['reached'], X.ghost['h']) == 0)
        X.prove('halting-states-watched', s.keyed(X, X.ghost['h']))

    def apply(self, X, args, kw):
        X.prove('new.window', z3.And(zint(deref(args[0])) == SEG, SEG >= 4))
        if not isinstance(deref(args[1]), HaltsV):
            raise Untranslatable('halting states')
        o = new_configs(X, False)
        o.attrs['reached'].has = X.fresh('watched', z3.ArraySort(I, B))
        X.assume(z3.And(State(o).keyed(X, X.ghost['h']), State(o).keyed(X, ENDQ(X.ghost['xq'], X.ghost['xt']))))
        return o


class Next(Contract):
    """a start of a run not yet taken, or one that is listed; none: every start was taken and nothing is listed"""
    key = f'{RS}:Configs.next'
    total = True

    def setup(self, X):
        o = new_configs(X)
        X.ghost['before'] = State(o)
        any_pair(X)
        return [o]

    def post(self, X, args, res):
        a, o = X.ghost['before'], configs_of(X, args[0])
        b = State(o)
        instantiate(X, X.ghost['p0'])
        X.prove('reached-kept', b.same(a, ('reached',)))
        any_kept(X, a, b)
        if is_none(X, res):
            X.prove('all-starts-taken', b.mem('blanks', ZERO, X.ghost['p0']))
            X.prove('nothing-listed', z3.Not(b.has))
            for n, f in grown(X, a, b):
                X.prove(n, f)
            return
        q, tp, init = parts(X, inner(X, res))
        X.prove('valid', valid(q, tp, init))
        for n, f in grown(X, a, b, is_x(X, q, tp)):
            X.prove(n, f)

    def apply(self, X, args, kw):
        o = configs_of(X, args[0])
        a = State(o)
        if X.choose(2, 'next') == 0:
            havoc_configs(X, o, ('blanks', 'todo', 'seen'))
            b = State(o)
            for n, f in grown(X, a, b):
                X.assume(f)
            watched_kept(X, a, b)
            X.assume(z3.And(b.mem('blanks', ZERO, X.ghost['p0']), z3.Not(b.has)))
            return None
        havoc_configs(X, o, ('blanks', 'todo', 'seen'))
        q, tp, init = X.fresh('state'), X.fresh('tape', TP), X.fresh('init', 'bool')
        c = config(X, q, tp, init)
        X.assume(valid(q, tp, init))
        for n, f in grown(X, a, State(o), is_x(X, q, tp)):
            X.assume(f)
        watched_kept(X, a, State(o))
        return Some(c)


class WatchLoop(LoopSpec):
    """the first halting states are watched, with nothing reached"""
    name = 'watch'

    def applies(self, X, node, fr, it):
        return isinstance(X.contract, ConfigsNew) and isinstance(self.halts(it), HaltsV)

    def halts(self, it):
        it = deref(it)
        return getattr(it, 'halts', it)

    def pre(self, X, L):
        new_ghosts(X)
        adopt_locals(L, Dct, lambda: Sets(X, I))
        L.halts = self.halts(L.iterable)
        L.maps = []
        f = L.fr
        while f is not None:
            L.maps += [v for v in map(deref, f.vars.values()) if isinstance(v, Sets)]
            f = f.parent
        if len(L.maps) != 1:
            raise Untranslatable('maps')

    def havoc(self, X, L, names):
        super().havoc(X, L, names)
        new = Sets.any(X, I)
        L.maps[0].m, L.maps[0].n, L.maps[0].has = new.m, new.n, new.has

    def inv(self, X, L):
        h, d = X.ghost['h'], L.maps[0]
        return [('watched', z3.Select(d.has, h) == L.halts.within(X, h, L.idx)), ('nothing-reached', z3.Select(d.n, h) == 0)]

    def inv_assume(self, X, L):
        L.halts.item(X, L.idx)
        return []

    def on_exit(self, X, L):
        L.halts.within(X, X.ghost['h'], L.halts.n)


class StartLoop(LoopSpec):
    """the starts before idx are taken; nothing else is seen"""
    name = 'starts'

    def applies(self, X, node, fr, it):
        return isinstance(X.contract, Next) and isinstance(deref(it), RangeV)

    def pre(self, X, L):
        L.o = frames(L, 'Configs')[0]
        L.lo, L.at = zint(L.iterable.lo), State(L.o)

    def havoc(self, X, L, names):
        super().havoc(X, L, names)
        new, d = Sets.any(X, I), L.o.attrs['blanks']
        d.m, d.n, d.has = new.m, new.n, new.has

    def inv(self, X, L):
        b, p0 = State(L.o), X.ghost['p0']
        return [('nothing-else', b.same(L.at, SORTS)), ('taken', z3.Implies(z3.And(p0 >= L.lo, p0 < L.lo + L.idx), b.mem('blanks', ZERO, p0)))]


class Branch(Contract):
    total = True

    def succ(self, X, args):
        """the list of states gone over, and the tape they are entered on"""

    def post(self, X, args, res):
        a, b = X.ghost['before'], State(configs_of(X, args[0]))
        X.prove('reached-kept', b.same(a, ('reached',)))
        X.prove('successor-seen', b.seen(X.ghost['gs'], X.ghost['gt']))
        for n, f in grown(X, a, b):
            X.prove(n, f)
        any_kept(X, a, b)

    def ghosts(self, X, lst, tp):
        """gs: any state of the list"""
        g = X.ghost
        g['gs'], g['gt'] = X.fresh('gs'), tp
        any_pair(X)
        tape_facts(X, tp)
        g['list'] = lst
        X.assume(lst.member(g['gs']))

    def effect(self, X, o):
        a = State(o)
        havoc_configs(X, o, ('blanks', 'todo', 'seen'))
        b = State(o)
        for n, f in grown(X, a, b):
            X.assume(f)
        watched_kept(X, a, b)
        return b


class BranchIn(Branch):
    """every state entered on the way into the window is seen, on the outermost cell"""
    key = f'{RS}:Configs.branch_in'

    def setup(self, X):
        o = new_configs(X)
        tp, q = X.fresh('tape', TP), X.fresh('q')
        t = TapeV(X, tp)
        X.assume(z3.Not(INS(tp)))
        d = DirsV(X, q)
        right = X.branch(z3.Not(SIDE(tp)))
        self.ghosts(X, d.lists[1 if right else 0], STEPIN(tp, z3.BoolVal(right)))
        X.ghost['before'] = State(o)
        return [o, t, d]

    def apply(self, X, args, kw):
        o, t, d = configs_of(X, args[0]), args[1], deref(args[2])
        tp = tp_of(t)
        X.prove('branch_in.outside', z3.Not(INS(tp)))
        if not isinstance(d, DirsV):
            raise Untranslatable('branch_in')
        b = self.effect(X, o)
        sh = z3.Not(SIDE(tp))
        gs = TO(d.q, X.ghost['sc'])
        for k in (0, 1):
            s = STEPIN(tp, z3.BoolVal(bool(k)))
            tape_facts(X, s)
            X.assume(z3.Implies(z3.And(sh == z3.BoolVal(bool(k)), d.lists[k].member(gs)), b.seen(gs, s)))


class BranchOut(Branch):
    """every state of the list is seen, on the same tape"""
    key = f'{RS}:Configs.branch_out'

    def setup(self, X):
        o = new_configs(X)
        q, tp, init = X.fresh('q'), X.fresh('tape', TP), X.fresh('init', 'bool')
        tape_facts(X, tp)
        X.assume(z3.Not(INS(tp)))
        c = config(X, q, tp, init)
        d = new_states(X, 'diff')
        self.ghosts(X, d, tp)
        X.ghost['before'] = State(o)
        return [o, c, d]

    def apply(self, X, args, kw):
        o, (q, tp, init), d = configs_of(X, args[0]), parts(X, args[1]), deref(args[2])
        if not isinstance(d, States):
            raise Untranslatable('branch_out')
        X.prove('branch_out.outside', z3.Not(INS(tp)))
        b = self.effect(X, o)
        gs = TO(getattr(d, 'q', q), X.ghost['sc'])
        X.assume(z3.Implies(d.member(gs), b.seen(gs, tp)))


class SuccLoop(LoopSpec):
    """the states of the list, one after the other"""
    name = 'successors'

    def applies(self, X, node, fr, it):
        return isinstance(X.contract, Branch) and isinstance(node, ast.For) and isinstance(self.lst(X, it), States)

    def lst(self, X, it):
        it = deref(it)
        return getattr(it, 'states', it)

    def pre(self, X, L):
        L.lst = self.lst(X, L.iterable)
        if L.lst.ix is not X.ghost['list'].ix:
            raise Untranslatable('another list')
        L.o = next(v for v in frames(L, 'Configs'))

    def havoc(self, X, L, names):
        super().havoc(X, L, names)
        havoc_configs(X, L.o, ('blanks', 'todo', 'seen'))

    def modifies(self, X, L):
        return [L.o] + frames(L, 'Config')

    def inv(self, X, L):
        g = X.ghost
        a, b = g['before'], State(L.o)
        i = L.lst.ix(g['gs'])
        return [('seen-so-far', z3.Implies(i < L.idx, b.seen(g['gs'], g['gt']))),
                ('seen-kept-any', z3.Implies(a.seen(g['gs2'], g['gt2']), b.seen(g['gs2'], g['gt2'])))] + grown(X, a, b)


def frames(L, cls):
    """objects of a class held by locals"""
    out, f = [], L.fr
    while f is not None:
        for v in f.vars.values():
            v = deref(v)
            if isinstance(v, Obj) and v.cls.name == cls and not any(v is o for o in out):
                out.append(v)
        f = f.parent
    return out


class RunToEdge(Contract):
    """None: the configuration is where the run leaves the window; Halted: where it meets an undefined slot; Repeat: the run goes on
    inside for ever, or (of a start) the run from the blank tape never halts; Spinout: the run from the blank tape never halts.
    What is newly seen is on this run."""
    key = f'{RS}:Config.run_to_edge'
    total = True

    def setup(self, X):
        o = new_configs(X)
        g = X.ghost
        q, tp, init = X.fresh('q'), X.fresh('tape', TP), X.fresh('init', 'bool')
        c = config(X, q, tp, init)
        X.assume(valid(q, tp, init))
        unfold(X, q, tp)
        g.update(before=State(o), q0=q, t0=tp)
        any_pair(X)
        return [c, ProgS(), o]

    @staticmethod
    def like(q, tp, q0, t0):
        """they end alike"""
        return z3.And(INF(q, tp) == INF(q0, t0), ENDQ(q, tp) == ENDQ(q0, t0), ENDT(q, tp) == ENDT(q0, t0))

    @classmethod
    def frame(cls, X, a, b, q0, t0):
        g = X.ghost
        return [('seen-kept', z3.Implies(a.x(X), b.x(X))), ('seen-on-this-run', z3.Implies(b.x(X), z3.Or(a.x(X), cls.like(g['xq'], g['xt'], q0, t0))))]

    def post(self, X, args, res):
        g = X.ghost
        q, tp, init = parts(X, args[0])
        q0, t0 = g['q0'], g['t0']
        a, b = g['before'], State(configs_of(X, args[2]))
        unfold(X, q, tp)
        X.prove('rest-kept', z3.And(b.same(a, ('seen', 'reached')), z3.BoolVal(b.todo is a.todo), b.has == a.has))
        for n, f in self.frame(X, a, b, q0, t0):
            X.prove(n, f)
        any_kept(X, a, b)
        end = z3.And(z3.Not(INF(q0, t0)), q == ENDQ(q0, t0), tp == ENDT(q0, t0), q >= 0, q < NS)
        if is_none(X, res):
            X.prove('end-of-the-run', end)
            X.prove('left-the-window', z3.Not(INS(tp)))
            return
        r = result_name(X, inner(X, res))
        if r == 'Halted':
            X.prove('end-of-the-run', end)
            X.prove('undefined-slot', z3.And(INS(tp), z3.Not(DFN(q, COL(tp)))))
        elif r == 'Repeat':
            X.prove('never-halts', z3.Implies(init, NEVER))
            X.prove('goes-on-inside', z3.Implies(z3.Not(init), INF(q0, t0)))
        elif r == 'Spinout':
            X.prove('never-halts', NEVER)
        else:
            X.prove('answer', z3.BoolVal(False))

    def apply(self, X, args, kw):
        c, o = deref(args[0]), configs_of(X, args[2])
        q0, t0, init = parts(X, c)
        X.prove('run_to_edge.valid', valid(q0, t0, init))
        unfold(X, q0, t0)
        a = State(o)
        havoc_configs(X, o, ('blanks',))
        b = State(o)
        for n, f in self.frame(X, a, b, q0, t0):
            X.assume(f)
        watched_kept(X, a, b)
        r = ('None', 'Halted', 'Repeat', 'Spinout')[X.choose(4, 'run_to_edge')]
        i2 = X.fresh('init', 'bool')
        if r in ('None', 'Halted'):
            q, tp = ENDQ(q0, t0), ENDT(q0, t0)
            X.assume(z3.And(z3.Not(INF(q0, t0)), q >= 0, q < NS))
        else:
            q, tp = X.fresh('q'), X.fresh('tape', TP)
        c.attrs.update(state=SI(q), init=SB(i2))
        X.getattr(c, 'tape').set(X, tp)
        if r == 'None':
            X.assume(z3.Not(INS(tp)))
            return None
        if r == 'Halted':
            X.assume(z3.And(INS(tp), z3.Not(DFN(q, COL(tp)))))
        elif r == 'Repeat':
            X.assume(z3.If(i2, NEVER, INF(q0, t0)))
        else:
            X.assume(NEVER)
        return Some(X.getattr(scls(X, 'SearchResult'), r))


def result_name(X, v):
    v = deref(v)
    if isinstance(v, Obj) and v.cls.name.startswith('SearchResult__'):
        return v.cls.name.split('__')[1]
    raise Untranslatable(f'search result {v!r}')


class RunLoop(LoopSpec):
    """the configuration runs on; a copy follows behind"""
    name = 'run'

    def applies(self, X, node, fr, it):
        return isinstance(X.contract, RunToEdge) and isinstance(node, (ast.While, ast.For))

    def pre(self, X, L):
        g = X.ghost
        L.o = frames(L, 'Configs')[0]
        cs = frames(L, 'Config')
        L.me = deref(X.lookup('self', L.fr))
        L.copies = [c for c in cs if c is not L.me]
        L.flags = {}
        f = L.fr
        for n in X.assigned_names(L.node):
            if X.has_local(n, L.fr):
                v = deref(X.lookup(n, L.fr))
                if isinstance(v, bool):
                    L.flags[n] = v

    def havoc(self, X, L, names):
        super().havoc(X, L, [n for n in names if n not in L.flags])
        havoc_configs(X, L.o, ('blanks',))
        for c in [L.me] + L.copies:
            c.attrs.update(state=SI(X.fresh('q')), init=SB(X.fresh('init', 'bool')))
            c.attrs['tape'] = TapeV(X, X.fresh('tape', TP))
        for n in L.flags:
            self.havoc_local(X, L, n)

    def havoc_local(self, X, L, n):
        if n in L.flags:
            X.assign_name(n, SB(X.fresh(n, 'bool')), L.fr)

    def modifies(self, X, L):
        return [L.o, L.me] + L.copies

    def inv(self, X, L):
        g = X.ghost
        q0, t0 = g['q0'], g['t0']
        q, tp, init = parts(X, L.me)
        a, b = g['before'], State(L.o)
        like = RunToEdge.like
        out = [('on-the-run', like(q, tp, q0, t0)), ('state', z3.And(q >= 0, q < NS)), ('run-from-the-blank-tape', z3.Implies(init, RL(q, tp))),
               ('seen-kept-any', z3.Implies(a.seen(g['gs2'], g['gt2']), b.seen(g['gs2'], g['gt2'])))]
        out += RunToEdge.frame(X, a, b, q0, t0)
        for c in L.copies:
            cq, ct, _ = parts(X, c)
            ahead = [z3.BoolVal(False)] + [zbool(deref(X.lookup(n, L.fr))) != z3.BoolVal(v) for n, v in L.flags.items()]
            out += [('copy-on-the-run', like(cq, ct, q0, t0)), ('copy-behind', z3.Implies(z3.Not(INF(q0, t0)), z3.And(
                LEN(cq, ct) >= LEN(q, tp), z3.Implies(z3.Or(ahead), LEN(cq, ct) > LEN(q, tp)))))]
        return out

    def inv_assume(self, X, L):
        for c in [L.me] + L.copies:
            q, tp, _ = parts(X, c)
            unfold(X, q, tp)
            unfold(X, *nxt(q, tp))
        return []


class Search(LoopSpec):
    """every configuration seen is listed or handled; no halting state was reached everywhere"""
    name = 'search'

    def applies(self, X, node, fr, it):
        return isinstance(X.contract, AllSegments) and isinstance(node, ast.While)

    def pre(self, X, L):
        o = frames(L, 'Configs')
        if len(o) != 1:
            raise Untranslatable('Configs')
        L.o = adopt(X, o[0])
        X.ghost['configs'] = L.o

    def havoc(self, X, L, names):
        super().havoc(X, L, names)
        havoc_configs(X, L.o)

    def modifies(self, X, L):
        return [L.o]

    def inv(self, X, L):
        s, g = State(L.o), X.ghost
        return [('seen-listed-or-handled', z3.Implies(s.x(X), z3.Or(s.has, s.handled(X)))), ('not-reached-everywhere', s.small(X)),
                ('watched', z3.And(s.keyed(X, g['h']), s.keyed(X, ENDQ(g['xq'], g['xt']))))]

    def on_break(self, X, L):
        pass


class AllSegments(Contract):
    """no answer: all that is seen is handled, all starts are, and no halting state was reached everywhere, hence the program never
    halts; Repeat, Spinout: the program never halts"""
    key = f'{RS}:all_segments_reached'
    total = True

    def setup(self, X):
        new_ghosts(X)
        return [analyzed(X), SI(SEG)]

    def post(self, X, args, res):
        g = X.ghost
        if is_none(X, res):
            X.prove('searched', z3.BoolVal('configs' in g))
            s = State(g['configs'])
            X.prove('seen-is-handled', z3.Implies(s.x(X), s.handled(X)))
            X.prove('starts-seen', s.mem('blanks', ZERO, g['p0']))
            X.prove('not-reached-everywhere', s.small(X))
        elif result_name(X, inner(X, res)) in ('Repeat', 'Spinout'):
            X.prove('never-halts', NEVER)

    def apply(self, X, args, kw):
        a, seg = deref(args[0]), zint(deref(args[1]))
        X.prove('all_segments_reached.window', seg >= 4)
        if not isinstance(a, Obj) or a.cls.name != 'AnalyzedProg':
            raise Untranslatable('program')
        r = ('None', 'Limit', 'Halted', 'Repeat', 'Spinout', 'Reached')[X.choose(6, 'all_segments_reached')]
        if r in ('None', 'Repeat', 'Spinout'):
            X.assume(NEVER)
        return None if r == 'None' else Some(X.getattr(scls(X, 'SearchResult'), r))


# ---- the program, analysed
class MemSet(Ext):
    """a set of states, or what is listed of one"""
    def __init__(self, m=None):
        self.m = z3.K(I, z3.BoolVal(False)) if m is None else m

    def mem(self, v):
        return z3.Select(self.m, v)

    def rm_insert(self, X, v):
        v = zint(deref(v))
        old = self.mem(v)
        self.m = z3.Store(self.m, v, z3.BoolVal(True))
        X.heap_writes += 1
        return SB(z3.Not(old))
    rm_push = rm_insert

    def rm_contains(self, X, v):
        return SB(self.mem(zint(deref(v))))

    def rm_clone(self, X):
        return MemSet(self.m)
    rm_iter = rm_into_iter = rm_copied = rm_cloned = rm_drain = rm_clone

    def rm_collect(self, X, kind):
        return MemSet(self.m)

    def rm_sort_unstable(self, X):
        return None
    rm_sort = rm_dedup = rm_reverse = rm_shrink_to_fit = rm_sort_unstable


def memset(X, v):
    v = deref(v)
    if empty(v):
        return MemSet()
    if isinstance(v, MemSet):
        return v
    if isinstance(v, (Lst, SetV)) and getattr(v, 'tail', None) is None:
        s = MemSet()
        for x in v.items if isinstance(v, Lst) else v.s:
            s.rm_insert(X, x)
        return s
    raise Untranslatable(f'set of states {v!r}')


class BranchMap(Ext):
    """the entry of the tracked state"""
    def __init__(self):
        self.has, self.sets = z3.BoolVal(False), [MemSet().m] * 3

    def rm_insert(self, X, q, v):
        q, (diff, dirs) = zint(deref(q)), deref(v)
        dirs = deref(dirs)
        if not isinstance(dirs, Dct) or set(dirs.d) != {False, True}:
            raise Untranslatable('directions')
        here = q == X.ghost['gs']
        new = [memset(X, x).m for x in (diff, dirs.d[False], dirs.d[True])]
        self.has = z3.Or(self.has, here)
        self.sets = [z3.If(here, a, b) for a, b in zip(new, self.sets)]
        X.heap_writes += 1
        return None


class AnalyzedNew(Contract):
    """every state with an undefined slot halts; every state entered is in the list of its direction, and if another, of the others;
    only states are listed"""
    key = f'{RS}:AnalyzedProg.new'
    total = True

    def setup(self, X):
        new_ghosts(X)
        g = X.ghost
        g['gs'], g['gv'] = X.fresh('gs'), X.fresh('gv')
        X.assume(z3.And(g['gs'] >= 0, g['gs'] < NS))
        slot_facts(X, g['gs'], g['sc'])
        return [ProgS(), (SI(NS), SI(NC))]

    @staticmethod
    def says(X, q, c, diff, lefts, rights):
        d, to = DFN(q, c), TO(q, c)
        return z3.And(z3.Implies(z3.And(d, to != q), z3.Select(diff, to)), z3.Implies(z3.And(d, SH(q, c)), z3.Select(rights, to)),
                      z3.Implies(z3.And(d, z3.Not(SH(q, c))), z3.Select(lefts, to)))

    @staticmethod
    def states(X, sets):
        v = X.ghost['gv']
        return z3.And([z3.Implies(z3.Select(m, v), z3.And(v >= 0, v < NS)) for m in sets])

    def post(self, X, args, res):
        g = X.ghost
        a = deref(res).attrs
        b, q, c = deref(a['branches']), g['gs'], g['sc']
        X.prove('the-program', z3.BoolVal(isinstance(deref(a['prog']), ProgS)))
        X.prove('analysed', z3.BoolVal(isinstance(b, BranchMap)))
        X.prove('halting-states', z3.Implies(z3.Not(DFN(q, c)), memset(X, a['halts']).mem(q)))
        X.prove('every-state', b.has)
        X.prove('successors', self.says(X, q, c, *b.sets))
        X.prove('states-only', self.states(X, b.sets))

    def apply(self, X, args, kw):
        p, (s, c) = deref(args[0]), deref(args[1])
        if not isinstance(p, ProgS):
            raise Untranslatable('program')
        X.prove('new.states-and-colours', z3.And(zint(deref(s)) == NS, zint(deref(c)) == NC))
        return analyzed(X)


def sets_of(L):
    """the sets the locals hold"""
    out, f = [], L.fr
    while f is not None:
        for n, v in f.vars.items():
            if isinstance(deref(v), MemSet):
                out.append((n, deref(v)))
        f = f.parent
    return out


def adopt_locals(L, what, new):
    f = L.fr
    while f is not None:
        for n, v in list(f.vars.items()):
            v = deref(v)
            if isinstance(v, what) and empty(v):
                f.vars[n] = new()
        f = f.parent


class StateLoop(LoopSpec):
    """the states below idx are analysed"""
    name = 'states'

    def applies(self, X, node, fr, it):
        return isinstance(X.contract, AnalyzedNew) and 'state' not in X.ghost and isinstance(deref(it), RangeV)

    def pre(self, X, L):
        adopt_locals(L, SetV, MemSet)
        adopt_locals(L, Dct, BranchMap)
        L.lo = zint(L.iterable.lo)
        L.maps = []
        f = L.fr
        while f is not None:
            L.maps += [v for v in map(deref, f.vars.values()) if isinstance(v, BranchMap)]
            f = f.parent
        L.sets = sets_of(L)
        if len(L.maps) != 1 or len(L.sets) != 1:
            raise Untranslatable('maps and sets')
        L.map, L.halts = L.maps[0], L.sets[0][1]

    def havoc(self, X, L, names):
        super().havoc(X, L, names)
        A = z3.ArraySort(I, B)
        L.halts.m, L.map.has, L.map.sets = X.fresh('halts', A), X.fresh('has', 'bool'), [X.fresh('set', A) for _ in range(3)]

    def inv(self, X, L):
        g = X.ghost
        q, c = g['gs'], g['sc']
        done = q < L.lo + L.idx
        return [('every-state', z3.Implies(done, L.map.has)), ('halting-states', z3.Implies(z3.And(done, z3.Not(DFN(q, c))), L.halts.mem(q))),
                ('successors', z3.Implies(done, AnalyzedNew.says(X, q, c, *L.map.sets))),
                ('states-only', AnalyzedNew.states(X, L.map.sets))]

    def inv_assume(self, X, L):
        X.ghost.update(state=L.lo + L.idx, halts=L.halts)
        slot_facts(X, X.ghost['state'], X.ghost['sc'])
        return []


class ColorLoop(LoopSpec):
    """the colours below idx of the state are analysed"""
    name = 'colours'
    ROLES = ('diff', 'lefts', 'rights')

    def applies(self, X, node, fr, it):
        return isinstance(X.contract, AnalyzedNew) and 'state' in X.ghost and isinstance(deref(it), RangeV)

    def pre(self, X, L):
        adopt_locals(L, (SetV, Lst), MemSet)
        L.lo = zint(L.iterable.lo)
        L.all = sets_of(L)
        sets = [(n, s) for n, s in L.all if s is not X.ghost['halts']]
        if len(sets) != 3 or not any(s is X.ghost['halts'] for _, s in L.all):
            raise Untranslatable('sets')
        by = {n.split('$')[0]: s for n, s in sets}
        if set(by) == set(self.ROLES):
            L.sets = [by[r] for r in self.ROLES]
        else:
            L.sets = self.guess(sets)

    def guess(self, sets):
        out = [None] * 3
        for n, s in sets:
            k = 1 if 'l' == n[0] or 'left' in n else 2 if 'r' == n[0] or 'right' in n else 0
            if out[k] is not None:
                raise Untranslatable('sets')
            out[k] = s
        return out

    def havoc(self, X, L, names):
        super().havoc(X, L, names)
        for _, s in L.all:
            s.m = X.fresh('set', z3.ArraySort(I, B))

    def inv(self, X, L):
        g = X.ghost
        q, c = g['state'], g['sc']
        done = c < L.lo + L.idx
        h, gs = g['halts'], g['gs']
        return [('halting-state', z3.Implies(z3.And(done, z3.Not(DFN(q, c))), h.mem(q))),
                ('halting-states-kept', z3.Implies(z3.And(gs < q, z3.Not(DFN(gs, c))), h.mem(gs))),
                ('successors', z3.Implies(done, AnalyzedNew.says(X, q, c, *(s.m for s in L.sets)))),
                ('states-only', AnalyzedNew.states(X, [s.m for s in L.sets]))]


class SegLoop(LoopSpec):
    name = 'segments'

    def applies(self, X, node, fr, it):
        return isinstance(X.contract, SegmentCantHalt)

    def pre(self, X, L):
        L.up = {}
        for n, by in unit_steps(L.node).items():
            if by > 0 and X.has_local(n, L.fr):
                v = deref(X.lookup(n, L.fr))
                if isinstance(v, (int, SI)) and not isinstance(v, bool):
                    L.up[n] = zint(v)

    def havoc(self, X, L, names):
        super().havoc(X, L, [n for n in names if n not in L.up])
        for n in L.up:
            self.havoc_local(X, L, n)

    def havoc_local(self, X, L, n):
        if n in L.up:
            X.assign_name(n, SI(X.fresh(n)), L.fr)

    def inv(self, X, L):
        return [(f'{n}-counts-up', zint(deref(X.lookup(n, L.fr))) >= v) for n, v in L.up.items()]


class SegmentCantHalt(Contract):
    """an answer: the program never halts, started on the blank tape"""
    key = f'{RS}:segment_cant_halt'
    total = True

    def setup(self, X):
        new_ghosts(X)
        n = X.fresh('segs')
        X.assume(n >= 2)
        return [ProgS(), (SI(NS), SI(NC)), SI(n)]

    def post(self, X, args, res):
        if not is_none(X, res):
            X.prove('never-halts', NEVER)


def watch(X, seq):
    """a map from the halting states to nothing reached"""
    if X.branch(seq.n > 0):
        k = X.fresh('k')
        X.assume(z3.And(k >= 0, k < seq.n))
        q, v = (deref(x) for x in deref(seq.at(X, k)))
        if not empty(v) or seq.cond is not None:
            raise Untranslatable('states watched')
        src = seq
        while not hasattr(src, 'halts'):
            src = src.source
        X.prove('states-watched', zint(q) == src.halts.at(k))
    s = Sets(X, I, has=X.fresh('watched', z3.ArraySort(I, B)))
    X.assume(z3.Select(s.has, X.ghost['h']) == HALT(X.ghost['h']))
    return s


class SegDomain(RDomain, SeqDomain):
    def generic(self, X, name):
        raise Untranslatable(f'generic {name}')

    def repeated(self, X, v, n):
        v, n = zint(deref(v)), zint(deref(n))
        return Cells(z3.If(n >= 0, n, 0), lambda k: v)

    def collect(self, X, seq, kind):
        if str(seq.label).endswith('halting states') and kind in ('BTreeMap', 'HashMap'):
            return watch(X, seq)
        raise Untranslatable(f'collect of unknown size into {kind}')


TAPE = [TInit(), TBlank(), TAtEdge(), TPos(), TSide(), TStepIn(), TStep()]
LOOPS = (StateLoop(), ColorLoop(), WatchLoop(), StartLoop(), SuccLoop(), RunLoop(), Search(), SegLoop())


def contracts(world):
    cs = TAPE + [CheckDepth(), ConfigsNew(), Next(), BranchIn(), BranchOut(), RunToEdge(), AnalyzedNew(), AllSegments(), SegmentCantHalt()]
    return {c.key: c for c in cs}
