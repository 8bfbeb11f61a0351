"""Contracts of quick_term_or_rec (src/machine.rs) and of the alignment of tapes it rests on (src/tape.rs: HeadTape, Alignment).

A tape with a head position gives every position of the integers a colour.  Two configurations in the same state, the second reached
from the first without leaving the positions lo..hi, and the second the first moved by some distance as far as lo..hi shows it:
the program goes on like this for ever.  That this is so is proved in lemmas.prove_quick; the contracts tie the code to it.

Cells are looked at through one arbitrary distance k0 from the head: what is proved holds for every k0."""
from __future__ import annotations
import ast
import z3
from .rtapespec import RT, RSpan, RTapeDomain, rcls as tcls
from .rrunspec import RM, ProgX, Given
from .runspec import HAS, WR, NX, SH
from .values import *
from .engine import Contract, Ext, SB, SI, LoopSpec, RangeV, zbool
from .rengine import deref, is_none, TraitV
from .seq import SeqV, as_seq, term

I, B = z3.IntSort(), z3.BoolSort()
H = z3.DeclareSort('HeadTape')
F = z3.Function
SCAN, HEAD, EDGE = F('head_scan', H, I), F('head_at', H, I), F('head_edge', H, B, B)
STEP = F('head_step', H, B, I, B, H)
H0 = z3.Const('stepped_once', H)
RUN = F('RUN', I, H, B)
SEG, SEG1 = F('SEG', I, H, I, H, I, I, B), F('SEG1', I, H, I, H, I, I, B)      # later; at least a step later
NEVER = z3.Const('never-undefined', B)


def kmin(a, b):
    return z3.If(a <= b, a, b)


def kmax(a, b):
    return z3.If(a >= b, a, b)


# ------------------------------------------------------------------ cells of a span, at distance k0
class QSpan(RSpan):
    """with the colour of the cell at distance k0 + 1 from the head, and sums of counts"""
    def __init__(self, X, side):
        super().__init__(X, side, 'BasicBlock')
        n = next(X.fresh_n)
        self.before = F(f'before_{self.name}!{n}', I, I)
        self.cell = X.fresh(f'cell_{self.name}')
        k0 = X.ghost['k0']
        X.assume(self.before(0) == 0)
        X.assume(z3.Implies(k0 >= self.before(self.n), self.cell == 0))
        X.ghost.setdefault('qspans', []).append(self)

    def wf(self, X, k):
        super().wf(X, k)
        k, k0 = term(k), X.ghost['k0']
        X.assume(z3.Implies(z3.And(k >= 0, k < self.n), z3.And(
            self.before(k + 1) == self.before(k) + z3.Select(self.cnt, k),
            z3.Implies(z3.And(self.before(k) <= k0, k0 < self.before(k + 1)), self.cell == self.col(k)))))


def span_of(X, v):
    v = deref(v)
    for s in X.ghost.get('qspans', ()):
        if v is s.obj or v is s.lst or v is s.seq:
            return s
    return None


def new_head(X):
    spans = [QSpan(X, 0), QSpan(X, 1)]
    scan, head = X.fresh('scan'), X.fresh('head')
    X.assume(scan >= 0)
    t = Obj(tcls(X, 'Tape'), dict(scan=SI(scan), lspan=spans[0].obj, rspan=spans[1].obj))
    h = Obj(tcls(X, 'HeadTape'), dict(head=SI(head), tape=t))
    h.ghost.update(spans=spans, scan=scan, head=head)
    return h


class Repeat(Ext):
    """n times a value"""
    def __init__(self, v, n):
        self.v, self.n = v, n


class Unrolled(Ext):
    """the cells of a span, one by one"""
    def __init__(self, span, n):
        self.span, self.n = span, n


class CellVec(Ext):
    """a vector of colours: its length, and the one at k0"""
    rust_value = True

    def __init__(self, X, n=None, e=None):
        self.n = z3.IntVal(0) if n is None else n
        self.e = X.fresh('at_k0') if e is None else e

    def add(self, X, color, m):
        k0 = X.ghost['k0']
        m = z3.If(m >= 0, m, 0)
        self.e = z3.If(z3.And(self.n <= k0, k0 < self.n + m), color, self.e)
        self.n = z3.simplify(self.n + m)
        X.heap_writes += 1

    def rm_extend(self, X, it):
        it = deref(it)
        if isinstance(it, Repeat):
            self.add(X, zint(it.v), term(it.n))
        elif isinstance(it, Unrolled):
            self.add(X, z3.If(self.n == 0, it.span.cell, X.fresh('other_cell')), it.n)
        elif isinstance(it, Lst) and it.tail is None:
            for v in it.items:
                self.add(X, zint(deref(v)), z3.IntVal(1))
        elif isinstance(it, SeqV) and str(it.label).startswith(('repeat', 'take repeat')):
            self.add(X, zint(it.at(X, z3.IntVal(0))), it.n)
        else:
            raise Untranslatable(f'extend by {it!r}')
    rm_append = rm_extend_from_slice = rm_extend

    def rm_push(self, X, v):
        self.add(X, zint(deref(v)), z3.IntVal(1))

    def rm_resize(self, X, n, v):
        n = zint(deref(n))
        X.prove('vector-not-cut', n >= self.n)
        self.add(X, zint(deref(v)), n - self.n)

    def rm_len(self, X):
        return SI(self.n)

    def rm_reserve(self, X, n):
        return None

    def compare(self, X, op, other, refl):
        other = deref(other)
        if op not in ('==', '!=') or not isinstance(other, CellVec):
            raise Untranslatable(f'vector {op}')
        b = X.fresh('same_cells', 'bool')
        X.assume(z3.Implies(b, z3.And(self.n == other.n, z3.Implies(X.ghost['k0'] < self.n, self.e == other.e))))
        return SB(b) if op == '==' else SB(z3.Not(b))


class QuickDomain(RTapeDomain):
    def generic(self, X, name):
        return tcls(X, 'BasicBlock')

    def repeated(self, X, v, n):
        return Repeat(deref(v), deref(n))

    def flat_map(self, X, s, f):
        span = next((q for q in X.ghost.get('qspans', ()) if s.label == q.seq.label and s.cond is None), None)
        if span is None:
            return None
        if not X.branch(span.n > 0):
            return Unrolled(span, z3.IntVal(0))
        k = X.fresh('k')
        X.assume(z3.And(k >= 0, k < span.n))
        r = deref(X.call(f, [s.at(X, k)], {}))
        if isinstance(r, Repeat):
            n, v = term(r.n), zint(r.v)
        elif isinstance(r, SeqV) and str(r.label).startswith(('repeat', 'take repeat')):
            n, v = r.n, zint(r.at(X, z3.IntVal(0)))
        else:
            return None
        X.prove('cells-of-a-block', z3.And(s.n == span.n, n == z3.Select(span.cnt, k), v == span.col(k)))
        total = X.fresh('cells')
        X.assume(z3.And(total >= 0, total == span.before(span.n)))
        return Unrolled(span, total)

    def extend(self, X, o, v):
        if isinstance(v, Unrolled) and o.tail is None and not o.items:
            o.tail = CellVec(X)
        if not isinstance(o.tail, CellVec):
            return NotImplemented
        o.tail.rm_extend(X, v)

    def equal(self, X, a, b):
        s, t = span_of(X, a), span_of(X, b)
        if s is None or t is None:
            return NotImplemented
        r = X.fresh('same_span', 'bool')
        X.assume(z3.Implies(r, z3.And(s.n == t.n, s.cell == t.cell)))
        return SB(r)


# ------------------------------------------------------------------ tape: slices and alignment
def near_far(X, h, ltr):
    l, r = h.ghost['spans']
    return (l, r) if ltr else (r, l)


class GetSlice(Contract):
    """the colours from the position up to the head's neighbour, the nearest first, blank where no block is; then the other side"""
    key = f'{RT}:HeadTape.get_slice'

    def setup(self, X):
        X.ghost['k0'] = X.fresh('k0')
        X.assume(X.ghost['k0'] >= 0)
        h = new_head(X)
        start, ltr = X.fresh('start'), bool(X.choose(2, 'ltr'))
        X.ghost['diff'] = h.ghost['head'] - start if ltr else start - h.ghost['head']
        X.ghost['near'], X.ghost['far'] = near_far(X, h, ltr)
        return [h, SI(start), ltr]

    def post(self, X, args, res):
        g = X.ghost
        v = deref(res)
        if isinstance(v, Lst) and v.tail is None and not v.items:
            v = CellVec(X)
        elif isinstance(v, Lst) and isinstance(v.tail, CellVec) and not v.items:
            v = v.tail
        X.prove('vector', isinstance(v, CellVec))
        X.prove('reaches-to-the-position', v.n >= g['diff'])
        X.prove('cell', z3.Implies(g['k0'] < g['diff'], v.e == g['near'].cell))

    def exc(self, X, args, e):
        X.prove(f'no-{e.name}', e.name == 'Panic')

    def apply(self, X, args, kw):
        h, start, ltr = map(deref, args)
        if not isinstance(h, Obj) or 'spans' not in h.ghost:
            raise Untranslatable('get_slice')
        ltr = X.truth(ltr)
        near, _ = near_far(X, h, ltr)
        diff = h.ghost['head'] - zint(start) if ltr else zint(start) - h.ghost['head']
        v = CellVec(X, X.fresh('length'))
        X.assume(z3.And(v.n >= 0, v.n >= diff, z3.Implies(X.ghost['k0'] < diff, v.e == near.cell)))
        return v


def vector(X, L):
    """the vector built, as a CellVec"""
    out, f = [], L.fr
    while f is not None:
        for n, v in list(f.vars.items()):
            d = deref(v)
            if isinstance(d, Lst) and d.tail is None and not d.items and not any(d is s.lst for s in X.ghost['qspans']):
                v = f.vars[n] = CellVec(X)
            if isinstance(deref(v), CellVec):
                out.append((f, n, deref(v)))
        f = f.parent
    if len({id(v) for _, _, v in out}) != 1:
        raise Untranslatable('the vector of a slice')
    return out


class SliceLoop(LoopSpec):
    """blocks of a span appended to the vector"""
    near = False

    def applies(self, X, node, fr, it):
        s = span_of(X, it.lst if isinstance(it, Ext) and hasattr(it, 'lst') else it)
        return X.target == GetSlice.key and isinstance(node, ast.For) and s is not None and s is X.ghost['near' if self.near else 'far']

    def pre(self, X, L):
        L.places = vector(X, L)
        L.vec = L.places[0][2]
        L.n0 = L.vec.n

    def havoc(self, X, L, names):
        super().havoc(X, L, names)
        L.vec = CellVec(X, X.fresh('length'))
        for f, n, _ in L.places:
            f.vars[n] = L.vec

    def step(self, X, L):
        X.prove('same-vector', all(deref(f.vars[n]) is L.vec for f, n, _ in L.places))


class NearLoop(SliceLoop):
    name, roles, near = 'near', ('remaining',), True

    def inv(self, X, L):
        g = X.ghost
        s = g['near']
        p = kmin(s.before(L.idx), g['diff'])
        return [('remaining', zint(L.get('remaining')) == g['diff'] - p), ('length', L.vec.n == p),
                ('cell', z3.Implies(g['k0'] < L.vec.n, L.vec.e == s.cell)), ('blocks', L.idx <= s.n)]


class FarLoop(SliceLoop):
    name, roles = 'far', ()

    def inv(self, X, L):
        g = X.ghost
        return [('length', L.vec.n >= g['diff']), ('cell', z3.Implies(g['k0'] < g['diff'], L.vec.e == g['near'].cell))]


class AlignsWith(Contract):
    """true only if this tape is the other one moved, everywhere on the side it came from up to the position reached"""
    key = f'{RT}:Alignment.aligns_with'

    def setup(self, X):
        X.ghost['k0'] = X.fresh('k0')
        X.assume(X.ghost['k0'] >= 0)
        h, p = new_head(X), new_head(X)
        lo, hi = X.fresh('leftmost'), X.fresh('rightmost')
        X.assume(z3.And(lo <= p.ghost['head'], p.ghost['head'] <= hi))
        return [h, p, SI(lo), SI(hi)]

    def post(self, X, args, res):
        h, p, lo, hi = args
        if not X.truth(res):
            return
        g = X.ghost
        diff = h.ghost['head'] - p.ghost['head']
        (hl, hr), (pl, pr) = h.ghost['spans'], p.ghost['spans']
        X.prove('scan', h.ghost['scan'] == p.ghost['scan'])
        X.prove('cells-to-the-right', z3.Implies(z3.Or(diff >= 0, g['k0'] < hi.e - p.ghost['head']), hr.cell == pr.cell))
        X.prove('cells-to-the-left', z3.Implies(z3.Or(diff <= 0, g['k0'] < p.ghost['head'] - lo.e), hl.cell == pl.cell))

    def exc(self, X, args, e):
        X.prove(f'no-{e.name}', e.name == 'Panic')


# ------------------------------------------------------------------ the search for a recurrence
class HTapeX(Ext):
    rust_value = True

    def __init__(self, t):
        self.t = t
        self.steps = 0

    def rust_class(self, X):
        return tcls(X, 'HeadTape')

    def rm_scan(self, X):
        return SI(SCAN(self.t))

    def rm_head(self, X):
        return SI(HEAD(self.t))

    def rm_clone(self, X):
        return HTapeX(self.t)

    def rm_at_edge(self, X, edge):
        return SB(EDGE(self.t, zbool(deref(edge))))

    def rm_step(self, X, shift, color, skip):
        args = zbool(deref(shift)), zint(deref(color)), zbool(deref(skip))
        self.t = STEP(self.t, *args)
        self.steps += 1
        X.heap_writes += 1
        n = X.fresh('stepped')
        X.assume(n >= 1)
        return SI(n)

    def rm_aligns_with(self, X, prev, lo, hi):
        prev, lo, hi = deref(prev), zint(deref(lo)), zint(deref(hi))
        if not isinstance(prev, HTapeX) or 'head' not in X.ghost:
            raise Untranslatable('aligns_with')
        X.prove('aligns.window', z3.And(lo <= HEAD(prev.t), HEAD(prev.t) <= hi))
        b = X.fresh('aligned', 'bool')
        s = segment(X, self.t, prev.t)
        if s is not None:
            q0, q, a, z = s
            X.assume(z3.Implies(z3.And(b, RUN(q0, prev.t), SEG1(q0, prev.t, q, self.t, a, z), q == q0, lo <= a, z <= hi), NEVER))
        return SB(b)


def segment(X, t, ref):
    """(state at ref, state at t, window) where t is a step after the head of the loop, and ref the reference then or the tape then"""
    q, t1, q0, t0, a, z = X.ghost['head']
    c = SCAN(t1)
    t2, x = STEP(t1, SH(q, c), WR(q, c), NX(q, c) == q), NX(q, c)
    if not X.prover_ok(t == t2):
        return None
    if z3.eq(ref, t0):
        return q0, x, kmin(a, HEAD(t2)), kmax(z, HEAD(t2))
    if z3.eq(ref, t1):
        return q, x, kmin(HEAD(t1), HEAD(t2)), kmax(HEAD(t1), HEAD(t2))
    return None


class QuickLoop(LoopSpec):
    """the machine runs on; the reference was met before, and all since happened between leftmost and rightmost"""
    name = 'cycle'
    roles = ('state', 'ref_state', 'leftmost', 'rightmost')

    def applies(self, X, node, fr, it):
        return isinstance(X.contract, Quick) and 'head' not in X.ghost and 'tape' in X.ghost and isinstance(node, ast.For)

    def pre(self, X, L):
        g = X.ghost
        L.tape = g['tape']
        L.refs = []
        f = L.fr
        while f is not None:
            L.refs += [(f, n) for n, v in f.vars.items() if isinstance(deref(v), HTapeX) and deref(v) is not L.tape]
            f = f.parent
        X.prove('one-reference', len(L.refs) == 1)
        L.before = {n: v for n, v in L.fr.vars.items() if isinstance(v, (int, SI))}
        L.win = HEAD(H0), HEAD(H0)
        X.assume(z3.And(RUN(1, H0), SEG(1, H0, 1, H0, *L.win)))
        L.facts = None

    def ref(self, L):
        f, n = L.refs[0]
        return deref(f.vars[n]).t

    def havoc(self, X, L, names):
        super().havoc(X, L, names)
        L.tape.t = X.fresh('tape', H)
        L.tape.steps = 0
        self.havoc_local(X, L, L.refs[0][1])
        L.win = X.fresh('from'), X.fresh('to')

    def havoc_local(self, X, L, n):
        """a counter: any number"""
        if n == L.refs[0][1]:
            L.refs[0][0].vars[n] = HTapeX(X.fresh('reference', H))
        elif n in L.before:
            X.assign_name(n, X.havoc_like(L.before[n], n), L.fr)

    def inv(self, X, L):
        q, q0, lo, hi = (zint(L.get(r)) for r in self.roles)
        t0 = self.ref(L)
        a, z = L.win
        if 'head' in X.ghost:
            s = segment(X, L.tape.t, t0)
            X.prove('cycle@step.reference', s is not None)
            r0, q1, a, z = s
            X.assume(z3.Implies(SEG1(r0, t0, q1, L.tape.t, a, z), SEG(r0, t0, q1, L.tape.t, a, z)))
        return [('configuration', RUN(q, L.tape.t)), ('reference', RUN(q0, t0)), ('since', SEG(q0, t0, q, L.tape.t, a, z)),
                ('window', z3.And(lo <= a, a <= HEAD(t0), HEAD(t0) <= z, z <= hi))]

    def inv_assume(self, X, L):
        g = X.ghost
        q, q0 = zint(L.get('state')), zint(L.get('ref_state'))
        t, t0 = L.tape.t, self.ref(L)
        a, z = L.win
        c = SCAN(t)
        w, sh, x = WR(q, c), SH(q, c), NX(q, c)
        same = x == q
        t2 = STEP(t, sh, w, same)
        spin = z3.And(same, EDGE(t, sh))
        go = z3.And(RUN(q, t), HAS(q, c), z3.Not(spin))
        h2 = HEAD(t2)
        for f in (z3.Implies(go, RUN(x, t2)),
                  z3.Implies(z3.And(go, SEG(q0, t0, q, t, a, z)), SEG1(q0, t0, x, t2, kmin(a, h2), kmax(z, h2))),
                  z3.Implies(go, SEG1(q, t, x, t2, kmin(HEAD(t), h2), kmax(HEAD(t), h2))),
                  z3.Implies(z3.And(RUN(q, t), HAS(q, c), spin), NEVER)):
            X.assume(f)
        g.update(head=(q, t, q0, t0, a, z), idx=L.idx)
        return []

    def step(self, X, L):
        X.prove('one-step', L.tape.steps == 1)

    def on_exit(self, X, L):
        X.ghost['ended'] = True

    def on_break(self, X, L):
        pass


class Quick(Contract):
    """true only if the program never meets an undefined slot, or meets one within the limit and this is what to say then"""
    key = f'{RM}:quick_term_or_rec'

    def setup(self, X):
        lim = X.fresh('sim_lim')
        X.assume(lim >= 0)
        X.ghost['sim_lim'] = lim
        return [ProgX(), SI(lim), SB(X.fresh('drop_halt', 'bool'))]

    def post(self, X, args, res):
        g = X.ghost
        r, drop = zbool(deref(res)), zbool(deref(args[2]))
        X.prove('searched', 'head' in g)
        q, t = g['head'][:2]
        und = z3.Not(HAS(q, SCAN(t)))
        if g.get('ended'):
            X.prove('limit', z3.And(z3.Not(r), z3.Or(g['idx'] == g['sim_lim'] - 1, z3.And(g['sim_lim'] <= 1, g['idx'] == 0))))
            return
        X.prove('undefined-slot', z3.Implies(und, r == drop))
        X.prove('never-undefined', z3.Implies(z3.And(z3.Not(und), r), NEVER))
        X.prove('not-given-up', z3.Implies(z3.Not(und), r))

    def exc(self, X, args, e):
        X.prove(f'no-{e.name}', e.name == 'Panic')


def init_stepped(X, args, kw):
    if 'tape' in X.ghost:
        raise Untranslatable('two runs')
    X.ghost['tape'] = HTapeX(H0)
    return X.ghost['tape']


LOOPS = (NearLoop(), FarLoop(), QuickLoop())


def contracts(world):
    cs = [GetSlice(), AlignsWith(), Quick(), Given(f'{RT}:HeadTape.init_stepped', init_stepped)]
    return {c.key: c for c in cs}
