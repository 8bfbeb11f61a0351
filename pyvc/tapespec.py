"""Contracts of tm/tape.py.

A tape is a scanned colour and two spans of blocks (colour, count), nearest first; its meaning is the colour of
every cell.  Precondition of the operations (an invariant of every tape a machine produces, re-proved by step):
counts are at least 1, neighbouring blocks differ in colour, the outermost block of a span is not blank."""
from __future__ import annotations
import z3
from .values import *
from .engine import Contract, Ext, SB, SI, PathEnd, zbool, LoopSpec
from .seq import SeqV, SeqTail, SymDict, SeqDomain, as_seq, instantiate, term

TAPE = 'tm/tape.py'
I, B = z3.IntSort(), z3.BoolSort()
CELL = [z3.Function('lcell', I, I, I), z3.Function('rcell', I, I, I)]     # (block offset, cell) -> colour


class Span:
    """an initial span: symbolic number of blocks, colours and counts"""
    def __init__(self, X, side):
        self.side, self.name = side, 'lr'[side]
        self.n = X.fresh(f'n{self.name}')
        self.col = z3.Function(f'col_{self.name}!{next(X.fresh_n)}', I, I)
        self.cnt = z3.Const(f'cnt_{self.name}!{next(X.fresh_n)}', z3.ArraySort(I, I))
        self.cnt0 = self.cnt
        self.objs = {}
        X.assume(self.n >= 0)
        self.seq = SeqV(self.n, self.item, 'list', label=f'{self.name}span')
        self.tail = SeqTail(self.seq)
        self.lst = Lst([], self.tail)

    def copy(self, X):
        s = Span(X, self.side)
        s.n, s.col, s.cnt, s.cnt0 = self.n, self.col, self.cnt, self.cnt
        s.seq.n = self.n
        return s

    def wf(self, X, k):
        """facts about block k: 0 <= k < n"""
        k = term(k)
        X.assume(z3.Implies(z3.And(k >= 0, k < self.n), z3.And(
            z3.Select(self.cnt, k) >= 1, self.col(k) >= 0,
            z3.Implies(k + 1 < self.n, self.col(k) != self.col(k + 1)),
            z3.Implies(k >= 1, self.col(k) != self.col(k - 1)),
            z3.Implies(k == self.n - 1, self.col(k) != 0))))

    def item(self, X, k):
        k = term(k)
        self.wf(X, k)
        if z3.is_int_value(k):
            i = k.as_long()
            if i not in self.objs:
                o = self.make(X, k)
                o.ghost['origin'] = (self.side, i)
                self.objs[i] = o
            return self.objs[i]
        return self.view(X, k)

    def make(self, X, k):
        return Obj(X.world.class_val(X.world.by_path(TAPE), 'Block'), dict(color=SI(self.col(k)), count=SI(z3.Select(self.cnt, k))))

    def view(self, X, k):
        return BlockView(self, k)

    def prefix(self):
        """blocks made explicit so far (original values), and the tail behind them (None: nothing left)"""
        t, i = self.tail, 0
        while t.decided:
            t = t.next
            i += 1
        return i, (None if t.decided is False else t)


class IdV(Ext):
    """id() of a block: of block number index of an initial span, or of another object"""
    def __init__(self, side, index, obj=None):
        self.side, self.index, self.obj = side, index, obj

    def compare(self, X, op, other, refl):
        if op not in ('==', '!='):
            raise Untranslatable('order of ids')
        if not isinstance(other, IdV) or self.side != other.side:
            r = z3.BoolVal(False)
        elif self.side is None:
            r = z3.BoolVal(self.obj is other.obj)
        else:
            r = self.index == other.index
        return SB(r if op == '==' else z3.Not(r))


class BlockView(Ext):
    """the block at a symbolic index"""
    def __init__(self, span, k):
        self.span, self.k = span, k

    def getattr(self, X, name):
        if name == 'count':
            return SI(z3.Select(self.span.cnt, self.k))
        if name == 'color':
            return SI(self.span.col(self.k))
        cv = X.world.class_val(X.world.by_path(TAPE), 'Block')
        _, m = cv.lookup(name)
        if isinstance(m, FuncVal):
            return BoundMethod(self, m)
        raise PyRaise(AttributeError, (name,))

    def setattr(self, X, name, v):
        if name != 'count':
            raise Untranslatable('colour of an arbitrary block changed')
        self.span.cnt = z3.Store(self.span.cnt, self.k, zint(v))

    def isinstance(self, X, cls):
        return getattr(cls, 'name', '') == 'Block'

    def identity(self, X):
        return IdV(self.span.side, self.k)

    def compare(self, X, op, other, refl):
        raise Untranslatable('comparison of blocks')


class TapeDomain(SeqDomain):
    def __init__(self):
        self.spans = []

    def reset(self, X):
        self.spans = []

    def identity(self, X, v):
        if isinstance(v, Obj):
            side, i = v.ghost.get('origin', (None, None))
            return IdV(side, None if i is None else z3.IntVal(i), v)
        return None

    def global_override(self, X, mod, name):
        return None

    def owns_class(self, X, cv):
        return False


def sp(X, t, name):
    """the list of blocks of one side (Rust: of the Span object)"""
    v = t.attrs[name] if name in t.attrs else X.getattr(t, name)
    return v.attrs['_0'] if isinstance(v, Obj) and '_0' in v.attrs else v


def cls(X, name):
    return X.world.class_val(X.world.by_path(TAPE), name)


def new_tape(X):
    mk = getattr(X.domain, 'new_tape', None)
    if mk is not None:
        return mk(X)
    sp = [Span(X, 0), Span(X, 1)]
    scan = X.fresh('scan')
    X.assume(scan >= 0)
    t = Obj(cls(X, 'Tape'), dict(lspan=sp[0].lst, scan=SI(scan), rspan=sp[1].lst))
    t.ghost['spans'] = sp
    t.ghost['scan'] = scan
    return t


def prefix_cell(blocks, rest, k):
    """colour of cell k of blocks [(colour, count)] followed by rest(k')"""
    acc = z3.IntVal(0)
    conds = []
    for c, n in blocks:
        conds.append((k < acc + n, c))
        acc = acc + n
    r = rest(k - acc)
    for cond, c in reversed(conds):
        r = z3.If(cond, c, r)
    return r


def tail_cells(span, off, left):
    if left is None:
        return lambda j: z3.IntVal(0)
    return lambda j: CELL[span.side](z3.IntVal(off), j)


def old_cells(span):
    n, left = span.prefix()
    blocks = [(span.col(i), z3.Select(span.cnt0, i)) for i in range(n)]
    rest = tail_cells(span, n, left)
    return lambda k: prefix_cell(blocks, rest, k)


def resolve(X, lst, spans):
    """explicit blocks of a list after the call, and (span, offset, live tail) behind them"""
    if not isinstance(lst, Lst):
        raise Untranslatable(f'span is {lst!r}')
    items, t = list(lst.items), lst.tail
    sp = None
    if t is not None:
        for s in spans:
            if t.seq is s.seq:
                sp = s
        if sp is None:
            raise Untranslatable('span with a foreign tail')
        while t.decided:
            items.append(t.item)
            t = t.next
        if t.decided is False:
            t = None
    return items, sp, (t.off if t is not None else 0), t


def new_cells(X, lst, spans):
    items, sp, off, t = resolve(X, lst, spans)
    blocks = [(zint(X.getattr(b, 'color')), zint(X.getattr(b, 'count'))) for b in items]
    rest = tail_cells(sp, off, t) if t is not None else (lambda j: z3.IntVal(0))
    return lambda k: prefix_cell(blocks, rest, k)


def prove_canonical(X, lst, spans, name):
    items, sp, off, t = resolve(X, lst, spans)
    cols = [zint(X.getattr(b, 'color')) for b in items]
    for b in items:
        X.prove(f'{name}:counts-positive', zint(X.getattr(b, 'count')) >= 1)
    for a, b in zip(cols, cols[1:]):
        X.prove(f'{name}:neighbours-differ', a != b)
    if t is None:
        if cols:
            X.prove(f'{name}:outermost-not-blank', cols[-1] != 0)
        return
    live = sp.n > off
    sp.wf(X, z3.IntVal(off))
    if cols:
        X.prove(f'{name}:neighbours-differ', z3.Implies(live, cols[-1] != sp.col(off)))
        X.prove(f'{name}:outermost-not-blank', z3.Implies(z3.Not(live), cols[-1] != 0))


def both(X, t, spans):
    l, r = sp(X, t, 'lspan'), sp(X, t, 'rspan')
    items = resolve(X, l, spans)[0] + resolve(X, r, spans)[0]
    tails = [x[3] for x in (resolve(X, l, spans), resolve(X, r, spans)) if x[3] is not None]
    X.prove('no-sharing', z3.BoolVal(len({id(b) for b in items}) == len(items) and len({id(x) for x in tails}) == len(tails)))
    return l, r


def unchanged(X, t):
    spans = t.ghost['spans']
    for nm, s in zip(('lspan', 'rspan'), spans):
        if sp(X, t, nm) is not s.lst or not z3.eq(s.cnt, s.cnt0):
            return False
        n, left = s.prefix()
        items, _, _, tail = resolve(X, s.lst, spans)
        if tail is not left or len(items) != n:
            return False
        for i, b in enumerate(items):
            if b is not s.objs.get(i) or not z3.eq(zint(b.attrs['color']), s.col(i)) or \
                    not z3.eq(zint(b.attrs['count']), z3.Select(s.cnt0, i)):
                return False
    return z3.eq(zint(t.attrs['scan']), t.ghost['scan'])


class Step(Contract):
    """cells [head, head + n) become colour, the head moves n cells; n = 1, or with skip the length of the run of the
    scanned colour in front of the head (the scanned cell included)"""
    key = f'{TAPE}:Tape.step'
    total = True

    def setup(self, X):
        t = new_tape(X)
        color = SI(X.fresh('color'))
        X.assume(color.e >= 0)
        return [t, SB(X.fresh('shift', 'bool')), color, SB(X.fresh('skip', 'bool'))]

    def apply(self, X, args, kw):
        """used once, on an unchanged tape, whose spans are not looked at again"""
        t, shift, color, skip = args if len(args) == 4 else [args[0]] + [
            args[i + 1] if i + 1 < len(args) else kw[n] for i, n in enumerate(('shift', 'color', 'skip'))]
        if 'stepped' in t.ghost:
            raise Untranslatable('two steps')
        if not unchanged(X, t):
            raise Untranslatable('step of a changed tape')
        X.prove('pre:step.color', zint(color) >= 0)
        t.ghost['stepped'] = (shift, color, skip)
        t.attrs['lspan'] = t.attrs['rspan'] = Opaque('span after the step')
        t.attrs['scan'] = SI(X.fresh('scan'))
        return SI(X.fresh('stepped'))

    def post(self, X, args, res):
        t, shift, color, skip = args
        spans, scan = t.ghost['spans'], t.ghost['scan']
        right = X.branch(zbool(shift))
        pull, push = (spans[1], spans[0]) if right else (spans[0], spans[1])
        for s in spans:
            if s.tail.decided is None:      # make the nearest block explicit
                s.tail.nonempty(X, Lst([], s.tail))
        l, r = both(X, t, spans)
        npull, npush = (r, l) if right else (l, r)
        run = z3.Select(pull.cnt0, 0) if pull.tail.decided else z3.IntVal(0)
        run = z3.If(z3.And(zbool(skip), pull.col(0) == scan) if pull.tail.decided else z3.BoolVal(False), run, 0)
        n = zint(res)
        X.prove('steps', n == 1 + run)
        k = X.fresh('cell')
        X.assume(k >= 0)
        opull, opush = old_cells(pull), old_cells(push)
        X.prove('scan', zint(X.getattr(t, 'scan')) == opull(n - 1))
        X.prove('written', z3.Implies(k < n, new_cells(X, npush, spans)(k) == color.e))
        X.prove('behind', new_cells(X, npush, spans)(n + k) == opush(k))
        X.prove('ahead', new_cells(X, npull, spans)(k) == opull(n + k))
        j = X.fresh('passed')
        X.assume(z3.And(j >= 0, j < n - 1))
        X.prove('passed-cells-alike', opull(j) == scan)
        X.facts.pop()
        prove_canonical(X, l, spans, 'left')
        prove_canonical(X, r, spans, 'right')


class Observe(Contract):
    total = True
    inline = True
    OUTSIDE = 'IndexError'

    def __init__(self, name):
        self.name = name
        self.key = f'{TAPE}:Tape.{name}'

    def setup(self, X):
        return [new_tape(X)]

    def frame(self, X, t):
        """nothing changed"""
        spans = t.ghost['spans']
        same = sp(X, t, 'lspan') is spans[0].lst and sp(X, t, 'rspan') is spans[1].lst \
            and all(z3.eq(s.cnt, s.cnt0) for s in spans)
        X.prove('tape-unchanged', z3.BoolVal(bool(same)))
        X.prove('scan-unchanged', zint(X.getattr(t, 'scan')) == t.ghost['scan'])


class Blank(Observe):
    def __init__(self):
        super().__init__('blank')

    def post(self, X, args, res):
        t, = args
        l, r = t.ghost['spans']
        want = z3.And(t.ghost['scan'] == 0, l.n == 0, r.n == 0)
        X.prove('blank-iff-no-mark', zbool(X.truth(res)) == want)
        self.frame(X, t)


class AtEdge(Observe):
    def __init__(self):
        super().__init__('at_edge')

    def setup(self, X):
        return [new_tape(X), SB(X.fresh('edge', 'bool'))]

    def post(self, X, args, res):
        t, e = args
        l, r = t.ghost['spans']
        want = z3.And(t.ghost['scan'] == 0, z3.If(zbool(e), r.n, l.n) == 0)
        X.prove('edge-iff-blank-side', zbool(X.truth(res)) == want)
        self.frame(X, t)


class Marks(Observe):
    def __init__(self):
        super().__init__('marks')

    def post(self, X, args, res):
        t, = args
        sums = list(X.ghost.get('sums', ()))
        want = z3.If(t.ghost['scan'] != 0, z3.IntVal(1), z3.IntVal(0))
        spec = []
        for s in t.ghost['spans']:
            S = X.fresh(f'marks_{s.name}')          # spec: sum over k < n of (count if colour not blank else 0)
            spec.append((s, S))
            want = want + S
        for v, seq in sums:
            k = X.fresh('k')
            X.assume(z3.And(k >= 0, k < seq.n))
            c = True if seq.cond is None else X.truth(seq.cond(X, k))
            tm = zint(seq.at(X, k)) if c else z3.IntVal(0)
            for s, S in spec:
                if s.seq.label == seq.label or self.about(X, s, k, tm, c):
                    X.prove('summand', tm == z3.If(s.col(k) != 0, z3.Select(s.cnt0, k), 0))
                    X.prove('all-blocks', seq.n == s.n)
                    X.assume(v == S)                # equal summands, equal lengths
                    spec.remove((s, S))
                    break
        X.prove('marks', zint(res) == want)
        self.frame(X, t)

    def about(self, X, s, k, tm, c):
        """does the summand speak of this span?"""
        fs = X.facts[-6:] + [tm == tm]
        names = ' '.join(str(f) for f in fs) + str(tm)
        return str(s.cnt0) in names or str(s.col) in names


class SpanLens(Observe):
    def __init__(self):
        super().__init__('span_lens')

    def post(self, X, args, res):
        t, = args
        ok = isinstance(res, tuple) and len(res) == 2
        X.prove('pair', z3.BoolVal(ok))
        for s, v in zip(t.ghost['spans'], res):
            X.prove('number-of-blocks', zint(v) == s.n)
        self.frame(X, t)


class Counts(Observe):
    def __init__(self):
        super().__init__('counts')

    def post(self, X, args, res):
        t, = args
        X.prove('pair', z3.BoolVal(isinstance(res, tuple) and len(res) == 2))
        for s, v in zip(t.ghost['spans'], res):
            q = as_seq(X, v)
            k = X.fresh('k')
            X.prove('number-of-counts', q.n == s.n)
            X.assume(z3.And(k >= 0, k < s.n))
            X.prove('count', zint(q.at(X, k)) == z3.Select(s.cnt0, k))
            X.facts.pop()
        self.frame(X, t)


class Signature(Observe):
    def __init__(self):
        super().__init__('signature')

    def post(self, X, args, res):
        t, = args
        X.prove('triple', z3.BoolVal(isinstance(res, tuple) and len(res) == 3))
        X.prove('scan', zint(res[0]) == t.ghost['scan'])
        which = X.choose(2, 'side')
        s, v = t.ghost['spans'][which], res[1 + which]
        q = as_seq(X, v)
        X.prove('number-of-blocks', q.n == s.n)
        X.prove('tuple', z3.BoolVal(q.kind == 'tuple'))
        k = X.fresh('k')
        X.assume(z3.And(k >= 0, k < s.n))
        e = q.at(X, k)
        if isinstance(e, tuple):
            X.prove('single', z3.And(z3.BoolVal(len(e) == 1), z3.Select(s.cnt0, k) == 1))
            X.prove('colour', zint(e[0]) == s.col(k))
        else:
            X.prove('several', z3.Select(s.cnt0, k) != 1)
            X.prove('colour', zint(e) == s.col(k))
        self.frame(X, t)


def index(X):
    pos = X.fresh('pos')
    X.assume(pos >= 0)
    return SB(X.fresh('side', 'bool')), SI(pos)


class GetCount(Observe):
    def __init__(self):
        super().__init__('get_count')

    def setup(self, X):
        return [new_tape(X), index(X)]

    def exc(self, X, args, e):
        t, (side, pos) = args
        n = z3.If(zbool(side), t.ghost['spans'][1].n, t.ghost['spans'][0].n)
        X.prove('raises-only-outside', z3.And(z3.BoolVal(e.name == self.OUTSIDE), pos.e >= n))

    def post(self, X, args, res):
        t, (side, pos) = args
        l, r = t.ghost['spans']
        X.prove('count-at-index', zint(res) == z3.If(zbool(side), z3.Select(r.cnt0, pos.e), z3.Select(l.cnt0, pos.e)))
        self.frame(X, t)


class SetCount(GetCount):
    def __init__(self):
        Observe.__init__(self, 'set_count')

    def setup(self, X):
        self.val = X.fresh('val')
        return [new_tape(X), index(X), SI(self.val)]

    def exc(self, X, args, e):
        super().exc(X, args[:2], e)

    def post(self, X, args, res):
        t, (side, pos), val = args
        k = X.fresh('k')
        for s, mine in zip(t.ghost['spans'], (z3.Not(zbool(side)), zbool(side))):
            X.prove('only-this-count', z3.Select(s.cnt, k) == z3.If(z3.And(mine, k == pos.e), val.e, z3.Select(s.cnt0, k)))
        same = sp(X, t, 'lspan') is t.ghost['spans'][0].lst and sp(X, t, 'rspan') is t.ghost['spans'][1].lst
        X.prove('same-spans', z3.BoolVal(bool(same)))
        X.prove('scan-unchanged', zint(X.getattr(t, 'scan')) == t.ghost['scan'])


class Clone(Observe):
    inline = False

    def __init__(self):
        super().__init__('clone')

    def apply(self, X, args, kw):
        t, = args
        spans = t.ghost['spans']
        if not (sp(X, t, 'lspan') is spans[0].lst and sp(X, t, 'rspan') is spans[1].lst) or \
                any(s.tail.decided is not None for s in spans):
            raise Untranslatable('clone of a changed tape')
        new = [s.copy(X) for s in spans]
        r = Obj(cls(X, 'Tape'), dict(lspan=new[0].lst, scan=X.getattr(t, 'scan'), rspan=new[1].lst))
        r.ghost.update(spans=new, scan=zint(X.getattr(t, 'scan')), copy_of=t)
        return r

    def post(self, X, args, res):
        t, = args
        X.prove('new-tape', z3.BoolVal(isinstance(res, Obj) and res is not t and res.cls.name == 'Tape'))
        X.prove('scan', zint(X.getattr(res, 'scan')) == t.ghost['scan'])
        which = X.choose(2, 'side')
        s = t.ghost['spans'][which]
        v = sp(X, res, ('lspan', 'rspan')[which])
        X.prove('own-list', z3.BoolVal(v is not s.lst))
        q = as_seq(X, v)
        X.prove('number-of-blocks', q.n == s.n)
        k = X.fresh('k')
        X.assume(z3.And(k >= 0, k < s.n))
        b = q.at(X, k)
        X.prove('own-block', z3.BoolVal(isinstance(b, Obj) and 'origin' not in b.ghost))
        X.prove('colour', zint(X.getattr(b, 'color')) == s.col(k))
        X.prove('count', zint(X.getattr(b, 'count')) == z3.Select(s.cnt0, k))
        self.frame(X, t)


class SigColour(Ext):
    """one entry of a signature: a colour, or a one-tuple of a colour"""
    def __init__(self, single, col):
        self.single, self.col = single, col

    def isinstance(self, X, c):
        if c is tuple or getattr(c, '__name__', '') == 'tuple':
            return SB(self.single)
        if c is int:
            return SB(z3.Not(self.single))
        return False

    def getitem(self, X, k):
        if not X.truth(SB(self.single)):
            raise PyRaise(TypeError, ())
        if k == 0:
            return SI(self.col)
        raise PyRaise(IndexError, ())

    def compare(self, X, op, other, refl):
        if op not in ('==', '!='):
            raise PyRaise(TypeError, ())
        if is_int(other):
            r = z3.And(z3.Not(self.single), self.col == zint(other))
        elif isinstance(other, tuple):
            r = z3.And(self.single, self.col == zint(other[0])) if len(other) == 1 else z3.BoolVal(False)
        elif isinstance(other, SigColour):
            r = z3.And(self.single == other.single, self.col == other.col)
        else:
            r = z3.BoolVal(False)
        return SB(r if op == '==' else z3.Not(r))


def new_sig(X, label='sig'):
    out = []
    for s in 'lr':
        n = X.fresh(f'{label}_{s}')
        X.assume(n >= 0)
        one = z3.Function(f'{label}one_{s}!{next(X.fresh_n)}', I, B)
        col = z3.Function(f'{label}col_{s}!{next(X.fresh_n)}', I, I)
        q = SeqV(n, lambda X, k, one=one, col=col: SigColour(one(k), col(k)), 'tuple', label=f'{label}_{s}')
        q.col, q.one = col, one
        out.append(q)
    return SI(X.fresh(f'{label}_scan')), out[0], out[1]


class SigCompatible(Observe):
    def __init__(self):
        super().__init__('sig_compatible')

    def setup(self, X):
        return [new_tape(X), new_sig(X)]

    def post(self, X, args, res):
        t, (scan, ls, rs) = args
        res = X.truth(res)
        spans = t.ghost['spans']
        if res:
            X.prove('same-scan', scan.e == t.ghost['scan'])
            which = X.choose(2, 'side')
            s, q = spans[which], (ls, rs)[which]
            X.prove('enough-blocks', s.n >= q.n)
            k = X.fresh('k')
            X.assume(z3.And(k >= 0, k < q.n))
            instantiate(X, k)
            X.prove('same-colours', q.col(k) == s.col(k))
        else:
            bad = [scan.e != t.ghost['scan']]
            ws = [w for _, w in X.ghost.get('witness', ())]
            for s, q in zip(spans, (ls, rs)):
                bad.append(s.n < q.n)
                bad += [z3.And(w >= 0, w < q.n, w < s.n, q.col(w) != s.col(w)) for w in ws]
            X.prove('some-difference', z3.Or(bad))
        self.frame(X, t)


class EnumsV(Ext):
    """the block numbers of an EnumTape in use: blocks of the original tape may remain anywhere in the spans; a new block
    may live at the address of a destroyed original, which was recorded when it was destroyed"""
    def __init__(self, X, et):
        self.et = et
        self.fs = [(z3.Function(f'known_{s}!{next(X.fresh_n)}', I, B), z3.Function(f'side_{s}!{next(X.fresh_n)}', I, B),
                    z3.Function(f'num_{s}!{next(X.fresh_n)}', I, I)) for s in 'lr']
        self.new = {}

    def of(self, X, side, k):
        known, right, num = (f(k) for f in self.fs[side])
        X.assume(num >= 1)
        return known, right, num

    def raw(self, X, key):
        if not isinstance(key, IdV):
            raise Untranslatable('key of enums')
        if key.side is not None:
            return self.of(X, key.side, key.index)
        if id(key.obj) not in self.new:
            f = X.fresh('known', 'bool'), X.fresh('right', 'bool'), X.fresh('num')
            X.assume(z3.And(f[2] >= 1, f[2] <= z3.If(f[1], self.et.ghost['off'][1], self.et.ghost['off'][0])))
            self.new[id(key.obj)] = (f, key.obj)
        return self.new[id(key.obj)][0]

    def find(self, X, key):
        known, right, num = self.raw(X, key)
        if not X.truth(SB(known)):
            return None
        return (1 if X.truth(SB(right)) else 0), SI(num)

    def getattr(self, X, name):
        if name == 'get':
            def get(X, a, kw):
                r = self.find(X, a[0])
                return r if r is not None else (a[1] if len(a) > 1 else None)
            return get
        raise Untranslatable(f'enums.{name}')

    def contains(self, X, k):
        return self.find(X, k) is not None

    def getitem(self, X, k):
        r = self.find(X, k)
        if r is None:
            raise PyRaise(KeyError, (k,))
        return r


def new_enum_tape(X):
    t = new_tape(X)
    off = [X.fresh('l_offset'), X.fresh('r_offset')]
    edge = [X.fresh('l_edge', 'bool'), X.fresh('r_edge', 'bool')]
    for o in off:
        X.assume(o >= 0)
    e = Obj(cls(X, 'EnumTape'), dict(tape=t, l_offset=SI(off[0]), r_offset=SI(off[1]), l_edge=SB(edge[0]), r_edge=SB(edge[1])))
    e.ghost.update(off=off, edge=edge, tape=t)
    e.attrs['enums'] = e.ghost['enums'] = EnumsV(X, e)
    return e


class CheckOffsets(Contract):
    """records the number of the block, if it is one of the original tape"""
    key = f'{TAPE}:EnumTape.check_offsets'
    total = True

    def setup(self, X):
        e = new_enum_tape(X)
        side, k = X.choose(2, 'side'), X.fresh('k')
        s = e.ghost['tape'].ghost['spans'][side]
        X.assume(z3.And(k >= 0, k < s.n))
        return [e, BlockView(s, k)]

    def apply(self, X, args, kw):
        e, b = args if len(args) == 2 else (args[0], kw['block'])
        key = X.domain.identity(X, b) or b.identity(X)
        en = e.attrs['enums']
        if not isinstance(en, EnumsV):
            raise Untranslatable('check_offsets on other enums')
        known, right, num = en.raw(X, key)
        for s, nm in ((0, 'l_offset'), (1, 'r_offset')):
            old = zint(e.attrs[nm])
            e.attrs[nm] = SI(z3.If(z3.And(known, right if s else z3.Not(right), num > old), num, old))

    def post(self, X, args, res):
        e, b = args
        X.prove('returns-nothing', z3.BoolVal(res is None))
        Observe.frame(self, X, e.ghost['tape'])
        prove_recorded(X, e, [(z3.BoolVal(True), (b.span.side, b.k))], [z3.BoolVal(False)] * 2)


def prove_recorded(X, e, touched, edges):
    """offsets become the largest number of a touched block of that side, edges are flagged exactly as said"""
    en = e.ghost['enums']
    for s, nm in ((0, 'l_offset'), (1, 'r_offset')):
        want = e.ghost['off'][s]
        for cond, (side, k) in touched:
            known, right, num = en.of(X, side, z3.IntVal(k) if isinstance(k, int) else k)
            hit = z3.And(cond, known, right if s else z3.Not(right), num > want)
            want = z3.If(hit, num, want)
        X.prove(f'{nm}-covers-blocks-looked-at', zint(X.getattr(e, nm)) == want)
    for s, nm in ((0, 'l_edge'), (1, 'r_edge')):
        X.prove(f'{nm}-flagged', zbool(X.truth(X.getattr(e, nm))) == z3.Or(e.ghost['edge'][s], edges[s]))
    X.prove('same-enums', z3.BoolVal(e.attrs['enums'] is en and e.attrs['tape'] is e.ghost['tape']))


class EnumStep(Step):
    """steps the tape once, with its own arguments; records every block looked at, and the edge when the tape ended there"""
    key = f'{TAPE}:EnumTape.step'
    inline = False

    def setup(self, X):
        _, shift, color, skip = super().setup(X)
        return [new_enum_tape(X), shift, color, skip]

    def post(self, X, args, res):
        e, shift, color, skip = args
        t = e.ghost['tape']
        done = t.ghost.get('stepped')
        X.prove('tape-stepped-once', z3.BoolVal(done is not None))
        X.prove('same-shift', zbool(done[0]) == zbool(shift))
        X.prove('same-colour', zint(done[1]) == color.e)
        X.prove('same-skip', zbool(done[2]) == zbool(skip))
        right = X.branch(zbool(shift))
        spans = t.ghost['spans']
        pull, push = (spans[1], spans[0]) if right else (spans[0], spans[1])
        jump = z3.And(zbool(skip), pull.n >= 1, pull.col(0) == t.ghost['scan'])
        touched = [(pull.n >= 1, (pull.side, 0)), (z3.And(jump, pull.n >= 2), (pull.side, 1)),
                   (z3.And(push.n >= 1, push.col(0) == color.e), (push.side, 0))]
        end = z3.Or(pull.n == 0, z3.And(jump, pull.n == 1))
        prove_recorded(X, e, touched, [end if s == pull.side else z3.BoolVal(False) for s in (0, 1)])


class EnumGetCount(Observe):
    def __init__(self):
        self.name = 'get_count'
        self.key = f'{TAPE}:EnumTape.get_count'

    def setup(self, X):
        return [new_enum_tape(X), index(X)]

    def exc(self, X, args, ex):
        e, (side, pos) = args
        two = e.ghost['tape'].ghost['spans']
        X.prove('raises-only-outside', z3.And(z3.BoolVal(ex.name == self.OUTSIDE),
                                              pos.e >= z3.If(zbool(side), two[1].n, two[0].n)))

    def post(self, X, args, res):
        e, (side, pos) = args
        t = e.ghost['tape']
        l, r = t.ghost['spans']
        right = X.branch(zbool(side))
        s = r if right else l
        X.prove('count-at-index', zint(res) == z3.Select(s.cnt0, pos.e))
        self.frame(X, t)
        prove_recorded(X, e, [(z3.BoolVal(True), (s.side, pos.e))], [z3.BoolVal(False)] * 2)


class EnumSetCount(SetCount):
    def __init__(self):
        self.name = 'set_count'
        self.key = f'{TAPE}:EnumTape.set_count'

    def setup(self, X):
        self.val = X.fresh('val')
        return [new_enum_tape(X), index(X), SI(self.val)]

    def exc(self, X, args, ex):
        super().exc(X, [args[0].ghost['tape']] + list(args[1:]), ex)

    def post(self, X, args, res):
        super().post(X, [args[0].ghost['tape']] + list(args[1:]), res)
        prove_recorded(X, args[0], [], [z3.BoolVal(False)] * 2)


class EnumProp(Observe):
    def __init__(self, name):
        self.name = name
        self.key = f'{TAPE}:EnumTape.{name}'

    def setup(self, X):
        return [new_enum_tape(X)]

    def post(self, X, args, res):
        e, = args
        if self.name == 'scan':
            X.prove('scan', zint(res) == e.ghost['tape'].ghost['scan'])
        elif self.name == 'offsets':
            for v, w in zip(res, e.ghost['off'], strict=True):
                X.prove('offsets', zint(v) == w)
        elif self.name == 'edges':
            for v, w in zip(res, e.ghost['edge'], strict=True):
                X.prove('edges', zbool(X.truth(v)) == w)
        self.frame(X, e.ghost['tape'])
        prove_recorded(X, e, [], [z3.BoolVal(False)] * 2)


class EnumSignature(Signature):
    def __init__(self):
        self.name = 'signature'
        self.key = f'{TAPE}:EnumTape.signature'

    def setup(self, X):
        e = new_enum_tape(X)
        return [e]

    def post(self, X, args, res):
        super().post(X, [args[0].ghost['tape']], res)


def prove_fresh_enum(X, e, t):
    """nothing recorded, and every block of t numbered from 1 on its side"""
    X.prove('enum-tape', z3.BoolVal(isinstance(e, Obj) and e.cls.name == 'EnumTape' and X.getattr(e, 'tape') is t))
    for nm in ('l_offset', 'r_offset'):
        X.prove(f'{nm}-zero', zint(X.getattr(e, nm)) == 0)
    for nm in ('l_edge', 'r_edge'):
        X.prove(f'{nm}-unset', z3.Not(zbool(X.truth(X.getattr(e, nm)))))
    which = X.choose(2, 'side')
    s = t.ghost['spans'][which]
    k = X.fresh('k')
    X.assume(z3.And(k >= 0, k < s.n))
    enums = X.getattr(e, 'enums')
    if isinstance(enums, SymDict):
        ok, v = enums.find(X, IdV(which, k))
        X.prove('every-block-numbered', z3.BoolVal(bool(ok)))
        X.prove('pair', z3.BoolVal(isinstance(v, tuple) and len(v) == 2))
        X.prove('side', zint(X.truth(v[0]) if isinstance(v[0], (SB, bool)) else v[0]) == which)
        X.prove('number', zint(v[1]) == k + 1)
    else:
        raise Untranslatable(f'enums is {enums!r}')


class EnumInit(Contract):
    key = f'{TAPE}:EnumTape.__init__'
    total = True
    inline = True

    def setup(self, X):
        t = new_tape(X)
        return [Obj(cls(X, 'EnumTape'), {}), t]

    def post(self, X, args, res):
        prove_fresh_enum(X, args[0], args[1])
        Observe.frame(self, X, args[1])


class ToEnum(Observe):
    def __init__(self):
        super().__init__('to_enum')

    def post(self, X, args, res):
        t, = args
        t2 = X.getattr(res, 'tape')
        X.prove('a-copy', z3.BoolVal(t2 is not t and 'copy_of' in t2.ghost and t2.ghost['copy_of'] is t))
        prove_fresh_enum(X, res, t2)
        self.frame(X, t)


class BlockClone(Contract):
    key = f'{TAPE}:Block.clone'
    total = True
    inline = True

    def setup(self, X):
        self.c, self.n = X.fresh('color'), X.fresh('count')
        return [Obj(cls(X, 'Block'), dict(color=SI(self.c), count=SI(self.n)))]

    def post(self, X, args, res):
        b, = args
        X.prove('new-block', z3.BoolVal(isinstance(res, Obj) and res is not b and res.cls.name == 'Block'))
        for o in (b, res):
            X.prove('colour', zint(X.getattr(o, 'color')) == self.c)
            X.prove('count', zint(X.getattr(o, 'count')) == self.n)


def tape_contracts(world):
    out = {}
    for c in (Step(), Blank(), AtEdge(), Marks(), SpanLens(), Counts(), Signature(), GetCount(), SetCount(), Clone(),
              SigCompatible(), BlockClone(), ToEnum(), EnumInit(), CheckOffsets(), EnumStep(), EnumGetCount(), EnumSetCount(),
              EnumProp('scan'), EnumProp('offsets'), EnumProp('edges'), EnumSignature()):
        out[c.key] = c
    return out
