"""Contracts of Backstepper (src/reason.rs): the partly known tapes of the backward reasoner.

A partly known tape is a scanned colour and two spans of blocks, each behind it an end that is blank or unknown; its meaning: the
colour of every cell, or that it is not known (-1).  Counts are at least 1; blocks need not be merged and may be blank."""
from __future__ import annotations
import z3
from . import tapespec as T
from .values import *
from .engine import Contract, Ext, SB, SI, PathEnd, zbool
from .rengine import RDomain, Wrap, is_none, inner
from .rtapespec import RSpan, rcls as tcls
from .seq import SeqDomain, instantiate, term

RB = 'src/reason.rs'
I, B = z3.IntSort(), z3.BoolSort()
UNKNOWN = z3.IntVal(-1)


def rcls(X, name):
    return X.world.class_val(X.world.by_path(RB), name)


class BackSpan(RSpan):
    def __init__(self, X, side):
        super().__init__(X, side, 'BasicBlock')
        self.obj = self.lst
        X.assume(z3.Implies(self.n >= 1, z3.And(z3.Select(self.cnt, 0) >= 1)))

    def wf(self, X, k):
        k = term(k)
        X.assume(z3.Implies(z3.And(k >= 0, k < self.n), z3.And(z3.Select(self.cnt, k) >= 1, self.col(k) >= 0)))


def end_of(X, which):
    """TapeEnd.Blanks or TapeEnd.Unknown"""
    return X.getattr(rcls(X, 'TapeEnd'), which)


def is_blank_end(X, v):
    if isinstance(v, Obj) and v.cls.name in ('TapeEnd__Blanks', 'TapeEnd__Unknown'):
        return v.cls.name == 'TapeEnd__Blanks'
    raise Untranslatable(f'tape end {v!r}')


def new_back(X):
    spans = [BackSpan(X, 0), BackSpan(X, 1)]
    ends = [('Blanks', 'Unknown')[X.choose(2, f'{s} end')] for s in 'lr']
    scan, head = X.fresh('scan'), X.fresh('head')
    X.assume(scan >= 0)
    t = Obj(rcls(X, 'Backstepper'), dict(scan=SI(scan), lspan=spans[0].lst, rspan=spans[1].lst, head=SI(head),
                                         l_end=end_of(X, ends[0]), r_end=end_of(X, ends[1])))
    t.ghost.update(spans=spans, scan=scan, head=head, ends=[e == 'Blanks' for e in ends])
    return t


def behind(span, blank, off, left):
    """cells behind the explicit blocks"""
    if left is None:
        return lambda j: z3.IntVal(0) if blank else UNKNOWN
    return lambda j: T.CELL[span.side](z3.IntVal(off), j)


def old_cells(t, side):
    s = t.ghost['spans'][side]
    n, left = s.prefix()
    blocks = [(s.col(i), z3.Select(s.cnt0, i)) for i in range(n)]
    return lambda k: T.prefix_cell(blocks, behind(s, t.ghost['ends'][side], n, left), k)


def now_cells(X, t, side):
    nm = ('lspan', 'rspan')[side]
    items, s, off, left = T.resolve(X, t.attrs[nm], t.ghost.get('spans', ()))
    blank = is_blank_end(X, t.attrs[('l_end', 'r_end')[side]])
    blocks = [(zint(X.getattr(b, 'color')), zint(X.getattr(b, 'count'))) for b in items]
    return blocks, lambda k: T.prefix_cell(blocks, behind(s, blank, off, left), k)


def unchanged(X, t):
    spans = t.ghost['spans']
    X.prove('tape-unchanged', z3.BoolVal(t.attrs['lspan'] is spans[0].lst and t.attrs['rspan'] is spans[1].lst))
    for side in range(2):
        s = spans[side]
        items, sp, off, left = T.resolve(X, s.lst, spans)
        n, l0 = s.prefix()
        X.prove('spans-unchanged', z3.BoolVal(left is l0 and len(items) == n and z3.eq(s.cnt, s.cnt0)))
        for i, b in enumerate(items):
            X.prove('blocks-unchanged', z3.And(zint(X.getattr(b, 'color')) == s.col(i), zint(X.getattr(b, 'count')) == z3.Select(s.cnt0, i)))
        X.prove('ends-unchanged', z3.BoolVal(is_blank_end(X, t.attrs[('l_end', 'r_end')[side]]) == t.ghost['ends'][side]))
    X.prove('scan-unchanged', z3.And(zint(t.attrs['scan']) == t.ghost['scan'], zint(t.attrs['head']) == t.ghost['head']))


class CheckStep(Contract):
    """Some: the cell the head would have come from is not known, or has the printed colour"""
    key = f'{RB}:Backstepper.check_step'
    total = True

    def setup(self, X):
        p = X.fresh('print')
        X.assume(p >= 0)
        self.print = p
        return [new_back(X), SB(X.fresh('shift', 'bool')), SI(p)]

    def post(self, X, args, res):
        t, shift, _ = args
        pull = 0 if X.branch(zbool(shift)) else 1
        s = t.ghost['spans'][pull]
        if s.tail.decided is None:
            s.tail.nonempty(X, Lst([], s.tail))
        c = old_cells(t, pull)(z3.IntVal(0))
        if s.tail.decided:
            X.assume(z3.Select(s.cnt0, 0) >= 1)
        ok = z3.Or(c == UNKNOWN, c == self.print)
        X.prove('step-back-possible', z3.Not(ok) if is_none(X, res) else ok)
        unchanged(X, t)


class Backstep(Contract):
    """the cell the head comes from is dropped (it was printed), the scanned cell is put on the other side, read is scanned"""
    key = f'{RB}:Backstepper.backstep'
    total = True

    def setup(self, X):
        c = X.fresh('read')
        X.assume(c >= 0)
        self.read = c
        return [new_back(X), SB(X.fresh('shift', 'bool')), SI(c)]

    def post(self, X, args, res):
        t, shift, _ = args
        spans = t.ghost['spans']
        right = X.branch(zbool(shift))
        pull, push = (0, 1) if right else (1, 0)
        for s in spans:
            if s.tail.decided is None:
                s.tail.nonempty(X, Lst([], s.tail))
        T.both(X, t, spans)
        k = X.fresh('cell')
        X.assume(k >= 0)
        for side in range(2):
            X.prove('ends-unchanged', z3.BoolVal(is_blank_end(X, t.attrs[('l_end', 'r_end')[side]]) == t.ghost['ends'][side]))
        (bpull, npull), (bpush, npush) = now_cells(X, t, pull), now_cells(X, t, push)
        opull, opush = old_cells(t, pull), old_cells(t, push)
        X.prove('scan', zint(X.getattr(t, 'scan')) == self.read)
        X.prove('nearest-cell-dropped', npull(k) == opull(k + 1))
        X.prove('scanned-cell-kept', npush(z3.IntVal(0)) == t.ghost['scan'])
        X.prove('behind', npush(k + 1) == opush(k))
        for c, n in bpull + bpush:
            X.prove('counts-positive', n >= 1)
            X.prove('colours', c >= 0)
        X.prove('head', zint(t.attrs['head']) == t.ghost['head'] + z3.If(zbool(shift), -1, 1))


class Blank(Contract):
    """True: every known cell is blank; False: a known cell is not"""
    key = f'{RB}:Backstepper.blank'
    total = True

    def setup(self, X):
        return [new_back(X)]

    def post(self, X, args, res):
        t, = args
        if X.truth(res):
            X.prove('scan-blank', t.ghost['scan'] == 0)
            side = X.choose(2, 'side')
            s = t.ghost['spans'][side]
            k = X.fresh('k')
            X.assume(z3.And(k >= 0, k < s.n))
            # the chain of both spans: the block sits at k or behind the left ones
            for j in (k, t.ghost['spans'][0].n + k):
                instantiate(X, j)
            X.prove('every-block-blank', s.col(k) == 0)
        else:
            alts = [t.ghost['scan'] != 0]
            l, r = t.ghost['spans']
            for _, w in X.ghost.get('witness', []):
                for s, j in ((l, w), (r, w), (r, w - l.n)):
                    s.wf(X, j)
                    alts.append(z3.And(j >= 0, j < s.n, s.col(j) != 0))
            for s in (l, r):
                for i in s.objs:
                    alts.append(z3.And(i < s.n, s.col(i) != 0))
            X.prove('a-block-not-blank', z3.Or(alts))
        unchanged(X, t)


class Init(Contract):
    """no cell but the scanned one is known, except blank sides"""
    total = True

    def __init__(self, name):
        self.name = name
        self.key = f'{RB}:Backstepper.{name}'

    def setup(self, X):
        if self.name == 'init_spinout':
            self.dir = X.fresh('dir', 'bool')
            return [SB(self.dir)]
        self.scan = X.fresh('scan')
        X.assume(self.scan >= 0)
        return [SI(self.scan)]

    def post(self, X, args, res):
        t = res
        X.prove('backstepper', z3.BoolVal(isinstance(t, Obj) and t.cls.name == 'Backstepper'))
        k = X.fresh('cell')
        X.assume(k >= 0)
        for side in range(2):
            _, cells = now_cells(X, t, side)
            blank = is_blank_end(X, t.attrs[('l_end', 'r_end')[side]])
            X.prove('no-blocks', z3.BoolVal(not T.resolve(X, t.attrs[('lspan', 'rspan')[side]], ())[0]))
            if self.name == 'init_spinout':
                X.prove('blank-ahead', z3.BoolVal(blank) == (self.dir if side == 1 else z3.Not(self.dir)))
            else:
                X.prove('ends', z3.BoolVal(blank == (self.name == 'init_blank')))
        X.prove('scan', zint(t.attrs['scan']) == (z3.IntVal(0) if self.name == 'init_spinout' else self.scan))


class BackDomain(RDomain, SeqDomain):
    def generic(self, X, name):
        return tcls(X, 'BasicBlock')


def back_contracts():
    return [CheckStep(), Backstep(), Blank()] + [Init(n) for n in ('init_halt', 'init_blank', 'init_spinout')]


def contracts(world):
    return {c.key: c for c in back_contracts()}
