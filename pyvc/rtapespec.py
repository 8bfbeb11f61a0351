"""Contracts of src/tape.rs: the tapes of the compiled library.  The meaning of a tape, its precondition and the postconditions are
those of tapespec; blocks are BasicBlock or EnumBlock (every generic function is verified for both)."""
from __future__ import annotations
import z3
from . import tapespec as T
from .values import *
from .engine import Contract, Ext, SB, SI, PathEnd, zbool
from .rengine import RDomain, Some, cell, TraitV, CELL as CELLCLS, Wrap
from .seq import SeqV, SeqTail, SeqDomain, as_seq, instantiate, term

RT = 'src/tape.rs'
I, B = z3.IntSort(), z3.BoolSort()


def rcls(X, name):
    return X.world.class_val(X.world.by_path(RT), name)


class OptIndex(Ext):
    """Option<Index> of an original block"""
    def __init__(self, known, right, num):
        self.known, self.right, self.num = known, right, num
    rust_value = True

    def opt_some(self, X):
        return self.known

    def opt_inner(self, X):
        return SB(self.right), SI(self.num)

    def rm_is_some(self, X):
        return SB(self.known)

    def rm_is_none(self, X):
        return SB(z3.Not(self.known))

    def rm_map_or(self, X, d, f):
        return X.call(f, [self.opt_inner(X)], {}) if X.truth(SB(self.known)) else d

    def rm_map(self, X, f):
        return Some(X.call(f, [self.opt_inner(X)], {})) if X.truth(SB(self.known)) else None

    def rm_as_ref(self, X):
        return self
    rm_copied = rm_clone = rm_as_ref


class RSpan(T.Span):
    """an initial Span of the compiled library"""
    def __init__(self, X, side, kind):
        self.kind = kind
        super().__init__(X, side)
        self.obj = Obj(rcls(X, 'Span'), dict(_0=self.lst))
        if kind == 'EnumBlock':
            n = next(X.fresh_n)
            self.fs = [z3.Function(f'{w}_{self.name}!{n}', I, s) for w, s in (('known', B), ('right', B), ('num', I))]

    def index(self, X, k):
        k = term(k)
        known, right, num = (f(k) for f in self.fs)
        X.assume(num >= 1)
        return OptIndex(known, right, num)

    def make(self, X, k):
        a = dict(color=SI(self.col(k)), count=SI(z3.Select(self.cnt, k)))
        if self.kind == 'EnumBlock':
            a['index'] = self.index(X, k)
        return Obj(rcls(X, self.kind), a)

    def view(self, X, k):
        return RBlockView(self, k)


class RBlockView(T.BlockView):
    def rust_class(self, X):
        return rcls(X, self.span.kind)

    def getattr(self, X, name):
        if name == 'index' and self.span.kind == 'EnumBlock':
            return self.span.index(X, self.k)
        return super().getattr(X, name)

    def isinstance(self, X, c):
        return getattr(c, 'name', '') in (self.span.kind, 'Block')


class RTapeDomain(RDomain, SeqDomain):
    kind = None

    def generic(self, X, name):
        return rcls(X, X.ghost.get('block') or 'BasicBlock')

    def new_tape(self, X):
        k = X.ghost.get('block')
        if k is None:
            k = X.ghost['block'] = ('BasicBlock', 'EnumBlock')[X.choose(2, 'block type')]
        spans = [RSpan(X, 0, k), RSpan(X, 1, k)]
        scan = X.fresh('scan')
        X.assume(scan >= 0)
        t = Obj(rcls(X, 'Tape'), dict(scan=SI(scan), lspan=spans[0].obj, rspan=spans[1].obj))
        t.ghost['spans'] = spans
        t.ghost['scan'] = scan
        return t


def basic(X):
    X.ghost['block'] = 'BasicBlock'


def enum(X):
    X.ghost['block'] = 'EnumBlock'


class R:
    """a contract of tm/tape.py, for the crate"""
    OUTSIDE = 'Panic'

    def rkey(self, name):
        self.key = f'{RT}:{name}'
        return self


def prove_indices(X, t):
    """blocks keep the index they were made with; new blocks have none"""
    for nm in ('lspan', 'rspan'):
        for b in T.resolve(X, T.sp(X, t, nm), t.ghost['spans'])[0]:
            i = X.getattr(b, 'index')
            o = b.ghost.get('origin') if isinstance(b, Obj) else None
            if o is None:
                X.prove('new-block-has-no-index', z3.BoolVal(i is None))
            else:
                s = t.ghost['spans'][o[0]]
                w = s.index(X, z3.IntVal(o[1]))
                X.prove('block-keeps-its-index', z3.And(w.known == i.known, w.right == i.right, w.num == i.num)
                        if isinstance(i, OptIndex) else z3.BoolVal(False))


class Step(R, T.Step):
    key = f'{RT}:Tape.step'

    def apply(self, X, args, kw):
        t = args[0]
        r = super().apply(X, args, kw)
        t.attrs['lspan'] = t.attrs['rspan'] = Opaque('span after the step')
        X.assume(r.e >= 1)
        t.ghost['steps'] = r
        return r

    def post(self, X, args, res):
        super().post(X, args, res)
        if X.ghost['block'] == 'EnumBlock':
            prove_indices(X, args[0])


class Marks(R, T.Marks):
    pass


class Signature(R, T.Signature):
    def post(self, X, args, res):
        t, = args
        X.prove('signature', z3.BoolVal(isinstance(res, Obj) and res.cls.name == 'Signature'))
        X.prove('scan', zint(X.getattr(res, 'scan')) == t.ghost['scan'])
        which = X.choose(2, 'side')
        s, v = t.ghost['spans'][which], X.getattr(res, ('lspan', 'rspan')[which])
        q = as_seq(X, v)
        X.prove('number-of-blocks', q.n == s.n)
        k = X.fresh('k')
        X.assume(z3.And(k >= 0, k < s.n))
        e = q.at(X, k)
        X.prove('single-or-several', (z3.Select(s.cnt0, k) == 1) == z3.BoolVal(e.cls.name == 'ColorCount__Just'))
        X.prove('entry', z3.BoolVal(e.cls.name in ('ColorCount__Just', 'ColorCount__Mult')))
        X.prove('colour', zint(X.getattr(e, '_0')) == s.col(k))
        self.frame(X, t)


class SigCC(Ext):
    rust_value = True

    def __init__(self, one, col):
        self.one, self.col = one, col

    def rust_class(self, X):
        return rcls(X, 'ColorCount')

    def isinstance(self, X, c):
        n = getattr(c, 'name', '')
        if n == 'ColorCount__Just':
            return SB(self.one)
        if n == 'ColorCount__Mult':
            return SB(z3.Not(self.one))
        return n == 'ColorCount'

    def getattr(self, X, name):
        if name == '_0':
            return SI(self.col)
        raise Untranslatable(name)


class SigCompatible(R, T.SigCompatible):
    def setup(self, X):
        t = X.domain.new_tape(X)
        scan, ls, rs = T.new_sig(X)
        self.sig = []
        for q in (ls, rs):
            s = SeqV(q.n, lambda X, k, q=q: SigCC(q.one(k), q.col(k)), 'list', label=q.label)
            s.col = q.col
            self.sig.append(s)
        sig = Obj(rcls(X, 'Signature'), dict(scan=scan, lspan=Lst([], SeqTail(self.sig[0])), rspan=Lst([], SeqTail(self.sig[1]))))
        return [t, sig]

    def post(self, X, args, res):
        t, sig = args
        super().post(X, [t, (X.getattr(sig, 'scan'), *self.sig)], res)


class GetCount(R, T.GetCount):
    pass


class SetCount(R, T.SetCount):
    pass


class Obs(R):
    pass


def mk(base, name, owner='Tape', *init):
    c = type('R' + base.__name__, (R, base), {})(*init)
    return c.rkey(f'{owner}.{name}')


class Blocks(R, T.Observe):
    def __init__(self):
        T.Observe.__init__(self, 'blocks')
        self.rkey('Tape.blocks')

    def post(self, X, args, res):
        t, = args
        l, r = t.ghost['spans']
        X.prove('number-of-blocks', zint(res) == l.n + r.n)
        self.frame(X, t)


class Init(Contract):
    total = True
    inline = True

    def __init__(self, owner, name):
        self.owner, self.name = owner, name
        self.key = f'{RT}:{owner}.{name}'

    def setup(self, X):
        if self.owner == 'HeadTape':
            basic(X)
        else:
            X.ghost['block'] = ('BasicBlock', 'EnumBlock')[X.choose(2, 'block type')]
        if self.name == 'init':
            self.scan = X.fresh('scan')
            return [SI(self.scan)]
        return []

    def post(self, X, args, res):
        t = res
        if self.owner == 'HeadTape':
            X.prove('head', zint(X.getattr(res, 'head')) == 1)
            t = X.getattr(res, 'tape')
        ls, rs = T.sp(X, t, 'lspan'), T.sp(X, t, 'rspan')
        none = lambda l: isinstance(l, Lst) and l.tail is None and not l.items
        X.prove('right-blank', z3.BoolVal(none(rs)))
        if self.name == 'init':
            X.prove('left-blank', z3.BoolVal(none(ls)))
            X.prove('scan', zint(X.getattr(t, 'scan')) == self.scan)
            return
        X.prove('one-block', z3.BoolVal(ls.tail is None and len(ls.items) == 1))
        X.prove('one-mark', z3.And(zint(X.getattr(ls.items[0], 'color')) == 1, zint(X.getattr(ls.items[0], 'count')) == 1))
        X.prove('scan', zint(X.getattr(t, 'scan')) == 0)


class HeadStep(Contract):
    """the tape steps once with the same arguments; the head moves as far as the tape's head does"""
    key = f'{RT}:HeadTape.step'
    total = True

    def setup(self, X):
        basic(X)
        t = X.domain.new_tape(X)
        self.head = X.fresh('head')
        color = SI(X.fresh('color'))
        X.assume(color.e >= 0)
        return [Obj(rcls(X, 'HeadTape'), dict(head=SI(self.head), tape=t)), SB(X.fresh('shift', 'bool')), color, SB(X.fresh('skip', 'bool'))]

    def post(self, X, args, res):
        h, shift, color, skip = args
        t = X.getattr(h, 'tape')
        done = t.ghost.get('stepped')
        X.prove('tape-stepped-once', z3.BoolVal(done is not None))
        X.prove('same-shift', zbool(done[0]) == zbool(shift))
        X.prove('same-colour', zint(done[1]) == color.e)
        X.prove('same-skip', zbool(done[2]) == zbool(skip))
        n = t.ghost['steps'].e
        X.prove('steps', zint(res) == n)
        X.prove('head', zint(X.getattr(h, 'head')) == z3.If(zbool(shift), self.head + n, self.head - n))


class HeadEdge(R, T.AtEdge):
    def __init__(self):
        T.Observe.__init__(self, 'at_edge')
        self.rkey('HeadTape.at_edge')

    def setup(self, X):
        basic(X)
        t, e = super().setup(X)
        self.h = X.fresh('head')
        return [Obj(rcls(X, 'HeadTape'), dict(head=SI(self.h), tape=t)), e]

    def post(self, X, args, res):
        h, e = args
        super().post(X, [X.getattr(h, 'tape'), e], res)
        X.prove('head-unchanged', zint(X.getattr(h, 'head')) == self.h)


# ------------------------------------------------------------------ EnumTape
def new_enum(X):
    enum(X)
    t = X.domain.new_tape(X)
    off = [X.fresh('l_offset'), X.fresh('r_offset')]
    edge = [X.fresh('l_edge', 'bool'), X.fresh('r_edge', 'bool')]
    for o in off:
        X.assume(o >= 0)
    e = Obj(rcls(X, 'EnumTape'), dict(tape=t, l_offset=cell(SI(off[0])), r_offset=cell(SI(off[1])), l_edge=cell(SB(edge[0])),
                                      r_edge=cell(SB(edge[1]))))
    e.ghost.update(off=off, edge=edge, tape=t)
    return e


def recorded(X, e, nm):
    v = X.getattr(e, nm)
    return v.attrs['v'] if isinstance(v, Obj) and v.cls is CELLCLS else v


def prove_recorded(X, e, touched, edges):
    t = e.ghost['tape']
    for s, nm in ((0, 'l_offset'), (1, 'r_offset')):
        want = e.ghost['off'][s]
        for cond, (side, k) in touched:
            i = t.ghost['spans'][side].index(X, z3.IntVal(k) if isinstance(k, int) else k)
            want = z3.If(z3.And(cond, i.known, i.right if s else z3.Not(i.right), i.num > want), i.num, want)
        X.prove(f'{nm}-covers-blocks-looked-at', zint(recorded(X, e, nm)) == want)
    for s, nm in ((0, 'l_edge'), (1, 'r_edge')):
        X.prove(f'{nm}-flagged', zbool(recorded(X, e, nm)) == z3.Or(e.ghost['edge'][s], edges[s]))
    X.prove('same-tape', z3.BoolVal(e.attrs['tape'] is t))


class EnumStep(Step):
    key = f'{RT}:EnumTape.step'
    inline = False

    def apply(self, X, args, kw):
        raise Untranslatable('EnumTape.step')

    def setup(self, X):
        e = new_enum(X)
        color = SI(X.fresh('color'))
        X.assume(color.e >= 0)
        return [e, SB(X.fresh('shift', 'bool')), color, SB(X.fresh('skip', 'bool'))]

    def post(self, X, args, res):
        e, shift, color, skip = args
        t = e.ghost['tape']
        done = t.ghost.get('stepped')
        X.prove('tape-stepped-once', z3.BoolVal(done is not None))
        X.prove('same-shift', zbool(done[0]) == zbool(shift))
        X.prove('same-colour', zint(done[1]) == color.e)
        X.prove('same-skip', zbool(done[2]) == zbool(skip))
        X.prove('steps', zint(res) == t.ghost['steps'].e)
        right = X.branch(zbool(shift))
        spans = t.ghost['spans']
        pull, push = (spans[1], spans[0]) if right else (spans[0], spans[1])
        for s in spans:
            s.wf(X, z3.IntVal(0))
        jump = z3.And(zbool(skip), pull.n >= 1, pull.col(0) == t.ghost['scan'])
        touched = [(pull.n >= 1, (pull.side, 0)), (z3.And(jump, pull.n >= 2), (pull.side, 1)),
                   (z3.And(push.n >= 1, push.col(0) == color.e), (push.side, 0))]
        end = z3.Or(pull.n == 0, z3.And(jump, pull.n == 1))
        prove_recorded(X, e, touched, [end if s == pull.side else z3.BoolVal(False) for s in (0, 1)])


class EnumObserve(Contract):
    total = True
    inline = True

    def __init__(self, name):
        self.name = name
        self.key = f'{RT}:EnumTape.{name}'

    def setup(self, X):
        e = new_enum(X)
        if self.name in ('get_count', 'set_count'):
            a = [e, T.index(X)]
            if self.name == 'set_count':
                self.val = X.fresh('val')
                a.append(SI(self.val))
            return a
        return [e]

    def exc(self, X, args, e):
        if self.name not in ('get_count', 'set_count'):
            return super().exc(X, args, e)
        return T.GetCount.exc(FakeOutside, X, [args[0].ghost['tape'], args[1]], e)

    def post(self, X, args, res):
        e = args[0]
        t = e.ghost['tape']
        if self.name == 'scan':
            X.prove('scan', zint(res) == t.ghost['scan'])
        elif self.name == 'offsets':
            for v, w in zip(res, e.ghost['off'], strict=True):
                X.prove('offsets', zint(v) == w)
        elif self.name == 'edges':
            for v, w in zip(res, e.ghost['edge'], strict=True):
                X.prove('edges', zbool(v) == w)
        elif self.name == 'get_count':
            side, pos = args[1]
            l, r = t.ghost['spans']
            X.prove('count-at-index', zint(res) == z3.If(zbool(side), z3.Select(r.cnt0, pos.e), z3.Select(l.cnt0, pos.e)))
        elif self.name == 'signature':
            Signature.post(FrameOnly, X, [t], res)
        if self.name == 'set_count':
            T.SetCount.post(FakeOutside, X, [t] + list(args[1:]), res)
        else:
            T.Observe.frame(None, X, t)
        prove_recorded(X, e, [], [z3.BoolVal(False)] * 2)


class FakeOutside:
    OUTSIDE = 'Panic'


class FrameOnly:
    @staticmethod
    def frame(X, t):
        T.Observe.frame(None, X, t)


class EnumFrom(Contract):
    """nothing recorded, the same cells, every block numbered from 1 on its side"""
    key = f'{RT}:EnumTape.from'
    total = True

    def setup(self, X):
        basic(X)
        return [X.domain.new_tape(X)]

    def post(self, X, args, res):
        t, = args
        X.prove('enum-tape', z3.BoolVal(isinstance(res, Obj) and res.cls.name == 'EnumTape'))
        for nm in ('l_offset', 'r_offset'):
            X.prove(f'{nm}-zero', zint(recorded(X, res, nm)) == 0)
        for nm in ('l_edge', 'r_edge'):
            X.prove(f'{nm}-unset', z3.Not(zbool(recorded(X, res, nm))))
        c = X.getattr(res, 'tape')
        X.prove('scan', zint(X.getattr(c, 'scan')) == t.ghost['scan'])
        which = X.choose(2, 'side')
        s = t.ghost['spans'][which]
        q = as_seq(X, T.sp(X, c, ('lspan', 'rspan')[which]))
        X.prove('number-of-blocks', q.n == s.n)
        k = X.fresh('k')
        X.assume(z3.And(k >= 0, k < s.n))
        b = q.at(X, k)
        X.prove('own-block', z3.BoolVal(isinstance(b, Obj) and b.cls.name == 'EnumBlock' and 'origin' not in b.ghost))
        X.prove('colour', zint(X.getattr(b, 'color')) == s.col(k))
        X.prove('count', zint(X.getattr(b, 'count')) == z3.Select(s.cnt0, k))
        i = X.getattr(b, 'index')
        X.prove('numbered', z3.BoolVal(isinstance(i, Wrap) and isinstance(i.v, tuple) and len(i.v) == 2))
        X.prove('side', zbool(i.v[0]) == z3.BoolVal(which == 1))
        X.prove('number', zint(i.v[1]) == k + 1)
        T.Observe.frame(self, X, t)


def contracts(world):
    out = {}
    for c in (Step(), mk(T.Blank, 'blank'), mk(T.AtEdge, 'at_edge'), mk(T.Marks, 'marks'), mk(T.SpanLens, 'span_lens'), mk(T.Counts, 'counts'),
              Signature().rkey('Tape.signature'), mk(T.GetCount, 'get_count'), mk(T.SetCount, 'set_count'),
              SigCompatible().rkey('Tape.sig_compatible'), Blocks(), Init('Tape', 'init'), Init('Tape', 'init_stepped'), Init('HeadTape', 'init_stepped'),
              HeadStep(), HeadEdge(), EnumStep(), EnumFrom(),
              *(EnumObserve(n) for n in ('get_count', 'set_count', 'scan', 'offsets', 'edges', 'signature'))):
        out[c.key] = c
    return out
