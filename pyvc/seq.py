"""Sequences of unknown length: element k is computed by a function of the symbolic index k."""
from __future__ import annotations
import z3
from .values import *
from .engine import Ext, Frame, LoopIter, SB, SI, SliceV, zbool, PathEnd


def term(v):
    return z3.simplify(zint(v)) if not z3.is_expr(v) else z3.simplify(v)


class SeqV(Ext):
    """virtual immutable sequence; kind is the Python type it stands for"""
    def __init__(self, n, fn, kind='tuple', cond=None, label='seq'):
        self.n, self.fn, self.kind, self.cond, self.label = term(n), fn, kind, cond, label

    def __repr__(self):
        return f'Seq({self.label}, {self.n})'

    def at(self, X, k):
        return self.fn(X, term(k))

    def truth(self, X):
        self.plain()
        return SB(self.n > 0)

    def plain(self):
        if self.cond is not None:
            raise Untranslatable('filtered sequence')

    def length(self, X):
        self.plain()
        return SI(self.n)

    def isinstance(self, X, cls):
        return cls.__name__ == self.kind if isinstance(cls, type) else False

    def getitem(self, X, k):
        self.plain()
        if isinstance(k, SliceV):
            return slice_seq(X, self, k)
        t = term(k)
        if X.truth(SB(z3.And(t >= 0, t < self.n))):
            return self.at(X, t)
        if X.truth(SB(z3.And(t < 0, t >= -self.n))):
            return self.at(X, t + self.n)
        raise PyRaise(IndexError, ())

    def loop_iter(self, X):
        self.plain()
        return LoopIter(lambda i: i < self.n, lambda X, i: self.at(X, i), 'seq')

    def to_tuple(self, X):
        self.plain()
        return SeqV(self.n, self.fn, 'tuple', label=self.label)

    def to_list(self, X):
        self.plain()
        return Lst([], SeqTail(SeqV(self.n, self.fn, 'list', label=self.label)))

    # ---- quantified uses: instances are taken on demand
    def holds(self, X, k):
        """truth of element k (python bool, may fork), under its filter"""
        if self.cond is not None and not X.truth(self.cond(X, k)):
            return True
        return X.truth(self.at(X, k))

    def all(self, X):
        if X.choose(2, f'all({self.label})') == 0:
            X.ghost.setdefault('forall', []).append((self, True))
            return True
        w = X.fresh('witness')
        X.assume(z3.And(w >= 0, w < self.n))
        if self.holds(X, w):
            raise PathEnd
        X.ghost.setdefault('witness', []).append((self, w))
        return False

    def any(self, X):
        if X.choose(2, f'any({self.label})') == 0:
            w = X.fresh('witness')
            X.assume(z3.And(w >= 0, w < self.n))
            if self.cond is not None and not X.truth(self.cond(X, w)):
                raise PathEnd
            if not X.truth(self.at(X, w)):
                raise PathEnd
            X.ghost.setdefault('witness', []).append((self, w))
            return True
        X.ghost.setdefault('forall', []).append((self, False))
        return False

    def next(self, X, default):
        """the first element the filter lets through (of a generator nothing was taken from yet)"""
        if self.kind != 'gen' or getattr(self, 'taken', False):
            raise Untranslatable('next')
        self.taken = True
        none = None if self.cond is None else lambda X, k: not X.truth(self.cond(X, k))
        if X.choose(2, f'next({self.label})') == 0:
            w = X.fresh('witness') if none else z3.IntVal(0)
            X.assume(z3.And(w >= 0, w < self.n))
            if none:
                if none(X, w):
                    raise PathEnd
                before = SeqV(w, none, 'gen', label=f'before next({self.label})')
                before.source = self
                X.ghost.setdefault('forall', []).append((before, True))
                X.ghost.setdefault('witness', []).append((self, w))
            return self.at(X, w)
        if none:
            before = SeqV(self.n, none, 'gen', label=f'no next({self.label})')
            before.source = self
            X.ghost.setdefault('forall', []).append((before, True))
        else:
            X.assume(self.n == 0)
        if not default:
            raise PyRaise(StopIteration, ())
        return default[0]

    def sum(self, X, start):
        s = X.fresh('sum')
        X.ghost.setdefault('sums', []).append((s, self))
        return SI(z3.simplify(zint(start) + s))

    def extreme(self, X, op, **k):
        """max/min: an element, and a bound of all of them"""
        some = X.choose(2, f'{self.label} is not empty') == 0
        if not some:
            X.ghost.setdefault('forall', []).append((SeqV(self.n, lambda X, k: False, 'gen', self.cond, label='none'), True))
            if self.cond is None:
                X.assume(self.n == 0)
            if 'default' in k:
                return k['default']
            raise PyRaise(ValueError, ())
        m, w = X.fresh('extreme'), X.fresh('witness')
        X.assume(z3.And(w >= 0, w < self.n))
        if self.cond is not None and not X.truth(self.cond(X, w)):
            raise PathEnd
        X.assume(zint(self.at(X, w)) == m)
        X.ghost.setdefault('witness', []).append((self, w))
        X.ghost.setdefault('forall', []).append((SeqV(self.n, lambda X, k: SB(
            zint(self.at(X, k)) >= m if op == '<' else zint(self.at(X, k)) <= m), 'gen', self.cond, label='bound'), True))
        return SI(m)

    def reversed(self, X):
        n, fn = self.n, self.fn
        self.plain()
        return SeqV(n, lambda X, k: fn(X, n - 1 - k), 'gen', label=f'rev {self.label}')

    def compare(self, X, op, other, refl):
        """== of sequences: equal lengths and equal elements (universal fact / witness)"""
        if op not in ('==', '!='):
            raise Untranslatable('order of sequences')
        o = as_seq(X, other)
        if o is None:
            r = False
        else:
            r = seq_eq(X, self, o)
        return r if op == '==' else not r


def seq_eq(X, a, b):
    a.plain()
    b.plain()
    if not X.truth(SB(a.n == b.n)):
        return False
    eq = SeqV(a.n, lambda X, k: X.eq(a.at(X, k), b.at(X, k)), 'gen', label=f'{a.label}=={b.label}')
    return eq.all(X)


def instantiate(X, k):
    """use every universal fact of the path at index k"""
    for s, want in list(X.ghost.get('forall', ())):
        if not X.truth(SB(z3.And(k >= 0, k < s.n))):
            continue
        if want:
            if not s.holds(X, k):
                raise PathEnd
        else:
            if s.cond is not None and not X.truth(s.cond(X, k)):
                continue
            if X.truth(s.at(X, k)):
                raise PathEnd


def slice_seq(X, s, sl):
    if sl.step is not None and sl.step != 1:
        if sl.step == -1 and sl.lo is None and sl.hi is None:
            r = s.reversed(X)
            r.kind = s.kind
            return r
        raise Untranslatable('slice step')
    lo = z3.IntVal(0) if sl.lo is None else term(sl.lo)
    n = s.n

    def clamp(t):
        if z3.is_int_value(t) and t.as_long() >= 0:
            return z3.If(t <= n, t, n)
        return z3.If(t >= 0, z3.If(t <= n, t, n), z3.If(t + n >= 0, t + n, 0))
    lo_ = clamp(lo)
    hi_ = n if sl.hi is None else clamp(term(sl.hi))
    m = z3.If(hi_ >= lo_, hi_ - lo_, 0)
    lo_ = z3.simplify(lo_)
    r = SeqV(m, lambda X, k: s.at(X, lo_ + k), s.kind, label=f'{s.label}[:]')
    return r


class SeqTail:
    """the rest, from index off, of a sequence, as the tail of a mutable list"""
    lazy = True

    def __init__(self, seq, off=0):
        self.seq, self.off = seq, off
        self.next = None
        self.decided = None
        self.item = None

    def __str__(self):
        return f'{self.seq.label}[{self.off}:]'

    def nonempty(self, X, l):
        if self.decided is None:
            self.decided = X.branch(self.seq.n > self.off, f'{self.seq.label}>{self.off}')
            if self.decided:
                self.item = self.seq.at(X, z3.IntVal(self.off))
                self.next = SeqTail(self.seq, self.off + 1)
        if not self.decided:
            l.tail = None
            return False
        l.items.append(self.item)
        l.tail = self.next
        return True

    def length(self, X, l):
        return SI(z3.simplify(len(l.items) + self.seq.n - self.off))

    def at(self, X, l, k):
        t = term(k)
        for i in range(len(l.items)):
            if X.branch(t == i):
                return l.items[i]
        m = len(l.items)
        if X.branch(z3.And(t >= m, t - m + self.off < self.seq.n)):
            return self.seq.at(X, t - m + self.off)
        n = m + self.seq.n - self.off
        if X.branch(z3.And(t < 0, t >= -n)):
            return self.at(X, l, SI(z3.simplify(t + n)))
        raise PyRaise(IndexError, ())

    def as_seq(self, l):
        m, off, items, seq = len(l.items), self.off, list(l.items), self.seq

        def fn(X, k):
            for i in range(m):
                if X.branch(k == i):
                    return items[i]
            return seq.at(X, z3.simplify(k - m + off))
        return SeqV(z3.simplify(m + seq.n - off), fn, 'list', label=f'{seq.label}')

    def slice(self, X, l, lo, hi):
        r = slice_seq(X, self.as_seq(l), SliceV(lo, hi, None))
        return Lst([], SeqTail(r))

    def loop_iter(self, X, l):
        return self.as_seq(l).loop_iter(X)

    def to_tuple(self, X, l):
        return self.as_seq(l).to_tuple(X)


def as_seq(X, v):
    if isinstance(v, SeqV):
        return v
    if isinstance(v, Lst):
        if v.tail is None:
            return const_seq(v.items, 'list')
        return v.tail.as_seq(v)
    if isinstance(v, tuple):
        return const_seq(v, 'tuple')
    f = getattr(v, 'as_seq', None)
    return f(X) if f else None


def const_seq(items, kind):
    items = list(items)

    def fn(X, k):
        for i in range(len(items) - 1):
            if X.branch(k == i):
                return items[i]
        if not items:
            raise PathEnd
        return items[-1]
    return SeqV(z3.IntVal(len(items)), fn, kind, label='items')


def concat(parts):
    n = z3.simplify(sum((p.n for p in parts), z3.IntVal(0)))

    def pick(X, k):
        off = z3.IntVal(0)
        for p in parts[:-1]:
            if X.branch(k < off + p.n):
                return p, z3.simplify(k - off)
            off = off + p.n
        return parts[-1], z3.simplify(k - off)

    def fn(X, k):
        p, j = pick(X, k)
        return p.at(X, j)
    cond = None
    if any(p.cond is not None for p in parts):
        def cond(X, k):
            p, j = pick(X, k)
            return True if p.cond is None else p.cond(X, j)
    return SeqV(n, fn, 'gen', cond, label='+'.join(p.label for p in parts))


class SymDict(Ext):
    """dict built by a comprehension over collections of unknown length; keys are compared by their index"""
    def __init__(self, parts):
        self.parts = parts
        self.over = []              # later writes, newest first

    def find(self, X, key):
        for k, v in self.over:
            if X.truth(X.eqb(k, key)):
                return True, v
        j = getattr(key, 'index', None)
        if j is None:
            raise Untranslatable('lookup in a dict of unknown size')
        for p in reversed(self.parts):
            if not X.truth(SB(z3.And(j >= 0, j < p.n))):
                continue
            if p.cond is not None and not X.truth(p.cond(X, j)):
                continue
            k, v = p.at(X, j)
            if X.truth(X.eqb(k, key)):
                return True, v
        return False, None

    def getitem(self, X, k):
        ok, v = self.find(X, k)
        if not ok:
            raise PyRaise(KeyError, (k,))
        return v

    def contains(self, X, k):
        return self.find(X, k)[0]

    def getattr(self, X, name):
        if name == 'get':
            def get(X, a, kw):
                ok, v = self.find(X, a[0])
                return v if ok else (a[1] if len(a) > 1 else None)
            return get
        raise Untranslatable(f'dict.{name}')

    def isinstance(self, X, cls):
        return cls is dict


class SeqDomain:
    """domain part for unknown-length sequences"""
    externs = {}

    def opaque_comp(self, X, e, gens, fr, first, inner, kind):
        if len(gens) != 1:
            return self.opaque_comp_many(X, e, gens, fr, first, inner, kind)
        src = as_seq(X, first)
        if src is None:
            raise Untranslatable('comprehension over an opaque collection')
        g = gens[0]
        isdict = kind.rstrip('*') == 'dict'
        elt = (e.key, e.value) if isdict else e.elt

        heap = X.heap_writes

        def frame(X, k):
            f = Frame(fr.module, parent=inner, comp=False, qual=fr.qual)
            X.assign(g.target, src.at(X, k), f)
            return f

        def fn(X, k):
            return X.lazily(heap, lambda: fn_(X, k))

        def fn_(X, k):
            f = frame(X, k)
            if isdict:
                return X.eval(elt[0], f), X.eval(elt[1], f)
            return X.eval(elt, f)
        cond = None
        if g.ifs or src.cond is not None:
            def cond(X, k):
                return X.lazily(heap, lambda: cond_(X, k))

            def cond_(X, k):
                if src.cond is not None and not X.truth(src.cond(X, k)):
                    return False
                f = frame(X, k)
                r = True
                for c in g.ifs:
                    v = X.eval(c, f)
                    r = v if r is True else X.conj([r, v])
                return r
        s = SeqV(src.n, fn, 'gen', cond, label='gen')
        s.source = src
        if kind == 'dict':
            return SymDict([s])
        if kind == 'list':
            return s.to_list(X) if cond is None else s
        return s

    def concat(self, X, parts, kind):
        if kind == 'dict':
            return SymDict([p if isinstance(p, SeqV) else const_seq([p], 'gen') for p in parts])
        if kind == 'set':
            raise Untranslatable('set of unknown size')
        s = concat([p if isinstance(p, SeqV) else const_seq([p], 'gen') for p in parts])
        return s.to_list(X) if kind == 'list' else s

    def opaque_comp_many(self, X, e, gens, fr, first, inner, kind):
        raise Untranslatable('nested comprehension over an opaque collection')

    def enumerate(self, X, v, start):
        s = as_seq(X, v)
        if s is None:
            raise Untranslatable('enumerate')
        st = term(start)
        return SeqV(s.n, lambda X, k: (SI(z3.simplify(st + k)), s.at(X, k)), 'gen', s.cond, label=f'enum {s.label}')

    def zip(self, X, a):
        from .engine import CountV
        if any(isinstance(v, CountV) for v in a) and not all(isinstance(v, CountV) for v in a):
            known = [as_seq(X, v) for v in a if not isinstance(v, CountV)]
            if all(s is not None for s in known):
                n = known[0].n
                a = [SeqV(n, lambda X, k, v=v: SI(term(v.start) + k), 'gen', label='count') if isinstance(v, CountV) else v for v in a]
        ss = [as_seq(X, v) for v in a]
        if any(s is None for s in ss):
            raise Untranslatable('zip')
        for s in ss:
            s.plain()
        n = ss[0].n
        for s in ss[1:]:
            n = z3.If(s.n < n, s.n, n)
        return SeqV(n, lambda X, k: tuple(s.at(X, k) for s in ss), 'gen', label='zip')

    def tuple_repeat(self, X, t, n):
        s = as_seq(X, t)
        m = len(t)
        if m == 1:
            return SeqV(z3.If(term(n) >= 0, term(n), 0), lambda X, k: t[0], 'tuple', label='repeat')
        raise Untranslatable('tuple repeat')
