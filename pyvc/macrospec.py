"""Contracts of tm/macro.py.

The base machine is a partial function slot -> instruction (has, write, right, next), or a machine whose lookup may raise
MacroInfLoop.  reach(k, q, p, A): at least k base instructions after the start inside the window, the state is q, the head on
cell p (-1 or n: just outside) and the window contents A.  Its defining steps are unfolded where an invariant is assumed."""
from __future__ import annotations
import ast
import z3
from .values import *
from .engine import Contract, Ext, SB, SI, PathEnd, LoopSpec, SliceV, zbool
from .seq import SeqV, SeqDomain, as_seq, term, concat, const_seq

MACRO = 'tm/macro.py'
I, B = z3.IntSort(), z3.BoolSort()
A = z3.ArraySort(I, I)
HAS, INF, SH = [z3.Function(n, I, I, B) for n in ('has', 'inf', 'right')]
WR, NX = [z3.Function(n, I, I, I) for n in ('write', 'next')]
REACH = z3.Function('reach', I, I, I, A, B)
REACHED = z3.Function('reached', I, I, A, B)
INSIDE = z3.Function('inside', I, B)
STUCK = z3.Function('stuck', I, I, B)
BELOW = z3.Bool('loop_below')
DIGITS = z3.Function('digits', I, A)          # the cells a macro colour stands for


class BaseProg(Ext):
    """any machine one level below: instruction, KeyError(slot) or MacroInfLoop"""
    def __init__(self, X, label='base', inf=True):
        self.label, self.inf = label, inf

    def getitem(self, X, k):
        if not (isinstance(k, tuple) and len(k) == 2):
            raise Untranslatable('slot')
        q, c = zint(k[0]), zint(k[1])
        if X.truth(SB(INF(q, c))):
            raise PyRaise(X.world.class_val(X.world.by_path(MACRO), 'MacroInfLoop'), ())
        if not X.truth(SB(HAS(q, c))):
            raise PyRaise(KeyError, (k,))
        return SI(WR(q, c)), SB(SH(q, c)), SI(NX(q, c))

    def isinstance(self, X, cls):
        return X.choose(2, 'program is a dict') == 0 if cls is dict else False


class ArrTuple(SeqV):
    """tuple of cells"""
    def __init__(self, n, arr):
        super().__init__(n, lambda X, k: SI(z3.Select(arr, k)), 'tuple', label='cells')
        self.arr = arr

    def to_list(self, X):
        return ArrList(self.n, self.arr)

    def to_tuple(self, X):
        return self

    def binop(self, X, op, other, refl):
        return join_seq(X, op, self, other, refl)


def join_seq(X, op, a, b, refl):
    if op != '+':
        raise Untranslatable(f'{op} of tuples')
    b = as_seq(X, b)
    if b is None:
        raise Untranslatable('tuple + other')
    r = concat([b, a] if refl else [a, b])
    r.kind = 'tuple'
    return Joined(r.n, r.fn, 'tuple', label='joined')


class Joined(SeqV):
    def binop(self, X, op, other, refl):
        return join_seq(X, op, self, other, refl)

    def to_tuple(self, X):
        return self


class ArrList(Ext):
    """mutable list of cells of unknown length"""
    def __init__(self, n, arr):
        self.n, self.arr = n, arr

    def index(self, X, k):
        t = term(k)
        if X.truth(SB(z3.And(t >= 0, t < self.n))):
            return t
        if X.truth(SB(z3.And(t < 0, t >= -self.n))):
            return z3.simplify(t + self.n)
        raise PyRaise(IndexError, ())

    def getitem(self, X, k):
        if isinstance(k, SliceV):
            return self.as_seq(X).getitem(X, k)
        return SI(z3.Select(self.arr, self.index(X, k)))

    def setitem(self, X, k, v):
        i = self.index(X, k)
        X.heap_writes += 1
        self.arr = z3.Store(self.arr, i, zint(v))

    def as_seq(self, X):
        return ArrTuple(self.n, self.arr)

    def to_tuple(self, X):
        return ArrTuple(self.n, self.arr)

    def to_list(self, X):
        return ArrList(self.n, self.arr)

    def length(self, X):
        return SI(self.n)

    def truth(self, X):
        return SB(self.n > 0)

    def isinstance(self, X, cls):
        return cls is list

    def compare(self, X, op, other, refl):
        return self.as_seq(X).compare(X, op, other, refl)

    def loop_iter(self, X):
        return self.as_seq(X).loop_iter(X)


class MacroDomain(SeqDomain):
    def reset(self, X):
        pass

    def identity(self, X, v):
        return None

    def global_override(self, X, mod, name):
        if name in ('CONVERTERS', 'BLOCKS', 'BACKSYMS') and X.contract.key.split(':')[0] == MACRO:
            c = X.ghost.setdefault('caches', {})
            if name not in c:
                c[name] = Outer(X, name)
            return c[name]
        return None

    def owns_class(self, X, cv):
        return False

    def tuple_repeat(self, X, t, n):
        v = t[0]
        if len(t) != 1 or not is_int(v):
            raise Untranslatable('tuple repeat')
        m = term(n)
        return ArrTuple(z3.If(m >= 0, m, 0), z3.K(I, zint(v)))

    @property
    def externs(self):
        return {'tm.rust_stuff.tcompile': tcompile, 'tm.rust_stuff.py_opt_block': opt_block}


# ------------------------------------------------------------------ running inside the window
def unfold(X, n, k, q, p, a, depth=2):
    """what reach(k, q, p, a) implies: the next instruction"""
    out = [z3.Implies(REACH(k, q, p, a), REACHED(q, p, a))]
    c = z3.Select(a, p)
    ins = z3.And(REACH(k, q, p, a), 0 <= p, p < n)
    out.append(z3.Implies(ins, INSIDE(k)))
    out.append(z3.Implies(z3.And(ins, z3.Not(HAS(q, c)), z3.Not(INF(q, c))), STUCK(q, c)))
    out.append(z3.Implies(z3.And(ins, INF(q, c)), BELOW))
    k2, q2, p2, a2 = k + 1, NX(q, c), p + z3.If(SH(q, c), 1, -1), z3.Store(a, p, WR(q, c))
    out.append(z3.Implies(z3.And(ins, HAS(q, c), z3.Not(INF(q, c))), REACH(k2, q2, p2, a2)))
    for f in out:
        X.assume(f)
    if depth > 1:
        unfold(X, n, k2, q2, p2, a2, depth - 1)


def start(X):
    n, q = X.fresh('cells'), X.fresh('q')
    X.assume(n >= 1)
    a = X.fresh('tape', A)
    right = SB(X.fresh('right_edge', 'bool'))
    return n, q, a, right


def the_tape(fr):
    ts = [v for v in fr.vars.values() if isinstance(v, ArrList)]
    return ts[0] if len(ts) == 1 else None


class Walk(LoopSpec):
    """the state, the head and the cells are those of the base machine, at least as many instructions on as iterations"""
    name = 'walk'
    roles = ('state', 'pos')

    def applies(self, X, node, fr, it):
        return the_tape(fr) is not None and 'walk' in X.ghost

    def pre(self, X, L):
        L.tape = the_tape(L.fr)
        L.k0, L.n = X.ghost['walk'], X.ghost['cells']
        L.q0, L.p0, L.a0 = zint(L.get('state')), zint(L.get('pos')), L.tape.arr

    def havoc(self, X, L, names):
        super().havoc(X, L, names)
        L.tape.arr = X.fresh('tape', A)

    def conf(self, L):
        return zint(L.get('state')), zint(L.get('pos')), L.tape.arr

    def inv(self, X, L):
        q, p, a = self.conf(L)
        return [('reach', REACH(L.k0 + L.idx, q, p, a)),
                ('inside', z3.And(0 <= p, p < L.n)),
                ('untouched', z3.Implies(L.idx == 0, z3.And(q == L.q0, p == L.p0, a == L.a0)))]

    def inv_assume(self, X, L):
        q, p, a = self.conf(L)
        unfold(X, L.n, L.k0 + L.idx, q, p, a)
        X.ghost['walk'] = L.k0 + L.idx
        L.head = q, p, a
        return []

    def step(self, X, L):
        q, p, a = self.conf(L)
        kc, j = X.ghost['walk'], L.k0 + L.idx
        for d in range(4):
            X.assume(z3.Implies(z3.And(REACH(kc + d, q, p, a), j <= kc + d), REACH(j, q, p, a)))

    def on_exit(self, X, L):
        X.ghost['walk'] = L.k0 + L.idx


class RunSimulator(Contract):
    key = f'{MACRO}:MacroProg.run_simulator'
    total = True
    raises = ('KeyError', 'MacroInfLoop')

    def setup(self, X):
        n, q, a, right = start(X)
        o = Obj(X.world.class_val(X.world.by_path(MACRO), 'MacroProg'))
        lim = X.fresh('sim_lim')
        X.assume(lim >= 0)
        o.attrs.update(comp=BaseProg(X), sim_lim=SI(lim), logic=Opaque('logic'), instrs=Opaque('instrs'))
        p = z3.If(right.e, n - 1, 0)
        X.ghost.update(cells=n, walk=z3.IntVal(0), lim=lim)
        X.assume(REACH(0, q, p, a))
        unfold(X, n, z3.IntVal(0), q, p, a)
        return [o, (SI(q), (right, ArrTuple(n, a)))]

    def post(self, X, args, res):
        ok = isinstance(res, tuple) and len(res) == 2 and isinstance(res[1], tuple) and len(res[1]) == 2
        X.prove('shape', ok)
        q, (right, tape) = res
        t = as_seq(X, tape)
        X.prove('is-tuple', t is not None and isinstance(t, ArrTuple))
        n = X.ghost['cells']
        X.prove('width', t.n == n)
        X.prove('exit', REACHED(zint(q), z3.If(zbool(right), n, -1), t.arr))

    def exc(self, X, args, e):
        if e.name == 'KeyError':
            s = e.args_[0] if e.args_ else None
            if not (isinstance(s, tuple) and len(s) == 2):
                X.prove('undefined-slot', False)
            X.prove('undefined-slot', STUCK(zint(s[0]), zint(s[1])))
        elif e.name == 'MacroInfLoop':
            X.prove('loop-claim', z3.Or(BELOW, INSIDE(X.ghost['lim'])))
        else:
            super().exc(X, args, e)

    def apply(self, X, args, kw):
        """the window run as a relation: recorded for the caller's postcondition"""
        _, (q, (right, cells)) = args
        s = as_seq(X, cells)
        if s is None:
            raise Untranslatable('window')
        k = X.choose(3, 'window run')
        rec = dict(q=zint(q), right=right, cells=s)
        X.ghost['window'] = rec
        if k == 1:
            raise PyRaise(KeyError, ((SI(X.fresh('uq')), SI(X.fresh('uc'))),))
        if k == 2:
            raise PyRaise(X.world.class_val(X.world.by_path(MACRO), 'MacroInfLoop'), ())
        rec['q2'], rec['right2'], rec['arr2'] = X.fresh('q2'), X.fresh('right2', 'bool'), X.fresh('cells2', A)
        return SI(rec['q2']), (SB(rec['right2']), ArrTuple(s.n, rec['arr2']))


# ------------------------------------------------------------------ encodings
def converter(X, colors, cells):
    o = Obj(X.world.class_val(X.world.by_path(MACRO), 'TapeColorConverter'))
    o.attrs.update(base_colors=SI(colors), color_to_tape_cache=CacheC2T(X, colors, cells),
                   tape_to_color_cache=CacheT2C(X, colors, cells))
    o.ghost['cells'] = cells
    return o


class CacheT2C(Ext):
    """tape -> colour: every entry is the tape's value in base `colors`"""
    def __init__(self, X, colors, cells):
        self.colors, self.cells, self.writes = colors, cells, []

    def lookup(self, X, k):
        s = as_seq(X, k)
        if s is None:
            raise Untranslatable('cache key')
        for key, v in reversed(self.writes):
            if key is k or X.truth(X.eqb(as_seq(X, key), s)):
                return True, v
        if X.choose(2, 'tape known'):
            return False, None
        v = X.fresh('known')
        X.ghost.setdefault('value_of', []).append((v, s))
        return True, SI(v)

    def getattr(self, X, name):
        if name == 'get':
            def get(X, a, kw):
                ok, v = self.lookup(X, a[0])
                return v if ok else (a[1] if len(a) > 1 else None)
            return get
        raise Untranslatable(f'cache.{name}')

    def getitem(self, X, k):
        ok, v = self.lookup(X, k)
        if not ok:
            raise PyRaise(KeyError, (k,))
        return v

    def contains(self, X, k):
        return self.lookup(X, k)[0]

    def setitem(self, X, k, v):
        X.heap_writes += 1
        self.writes.append((k, v))


class CacheC2T(CacheT2C):
    """colour -> tape: every entry has the colour as its value"""
    def lookup(self, X, k):
        for key, v in reversed(self.writes):
            if X.truth(X.eqb(key, k)):
                return True, v
        if X.choose(2, 'colour known'):
            return False, None
        return True, ArrTuple(self.cells, DIGITS(zint(k)))


def is_value(X, c, s):
    """colour c is known to be the value of tape s (the same sequence)"""
    for v, t in X.ghost.get('value_of', ()):
        if z3.eq(z3.simplify(zint(c)), z3.simplify(v)) and (t is s or same_cells(X, t, s)):
            return True
    for v, item in X.ghost.get('sums', ()):
        if z3.eq(z3.simplify(zint(c)), z3.simplify(v)):
            return ('sum', item)
    return False


def same_cells(X, s, t):
    if not X.prover_ok(s.n == t.n):
        return False
    k = X.fresh('cell')
    X.assume(z3.And(k >= 0, k < s.n))
    return X.prover_ok(zint(s.at(X, k)) == zint(t.at(X, k)))


class TapeToColor(Contract):
    key = f'{MACRO}:TapeColorConverter.tape_to_color'
    total = True

    def setup(self, X):
        n, b = X.fresh('cells'), X.fresh('colors')
        X.assume(z3.And(n >= 1, b >= 1))
        o = converter(X, b, n)
        a = X.fresh('tape', A)
        X.ghost['args'] = (b, n, a)
        t = ArrTuple(n, a)
        return [o, t]

    def prove_value(self, X, c, name):
        b, n, a = X.ghost['args']
        t = ArrTuple(n, a)
        r = is_value(X, c, t)
        if isinstance(r, tuple):
            s = r[1]
            if s.cond is not None:
                X.prove(f'{name}.all-cells', False)
            X.prove(f'{name}.all-cells', s.n == n)
            k = X.fresh('place')
            X.assume(z3.And(k >= 0, k < n))
            X.prove(f'{name}.positional', zint(s.at(X, k)) ==
                    z3.Select(a, n - 1 - k) * X.pow(b, k))
            return
        X.prove(f'{name}.value', r)

    def post(self, X, args, res):
        o, t = args
        self.prove_value(X, res, 'result')
        t2c, c2t = o.attrs['tape_to_color_cache'], o.attrs['color_to_tape_cache']
        new = not any(v is not None and z3.eq(z3.simplify(zint(res)), z3.simplify(v)) for v, _ in X.ghost.get('value_of', ()))
        for k, v in getattr(t2c, 'writes', [(None, None)]):
            s = as_seq(X, k)
            X.prove('cache.tape', s is not None and same_cells(X, s, ArrTuple(*X.ghost['args'][1:])))
            X.prove('cache.colour', zint(v) == zint(res))
        for k, v in getattr(c2t, 'writes', [(None, None)]):
            s = as_seq(X, v)
            X.prove('cache.tape', s is not None and same_cells(X, s, ArrTuple(*X.ghost['args'][1:])))
            X.prove('cache.colour', zint(k) == zint(res))
        if new:
            X.prove('decodable', len(getattr(c2t, 'writes', ())) > 0)
        X.prove('base-kept', z3.eq(zint(o.attrs['base_colors']), X.ghost['args'][0]))

    def apply(self, X, args, kw):
        o, t = args
        s = as_seq(X, t)
        if s is None:
            raise Untranslatable('tape_to_color')
        v = X.fresh('colour')
        X.ghost.setdefault('value_of', []).append((v, s))
        return SI(v)


HORNER = z3.Function('macro.value', A, I, I, I, I)     # first i cells of a tape read as a number in base b


class Horner(LoopSpec):
    """the accumulator is the number written in the cells seen so far (from the front)"""
    name = 'value'
    roles = ('color',)

    def applies(self, X, node, fr, it):
        return X.contract.key == TapeToColor.key and isinstance(node, ast.For) and self.source(X, it) is not None

    def source(self, X, it):
        b, n, a = X.ghost['args']
        s = as_seq(X, it)
        return s if s is not None and s.cond is None and same_cells(X, s, ArrTuple(n, a)) else None

    def pre(self, X, L):
        b, n, a = X.ghost['args']
        X.assume(HORNER(a, b, n, 0) == 0)

    def inv(self, X, L):
        b, n, a = X.ghost['args']
        return [('value', zint(L.get('color')) == HORNER(a, b, n, L.idx)), ('bound', z3.And(0 <= L.idx, L.idx <= n))]

    def step(self, X, L):
        b, n, a = X.ghost['args']
        i = L.idx - 1
        X.assume(HORNER(a, b, n, i + 1) == HORNER(a, b, n, i) * b + z3.Select(a, i))

    def on_exit(self, X, L):
        b, n, a = X.ghost['args']
        v = X.fresh('value')
        X.assume(v == zint(L.get('color')))
        X.assume(v == HORNER(a, b, n, n))
        X.ghost.setdefault('value_of', []).append((v, ArrTuple(n, a)))
        X.assign_name(L.name('color'), SI(v), L.fr)


class Weights(Horner):
    """the accumulator is the number written in the cells seen so far (from the back), the other the weight of the next"""
    name = 'weighted'
    roles = ('color', 'weight')

    def source(self, X, it):
        b, n, a = X.ghost['args']
        s = as_seq(X, it)
        return s if s is not None and s.cond is None and same_cells(X, s, ArrTuple(n, a).reversed(X)) else None

    def inv(self, X, L):
        return super().inv(X, L) + [('weight', zint(L.get('weight')) == self.weight(X, L.idx))]

    def weight(self, X, i):
        b, n, a = X.ghost['args']
        w = z3.Function('macro.weight', I, I, I)
        X.assume(w(b, 0) == 1)
        X.assume(z3.Implies(i >= 1, w(b, i) == w(b, i - 1) * b))
        return w(b, i)

    def step(self, X, L):
        b, n, a = X.ghost['args']
        i = L.idx - 1
        X.assume(HORNER(a, b, n, i + 1) == HORNER(a, b, n, i) + z3.Select(a, n - 1 - i) * self.weight(X, i))


class ColorToTape(Contract):
    key = f'{MACRO}:TapeColorConverter.color_to_tape'

    def setup(self, X):
        n, b = X.fresh('cells'), X.fresh('colors')
        X.assume(z3.And(n >= 1, b >= 1))
        X.ghost['args'] = (b, n)
        return [converter(X, b, n), X.fresh_int('colour')]

    def post(self, X, args, res):
        o, c = args
        s = as_seq(X, res)
        X.prove('is-tape', s is not None)
        X.prove('cells-of-colour', same_cells(X, s, ArrTuple(X.ghost['args'][1], DIGITS(c.e))))
        X.prove('frame', not o.attrs['color_to_tape_cache'].writes and not o.attrs['tape_to_color_cache'].writes)

    def apply(self, X, args, kw):
        o, c = args
        return ArrTuple(o.ghost['cells'], DIGITS(zint(c)))


class ConverterInit(Contract):
    key = f'{MACRO}:TapeColorConverter.__init__'
    inline = True

    def setup(self, X):
        n, b = X.fresh('cells'), X.fresh('colors')
        X.assume(z3.And(n >= 1, b >= 1))
        X.ghost['args'] = (b, n)
        o = Obj(X.world.class_val(X.world.by_path(MACRO), 'TapeColorConverter'))
        return [o, SI(b), SI(n)]

    def post(self, X, args, res):
        prove_converter(X, args[0], *X.ghost['args'])


def prove_converter(X, o, b, n, name=''):
    """o converts between colours in base b and n cells; its caches hold nothing or what converter() assumes"""
    ok = isinstance(o, Obj) and o.cls.name == 'TapeColorConverter'
    X.prove(f'{name}converter', ok)
    X.prove(f'{name}base', zint(o.attrs.get('base_colors', -1)) == b)
    c = o.attrs.get('color_to_tape_cache')
    if isinstance(c, CacheC2T):
        X.prove(f'{name}width', c.cells == n)
        return
    t = o.attrs.get('tape_to_color_cache')
    X.prove(f'{name}empty', isinstance(t, Dct) and not t.d)
    X.prove(f'{name}blank-known', isinstance(c, Dct) and set(c.d) == {0})
    z = as_seq(X, c.d[0])
    X.prove(f'{name}blank-known', z is not None)
    X.prove(f'{name}width', z.n == n)
    k = X.fresh('cell')
    X.assume(z3.And(k >= 0, k < n))
    X.prove(f'{name}blank-cells', zint(z.at(X, k)) == 0)


class Outer(Ext):
    """the module-level caches: two-level dicts whose entries answer to their keys"""
    def __init__(self, X, name):
        self.name = name

    def getitem(self, X, k):
        return Inner(self.name, k)


class Inner(Ext):
    def __init__(self, name, key):
        self.name, self.key = name, key

    def memory(self, X):
        return X.ghost.setdefault('cache_memory', {}).setdefault(self.name, [])

    def entry(self, X, k):
        for key, kk, v in reversed(self.memory(X)):
            if X.truth(X.eqb(key, self.key)) and X.truth(X.eqb(kk, k)):
                return v
        v = self.unknown(X, k)
        self.memory(X).append((self.key, k, v))
        return v

    def unknown(self, X, k):
        if X.choose(2, f'{self.name} known'):
            return None
        if self.name == 'CONVERTERS':
            return converter(X, zint(self.key), zint(k))
        S, C = [zint(v) for v in self.key]
        return logic_obj(X, 'BlockLogic' if self.name == 'BLOCKS' else 'BacksymbolLogic', S, C, zint(k))

    def getattr(self, X, name):
        if name == 'get':
            def get(X, a, kw):
                r = self.entry(X, a[0])
                return r if r is not None else (a[1] if len(a) > 1 else None)
            return get
        raise Untranslatable(f'cache.{name}')

    def getitem(self, X, k):
        r = self.entry(X, k)
        if r is None:
            raise PyRaise(KeyError, (k,))
        return r

    def contains(self, X, k):
        return self.entry(X, k) is not None

    def setitem(self, X, k, v):
        self.memory(X).append((self.key, k, v))
        if self.name == 'CONVERTERS':
            prove_converter(X, v, zint(self.key), zint(k), 'cached.')
        else:
            S, C = [zint(x) for x in self.key]
            prove_logic(X, v, 'BlockLogic' if self.name == 'BLOCKS' else 'BacksymbolLogic', S, C, zint(k), 'cached.')


class MakeConverter(Contract):
    key = f'{MACRO}:make_converter'

    def setup(self, X):
        n, b = X.fresh('cells'), X.fresh('colors')
        X.assume(z3.And(n >= 1, b >= 1))
        return [SI(b), SI(n)]

    def post(self, X, args, res):
        prove_converter(X, res, args[0].e, args[1].e)

    def apply(self, X, args, kw):
        b, n = args
        return converter(X, zint(b), zint(n))


# ------------------------------------------------------------------ the two kinds of macro
def logic_obj(X, cls, S, C, n):
    o = Obj(X.world.class_val(X.world.by_path(MACRO), cls))
    o.attrs.update(cells=SI(n), base_states=SI(S), base_colors=SI(C), converter=converter(X, C, n))
    if cls == 'BacksymbolLogic':
        o.attrs['backsymbols'] = SI(X.pow(C, n))
    X.ghost['logic'] = (S, C, n)
    return o


def prove_logic(X, o, cls, S, C, n, name=''):
    X.prove(f'{name}kind', isinstance(o, Obj) and o.cls.name == cls)
    X.prove(f'{name}cells', zint(o.attrs.get('cells', -1)) == n)
    X.prove(f'{name}states', zint(o.attrs.get('base_states', -1)) == S)
    X.prove(f'{name}colours', zint(o.attrs.get('base_colors', -1)) == C)
    if cls == 'BacksymbolLogic' and 'backsymbols' in o.attrs:
        X.prove(f'{name}backsymbols', zint(o.attrs['backsymbols']) == X.pow(C, n))
    prove_converter(X, o.attrs.get('converter'), C, n, name)


def params(X):
    S, C, n = X.fresh('states'), X.fresh('colors'), X.fresh('cells')
    X.assume(z3.And(S >= 1, C >= 1, n >= 1))
    return S, C, n


def fresh_logic(X, cls):
    return logic_obj(X, cls, *params(X))


class LogicInit(Contract):
    inline = True

    def __init__(self, cls):
        self.cls, self.key = cls, f'{MACRO}:{cls}.__init__'

    def setup(self, X):
        S, C, n = params(X)
        X.ghost['args'] = (S, C, n)
        return [Obj(X.world.class_val(X.world.by_path(MACRO), self.cls)), SI(n), SI(S), SI(C)]

    def post(self, X, args, res):
        prove_logic(X, args[0], self.cls, *X.ghost['args'])


class MakeLogic(Contract):
    def __init__(self, fn, cls):
        self.cls, self.key = cls, f'{MACRO}:{fn}'

    def setup(self, X):
        S, C, n = params(X)
        X.ghost['args'] = (S, C, n)
        return [SI(n), (SI(S), SI(C))]

    def post(self, X, args, res):
        prove_logic(X, res, self.cls, *X.ghost['args'])

    def apply(self, X, args, kw):
        n, p = args
        S, C = X.to_list(p)
        return logic_obj(X, self.cls, zint(S), zint(C), zint(n))


def code_of(X, q, back, side, backsymbols):
    return z3.If(side, 1, 0) + 2 * (back + q * backsymbols)


def decode(X, cls, o, m):
    """(state, side bit, back-symbol number) of macro state m"""
    q, s = X.divmod_terms(m, z3.IntVal(2))
    if cls == 'BlockLogic':
        return q, s, None
    st, back = X.divmod_terms(q, zint(o.attrs['backsymbols']))
    return st, s, back


class Deconstruct(Contract):
    inline = True

    def __init__(self, cls):
        self.cls, self.key = cls, f'{MACRO}:{cls}.deconstruct_inputs'

    def setup(self, X):
        m, c = X.fresh('mstate'), X.fresh('mcolour')
        X.assume(z3.And(m >= 0, c >= 0))
        o = fresh_logic(X, self.cls)
        if 'backsymbols' in o.attrs:
            X.assume(zint(o.attrs['backsymbols']) >= 1)
        return [o, (SI(m), SI(c))]

    def post(self, X, args, res):
        o, (m, c) = args
        q, (right, cells) = res
        check_window(X, self.cls, o, m.e, c.e, zint(q), zbool(right), as_seq(X, cells))


def check_window(X, cls, o, m, c, q, right, s):
    n = zint(o.attrs['cells'])
    st, bit, back = decode(X, cls, o, m)
    X.prove('state', q == st)
    X.prove('is-window', s is not None)
    k = X.fresh('cell')
    X.assume(k >= 0)
    if cls == 'BlockLogic':
        X.prove('side', right == (bit == 1))
        X.prove('width', s.n == n)
        X.assume(k < n)
        X.prove('cells', zint(s.at(X, k)) == z3.Select(DIGITS(c), k))
    else:
        X.prove('side', right == (bit == 0))
        X.prove('width', s.n == n + 1)
        X.assume(k < n + 1)
        head = z3.If(right, n, 0)
        off = z3.If(right, k, k - 1)
        if X.truth(SB(k == head)):
            X.prove('scanned', zint(s.at(X, k)) == c)
        else:
            X.prove('back-span', zint(s.at(X, k)) == z3.Select(DIGITS(back), off))


class Reconstruct(Contract):
    inline = True

    def __init__(self, cls):
        self.cls, self.key = cls, f'{MACRO}:{cls}.reconstruct_outputs'

    def setup(self, X):
        o = fresh_logic(X, self.cls)
        n = zint(o.attrs['cells'])
        q = X.fresh('q')
        X.assume(q >= 0)
        if 'backsymbols' in o.attrs:
            X.assume(zint(o.attrs['backsymbols']) >= 1)
        w = n if self.cls == 'BlockLogic' else n + 1
        return [o, (SI(q), (SB(X.fresh('right', 'bool')), ArrTuple(w, X.fresh('cells', A))))]

    def post(self, X, args, res):
        o, (q, (right, cells)) = args
        check_instr(X, self.cls, o, q.e, right.e, cells, res)


def value_seq(X, v):
    for x, s in X.ghost.get('value_of', ()):
        if z3.eq(z3.simplify(x), z3.simplify(v)):
            return s
    return None


def check_instr(X, cls, o, q, right, cells, res):
    """res is the macro instruction of leaving the window in state q at that side with those cells"""
    X.prove('shape', isinstance(res, tuple) and len(res) == 3)
    color, shift, nxt = res
    n = zint(o.attrs['cells'])
    if cls == 'BlockLogic':
        s = value_seq(X, zint(color))
        X.prove('colour', s is not None and same_cells(X, s, cells))
        X.prove('shift', zbool(shift) == right)
        X.prove('state', zint(nxt) == 2 * q + z3.If(right, 0, 1))
        return
    out = z3.If(right, zint(cells.at(X, z3.IntVal(0))), zint(cells.at(X, n)))
    X.prove('colour', zint(color) == out)
    X.prove('shift', zbool(shift) == z3.Not(right))         # the macro tape is the mirror image
    r = X.truth(SB(right))
    back = [(v, s) for v, s in X.ghost.get('value_of', ())]
    X.prove('back-span', len(back) == 1)
    v, s = back[0]
    a, off = cells, (1 if r else 0)
    X.prove('back-span', same_cells(X, s, SeqV(n, lambda X, k: a.at(X, k + off), 'tuple', label='back')))
    X.prove('state', zint(nxt) == (0 if r else 1) + 2 * (v + q * zint(o.attrs['backsymbols'])))


class CalculateInstr(Contract):
    """the window is the one the slot stands for, the instruction the one its exit stands for"""
    key = f'{MACRO}:MacroProg.calculate_instr'
    total = True
    raises = ('KeyError', 'MacroInfLoop')

    def setup(self, X):
        cls = ('BlockLogic', 'BacksymbolLogic')[X.choose(2, 'kind of macro')]
        o = Obj(X.world.class_val(X.world.by_path(MACRO), 'MacroProg'))
        lg = fresh_logic(X, cls)
        if 'backsymbols' in lg.attrs:
            X.assume(zint(lg.attrs['backsymbols']) >= 1)
        o.attrs.update(comp=BaseProg(X), sim_lim=X.fresh_int('lim'), logic=lg, instrs=SlotCache(X))
        m, c = X.fresh('mstate'), X.fresh('mcolour')
        X.assume(z3.And(m >= 0, c >= 0))
        X.ghost['cls'] = cls
        return [o, (SI(m), SI(c))]

    def exc(self, X, args, e):
        if 'window' not in X.ghost:
            X.prove(f'no-{e.name}', False)
        if e.name not in self.raises:
            X.prove(f'no-{e.name}', False)

    def post(self, X, args, res):
        o, (m, c) = args
        lg, cls, w = o.attrs['logic'], X.ghost['cls'], X.ghost.get('window')
        X.prove('window-run', w is not None)
        check_window(X, cls, lg, m.e, c.e, w['q'], zbool(w['right']), w['cells'])
        check_instr(X, cls, lg, w['q2'], w['right2'], ArrTuple(w['cells'].n, w['arr2']), res)

    def apply(self, X, args, kw):
        o, (m, c) = args
        if X.choose(2, 'macro instruction'):
            raise PyRaise(KeyError, ((X.fresh_int('uq'), X.fresh_int('uc')),)) if X.choose(2, 'why') else \
                PyRaise(X.world.class_val(X.world.by_path(MACRO), 'MacroInfLoop'), ())
        return calc(zint(m), zint(c))


CALC = [z3.Function('calc_colour', I, I, I), z3.Function('calc_shift', I, I, B), z3.Function('calc_state', I, I, I)]


def calc(m, c):
    return SI(CALC[0](m, c)), SB(CALC[1](m, c)), SI(CALC[2](m, c))


class SlotCache(Ext):
    """slot -> instruction: every entry is the calculated one"""
    def __init__(self, X):
        self.writes = []

    def lookup(self, X, k):
        for key, v in reversed(self.writes):
            if X.truth(X.eqb(key, k)):
                return True, v
        if X.choose(2, 'slot known'):
            return False, None
        return True, calc(zint(k[0]), zint(k[1]))

    def getitem(self, X, k):
        ok, v = self.lookup(X, k)
        if not ok:
            raise PyRaise(KeyError, (k,))
        return v

    def contains(self, X, k):
        return self.lookup(X, k)[0]

    def getattr(self, X, name):
        if name == 'get':
            def get(X, a, kw):
                ok, v = self.lookup(X, a[0])
                return v if ok else (a[1] if len(a) > 1 else None)
            return get
        if name == 'setdefault':
            def sd(X, a, kw):
                ok, v = self.lookup(X, a[0])
                if not ok:
                    self.setitem(X, *a)
                    v = a[1]
                return v
            return sd
        raise Untranslatable(f'cache.{name}')

    def setitem(self, X, k, v):
        X.heap_writes += 1
        self.writes.append((k, v))


class GetItem(Contract):
    key = f'{MACRO}:MacroProg.__getitem__'

    def setup(self, X):
        o = Obj(X.world.class_val(X.world.by_path(MACRO), 'MacroProg'))
        o.attrs.update(comp=BaseProg(X), sim_lim=X.fresh_int('lim'), logic=Opaque('logic'), instrs=SlotCache(X))
        return [o, (X.fresh_int('mstate'), X.fresh_int('mcolour'))]

    def post(self, X, args, res):
        o, (m, c) = args
        want = calc(m.e, c.e)
        X.prove('instruction', isinstance(res, tuple) and len(res) == 3)
        X.prove('instruction', X.conj([X.eqb(a, b) for a, b in zip(res, want)]))
        self.cache(X, o)

    def exc(self, X, args, e):
        X.prove('only-from-below', e.name in ('KeyError', 'MacroInfLoop'))
        self.cache(X, args[0])

    def cache(self, X, o):
        X.prove('cache-kept', isinstance(o.attrs['instrs'], SlotCache))
        for k, v in o.attrs['instrs'].writes:
            X.prove('cached', isinstance(v, tuple) and len(v) == 3)
            X.prove('cached', X.conj([X.eqb(a, b) for a, b in zip(v, calc(zint(k[0]), zint(k[1])))]))


class SimLim(Contract):
    """the limit is at least the number of configurations of a window (for a back-symbol macro: of one cell)"""
    inline = True

    def __init__(self, cls):
        self.cls, self.key = cls, f'{MACRO}:{cls}.sim_lim'

    def setup(self, X):
        S, C, n = params(X)
        if self.cls == 'BacksymbolLogic':
            n = z3.IntVal(1)
        X.ghost['args'] = (S, C, n)
        return [logic_obj(X, self.cls, S, C, n)]

    def post(self, X, args, res):
        S, C, n = X.ghost['args']
        if self.cls == 'BlockLogic':
            X.prove('enough', zint(res) >= S * n * X.pow(C, n))
        else:
            X.prove('enough', zint(res) >= S * 2 * C * C)


class MacroInit(Contract):
    key = f'{MACRO}:MacroProg.__init__'
    inline = True

    def setup(self, X):
        cls = ('BlockLogic', 'BacksymbolLogic')[X.choose(2, 'kind of macro')]
        lg = fresh_logic(X, cls)
        o = Obj(X.world.class_val(X.world.by_path(MACRO), 'MacroProg'))
        base = BaseProg(X)
        return [o, base, lg]

    def post(self, X, args, res):
        prove_macro(X, *args)


def prove_macro(X, o, base, lg, name=''):
    X.prove(f'{name}is-macro', isinstance(o, Obj) and o.cls.name == 'MacroProg')
    X.prove(f'{name}program', o.attrs.get('comp') is base)
    X.prove(f'{name}logic', o.attrs.get('logic') is lg)
    c = o.attrs.get('instrs')
    X.prove(f'{name}nothing-cached', isinstance(c, Dct) and not c.d)
    lim = o.attrs.get('sim_lim')
    X.prove(f'{name}limit', is_int(lim))
    X.prove(f'{name}limit', zint(lim) == zint(X.getattr(lg, 'sim_lim')))


# ------------------------------------------------------------------ building macros
class CompDict(Ext):
    """a program: any finite table slot -> instruction"""
    def __init__(self, X):
        self.n = X.fresh('slots')
        X.assume(self.n >= 0)
        self.f = [z3.Function(f'{nm}!{next(X.fresh_n)}', I, I) for nm in ('slot_state', 'slot_colour', 'prints', 'goes')]
        self.sh = z3.Function(f'moves!{next(X.fresh_n)}', I, B)

    def fact(self, X, k):
        X.assume(z3.And([f(k) >= 0 for f in self.f]))

    def slot(self, X, k):
        self.fact(X, k)
        return SI(self.f[0](k)), SI(self.f[1](k))

    def instr(self, X, k):
        self.fact(X, k)
        return SI(self.f[2](k)), SB(self.sh(k)), SI(self.f[3](k))

    def as_seq(self, X):
        return SeqV(self.n, self.slot, 'dict', label='slots')

    def getattr(self, X, name):
        fn = dict(keys=self.slot, values=self.instr, items=lambda X, k: (self.slot(X, k), self.instr(X, k))).get(name)
        if fn is None:
            raise Untranslatable(f'dict.{name}')
        return lambda X, a, kw: SeqV(self.n, fn, 'dict', label=name)

    def loop_iter(self, X):
        return self.as_seq(X).loop_iter(X)

    def length(self, X):
        return SI(self.n)

    def truth(self, X):
        return SB(self.n > 0)

    def isinstance(self, X, cls):
        return cls is dict


class ProgParams(Contract):
    """every state and every colour of the program is below the numbers returned"""
    key = f'{MACRO}:prog_params'

    def setup(self, X):
        if X.choose(2, 'kind of program') == 0:
            c = CompDict(X)
            return [c]
        cls = ('BlockLogic', 'BacksymbolLogic')[X.choose(2, 'kind of macro')]
        lg = fresh_logic(X, cls)
        return [macro_obj(X, BaseProg(X), lg)]

    def post(self, X, args, res):
        X.prove('shape', isinstance(res, tuple) and len(res) == 2)
        S, C = zint(res[0]), zint(res[1])
        c = args[0]
        if isinstance(c, CompDict):
            k = X.fresh('slot')
            X.assume(z3.And(k >= 0, k < c.n))
            from .seq import instantiate
            instantiate(X, k)
            (s, col), (pr, _, nx) = c.slot(X, k), c.instr(X, k)
            X.prove('states', z3.And(s.e < S, nx.e < S))
            X.prove('colours', z3.And(col.e < C, pr.e < C))
            X.prove('at-least-one', z3.And(S >= 1, C >= 1))
        else:
            lg = c.attrs['logic']
            X.prove('states', S == zint(X.getattr(lg, 'macro_states')))
            X.prove('colours', C == zint(X.getattr(lg, 'macro_colors')))

    def apply(self, X, args, kw):
        S, C = X.fresh('states'), X.fresh('colors')
        X.assume(z3.And(S >= 1, C >= 1))
        X.ghost.setdefault('params_of', []).append((S, C, args[0]))
        return SI(S), SI(C)


class MacroSize(Contract):
    """macro_states and macro_colors bound what reconstruct_outputs produces"""
    inline = True

    def __init__(self, cls, name):
        self.cls, self.name, self.key = cls, name, f'{MACRO}:{cls}.{name}'

    def setup(self, X):
        S, C, n = params(X)
        X.ghost['args'] = (S, C, n)
        return [logic_obj(X, self.cls, S, C, n)]

    def post(self, X, args, res):
        S, C, n = X.ghost['args']
        p = X.pow(C, n)
        if self.cls == 'BlockLogic':
            want = 2 * S if self.name == 'macro_states' else p
        else:
            want = 2 * S * p if self.name == 'macro_states' else C
        X.prove('size', zint(res) == want)


def macro_obj(X, base, lg):
    o = Obj(X.world.class_val(X.world.by_path(MACRO), 'MacroProg'))
    o.attrs.update(comp=base, logic=lg, instrs=SlotCache(X), sim_lim=X.fresh_int('lim'))
    return o


def tcompile(X, a, k):
    c = CompDict(X)
    X.ghost['compiled'] = (a[0], c)
    return c


def opt_block(X, a, k):
    v = X.fresh('opt_blocks')
    X.assume(v >= 1)
    X.ghost['opt'] = (a, v)
    return SI(v)


class MakeMacro(Contract):
    """the levels asked for, in order, over the compiled program, each built for the machine below it"""
    key = f'{MACRO}:make_macro'

    def setup(self, X):
        X.ghost['prog'] = prog = Opaque('prog')
        return [prog]

    def kwargs(self, X):
        def opt(name):
            if X.choose(2, name):
                return None
            v = X.fresh(name)
            X.assume(v >= 1)
            return SI(v)
        self_ = dict(blocks=opt('blocks'), backsym=opt('backsym'), opt_macro=opt('opt_macro'))
        self_['params'] = None
        if X.choose(2, 'params') == 0:
            S, C = X.fresh('states'), X.fresh('colors')
            X.assume(z3.And(S >= 1, C >= 1))
            self_['params'] = (SI(S), SI(C))
        X.ghost['kw'] = self_
        return self_

    def post(self, X, args, res):
        kw = X.ghost['kw']
        X.prove('compiled', 'compiled' in X.ghost and X.ghost['compiled'][0] is X.ghost['prog'])
        comp = X.ghost['compiled'][1]
        blocks = kw['blocks']
        if kw['opt_macro'] is not None:
            a, v = X.ghost.get('opt', ((None, None), None))
            X.prove('optimised', v is not None and a[0] is X.ghost['prog'] and a[1] is kw['opt_macro'])
            blocks = SI(v)
        levels = []
        if blocks is not None and X.truth(SB(blocks.e > 1)):
            levels.append(('BlockLogic', blocks.e))
        if kw['backsym'] is not None:
            levels.append(('BacksymbolLogic', kw['backsym'].e))
        chain, p = [], res
        while isinstance(p, Obj) and p.cls.name == 'MacroProg':
            chain.append(p)
            p = p.attrs['comp']
        chain.reverse()
        X.prove('program', p is comp)
        X.prove('levels', len(chain) == len(levels))
        below = comp
        for i, (o, (cls, n)) in enumerate(zip(chain, levels)):
            lg = o.attrs['logic']
            S, C = zint(lg.attrs['base_states']), zint(lg.attrs['base_colors'])
            prove_logic(X, lg, cls, S, C, n, f'{cls}.')
            derived = any(c is below and z3.eq(s, S) and z3.eq(cc, C) for s, cc, c in X.ghost.get('params_of', ()))
            given = below is comp and kw['params'] is not None and z3.eq(S, kw['params'][0].e) and z3.eq(C, kw['params'][1].e)
            X.prove(f'{cls}.fits-below', derived or given)
            prove_macro(X, o, below, lg, f'{cls}.')
            below = o


class Build(Contract):
    """make_block_macro / make_backsymbol_macro"""
    inline = True

    def __init__(self, fn, cls):
        self.cls, self.key = cls, f'{MACRO}:{fn}'

    def setup(self, X):
        S, C, n = params(X)
        X.ghost['args'] = (S, C, n)
        X.ghost['base'] = BaseProg(X)
        return [X.ghost['base'], SI(n), (SI(S), SI(C))]

    def post(self, X, args, res):
        S, C, n = X.ghost['args']
        X.prove('is-macro', isinstance(res, Obj) and res.cls.name == 'MacroProg')
        prove_logic(X, res.attrs['logic'], self.cls, S, C, n)
        prove_macro(X, res, X.ghost['base'], res.attrs['logic'])


LOOPS = (Walk(), Horner(), Weights())


def macro_contracts(world):
    cs = [RunSimulator(), CalculateInstr(), GetItem(), TapeToColor(), ColorToTape(), ConverterInit(), MakeConverter(),
          LogicInit('BlockLogic'), LogicInit('BacksymbolLogic'), MakeLogic('make_block', 'BlockLogic'),
          MakeLogic('make_backsym', 'BacksymbolLogic'), Deconstruct('BlockLogic'), Deconstruct('BacksymbolLogic'),
          Reconstruct('BlockLogic'), Reconstruct('BacksymbolLogic'), SimLim('BlockLogic'), SimLim('BacksymbolLogic'),
          MacroInit(), ProgParams(), MakeMacro(), Build('make_block_macro', 'BlockLogic'),
          Build('make_backsymbol_macro', 'BacksymbolLogic')]
    cs += [MacroSize(c, n) for c in ('BlockLogic', 'BacksymbolLogic') for n in ('macro_states', 'macro_colors')]
    return {c.key: c for c in cs}
