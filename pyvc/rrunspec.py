"""Contracts of src/machine.rs and src/prover.rs: the machine and the rule prover of the compiled library.

Terms and defining facts are those of runspec.  Here steps counts what is taken outside rules, so a rule leaves the n of
RUN(n, q, t) alone; a panic is no answer."""
from __future__ import annotations
import ast
import z3
from . import runspec as R
from .runspec import T, F, I, B, HAS, WR, NX, SH, SCAN, BLANK, EDGE, MARKS, STEP, CNT, BLANK0, RUN, SPIN, INFV, STUCK, BLANKAT, \
    FOUND, APPL, INFRULE, APPD, TIMES, SIM, SIMEND, SIMOK, SIMQ, SIMT, COMPAT, Given
from .values import *
from .engine import Contract, Ext, SB, SI, PathEnd, LoopSpec, RangeV, zbool, unit_steps
from .rengine import RDomain, Some, Wrap, deref, is_none, inner
from .seq import SeqV, SeqTail, SeqDomain, as_seq, seq_eq, slice_seq

RM, RP, RT, RR = 'src/machine.rs', 'src/prover.rs', 'src/tape.rs', 'src/rules.rs'


def rcls(X, path, name):
    return X.world.class_val(X.world.by_path(path), name)


def variant(v):
    v = deref(v)
    return v.cls.name.split('__')[-1] if isinstance(v, Obj) else None


# ------------------------------------------------------------------ program, tapes, rules
class ProgX(Ext):
    """slot -> instruction, a partial function: a program, or a macro over one"""
    def rm_get(self, X, k):
        q, c = (zint(v) for v in deref(k))
        return Some((SI(WR(q, c)), SB(SH(q, c)), SI(NX(q, c)))) if X.truth(SB(HAS(q, c))) else None
    rm_get_instr = rm_get

    def rm_contains_key(self, X, k):
        q, c = (zint(v) for v in deref(k))
        return SB(HAS(q, c))

    def getitem(self, X, k):
        r = self.rm_get(X, k)
        if r is None:
            raise PyRaise(KeyError, ())
        return r.v

    def rm_clone(self, X):
        return self

    def compare(self, X, op, other, refl):
        if op == 'is':
            return other is self
        raise Untranslatable(op)


class Counts(R.Counts):
    rust_value = True

    def getattr(self, X, name):
        return CountSide(self.t, name)

    def getitem(self, X, k):
        return CountSide(self.t, k)


class CountSide(Ext):
    def __init__(self, t, side):
        self.t, self.side = t, side


def span(X, side):
    return Lst([], SeqTail(R.span(X, side)))


def sig_obj(X, scan, l, r):
    return Obj(rcls(X, RT, 'Signature'), dict(scan=SI(scan), lspan=l, rspan=r))


class TapeX(R.TapeX):
    def rust_class(self, X):
        return rcls(X, RT, 'EnumTape' if self.origin is not None else 'Tape')

    def signature(self, X):
        m = X.ghost.setdefault('signatures', [])
        for t, s in m:
            if z3.eq(t, self.t):
                return s
        s = sig_obj(X, SCAN(self.t), span(X, 'left'), span(X, 'right'))
        m.append((self.t, s))
        return s

    def getattr(self, X, name):
        if name == 'scan' and self.origin is None:
            return SI(SCAN(self.t))
        raise Untranslatable(f'tape.{name}')

    def rm_scan(self, X):
        return SI(SCAN(self.t))

    def rm_signature(self, X):
        return self.signature(X)

    def rm_blank(self, X):
        return SB(BLANK(self.t))

    def rm_marks(self, X):
        return SI(MARKS(self.t))

    def rm_counts(self, X):
        return Counts(self.t)

    def rm_span_lens(self, X):
        return tuple(SI(F(f'spans.{s}', T, I)(self.t)) for s in 'lr')

    def rm_at_edge(self, X, edge):
        return SB(EDGE(self.t, zbool(edge)))

    def rm_step(self, X, shift, color, skip):
        return R.TapeX.step(self, X, [shift, color, skip], {})

    def rm_clone(self, X):
        if self.origin is not None:
            raise Untranslatable('an enum tape is copied')
        return TapeX(self.t)

    def enum(self, X):
        r = TapeX(self.t, self)
        X.ghost.setdefault('enum_tapes', []).append(r)
        return r

    def seen(self, X):
        if self.origin is None or len(self.runs) != 1:
            raise Untranslatable('what an enum tape saw before it ran')
        return R.TapeX.seen(self, X)

    def rm_offsets(self, X):
        return tuple(map(SI, self.seen(X)[:2]))

    def rm_edges(self, X):
        return tuple(map(SB, self.seen(X)[2:]))

    def rm_sig_compatible(self, X, s):
        s = deref(s)
        for t, sig in X.ghost.get('signatures', ()):
            if same_sig(s, sig):
                return SB(COMPAT(self.t, t))
        raise Untranslatable('a signature of its own')


def same_sig(s, sig):
    return isinstance(s, Obj) and s.cls.name == 'Signature' and all(same_part(s.attrs[n], sig.attrs[n]) for n in ('scan', 'lspan', 'rspan'))


def same_part(x, y):
    x, y = deref(x), deref(y)
    if x is y:
        return True
    if isinstance(x, SI) and isinstance(y, SI):
        return z3.eq(x.e, y.e)
    if isinstance(x, Lst) and isinstance(y, Lst) and x.tail is not None and y.tail is not None:
        return not x.items and not y.items and z3.is_true(z3.simplify(x.tail.as_seq(x).n == y.tail.as_seq(y).n)) and root(x) is root(y)
    return False


def root(l):
    """the sequence a list, or a copy of it, was made from"""
    return l.ghost_root if hasattr(l, 'ghost_root') else getattr(l.tail.seq, 'origin', l.tail.seq)


def is_sig(X, s, t):
    return any(z3.eq(t, u) and same_sig(deref(s), sig) for u, sig in X.ghost.get('signatures', ()))


class RuleX(R.RuleX):
    rust_value = True

    def op(self, X, k):
        self.size(X)
        if X.truth(SB(self.plain(k))):
            return Obj(rcls(X, RR, 'Op__Plus'), dict(_0=SI(self.val(k))))
        return Obj(rcls(X, RR, 'Op__Mult'), dict(_0=Opaque('factor and term')))

    def rm_len(self, X):
        return SI(self.size(X))

    def rm_is_empty(self, X):
        return SB(self.size(X) == 0)

    def rm_values(self, X):
        n = self.size(X)
        if X.truth(SB(n == 2)):
            return Lst([self.op(X, z3.IntVal(i)) for i in (0, 1)])
        return SeqV(n, self.op, 'list', label='ops')

    def rm_iter(self, X):
        n = self.size(X)
        if X.truth(SB(n == 2)):
            return Lst([(Opaque('pos'), self.op(X, z3.IntVal(i))) for i in (0, 1)])
        return SeqV(n, lambda X, k: (Opaque('pos'), self.op(X, k)), 'list', label='ops')
    rm_into_iter = rm_iter


class RunDomain(RDomain, SeqDomain):
    def clone(self, X, o):
        if isinstance(o, Lst) and o.tail is not None:
            return Lst(list(o.items), o.tail)
        return NotImplemented

    def into(self, X, v, kind):
        v = deref(v)
        if isinstance(v, TapeX) and kind in ('?', 'class:EnumTape'):
            return v.enum(X)
        return super().into(X, v, kind)


def enum_from(X, args, kw):
    t = deref(args[0])
    if not isinstance(t, TapeX):
        raise Untranslatable('EnumTape::from')
    return t.enum(X)


def new_tape(X, args, kw):
    if [deref(a) for a in args] != [0]:
        raise Untranslatable('a tape with contents')
    X.ghost['tape'] = TapeX(BLANK0)
    return X.ghost['tape']


def program(X, args, kw):
    if len(args) != 1 or deref(args[0]) is not X.ghost.get('text'):
        raise Untranslatable('another program')
    return ProgX()


def apply_rule(X, args, kw):
    rule, tape = map(deref, args)
    if not isinstance(rule, RuleX) or not isinstance(tape, TapeX):
        raise Untranslatable('apply_rule')
    X.prove('rule-for-this-tape', rule.made is not None and X.prover_ok(rule.made[1] == tape.t))
    q, t = rule.made
    if not X.truth(SB(APPL(q, t))):
        return None
    tape.t = APPD(q, t)
    X.heap_writes += 1
    X.assume(TIMES(q, t) >= 1)
    X.ghost['applied'] = X.ghost.get('applied', z3.IntVal(0)) + TIMES(q, t)
    return Some(SI(TIMES(q, t)))


# ------------------------------------------------------------------ the run
def unfold(X, n, q, t, seen):
    c = SCAN(t)
    w, sh, x = WR(q, c), SH(q, c), NX(q, c)
    same = x == q
    t2 = STEP(t, sh, w, same)
    n2 = n + CNT(t, sh, w, same)
    at = RUN(n, q, t)
    has = z3.And(at, HAS(q, c))
    go = z3.And(has, z3.Not(z3.And(same, EDGE(t, sh))))
    for f in (z3.Implies(go, RUN(n2, x, t2)), CNT(t, sh, w, same) >= 1,
              z3.Implies(z3.And(go, BLANK(t2)), BLANKAT(x, n2)),
              z3.Implies(z3.And(go, BLANK(t2), z3.Or(z3.Select(seen, x), x == 0)), INFV(n2, t2)),
              z3.Implies(BLANK(t2), w == 0),
              z3.Implies(z3.And(has, same, EDGE(t, sh)), SPIN(n, t)),
              z3.Implies(z3.And(at, z3.Not(HAS(q, c))), STUCK(n, q, c, t)),
              z3.Implies(z3.And(at, APPL(q, t)), RUN(n, q, APPD(q, t))),
              z3.Implies(z3.And(at, INFRULE(q, t)), INFV(n, t))):
        X.assume(f)


class Blanks(R.Blanks):
    def rm_contains_key(self, X, k):
        return self.contains(X, deref(k))

    def rm_get(self, X, k):
        return Some(SI(X.fresh('when'))) if X.truth(self.contains(X, deref(k))) else None

    def rm_insert(self, X, k, v):
        k, v = deref(k), deref(v)
        old = self.rm_get(X, k)
        self.put(X, k, v)
        return old

    def rm_is_empty(self, X):
        return X.not_(self.truth(X))

    def rm_entry(self, X, k):
        return BlankEntry(self, deref(k))

    def rm_clone(self, X):
        return self


class BlankEntry(Ext):
    def __init__(self, b, k):
        self.b, self.k = b, k

    def rm_or_insert(self, X, v):
        if X.truth(self.b.contains(X, self.k)):
            return SI(X.fresh('when'))
        self.b.put(X, self.k, deref(v))
        return v

    def rm_or_insert_with(self, X, f):
        if X.truth(self.b.contains(X, self.k)):
            return SI(X.fresh('when'))
        return self.rm_or_insert(X, X.call(f, [], {}))


class RunLoop(LoopSpec):
    """at the head of every cycle the machine stands in a configuration of its run"""
    name = 'cycle'
    keeps_target = True

    def __init__(self, rules, kind=ast.For):
        self.rules, self.kind = rules, kind
        self.roles = ('steps', 'state') + (('rulapp',) if rules else ()) + (('cycle',) if kind is ast.While else ())

    def applies(self, X, node, fr, it):
        return isinstance(X.contract, Run) and X.contract.rules == self.rules and isinstance(node, self.kind) and \
            'tape' in X.ghost and 'head' not in X.ghost

    def find_blanks(self, L):
        out, f = [], L.fr
        while f is not None:
            out += [(f, n, v) for n, v in f.vars.items() if isinstance(v, Dct) and not v.d]
            f = f.parent
        return out

    def pre(self, X, L):
        L.tape = X.ghost['tape']
        b = self.find_blanks(L)
        X.prove('no-blanks', len({id(v) for _, _, v in b}) == 1)
        L.places = b
        if self.rules:
            o = X.ghost.get('prover')
            X.prove('own-prover', o is not None)
        if self.kind is ast.While:
            L.counter = R.counter(X, L, 'cycle')
        L.rul = z3.IntVal(0)
        X.assume(RUN(0, 0, BLANK0))

    def havoc(self, X, L, names):
        super().havoc(X, L, names)
        L.tape.t = X.fresh('tape', T)
        L.tape.steps = 0
        L.blanks = Blanks(X)
        for f, n, _ in L.places:
            f.vars[n] = L.blanks
        L.rul = X.fresh('applied') if self.rules else z3.IntVal(0)
        X.ghost.pop('applied', None)

    def inv(self, X, L):
        n, q = zint(L.get('steps')), zint(L.get('state'))
        out = [('configuration', RUN(n, q, L.tape.t)), ('steps', n >= 0)]
        if self.rules:
            out.append(('rules-applied', zint(L.get('rulapp')) == L.rul))
        if self.kind is ast.While:
            out.append(('counter', z3.And(L.counter(X, L), L.idx <= X.ghost['sim_lim'])))
        return out

    def inv_assume(self, X, L):
        n, q, t = zint(L.get('steps')), zint(L.get('state')), L.tape.t
        unfold(X, n, q, t, L.blanks.head)
        X.ghost.update(head=(n, q, t), idx=L.idx, L=L)
        return []

    def step(self, X, L):
        L.rul = L.rul + X.ghost.get('applied', 0)
        X.prove('own-blanks', all(f.vars[n] is L.blanks for f, n, _ in L.places))
        n, q, t = X.ghost['head']
        if L.tape.steps:
            x = NX(q, SCAN(t))
            X.prove('blank-noticed', z3.Implies(BLANK(L.tape.t), z3.And(
                z3.Select(L.blanks.seen, x), z3.Not(z3.Select(L.blanks.head, x)), x != 0)))
        X.prove('answer-used', X.ghost.get('answer') in (None, 'Got', 'none'))

    def on_exit(self, X, L):
        X.ghost['ended'] = True

    def on_break(self, X, L):
        L.rul = L.rul + X.ghost.get('applied', 0)


class Run(Contract):
    """the result names what the run came to"""
    def __init__(self, fn, rules):
        self.key, self.rules = f'{RM}:{fn}', rules

    def setup(self, X):
        lim = X.fresh('sim_lim')
        X.assume(lim >= 0)
        X.ghost['sim_lim'] = lim
        X.ghost['text'] = Opaque('program')
        return [X.ghost['text'], SI(lim)]

    def post(self, X, args, res):
        g = X.ghost
        X.prove('result', isinstance(res, Obj) and res.cls.name == 'MachineResult' and 'head' in g)
        L, t, idx = g['L'], g['tape'].t, g['idx']
        k = variant(res.attrs['result'])
        n, slot = zint(res.attrs['steps']), deref(res.attrs['last_slot'])
        X.prove('marks', zint(res.attrs['marks']) == MARKS(t))
        X.prove('rules-applied', zint(res.attrs['rulapp']) == L.rul)
        X.prove('own-blanks', res.attrs['blanks'] is L.blanks)
        X.prove('blanks-noticed', z3.Or(not L.tape.steps, z3.Not(BLANK(t)), z3.Select(L.blanks.seen, NX(g['head'][1], SCAN(g['head'][2])))))
        a = g.get('answer')
        if a in ('ConfigLimit', 'InfiniteRule', 'MultRule'):
            X.prove('answer-used', k == {'ConfigLimit': 'cfglim', 'InfiniteRule': 'infrul', 'MultRule': 'mulrul'}[a])
        if k == 'undfnd':
            X.prove('undefined-slot', not is_none(X, slot))
            p, c = inner(X, slot)
            X.prove('undefined-slot', STUCK(n, zint(p), zint(c), t))
        elif k == 'spnout':
            X.prove('spin-out', SPIN(n, t))
        elif k == 'infrul':
            X.prove('endless', INFV(n, t))
        elif k == 'xlimit':
            X.prove('limit', g.get('ended') and X.prover_ok(z3.And(idx == g['sim_lim'], n == g['head'][0], t == g['head'][2])))
        elif k == 'cfglim':
            X.prove('config-limit', a == 'ConfigLimit')
        elif k == 'mulrul':
            X.prove('multiplying-rule', a == 'MultRule')
        else:
            X.prove('verdict', False)
        if k in ('undfnd', 'spnout', 'cfglim', 'mulrul'):
            X.prove('cycles', zint(res.attrs['cycles']) == idx)

    def exc(self, X, args, e):
        X.prove(f'no-{e.name}', e.name == 'Panic')


GETTERS = {'undfnd': ('undfnd',), 'simple_termination': ('undfnd', 'spnout'), 'halted': ('undfnd',), 'infrul': ('infrul',),
           'spnout': ('spnout',), 'xlimit': ('xlimit',), 'cfglim': ('cfglim',)}
RESULTS = ('xlimit', 'cfglim', 'infrul', 'spnout', 'undfnd', 'mulrul')


class Getter(Contract):
    """the steps, for the results it is about; None for the others"""
    def __init__(self, name):
        self.name, self.key = name, f'{RM}:MachineResult.{name}'

    def setup(self, X):
        g = X.ghost
        g['kind'] = k = RESULTS[X.choose(len(RESULTS), 'result')]
        g['slot'] = (X.fresh_int('q'), X.fresh_int('c'))
        o = Obj(rcls(X, RM, 'MachineResult'), {n: X.fresh_int(n) for n in ('steps', 'cycles', 'marks', 'rulapp')})
        g['was'] = dict(o.attrs)
        o.attrs.update(result=Obj(rcls(X, RM, f'TermRes__{k}'), {}), blanks=Opaque('blanks'), last_slot=Some(g['slot']) if k == 'undfnd' else None)
        return [o]

    def post(self, X, args, res):
        g = X.ghost
        if self.name in ('steps', 'cycles', 'marks', 'rulapp'):
            X.prove('value', zint(res) == g['was'][self.name].e)
            return
        if g['kind'] not in GETTERS[self.name]:
            X.prove('other-result', is_none(X, res))
            return
        X.prove('this-result', not is_none(X, res))
        v = inner(X, res)
        if self.name == 'undfnd':
            v, (a, b) = v
            X.prove('slot', z3.And(zint(a) == g['slot'][0].e, zint(b) == g['slot'][1].e))
        X.prove('steps', zint(v) == g['was']['steps'].e)

    def exc(self, X, args, e):
        X.prove(f'no-{e.name}', False)


# ------------------------------------------------------------------ the prover
class PastX(Ext):
    """the cycles at which a signature was seen"""
    def __init__(self, new=None):
        self.new, self.deleted = new, []

    def rust_class(self, X):
        return rcls(X, RP, 'PastConfigs')


class PastNew(Contract):
    """one state, seen once"""
    key = f'{RP}:PastConfigs.new'

    def setup(self, X):
        return [X.fresh_int('state'), X.fresh_int('cycle')]

    def post(self, X, args, res):
        q, c = args
        d = res.attrs['configs']
        X.prove('one-state', isinstance(d, Dct) and len(d.d) == 1)
        (k, v), = d.d.items()
        cy = cycles(X, v)
        X.prove('state', zint(k) == q.e)
        X.prove('cycle', len(cy) == 1 and X.prover_ok(cy[0] == c.e))

    def exc(self, X, args, e):
        X.prove(f'no-{e.name}', False)

    def apply(self, X, args, kw):
        return PastX(tuple(map(deref, args)))


def cycles(X, o):
    o = deref(o)
    if not isinstance(o, Obj) or o.cls.name != 'PastConfig' or not isinstance(o.attrs['cycles'], Lst) or o.attrs['cycles'].tail is not None:
        raise Untranslatable('the cycles of a state')
    return [zint(c) for c in o.attrs['cycles'].items]


class PastMap(Ext):
    """state -> PastConfig"""
    def __init__(self, X):
        self.memory, self.removed = [], []

    def find(self, X, k):
        k = deref(k)
        for e in self.memory:
            if X.truth(SB(e[0] == zint(k))):
                return e
        n = X.choose(5, 'cycles seen')
        v = Obj(rcls(X, RP, 'PastConfig'), dict(cycles=Lst([X.fresh_int('seen') for _ in range(n)]))) if n else None
        e = [zint(k), v, cycles(X, v) if n else None]
        self.memory.append(e)
        return e

    def rm_get(self, X, k):
        e = self.find(X, k)
        return None if e[1] is None else Some(e[1])
    rm_get_mut = rm_get

    def rm_contains_key(self, X, k):
        return self.find(X, k)[1] is not None

    def rm_insert(self, X, k, v):
        e = self.find(X, k)
        old, e[1] = e[1], v
        X.heap_writes += 1
        return None if old is None else Some(old)

    def rm_remove(self, X, k):
        e = self.find(X, k)
        old, e[1] = e[1], None
        X.heap_writes += 1
        return None if old is None else Some(old)

    def rm_entry(self, X, k):
        return PastEntry(self, k)


class PastEntry(Ext):
    def __init__(self, m, k):
        self.m, self.k = m, k

    def rm_or_insert(self, X, v):
        e = self.m.find(X, self.k)
        if e[1] is None:
            self.m.rm_insert(X, self.k, v)
        return e[1]

    def rm_or_insert_with(self, X, f):
        e = self.m.find(X, self.k)
        if e[1] is None:
            self.m.rm_insert(X, self.k, X.call(f, [], {}))
        return e[1]


def deltas_spec(ys):
    """[(it fits, it goes on upwards, the three distances)] for the multipliers 1..4"""
    e, d, c, b, a = ys
    out = []
    for i in range(1, 5):
        p1, p2, p3, p4 = a - b * i, b - c * i, c - d * i, d - e * i
        diff = p1 - p2
        n1 = a * i + p1 + diff
        n2 = n1 * i + p1 + 2 * diff
        n3 = n2 * i + p1 + 3 * diff
        out.append((z3.And(p2 - p3 == diff, p3 - p4 == diff), z3.And(a <= n1, n1 <= n2, n2 <= n3), (n1 - a, n2 - n1, n3 - n2)))
    return out


class NextDeltas(Contract):
    """the cycle is recorded; an answer continues the last five as x' = i x + p, p growing evenly, and goes upwards"""
    key = f'{RP}:PastConfigs.next_deltas'

    def setup(self, X):
        m = X.ghost['map'] = PastMap(X)
        return [Obj(rcls(X, RP, 'PastConfigs'), dict(configs=m)), X.fresh_int('state'), X.fresh_int('cycle')]

    def post(self, X, args, res):
        o, q, c = args
        m = X.ghost['map']
        X.prove('own-map', o.attrs['configs'] is m and len(m.memory) == 1)
        k, v, was = m.memory[0]
        X.prove('state', k == q.e)
        X.prove('kept', v is not None)
        now = cycles(X, v)
        X.prove('recorded', len(now) >= 1 and X.prover_ok(now[-1] == c.e))
        if was is None:
            X.prove('first', is_none(X, res) and X.prover_ok(z3.And([x == c.e for x in now])))
            return
        ys = was + [c.e]
        if len(ys) < 5:
            X.prove('too-few', is_none(X, res))
            X.prove('recorded', len(now) == len(ys) and X.prover_ok(z3.And([x == y for x, y in zip(now, ys)])))
            return
        X.prove('recorded', len(now) == 4 and X.prover_ok(z3.And([x == y for x, y in zip(now, ys[1:])])))
        alts = deltas_spec(ys)
        if is_none(X, res):
            X.prove('none-fits', z3.Or(z3.Not(z3.Or([f for f, _, _ in alts])), z3.Or([z3.And(f, z3.Not(up)) for f, up, _ in alts])))
            return
        ds = [zint(v) for v in inner(X, res)]
        X.prove('continues', len(ds) == 3 and X.prover_ok(z3.Or([z3.And(f, up, *(d == w for d, w in zip(ds, w3))) for f, up, w3 in alts])))

    def exc(self, X, args, e):
        X.prove(f'no-{e.name}', False)

    def apply(self, X, args, kw):
        p, q, c = map(deref, args)
        if not isinstance(p, PastX):
            raise Untranslatable('next_deltas')
        ds = None
        if X.choose(2, 'deltas'):
            ds = tuple(X.fresh_int('delta') for _ in range(3))
            for d in ds:
                X.assume(d.e >= 0)
        X.ghost.setdefault('asked', []).append((p, zint(q), zint(c), ds))
        return None if ds is None else Some(ds)


class DeleteConfigs(Contract):
    """the state is forgotten"""
    key = f'{RP}:PastConfigs.delete_configs'

    def setup(self, X):
        m = X.ghost['map'] = PastMap(X)
        return [Obj(rcls(X, RP, 'PastConfigs'), dict(configs=m)), X.fresh_int('state')]

    def post(self, X, args, res):
        o, q = args
        m = X.ghost['map']
        X.prove('own-map', o.attrs['configs'] is m and len(m.memory) == 1)
        X.prove('forgotten', m.memory[0][1] is None and X.prover_ok(m.memory[0][0] == q.e))

    def exc(self, X, args, e):
        X.prove(f'no-{e.name}', False)

    def apply(self, X, args, kw):
        p, q = map(deref, args)
        if not isinstance(p, PastX):
            raise Untranslatable('delete_configs')
        p.deleted.append(zint(q))


class ConfigsX(Ext):
    """signature -> past configurations"""
    def __init__(self, X):
        self.n = X.fresh('configs')
        X.assume(self.n >= 0)
        self.writes = []
        self.decided = None

    def find(self, X, k):
        X.prove('configs.this-signature', is_sig(X, k, X.ghost['t']))
        if self.writes:
            return self.writes[-1][1]
        if self.decided is None:
            self.decided = [PastX()] if X.choose(2, 'signature seen') else []
            if self.decided:
                X.ghost['known'] = self.decided[0]
        return self.decided[0] if self.decided else None

    def rm_get(self, X, k):
        r = self.find(X, deref(k))
        return None if r is None else Some(r)
    rm_get_mut = rm_get

    def rm_contains_key(self, X, k):
        return self.find(X, deref(k)) is not None

    def rm_insert(self, X, k, v):
        old = self.rm_get(X, k)
        X.heap_writes += 1
        self.writes.append((deref(k), deref(v)))
        return old

    def rm_len(self, X):
        return SI(self.n + len(self.writes))

    def rm_is_empty(self, X):
        return SB(self.n + len(self.writes) == 0)

    def rm_entry(self, X, k):
        return ConfigEntry(self, deref(k))


class ConfigEntry(Ext):
    def __init__(self, m, k):
        self.m, self.k = m, k

    def rm_or_insert(self, X, v):
        r = self.m.find(X, self.k)
        if r is None:
            self.m.rm_insert(X, self.k, v)
            r = deref(v)
        return r

    def rm_or_insert_with(self, X, f):
        r = self.m.find(X, self.k)
        return r if r is not None else self.rm_or_insert(X, X.call(f, [], {}))


class RuleList(R.RuleList):
    def rust_class(self, X):
        return None

    def min_sig(self, X, k):
        (scan, l, r), edges = super().min_sig(X, k)
        l.kind = r.kind = 'list'
        return sig_obj(X, zint(scan), Lst([], SeqTail(l)), Lst([], SeqTail(r))), edges

    def rule(self, X, k):
        for j, r in self.rules.items():
            if z3.eq(j, k):
                return r
        r = RuleX(X)
        r.index = k
        self.rules[k] = r
        return r

    def as_seq(self, X):
        if self.appended:
            raise Untranslatable('the rules after one was added')
        return SeqV(self.n, lambda X, k: (self.min_sig(X, k), self.rule(X, k)), 'list', label='rules')

    def rm_iter(self, X):
        return self.as_seq(X)
    rm_into_iter = rm_iter

    def rm_push(self, X, v):
        X.heap_writes += 1
        self.appended.append(deref(v))

    def rm_len(self, X):
        return SI(self.n + len(self.appended))

    def rm_is_empty(self, X):
        return False


class RulesX(Ext):
    """slot -> rules"""
    def __init__(self, X):
        self.memory = []

    def find(self, X, k):
        k = deref(k)
        for e in reversed(self.memory):
            if X.truth(X.eqb(e[0], k)):
                return e[1]
        v = RuleList(X, k) if X.choose(2, 'slot has rules') else None
        self.memory.append((k, v))
        return v

    def rm_get(self, X, k):
        r = self.find(X, k)
        return None if r is None else Some(r)
    rm_get_mut = rm_get

    def rm_contains_key(self, X, k):
        return self.find(X, k) is not None

    def rm_insert(self, X, k, v):
        X.heap_writes += 1
        X.prove('rules.kept', self.find(X, k) is None)
        if not isinstance(v, Lst):
            raise Untranslatable('rules of a slot')
        self.memory.append((deref(k), v))
        return None

    def rm_entry(self, X, k):
        return RulesEntry(self, deref(k))

    def added(self, X):
        return R.RulesX.added(self, X)


class RulesEntry(Ext):
    def __init__(self, m, k):
        self.m, self.k = m, k

    def rm_or_default(self, X):
        r = self.m.find(X, self.k)
        if r is None:
            r = Lst()
            self.m.rm_insert(X, self.k, r)
        return r

    def rm_or_insert(self, X, v):
        r = self.m.find(X, self.k)
        if r is None:
            self.m.rm_insert(X, self.k, deref(v))
            r = deref(v)
        return r

    def rm_or_insert_with(self, X, f):
        r = self.m.find(X, self.k)
        return r if r is not None else self.rm_or_insert(X, X.call(f, [], {}))


def prover_obj(X):
    """a prover as its constructor makes it, with any rules and configurations collected since"""
    p = ProgX()
    c = rcls(X, RP, 'Prover')
    _, new = c.lookup('new')
    o = X.call(new, [p], {})
    X.prove('init.program', isinstance(o, Obj) and deref(o.attrs.get('prog')) is p)
    r, cs = o.attrs.get('rules'), o.attrs.get('configs')
    X.prove('init.empty', isinstance(r, Dct) and not r.d and isinstance(cs, Dct) and not cs.d)
    o.attrs.update(rules=RulesX(X), configs=ConfigsX(X))
    return o


class GetRule(R.GetRule):
    """the first rule of the slot whose minimal signature fits: a span of it is the whole span of the tape where the rule saw the
    edge, its beginning elsewhere"""
    key = f'{RP}:Prover.get_rule'

    def setup(self, X):
        t = TapeX(X.fresh('tape', T))
        q = X.fresh('state')
        sig = t.signature(X)
        X.ghost.update(q=q, t=t.t, sig=sig, tape=t)
        return [prover_obj(X), SI(q), t, Some(sig) if X.choose(2, 'signature given') else None]

    def fits(self, X, ms):
        s, edges = ms
        sig = X.ghost['sig']
        if not X.truth(SB(zint(s.attrs['scan']) == zint(sig.attrs['scan']))):
            return False
        from .engine import SliceV
        for n, e in zip(('lspan', 'rspan'), edges):
            s_, full = as_seq(X, s.attrs[n]), as_seq(X, sig.attrs[n])
            if X.truth(e):
                if not seq_eq(X, s_, full):
                    return False
            elif not X.truth(SB(s_.n <= full.n)) or not seq_eq(X, slice_seq(X, full, SliceV(None, SI(s_.n), None)), s_):
                return False
        return True

    def post(self, X, args, res):
        if res is not None:
            X.prove('some', isinstance(res, Wrap))
            res = deref(res.v)
        super().post(X, args, res)

    def exc(self, X, args, e):
        X.prove(f'no-{e.name}', False)

    def apply(self, X, args, kw):
        o, q, tape, sig = map(deref, args)
        if not isinstance(tape, TapeX):
            raise Untranslatable('get_rule')
        if sig is not None:
            X.prove('signature-of-tape', is_sig(X, inner(X, sig), tape.t))
        q = zint(q)
        return Some(RuleX(X, (q, tape.t))) if X.truth(SB(FOUND(q, tape.t))) else None


class Rounds(LoopSpec):
    """as many rounds of the machine (or rules applied) as iterations"""
    name = 'rounds'

    def __init__(self, kind=ast.For):
        self.kind = kind
        self.roles = ('state',) + (('left',) if kind is ast.While else ())

    def applies(self, X, node, fr, it):
        return isinstance(X.contract, Simulate) and 'head' not in X.ghost and isinstance(node, self.kind)

    def pre(self, X, L):
        L.tape = X.root_args[3]
        X.assume(SIM(0, X.ghost['q'], X.ghost['t']))
        if self.kind is ast.While:
            L.counter = R.counter(X, L, 'left')

    def havoc(self, X, L, names):
        super().havoc(X, L, names)
        L.tape.t = X.fresh('tape', T)

    def inv(self, X, L):
        out = [('configuration', SIM(L.idx, zint(L.get('state')), L.tape.t))]
        if self.kind is ast.While:
            out.append(('counter', z3.And(L.counter(X, L), L.idx <= X.ghost['steps'])))
        return out

    def inv_assume(self, X, L):
        q, t, k = zint(L.get('state')), L.tape.t, L.idx
        X.ghost['head'] = k, q, t
        c = SCAN(t)
        at = SIM(k, q, t)
        rule = z3.And(FOUND(q, t), APPL(q, t))
        X.assume(z3.Implies(z3.And(at, rule), SIM(k + 1, q, APPD(q, t))))
        X.assume(z3.Implies(z3.And(at, z3.Not(rule), HAS(q, c)),
                            SIM(k + 1, NX(q, c), STEP(t, SH(q, c), WR(q, c), NX(q, c) == q))))
        X.assume(z3.Implies(z3.And(at, z3.Not(rule), z3.Not(HAS(q, c)), k < X.ghost['steps']), SIMEND(t)))
        return []


class Simulate(Contract):
    """the state and tape that many rounds on, a known rule counting as one round; None where the program has no instruction"""
    key = f'{RP}:Prover.run_simulator'

    def setup(self, X):
        t = TapeX(X.fresh('tape', T))
        q, n = X.fresh('state'), X.fresh('steps')
        X.assume(n >= 0)
        X.ghost.update(q=q, t=t.t, steps=n, tape=t)
        return [prover_obj(X), SI(n), SI(q), t]

    def post(self, X, args, res):
        tape = args[3]
        if is_none(X, res):
            X.prove('undefined', SIMEND(tape.t))
        else:
            X.prove('rounds', SIM(X.ghost['steps'], zint(inner(X, res)), tape.t))
        X.prove('rules-kept', not args[0].attrs['rules'].added(X))

    def exc(self, X, args, e):
        X.prove(f'no-{e.name}', False)

    def apply(self, X, args, kw):
        o, n, q, tape = map(deref, args)
        if not isinstance(tape, TapeX):
            raise Untranslatable('run_simulator')
        X.prove('simulation.off-the-tape', tape is not X.ghost.get('tape'))
        n, q, t = zint(n), zint(q), tape.t
        tape.runs.append((n, q, t))
        X.heap_writes += 1
        tape.t = SIMT(n, q, t)
        return Some(SI(SIMQ(n, q, t))) if X.truth(SB(SIMOK(n, q, t))) else None


def check_min_sig(X, ms, delta, q, t):
    """the signature of t cut to what a simulation of delta rounds from it reads, with the edges it ran over"""
    ok = isinstance(ms, tuple) and len(ms) == 2 and isinstance(ms[0], Obj) and ms[0].cls.name == 'Signature' and isinstance(ms[1], tuple)
    X.prove('min-sig.shape', ok)
    sig = [s for u, s in X.ghost['signatures'] if z3.eq(u, t)][0]
    tapes = [x for x in X.ghost.get('enum_tapes', ()) if len(x.runs) == 1 and hasattr(x, 'saw')]
    X.prove('min-sig.one-run', len(tapes) == 1)
    n, q0, t0 = tapes[0].runs[0]
    X.prove('min-sig.run', z3.And(n == delta, q0 == q, t0 == t))
    lo, ro, le, re = tapes[0].saw
    s, (lex, rex) = ms
    X.prove('min-sig.scan', zint(s.attrs['scan']) == zint(sig.attrs['scan']))
    X.prove('min-sig.edges', z3.And(zbool(lex) == le, zbool(rex) == re))
    for n, cut in (('lspan', lo), ('rspan', ro)):
        v, full = as_seq(X, s.attrs[n]), as_seq(X, sig.attrs[n])
        X.prove('min-sig.span', v is not None)
        X.prove('min-sig.span', v.n == z3.If(cut <= full.n, cut, full.n))
        k = X.fresh('block')
        X.assume(z3.And(k >= 0, k < v.n))
        X.prove('min-sig.span', zint(v.at(X, k)) == zint(full.at(X, k)))


class GetMinSig(Contract):
    key = f'{RP}:Prover.get_min_sig'

    def setup(self, X):
        t = TapeX(X.fresh('tape', T))
        q, n = X.fresh('state'), X.fresh('steps')
        X.assume(n >= 0)
        X.ghost.update(q=q, t=t.t, steps=n, tape=t)
        return [prover_obj(X), SI(n), SI(q), t.enum(X), t.signature(X)]

    def post(self, X, args, res):
        check_min_sig(X, res, X.ghost['steps'], X.ghost['q'], X.ghost['t'])
        X.prove('rules-kept', not args[0].attrs['rules'].added(X))

    def exc(self, X, args, e):
        X.prove(f'no-{e.name}', e.name == 'Panic')

    def apply(self, X, args, kw):
        o, n, q, tape, sig = map(deref, args)
        if not isinstance(tape, TapeX) or tape.origin is None or tape.runs:
            raise Untranslatable('get_min_sig')
        X.prove('min-sig.signature', is_sig(X, sig, tape.t))
        tape.runs.append((zint(n), zint(q), tape.t))
        lo, ro, le, re = tape.seen(X)
        tape.t = X.fresh('left_at', T)
        from .engine import SliceV
        cut = [Lst([], SeqTail(slice_seq(X, as_seq(X, sig.attrs[s]), SliceV(None, SI(c), None)))) for s, c in (('lspan', lo), ('rspan', ro))]
        return sig_obj(X, zint(sig.attrs['scan']), *cut), (SB(le), SB(re))


class SimRounds(Rounds):
    """the same, on the tape that keeps track of what is read"""
    name = 'rounds'

    def applies(self, X, node, fr, it):
        return isinstance(X.contract, GetMinSig) and 'head' not in X.ghost and isinstance(node, self.kind)

    def havoc(self, X, L, names):
        super().havoc(X, L, names)

    def modifies(self, X, L):
        return []

    def on_exit(self, X, L):
        X.prove('min-sig.rounds', L.idx == X.ghost['steps'])
        L.tape.runs.append((X.ghost['steps'], X.ghost['q'], X.ghost['t']))


class SetRule(Contract):
    """the rule is added to those of its slot, the others stay"""
    key = f'{RP}:Prover.set_rule'
    inline = True

    def setup(self, X):
        t = TapeX(X.fresh('tape', T))
        ms = (sig_obj(X, SCAN(t.t), span(X, 'left'), span(X, 'right')), (SB(X.fresh('le', 'bool')), SB(X.fresh('re', 'bool'))))
        X.ghost.update(t=t.t, parts=dict(ms[0].attrs))
        return [prover_obj(X), RuleX(X), X.fresh_int('state'), ms]

    def post(self, X, args, res):
        o, rule, q, ms = args
        new = o.attrs['rules'].added(X)
        X.prove('added', len(new) == 1)
        (kq, kc), e = new[0]
        X.prove('slot', z3.And(zint(kq) == q.e, zint(kc) == SCAN(X.ghost['t'])))
        X.prove('entry', isinstance(e, tuple) and len(e) == 2 and deref(e[1]) is rule and isinstance(e[0], tuple))
        s, edges = e[0]
        X.prove('entry', isinstance(s, Obj) and all(same_part(s.attrs[n], v) for n, v in X.ghost['parts'].items()))
        X.prove('entry', z3.And([zbool(a) == zbool(b) for a, b in zip(edges, ms[1])]))

    def exc(self, X, args, e):
        X.prove(f'no-{e.name}', False)


def make_rule(X, args, kw):
    args = list(map(deref, args))
    if not all(isinstance(a, Counts) for a in args):
        raise Untranslatable('make_rule')
    r = RuleX(X) if X.choose(2, 'make_rule') else None
    X.ghost.setdefault('made', []).append((r, [a.t for a in args]))
    if r is None:
        return None
    r.size(X)
    return Some(r)


class TryRule(Contract):
    """a known rule, or one made from four observations of this state, each a simulation further on; the tape is left alone"""
    key = f'{RP}:Prover.try_rule'

    def setup(self, X):
        t = TapeX(X.fresh('tape', T))
        q, cyc = X.fresh('state'), X.fresh('cycle')
        X.ghost.update(q=q, t=t.t, cycle=cyc, tape=t)
        t.signature(X)
        return [prover_obj(X), SI(cyc), SI(q), t]

    same = R.TryRule.same
    chain = R.TryRule.chain

    def every(self, X, rule, name, ok):
        """ok(k) of every entry of the rule"""
        n = rule.size(X)
        if X.truth(SB(n == 2)):
            X.prove(name, z3.And(ok(z3.IntVal(0)), ok(z3.IntVal(1))))
            return
        from .seq import instantiate
        k = X.fresh('entry')
        X.assume(z3.And(k >= 0, k < n))
        instantiate(X, k)
        X.prove(name, ok(k))

    def some(self, X, rule, name, ok):
        n = rule.size(X)
        if X.truth(SB(n == 2)):
            X.prove(name, z3.Or(ok(z3.IntVal(0)), ok(z3.IntVal(1))))
            return
        X.prove(name, z3.Or([z3.And(k >= 0, k < n, ok(k)) for _, k in X.ghost.get('witness', ())] or [z3.BoolVal(False)]))

    def trivial(self, rule, g):
        n = rule.n
        sl = [F(f'spans.{s}', T, I)(g['t']) for s in 'lr']
        v = [rule.val(z3.IntVal(i)) for i in (0, 1)]
        return z3.And(n == 2, sl[0] == 1, sl[1] == 1, rule.plain(0), rule.plain(1), z3.Or(v[0] == v[1], v[0] == -v[1]))

    def nothing(self, X, args):
        g, o = X.ghost, args[0]
        X.prove('none.nothing-recorded', not o.attrs['rules'].added(X))

    def post(self, X, args, res):
        g, o = X.ghost, args[0]
        self.same(X, args)
        new = o.attrs['rules'].added(X)
        if is_none(X, res):
            self.none(X, o)
            X.prove('none.nothing-recorded', not new)
            return
        v = deref(inner(X, res))
        k = variant(v)
        if k == 'ConfigLimit':
            X.prove('config-limit', 'known' not in g and not new and X.prover_ok(o.attrs['configs'].n > 100000))
            return
        if k in ('InfiniteRule', 'MultRule'):
            X.prove('nothing-recorded', not new)
            rule, ds = self.chain(X)
            X.prove('rule', rule is not None)
            neg = lambda k: z3.And(rule.plain(k), rule.val(k) < 0)
            if k == 'InfiniteRule':
                self.every(X, rule, 'endless', lambda k: z3.Not(neg(k)))
            else:
                self.some(X, rule, 'multiplies', lambda k: z3.Not(rule.plain(k)))
            return
        X.prove('is-rule', k == 'Got')
        rule = deref(v.attrs['_0'])
        X.prove('is-rule', isinstance(rule, RuleX))
        if rule.made is not None:
            X.prove('known.for-this', z3.And(rule.made[0] == g['q'], rule.made[1] == g['t'], FOUND(g['q'], g['t'])))
            X.prove('known.nothing-recorded', not new and not o.attrs['configs'].writes and not g.get('asked'))
            return
        res = rule
        rule, ds = self.chain(X)
        X.prove('rule.returned', res is rule)
        self.every(X, rule, 'rule.plain', lambda k: rule.plain(k))
        self.some(X, rule, 'rule.decreases', lambda k: z3.And(rule.plain(k), rule.val(k) < 0))
        X.prove('rule.not-trivial', z3.Not(self.trivial(rule, g)))
        X.prove('rule.recorded', len(new) == 1)
        (qk, ck), entry = new[0]
        X.prove('rule.recorded', z3.And(zint(qk) == g['q'], zint(ck) == SCAN(g['t'])))
        X.prove('rule.recorded', isinstance(entry, tuple) and len(entry) == 2 and deref(entry[1]) is rule)
        check_min_sig(X, entry[0], ds[0].e, g['q'], g['t'])
        X.prove('rule.history-dropped', [z3.simplify(q == g['q']) for q in g['known'].deleted] == [z3.BoolVal(True)])

    def none(self, X, o):
        g = X.ghost
        if 'known' not in g:
            w = o.attrs['configs'].writes
            X.prove('none.new-config', len(w) == 1 and is_sig(X, w[0][0], g['t']) and isinstance(w[0][1], PastX)
                    and w[0][1].new is not None)
            q, c = w[0][1].new
            X.prove('none.new-config', z3.And(zint(q) == g['q'], zint(c) == g['cycle']))
            return
        X.prove('none.config-kept', not o.attrs['configs'].writes)
        X.prove('none.cycle-recorded', len(g.get('asked', ())) == 1 and g['asked'][0][0] is g['known'])
        _, q, c, ds = g['asked'][0]
        X.prove('none.cycle-recorded', z3.And(q == g['q'], c == g['cycle']))
        if ds is None:
            return
        if g.get('made'):
            X.prove('none.made-once', len(g['made']) == 1)
            rule, ts = g['made'][0]
            if rule is not None:
                X.prove('none.trivial', self.trivial(rule, g))
            return
        t, bad = g['t'], [d.e > 90000 for d in ds]
        for d in ds:
            u = SIMT(d.e, g['q'], t)
            bad.append(z3.Or(z3.Not(SIMOK(d.e, g['q'], t)), SIMQ(d.e, g['q'], t) != g['q'], z3.Not(COMPAT(u, g['t']))))
            t = u
        X.prove('none.no-round', z3.Or(bad))

    def exc(self, X, args, e):
        X.prove(f'no-{e.name}', e.name == 'Panic')

    def apply(self, X, args, kw):
        o, cyc, q0, tape = map(deref, args)
        n, q, t = X.ghost['head']
        X.prove('prover.own', o is X.ghost.get('prover'))
        X.prove('prover.tape', tape is X.ghost['tape'])
        X.prove('prover.here', z3.And(zint(q0) == q, tape.t == t))
        X.prove('prover.cycle', zint(cyc) == X.ghost['idx'])
        X.prove('prover.once', 'answer' not in X.ghost)
        k = ('none', 'Got', 'InfiniteRule', 'MultRule', 'ConfigLimit')[X.choose(5, 'try_rule')]
        X.ghost['answer'] = k
        if k == 'none':
            return None
        if k == 'InfiniteRule':
            X.assume(INFRULE(q, t))
        c = rcls(X, RP, f'ProverResult__{k}')
        return Some(Obj(c, dict(_0=RuleX(X, (q, t))) if k == 'Got' else {}))


class ProverNew(Contract):
    """no rules, no configurations"""
    key = f'{RP}:Prover.new'

    def inline_for(self, X):
        return X.target.startswith(RP)

    def setup(self, X):
        return [ProgX()]

    def post(self, X, args, res):
        X.prove('program', deref(res.attrs.get('prog')) is args[0])
        for n in ('rules', 'configs'):
            d = res.attrs.get(n)
            X.prove('empty', isinstance(d, Dct) and not d.d)

    def exc(self, X, args, e):
        X.prove(f'no-{e.name}', False)

    def apply(self, X, args, kw):
        if not isinstance(deref(args[0]), ProgX) or 'prover' in X.ghost:
            raise Untranslatable('Prover::new')
        o = X.ghost['prover'] = Obj(rcls(X, RP, 'Prover'), dict(prog=args[0], rules=Opaque('rules'), configs=Opaque('configs')))
        return o


LOOPS = (RunLoop(False), RunLoop(True), RunLoop(False, ast.While), RunLoop(True, ast.While), Rounds(), Rounds(ast.While), SimRounds(),
         SimRounds(ast.While))


def contracts(world):
    cs = [Run('run_quick_machine', False), Run('run_prover', True), GetRule(), Simulate(), GetMinSig(), SetRule(), TryRule(), ProverNew(),
          PastNew(), NextDeltas(), DeleteConfigs(),
          Given(f'{RT}:Tape.init', new_tape), Given(f'{RT}:EnumTape.from', enum_from), Given(f'{RR}:apply_rule', apply_rule),
          Given(f'{RR}:make_rule', make_rule)]
    m = world.by_path('src/instrs.rs')
    for std, cn in getattr(getattr(m, 'low', None), 'exts', ()):
        if isinstance(world.class_val(m, cn).lookup('from_str')[1], FuncVal):
            cs.append(Given(f'src/instrs.rs:{cn}.from_str', program))
    cs += [Getter(n) for n in (*GETTERS, 'steps', 'cycles', 'marks', 'rulapp')]
    return {c.key: c for c in cs}
