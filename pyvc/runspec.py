"""Contracts of tm/machine.py and tm/prover.py.

A tape is a term of the sort Tape; its operations are the functions proved of tm/tape.py (T01-T03), a program a partial function
slot -> instruction (M01).  RUN(n, q, t): the run stands at state q on tape t after n base steps (-1: rules were applied, the
number is no longer kept).  SIM(k, q, t): the same for the prover's own simulation, k rounds after its start.  Their defining
steps are unfolded where a loop invariant is assumed."""
from __future__ import annotations
import ast
import z3
from .values import *
from .engine import Contract, Ext, SB, SI, PathEnd, LoopSpec, Restart, _Havocked, zbool, unit_steps
from .seq import SeqV, SeqDomain, as_seq, instantiate

MACHINE, PROVER, RULES, TAPE, MACRO = 'tm/machine.py', 'tm/prover.py', 'tm/rules.py', 'tm/tape.py', 'tm/macro.py'
I, B = z3.IntSort(), z3.BoolSort()
T = z3.DeclareSort('Tape')


def F(name, *sorts):
    return z3.Function(name, *sorts)


HAS, INF, SH = [F(n, I, I, B) for n in ('p.has', 'p.loops', 'p.right')]
WR, NX, US, UC = [F(n, I, I, I) for n in ('p.write', 'p.next', 'p.undef_state', 'p.undef_colour')]
SCAN, BLANK, EDGE, MARKS = F('scan', T, I), F('blank', T, B), F('at_edge', T, B, B), F('marks', T, I)
STEP, CNT = F('step', T, B, I, B, T), F('step_count', T, B, I, B, I)
BLANK0 = z3.Const('blank_tape', T)
RUN, CONF = F('run', I, I, T, B), F('conf', I, T, B)
SPIN, INFV, LIM, STUCK = F('spins', I, T, B), F('endless', I, T, B), F('limit', I, T, B), F('stuck_at', I, I, I, T, B)
BLANKAT = F('blank_at', I, I, B)
FOUND, APPL, INFRULE = [F(n, I, T, B) for n in ('rule_found', 'rule_applies', 'rule_endless')]
APPD, TIMES = F('rule_result', I, T, T), F('rule_times', I, T, I)
SIM, SIMEND = F('sim', I, I, T, B), F('sim_end', T, B)
SIMOK, SIMQ, SIMT = F('sim_ok', I, I, T, B), F('sim_state', I, I, T, I), F('sim_tape', I, I, T, T)
COMPAT = F('compatible', T, T, B)
VERDICTS = ('undfnd', 'spnout', 'infrul', 'cfglim', 'limrul', 'xlimit')


def cls(X, path, name):
    return X.world.class_val(X.world.by_path(path), name)


def raise_(X, path, name, args=()):
    raise PyRaise(cls(X, path, name), args)


# ------------------------------------------------------------------ program and tape
class ProgX(Ext):
    def getitem(self, X, k):
        if not (isinstance(k, tuple) and len(k) == 2):
            raise Untranslatable('slot')
        q, c = zint(k[0]), zint(k[1])
        if X.truth(SB(INF(q, c))):
            raise_(X, MACRO, 'MacroInfLoop')
        if not X.truth(SB(HAS(q, c))):
            raise PyRaise(KeyError, ((SI(US(q, c)), SI(UC(q, c))),))
        return SI(WR(q, c)), SB(SH(q, c)), SI(NX(q, c))

    def isinstance(self, X, c):
        return X.choose(2, 'program is a dict') == 0 if c is dict else False

    def compare(self, X, op, other, refl):
        if op in ('is', '=='):
            return other is self
        raise Untranslatable(op)


class Counts(Ext):
    def __init__(self, t):
        self.t = t


class TapeX(Ext):
    def __init__(self, t, origin=None):
        self.t, self.origin = t, origin
        self.steps = 0
        self.runs = []              # an enum tape: the simulations made on it

    def signature(self, X):
        m = X.ghost.setdefault('signatures', [])
        for t, s in m:
            if z3.eq(t, self.t):
                return s
        s = SI(SCAN(self.t)), span(X, 'left'), span(X, 'right')
        m.append((self.t, s))
        return s

    def getattr(self, X, name):
        t = self.t
        if name == 'scan':
            return SI(SCAN(t))
        if name == 'blank':
            return SB(BLANK(t))
        if name == 'marks':
            return SI(MARKS(t))
        if name == 'counts':
            return Counts(t)
        if name == 'signature':
            return self.signature(X)
        if name == 'span_lens':
            return tuple(SI(F(f'spans.{s}', T, I)(t)) for s in 'lr')
        if name in ('offsets', 'edges'):
            if self.origin is None:
                raise PyRaise(AttributeError, (name,))
            if len(self.runs) != 1:
                raise Untranslatable('what an enum tape saw before it ran')
            lo, ro, le, re = self.seen(X)
            return (SI(lo), SI(ro)) if name == 'offsets' else (SB(le), SB(re))
        f = {'at_edge': self.at_edge, 'step': self.step, 'clone': self.clone, 'to_enum': self.to_enum,
             'sig_compatible': self.compatible}.get(name)
        if f is None:
            raise Untranslatable(f'tape.{name}')
        return f

    def seen(self, X):
        if not hasattr(self, 'saw'):
            self.saw = X.fresh('left_offset'), X.fresh('right_offset'), X.fresh('left_edge', 'bool'), X.fresh('right_edge', 'bool')
            X.assume(z3.And(self.saw[0] >= 0, self.saw[1] >= 0))
        return self.saw

    def at_edge(self, X, a, k):
        return SB(EDGE(self.t, zbool(bind(a, k, ('edge',))[0])))

    def step(self, X, a, k):
        shift, color, skip = bind(a, k, ('shift', 'color', 'skip'))
        args = self.t, zbool(shift), zint(color), zbool(skip)
        self.t = STEP(*args)
        self.steps += 1
        X.heap_writes += 1
        return SI(CNT(*args))

    def clone(self, X, a, k):
        return TapeX(self.t)

    def to_enum(self, X, a, k):
        r = TapeX(self.t, self)
        X.ghost.setdefault('enum_tapes', []).append(r)
        return r

    def compatible(self, X, a, k):
        s, = bind(a, k, ('sig',))
        for t, sig in X.ghost.get('signatures', ()):
            if s is sig or isinstance(s, tuple) and len(s) == 3 and all(x is y for x, y in zip(s, sig)):
                return SB(COMPAT(self.t, t))
        raise Untranslatable('a signature of its own')

    def isinstance(self, X, c):
        return getattr(c, 'name', None) in (('EnumTape',) if self.origin is not None else ('Tape',))

    def compare(self, X, op, other, refl):
        if op == 'is':
            return other is self
        raise Untranslatable(op)


def span(X, side):
    n = X.fresh(f'{side}_blocks')
    X.assume(n >= 0)
    f = F(f'{side}!{next(X.fresh_n)}', I, I)
    return SeqV(n, lambda X, k: SI(f(k)), 'tuple', label=side)


def is_sig(X, s, t):
    """s is the signature made of the tape t"""
    if not (isinstance(s, tuple) and len(s) == 3):
        return False
    return any(z3.eq(t, u) and all(x is y for x, y in zip(s[1:], sig[1:])) and X.prover_ok(zint(s[0]) == zint(sig[0]))
               for u, sig in X.ghost.get('signatures', ()))


class OtherOp(Ext):
    """what a rule does to a count other than add a plain number"""
    def isinstance(self, X, c):
        if c is int:
            return False
        raise Untranslatable('kind of rule operation')


class RuleX(Ext):
    """a rule; made == (q, t): the one known or found for state q on tape t"""
    def __init__(self, X, made=None):
        self.made = made
        self.n = None

    def size(self, X):
        if self.n is None:
            self.n = X.fresh('rule_size')
            X.assume(self.n >= 1)
            i = next(X.fresh_n)
            self.plain, self.val = F(f'op_is_int!{i}', I, B), F(f'op!{i}', I, I)
        return self.n

    def length(self, X):
        return SI(self.size(X))

    def op(self, X, k):
        self.size(X)
        return SI(self.val(k)) if X.truth(SB(self.plain(k))) else OtherOp()

    def getattr(self, X, name):
        if name in ('values', 'items'):
            def f(X, a, k):
                n = self.size(X)
                if X.truth(SB(n == 2)):
                    ops = [self.op(X, z3.IntVal(i)) for i in (0, 1)]
                    return Lst(ops if name == 'values' else [(Opaque('pos'), o) for o in ops])
                if name == 'items':
                    raise Untranslatable('rule.items')
                return SeqV(n, self.op, 'list', label='ops')
            return f
        raise Untranslatable(f'rule.{name}')

    def truth(self, X):
        return True

    def compare(self, X, op, other, refl):
        if op == 'is':
            return other is self
        raise Untranslatable(op)


class RunDomain(SeqDomain):
    def reset(self, X):
        pass

    def identity(self, X, v):
        return None

    def global_override(self, X, mod, name):
        return None

    def owns_class(self, X, cv):
        return False

    @property
    def externs(self):
        return {'tm.rust_stuff.PastConfigs': past_configs}


class Given(Contract):
    """a contract proved elsewhere, used here"""
    verify = False

    def __init__(self, key, fn):
        self.key, self.fn = key, fn

    def apply(self, X, args, kw):
        return self.fn(X, args, kw)


def new_tape(X, args, kw):
    if args or kw:
        raise Untranslatable('a tape with contents')
    X.ghost['tape'] = TapeX(BLANK0)
    return X.ghost['tape']


def apply_rule(X, args, kw):
    rule, tape = args
    if not isinstance(rule, RuleX) or not isinstance(tape, TapeX):
        raise Untranslatable('apply_rule')
    X.prove('rule-for-this-tape', rule.made is not None and X.prover_ok(rule.made[1] == tape.t))
    q, t = rule.made
    if X.choose(2, 'rule limit'):
        tape.t = X.fresh('half', T)
        X.ghost['rule_limit'] = True
        raise_(X, RULES, 'RuleLimit', (Opaque('why'),))
    if not X.truth(SB(APPL(q, t))):
        return None
    tape.t = APPD(q, t)
    X.heap_writes += 1
    X.assume(TIMES(q, t) >= 1)
    X.ghost['applied'] = X.ghost.get('applied', z3.IntVal(0)) + TIMES(q, t)
    return SI(TIMES(q, t))


# ------------------------------------------------------------------ the run
def unfold(X, n, q, t, seen):
    c = SCAN(t)
    w, sh, x = WR(q, c), SH(q, c), NX(q, c)
    same = x == q
    t2 = STEP(t, sh, w, same)
    n2 = z3.If(n == -1, -1, n + CNT(t, sh, w, same))
    at = RUN(n, q, t)
    has = z3.And(at, HAS(q, c), z3.Not(INF(q, c)))
    go = z3.And(has, z3.Not(z3.And(same, EDGE(t, sh))))
    for f in (z3.Implies(at, CONF(n, t)),
              z3.Implies(go, RUN(n2, x, t2)), z3.Implies(go, CONF(n2, t2)), CNT(t, sh, w, same) >= 1,
              z3.Implies(z3.And(go, BLANK(t2)), BLANKAT(x, n2)),
              z3.Implies(z3.And(go, BLANK(t2), z3.Or(z3.Select(seen, x), x == 0)), INFV(n2, t2)),
              z3.Implies(BLANK(t2), w == 0),
              z3.Implies(z3.And(has, same, EDGE(t, sh)), SPIN(n, t)),
              z3.Implies(z3.And(at, z3.Not(HAS(q, c)), z3.Not(INF(q, c))), STUCK(n, US(q, c), UC(q, c), t)),
              z3.Implies(z3.And(at, INF(q, c)), INFV(n, t)),
              z3.Implies(z3.And(at, APPL(q, t)), RUN(-1, q, APPD(q, t))),
              z3.Implies(z3.And(at, APPL(q, t)), CONF(-1, APPD(q, t))),
              z3.Implies(z3.And(at, INFRULE(q, t)), INFV(n, t))):
        X.assume(f)


class Blanks(Ext):
    """state -> steps: the blank tapes seen so far"""
    def __init__(self, X):
        self.seen = self.head = X.fresh('seen', z3.ArraySort(I, B))
        self.some = X.fresh('some_blank', 'bool')
        self.written = False

    def contains(self, X, k):
        return SB(z3.Select(self.seen, zint(k)))

    def put(self, X, k, n):
        X.heap_writes += 1
        X.prove('blank-recorded', BLANKAT(zint(k), zint(n)) if n is not None else z3.Exists([x := z3.Int('x')], BLANKAT(zint(k), x)))
        self.seen = z3.Store(self.seen, zint(k), True)
        self.written = True

    def setitem(self, X, k, v):
        self.put(X, k, v)

    def getitem(self, X, k):
        if not X.truth(self.contains(X, k)):
            raise PyRaise(KeyError, (k,))
        return SI(X.fresh('when'))

    def getattr(self, X, name):
        if name == 'get':
            return lambda X, a, kw: SI(X.fresh('when')) if X.truth(self.contains(X, a[0])) else (a[1] if len(a) > 1 else None)
        if name == 'setdefault':
            def sd(X, a, kw):
                if X.truth(self.contains(X, a[0])):
                    return SI(X.fresh('when'))
                self.put(X, *a)
                return a[1]
            return sd
        raise Untranslatable(f'blanks.{name}')

    def truth(self, X):
        return True if self.written else SB(self.some)

    def length(self, X):
        raise Untranslatable('len of blanks')


class RunLoop(LoopSpec):
    """at the head of every cycle the machine stands in a configuration of its run, no verdict given"""
    name = 'cycle'
    roles = ('step', 'state')
    keeps_target = True

    def applies(self, X, node, fr, it):
        return X.contract.key == Run.key and isinstance(node, ast.For) and 'tape' in X.ghost and 'head' not in X.ghost

    def machine(self, X):
        return X.root_args[0]

    def pre(self, X, L):
        o = self.machine(X)
        L.tape = X.ghost['tape']
        X.prove('own-tape', o.attrs.get('tape') is L.tape)
        X.prove('own-prover', isinstance(p := o.attrs.get('prover'), Obj) and p.attrs.get('prog') is o.attrs['program'])
        b = o.attrs.get('blanks')
        X.prove('no-blanks', isinstance(b, Dct) and not b.d)
        L.blanks = b
        L.rul = z3.IntVal(0)
        X.assume(RUN(0, 0, BLANK0))

    def havoc(self, X, L, names):
        super().havoc(X, L, names)
        o = self.machine(X)
        L.site = ('attrs', L.fr.qual)
        L.tape.t = X.fresh('tape', T)
        L.tape.steps = 0
        b = Blanks(X)
        f = L.fr
        while f is not None:
            for n, v in list(f.vars.items()):
                if v is L.blanks:
                    f.vars[n] = b
            f = f.parent
        o.attrs['blanks'] = L.blanks = b
        L.rul = X.fresh('applied')
        o.attrs['rulapp'] = SI(X.fresh('rulapp'))
        for n in X.must_havoc.setdefault(L.site, set()):
            o.attrs[n] = _Havocked(n)
        L.snap = dict(o.attrs)
        X.ghost.pop('applied', None)

    def modifies(self, X, L):
        return [self.machine(X)]

    def inv(self, X, L):
        n, q = zint(L.get('step')), zint(L.get('state'))
        return [('configuration', RUN(n, q, L.tape.t)),
                ('rules-applied', zint(X.getattr(self.machine(X), 'rulapp')) == L.rul),
                ('steps', z3.And(n >= -1, L.rul >= 0, (n == -1) == (L.rul >= 1)))]

    def inv_assume(self, X, L):
        n, q, t = zint(L.get('step')), zint(L.get('state')), L.tape.t
        unfold(X, n, q, t, L.blanks.head)
        X.ghost.update(head=(n, q, t), idx=L.idx, L=L)
        return []

    def step(self, X, L):
        o = self.machine(X)
        L.rul = L.rul + X.ghost.get('applied', 0)
        for k in VERDICTS:
            X.prove('no-verdict', X.getattr(o, k) is None)
        for k, v in o.attrs.items():
            if k not in ('rulapp', 'susrul', 'blanks') and k in L.snap and v is not L.snap[k] or k not in L.snap and k != 'susrul':
                X.must_havoc.setdefault(L.site, set()).add(k)
                raise Restart
        X.prove('own-blanks', o.attrs.get('blanks') is L.blanks)
        n, q, t = X.ghost['head']
        if L.tape.steps:
            x = NX(q, SCAN(t))
            X.prove('blank-noticed', z3.Implies(BLANK(L.tape.t), z3.And(
                z3.Select(L.blanks.seen, x), z3.Not(z3.Select(L.blanks.head, x)), x != 0)))
        if 'suspected' in X.ghost:
            X.prove('suspected', X.getattr(o, 'susrul') is X.ghost['suspected'])

    def on_exit(self, X, L):
        n, q, t = X.ghost['head']
        X.assume(z3.Implies(RUN(n, q, t), LIM(n, t)))
        X.ghost['idx'] = L.idx - 1


def counter(X, L, role):
    """the loop counts iterations, up or down, from where it starts"""
    by = unit_steps(L.node).get(L.name(role), 1)
    start = zint(L.get(role))
    return lambda X, L: zint(L.get(role)) == start + by * L.idx


class RunWhile(RunLoop):
    name = 'cycle'
    roles = ('step', 'state', 'cycle')

    def applies(self, X, node, fr, it):
        return X.contract.key == Run.key and isinstance(node, ast.While) and 'tape' in X.ghost and 'head' not in X.ghost

    def pre(self, X, L):
        super().pre(X, L)
        L.counter = counter(X, L, 'cycle')

    def inv(self, X, L):
        return super().inv(X, L) + [('counter', z3.And(L.counter(X, L), L.idx <= X.ghost['sim_lim']))]


class Run(Contract):
    """exactly one verdict, and it is true of the configuration the run stands in"""
    key = f'{MACHINE}:Machine.run'

    def setup(self, X):
        o = Obj(cls(X, MACHINE, 'Machine'))
        o.attrs['program'] = ProgX()
        lim = X.fresh('sim_lim')
        X.assume(lim >= 1)
        X.ghost['sim_lim'] = lim
        return [o, SI(lim), SB(X.fresh('watch_tape', 'bool'))]

    def post(self, X, args, res):
        o = args[0]
        X.prove('returns-machine', res is o)
        given = [k for k in VERDICTS if X.getattr(o, k) is not None]
        X.prove('one-verdict', len(given) == 1)
        k = given[0]
        v = o.attrs[k]
        tape = X.ghost['tape']
        L = X.ghost.get('L')
        X.prove('ran', L is not None and o.attrs.get('tape') is tape)
        t, idx = tape.t, X.ghost['idx']
        steps = o.attrs.get('steps')
        X.prove('steps', is_int(steps))
        if k == 'undfnd':
            X.prove('undefined-slot', isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], tuple) and len(v[1]) == 2)
            v, (a, b) = v
            X.prove('undefined-slot', STUCK(zint(v), zint(a), zint(b), t))
        elif k == 'spnout':
            X.prove('spin-out', SPIN(zint(v), t))
        elif k == 'infrul':
            X.prove('endless', INFV(zint(v), t))
        elif k == 'xlimit':
            X.prove('limit', LIM(zint(v), t))
            X.prove('limit', idx + 1 == X.ghost['sim_lim'])
        elif k == 'cfglim':
            X.prove('config-limit', z3.And(bool(X.ghost.get('config_limit')), CONF(zint(v), t)))
        else:
            X.prove('rule-limit', bool(X.ghost.get('rule_limit')))
            v = SI(X.ghost['head'][0])
        if k != 'limrul':
            X.prove('limit-kept', not X.ghost.get('rule_limit') and not (X.ghost.get('config_limit') and k != 'cfglim'))
        X.prove('steps', zint(steps) == zint(v))
        X.prove('cycles', is_int(c := o.attrs.get('cycles')) and X.prover_ok(zint(c) == idx))
        X.prove('rules-applied', zint(X.getattr(o, 'rulapp')) == L.rul)

    def exc(self, X, args, e):
        X.prove(f'no-{e.name}', False)


class TryRule(Contract):
    """a known rule, or one made from four observations of this state, each a simulation further on; the tape is left alone"""
    key = f'{PROVER}:Prover.try_rule'

    def setup(self, X):
        t = TapeX(X.fresh('tape', T))
        q, cyc = X.fresh('state'), X.fresh('cycle')
        X.ghost.update(q=q, t=t.t, cycle=cyc, tape=t)
        t.signature(X)
        o = prover_obj(X, t.t)
        return [o, SI(cyc), SI(q), t]

    def same(self, X, args):
        tape = args[3]
        X.prove('tape-left-alone', X.prover_ok(tape.t == X.ghost['t']))

    def chain(self, X):
        """the four observations"""
        g = X.ghost
        X.prove('rule.made-once', len(g.get('made', ())) == 1)
        rule, ts = g['made'][0]
        X.prove('rule.four-observations', len(ts) == 4)
        X.prove('rule.deltas', len(g.get('asked', ())) == 1 and g['asked'][0][0] is g.get('known'))
        _, q, c, ds = g['asked'][0]
        X.prove('rule.deltas', z3.And(q == g['q'], c == g['cycle']))
        X.prove('rule.deltas', ds is not None)
        X.prove('rule.observation', ts[0] == g['t'])
        t = g['t']
        for d, u in zip(ds, ts[1:]):
            X.prove('rule.observation', u == SIMT(d.e, g['q'], t))
            X.prove('rule.same-state', z3.And(SIMOK(d.e, g['q'], t), SIMQ(d.e, g['q'], t) == g['q']))
            X.prove('rule.same-signature', COMPAT(u, g['t']))
            t = u
        return rule, ds

    def post(self, X, args, res):
        g, o = X.ghost, args[0]
        self.same(X, args)
        new = o.attrs['rules'].added(X)
        if res is None:
            X.prove('none.nothing-recorded', not new)
            if 'known' not in g:
                w = o.attrs['configs'].writes
                X.prove('none.new-config', len(w) == 1 and is_sig(X, w[0][0], g['t']) and isinstance(w[0][1], PastX)
                        and w[0][1].new is not None)
                q, c = w[0][1].new
                X.prove('none.new-config', z3.And(zint(q) == g['q'], zint(c) == g['cycle']))
                return
            X.prove('none.config-kept', not o.attrs['configs'].writes)
            X.prove('none.cycle-recorded', len(g.get('asked', ())) == 1 and g['asked'][0][0] is g['known'])
            _, q, c, ds = g['asked'][0]
            X.prove('none.cycle-recorded', z3.And(q == g['q'], c == g['cycle']))
            if ds is None:
                return
            if g.get('made'):
                X.prove('none.made-once', len(g['made']) == 1)
                rule, ts = g['made'][0]
                if rule is None:
                    return
                n = rule.size(X)
                sl = [F(f'spans.{s}', T, I)(g['t']) for s in 'lr']
                v = [rule.val(z3.IntVal(i)) for i in (0, 1)]
                X.prove('none.trivial', z3.And(n == 2, sl[0] == 1, sl[1] == 1, rule.plain(0), rule.plain(1),
                                               z3.Or(v[0] == v[1], v[0] == -v[1])))
                return
            t, bad = g['t'], []
            for d in ds:
                u = SIMT(d.e, g['q'], t)
                bad.append(z3.Or(z3.Not(SIMOK(d.e, g['q'], t)), SIMQ(d.e, g['q'], t) != g['q'], z3.Not(COMPAT(u, g['t']))))
                t = u
            X.prove('none.no-round', z3.Or(bad))
            return
        X.prove('is-rule', isinstance(res, RuleX))
        if res.made is not None:
            X.prove('known.for-this', z3.And(res.made[0] == g['q'], res.made[1] == g['t'], FOUND(g['q'], g['t'])))
            X.prove('known.nothing-recorded', not new and not o.attrs['configs'].writes and not g.get('asked'))
            return
        rule, ds = self.chain(X)
        X.prove('rule.returned', res is rule)
        n = rule.size(X)
        sl = [F(f'spans.{s}', T, I)(g['t']) for s in 'lr']
        if X.truth(SB(z3.And(n == 2, sl[0] == 1, sl[1] == 1, rule.plain(0), rule.plain(1)))):
            v = [rule.val(z3.IntVal(i)) for i in (0, 1)]
            X.prove('rule.not-trivial', z3.And(v[0] != v[1], v[0] != -v[1]))
        X.prove('rule.recorded', len(new) == 1)
        (qk, ck), entry = new[0]
        X.prove('rule.recorded', z3.And(zint(qk) == g['q'], zint(ck) == SCAN(g['t'])))
        X.prove('rule.recorded', isinstance(entry, tuple) and len(entry) == 2 and entry[1] is rule)
        check_min_sig(X, entry[0], ds[0].e, g['q'], g['t'])
        X.prove('rule.history-dropped', [z3.simplify(q == g['q']) for q in g['known'].deleted] == [z3.BoolVal(True)])

    def exc(self, X, args, e):
        self.same(X, args)
        o = args[0]
        X.prove('raised.nothing-recorded', not o.attrs['rules'].added(X))
        if e.name == 'InfiniteRule':
            self.chain(X)
        elif e.name == 'ConfigLimit':
            X.prove('config-limit', 'known' not in X.ghost and X.prover_ok(o.attrs['configs'].n > 100000))
        else:
            X.prove(f'no-{e.name}', e.name in ('RuleLimit', 'SuspectedRule', 'MacroInfLoop'))

    def apply(self, X, args, kw):
        names = ('self', 'cycle', 'state', 'tape')
        got = dict(zip(names, args), **kw)
        if set(got) != set(names):
            raise Untranslatable('try_rule')
        tape = got['tape']
        n, q, t = X.ghost['head']
        X.prove('prover.own', got['self'] is X.root_args[0].attrs.get('prover'))
        X.prove('prover.tape', tape is X.ghost['tape'])
        X.prove('prover.here', z3.And(zint(got['state']) == q, tape.t == t))
        X.prove('prover.cycle', zint(got['cycle']) == X.ghost['idx'])
        k = X.choose(7, 'try_rule')
        if k == 0:
            return None
        if k == 1:
            return RuleX(X, (q, t))
        if k == 2:
            X.assume(INFRULE(q, t))
            raise_(X, RULES, 'InfiniteRule')
        if k == 3:
            X.ghost['rule_limit'] = True
            raise_(X, RULES, 'RuleLimit', (Opaque('why'),))
        if k == 4:
            X.ghost['config_limit'] = True
            raise_(X, PROVER, 'ConfigLimit')
        if k == 5:
            X.ghost['suspected'] = a = (X.fresh_int('add'), X.fresh_int('sub'))
            raise_(X, RULES, 'SuspectedRule', a)
        raise_(X, MACRO, 'MacroInfLoop')


class MachineInit(Contract):
    """the program is the one built from the arguments"""
    key = f'{MACHINE}:Machine.__init__'

    def setup(self, X):
        X.ghost['prog'] = p = Opaque('prog')
        return [Obj(cls(X, MACHINE, 'Machine')), p]

    def kwargs(self, X):
        X.ghost['kw'] = {k: Opaque(k) for k in ('blocks', 'backsym', 'opt_macro', 'params')}
        return dict(X.ghost['kw'])

    def post(self, X, args, res):
        o = args[0]
        X.prove('built', len(X.ghost.get('macro', ())) == 1)
        a, kw, p = X.ghost['macro'][0]
        X.prove('built.program', a[0] is X.ghost['prog'] and len(a) == 1)
        for k, v in X.ghost['kw'].items():
            X.prove(f'built.{k}', kw.get(k) is v)
        X.prove('program', o.attrs.get('program') is p)
        for k in VERDICTS:
            X.prove('no-verdict', X.getattr(o, k) is None)


def make_macro(X, args, kw):
    p = ProgX()
    X.ghost.setdefault('macro', []).append((args, kw, p))
    return p


class Simple(Contract):
    key = f'{MACHINE}:Machine.simple_termination'

    def setup(self, X):
        o = Obj(cls(X, MACHINE, 'Machine'))
        o.attrs['program'] = ProgX()
        g = X.ghost
        g['und'] = (X.fresh_int('steps'), (X.fresh_int('q'), X.fresh_int('c'))) if X.choose(2, 'undefined') else None
        g['spn'] = X.fresh_int('steps') if X.choose(2, 'spin-out') else None
        for k, v in (('undfnd', g['und']), ('spnout', g['spn'])):
            if v is not None:
                o.attrs[k] = v
        return [o]

    def post(self, X, args, res):
        g = X.ghost
        want = g['und'][0] if g['und'] is not None else g['spn']
        X.prove('steps', res is None if want is None else res is not None and X.prover_ok(zint(res) == zint(want)))


class Marks(Contract):
    key = f'{MACHINE}:Machine.marks'

    def setup(self, X):
        o = Obj(cls(X, MACHINE, 'Machine'))
        X.ghost['t'] = t = X.fresh('tape', T)
        o.attrs.update(program=ProgX(), tape=TapeX(t))
        return [o]

    def post(self, X, args, res):
        X.prove('of-the-tape', zint(res) == MARKS(X.ghost['t']))


# ------------------------------------------------------------------ the prover
class PastX(Ext):
    """the cycles at which a signature was seen"""
    def __init__(self, new=None):
        self.new, self.deleted = new, []

    def getattr(self, X, name):
        if name == 'next_deltas':
            def nd(X, a, k):
                q, c = map(zint, bind(a, k, ('state', 'cycle')))
                ds = None
                if X.choose(2, 'deltas'):
                    ds = tuple(X.fresh_int('delta') for _ in range(3))
                    for d in ds:
                        X.assume(d.e >= 0)
                X.ghost.setdefault('asked', []).append((self, q, c, ds))
                return ds
            return nd
        if name == 'delete_configs':
            def dc(X, a, k):
                self.deleted.append(zint(*bind(a, k, ('state',))))
            return dc
        raise Untranslatable(f'past.{name}')


def past_configs(X, a, k):
    return PastX(tuple(bind(a, k, ('state', 'cycle'))))


class ConfigsX(Ext):
    """signature -> past configurations"""
    def __init__(self, X):
        self.n = X.fresh('configs')
        X.assume(self.n >= 0)
        self.writes = []
        self.decided = None

    def find(self, X, k):
        X.prove('configs.this-signature', is_sig(X, k, X.ghost['t']))
        if self.writes:
            return self.writes[-1][1]
        if self.decided is None:
            self.decided = [PastX()] if X.choose(2, 'signature seen') else []
            if self.decided:
                X.ghost['known'] = self.decided[0]
        return self.decided[0] if self.decided else None

    def getattr(self, X, name):
        if name == 'get':
            def get(X, a, kw):
                r = self.find(X, a[0])
                return r if r is not None else (a[1] if len(a) > 1 else None)
            return get
        raise Untranslatable(f'configs.{name}')

    def getitem(self, X, k):
        r = self.find(X, k)
        if r is None:
            raise PyRaise(KeyError, (k,))
        return r

    def contains(self, X, k):
        return self.find(X, k) is not None

    def setitem(self, X, k, v):
        X.heap_writes += 1
        self.writes.append((k, v))

    def length(self, X):
        return SI(self.n + len(self.writes))


class RuleList(Ext):
    """the rules kept for one slot"""
    def __init__(self, X, key):
        self.key, self.appended = key, []
        self.n = X.fresh('rules')
        X.assume(self.n >= 1)
        i = next(X.fresh_n)
        self.f = {k: F(f'{k}!{i}', I, *s) for k, s in dict(scan=(I,), ln=(I,), rn=(I,), lv=(I, I), rv=(I, I), le=(B,),
                                                           re=(B,)).items()}
        self.rules = {}

    def min_sig(self, X, k):
        f = self.f
        X.assume(z3.And(f['ln'](k) >= 0, f['rn'](k) >= 0))
        return ((SI(f['scan'](k)), SeqV(f['ln'](k), lambda X, j: SI(f['lv'](k, j)), 'tuple', label='lspan'),
                 SeqV(f['rn'](k), lambda X, j: SI(f['rv'](k, j)), 'tuple', label='rspan')),
                (SB(f['le'](k)), SB(f['re'](k))))

    def rule(self, X, k):
        for j, r in self.rules.items():
            if z3.eq(j, k):
                return r
        r = RuleX(X)
        r.index = k
        self.rules[k] = r
        return r

    def as_seq(self, X):
        if self.appended:
            raise Untranslatable('the rules after one was added')
        return SeqV(self.n, lambda X, k: (self.min_sig(X, k), self.rule(X, k)), 'list', label='rules')

    def loop_iter(self, X):
        return self.as_seq(X).loop_iter(X)

    def truth(self, X):
        return True

    def length(self, X):
        return SI(self.n + len(self.appended))

    def getattr(self, X, name):
        if name == 'append':
            def ap(X, a, k):
                X.heap_writes += 1
                self.appended.append(a[0])
            return ap
        raise Untranslatable(f'rules.{name}')

    def compare(self, X, op, other, refl):
        if op == 'is':
            return other is self
        raise Untranslatable(op)


class RulesX(Ext):
    """slot -> rules"""
    def __init__(self, X, default):
        self.memory, self.default = [], default

    def find(self, X, k, make=True):
        for e in reversed(self.memory):
            if X.truth(X.eqb(e[0], k)):
                return e[1]
        if not make:
            return None
        v = RuleList(X, k) if X.choose(2, 'slot has rules') else None
        self.memory.append((k, v))
        return v

    def getattr(self, X, name):
        if name == 'get':
            def get(X, a, kw):
                r = self.find(X, a[0])
                return r if r is not None else (a[1] if len(a) > 1 else None)
            return get
        if name == 'setdefault':
            def sd(X, a, kw):
                r = self.find(X, a[0])
                if r is None:
                    self.setitem(X, *a)
                    r = a[1]
                return r
            return sd
        raise Untranslatable(f'rules.{name}')

    def getitem(self, X, k):
        r = self.find(X, k)
        if r is None:
            if self.default:
                r = Lst()
                self.memory.append((k, r))
                return r
            raise PyRaise(KeyError, (k,))
        return r

    def contains(self, X, k):
        return self.find(X, k) is not None

    def setitem(self, X, k, v):
        X.heap_writes += 1
        X.prove('rules.kept', self.find(X, k) is None or self.find(X, k) is v)
        if not isinstance(v, (Lst, RuleList)):
            raise Untranslatable('rules of a slot')
        self.memory.append((k, v))

    def added(self, X):
        out, done = [], []
        for k, v in self.memory:
            if v is None or any(v is d for d in done):
                continue
            done.append(v)
            out += [(k, e) for e in (v.appended if isinstance(v, RuleList) else v.items)]
        return out


def prover_obj(X, t=None):
    """a prover as its constructor makes it, with any rules and configurations collected since"""
    p = ProgX()
    o = X.instantiate(cls(X, PROVER, 'Prover'), [p], {})
    X.prove('init.program', o.attrs.get('prog') is p)
    r, c = o.attrs.get('rules'), o.attrs.get('configs')
    X.prove('init.empty', isinstance(r, Dct) and not r.d and isinstance(c, Dct) and not c.d)
    o.attrs.update(rules=RulesX(X, r.default is not None), configs=ConfigsX(X))
    return o


def bind(args, kw, names, defaults=()):
    got = dict(zip(names, args), **kw)
    for n, v in zip(names[len(names) - len(defaults):], defaults):
        got.setdefault(n, v)
    if set(got) != set(names):
        raise Untranslatable('arguments')
    return [got[n] for n in names]


class GetRule(Contract):
    """the first rule of the slot whose minimal signature fits: a span of it is the whole span of the tape where the rule saw the
    edge, its beginning elsewhere"""
    key = f'{PROVER}:Prover.get_rule'

    def setup(self, X):
        t = TapeX(X.fresh('tape', T))
        q = X.fresh('state')
        sig = t.signature(X)
        X.ghost.update(q=q, t=t.t, sig=sig, tape=t)
        o = prover_obj(X, t.t)
        return [o, SI(q), t] + ([sig] if X.choose(2, 'signature given') else [])

    def fits(self, X, ms):
        """python bool (forks)"""
        (scan, l, r), edges = ms
        sig = X.ghost['sig']
        if not X.truth(SB(zint(scan) == zint(sig[0]))):
            return False
        from .seq import slice_seq, seq_eq
        from .engine import SliceV
        for s, full, e in zip((l, r), sig[1:], edges):
            if X.truth(e):
                if not seq_eq(X, s, full):
                    return False
            elif not seq_eq(X, s, slice_seq(X, full, SliceV(None, SI(s.n), None))):
                return False
        return True

    def post(self, X, args, res):
        o = args[0]
        g = X.ghost
        X.prove('tape-left-alone', args[2].t is g['t'])
        mem = [(k, v) for k, v in o.attrs['rules'].memory]
        X.prove('one-slot', len(mem) == 1)
        (kq, kc), lst = mem[0]
        X.prove('slot', z3.And(zint(kq) == g['q'], zint(kc) == SCAN(g['t'])))
        if lst is None:
            X.prove('no-rules', res is None)
            return
        X.prove('rules-kept', isinstance(lst, RuleList) and not lst.appended)
        if res is None:
            k = X.fresh('any')
            X.assume(z3.And(k >= 0, k < lst.n))
            self.refute(X, lst, k, 'none-fits')
            return
        X.prove('kept-rule', isinstance(res, RuleX) and any(r is res for r in lst.rules.values()))
        k = res.index
        X.prove('kept-rule', z3.And(k >= 0, k < lst.n))
        found, known = self.facts(X)
        if not self.fits(X, lst.min_sig(X, k)):
            self.meet(X, known, found)
            X.prove('fits', False)
        j = X.fresh('earlier')
        X.assume(z3.And(j >= 0, j < k))
        self.refute(X, lst, j, 'first')

    def facts(self, X):
        """numbers of witnesses and universal facts so far"""
        return len(X.ghost.get('witness', ())), len(X.ghost.get('forall', ()))

    def refute(self, X, lst, k, name):
        """rule k was passed over: it does not fit"""
        w0, f0 = self.facts(X)
        if not self.fits(X, lst.min_sig(X, k)):
            return
        w1, f1 = self.facts(X)
        for s, want in list(X.ghost.get('forall', ()))[:f0]:
            if getattr(s, 'source', None) is None or not X.truth(SB(z3.And(k >= 0, k < s.n))):
                continue
            if s.holds(X, k) != want:
                raise PathEnd
        self.meet(X, f1, w1, f0)
        X.prove(name, False)

    def meet(self, X, f1, w1, f0=0):
        """the universal facts f0..f1 at the places where, since witness w1, two spans were found to differ"""
        for _, w in list(X.ghost.get('witness', ()))[w1:]:
            for s, want in list(X.ghost.get('forall', ()))[f0:f1]:
                if getattr(s, 'source', None) is None and X.truth(SB(z3.And(w >= 0, w < s.n))) and s.holds(X, w) != want:
                    raise PathEnd

    def apply(self, X, args, kw):
        o, q, tape, sig = bind(args, kw, ('self', 'state', 'tape', 'sig'), (None,))
        if not isinstance(tape, TapeX):
            raise Untranslatable('get_rule')
        if sig is not None:
            X.prove('signature-of-tape', is_sig(X, sig, tape.t))
        q = zint(q)
        if not X.truth(SB(FOUND(q, tape.t))):
            return None
        return RuleX(X, (q, tape.t))


class Rounds(LoopSpec):
    """as many rounds of the machine (or rules applied) as iterations"""
    name = 'rounds'
    roles = ('state',)

    def applies(self, X, node, fr, it):
        return X.contract.key == Simulate.key and 'head' not in X.ghost and isinstance(node, ast.For)

    def pre(self, X, L):
        L.tape = X.root_args[3]
        X.assume(SIM(0, X.ghost['q'], X.ghost['t']))

    def havoc(self, X, L, names):
        super().havoc(X, L, names)
        L.tape.t = X.fresh('tape', T)

    def inv(self, X, L):
        return [('configuration', SIM(L.idx, zint(L.get('state')), L.tape.t))]

    def inv_assume(self, X, L):
        q, t, k = zint(L.get('state')), L.tape.t, L.idx
        X.ghost['head'] = k, q, t
        c = SCAN(t)
        at = SIM(k, q, t)
        rule = z3.And(FOUND(q, t), APPL(q, t))
        X.assume(z3.Implies(z3.And(at, rule), SIM(k + 1, q, APPD(q, t))))
        X.assume(z3.Implies(z3.And(at, z3.Not(rule), HAS(q, c)),
                            SIM(k + 1, NX(q, c), STEP(t, SH(q, c), WR(q, c), NX(q, c) == q))))
        X.assume(z3.Implies(z3.And(at, z3.Not(rule), z3.Not(HAS(q, c)), k < X.ghost['steps']), SIMEND(t)))
        return []

    def on_exit(self, X, L):
        X.ghost['rounds'] = L.idx


class RoundsWhile(Rounds):
    roles = ('state', 'left')

    def applies(self, X, node, fr, it):
        return X.contract.key == Simulate.key and 'head' not in X.ghost and isinstance(node, ast.While)

    def pre(self, X, L):
        super().pre(X, L)
        L.counter = counter(X, L, 'left')

    def inv(self, X, L):
        return super().inv(X, L) + [('counter', z3.And(L.counter(X, L), L.idx <= X.ghost['steps']))]


class Simulate(Contract):
    """the state and tape that many rounds on, a known rule counting as one round; None where the program has no instruction"""
    key = f'{PROVER}:Prover.run_simulator'

    def setup(self, X):
        t = TapeX(X.fresh('tape', T))
        q, n = X.fresh('state'), X.fresh('steps')
        X.assume(n >= 0)
        X.ghost.update(q=q, t=t.t, steps=n, tape=t)
        return [prover_obj(X, t.t), SI(n), SI(q), t]

    def post(self, X, args, res):
        o, n, q, tape = args
        if res is None:
            X.prove('undefined', SIMEND(tape.t))
        else:
            X.prove('rounds', SIM(X.ghost['steps'], zint(res), tape.t))
        X.prove('rules-kept', not o.attrs['rules'].added(X))

    def exc(self, X, args, e):
        X.prove(f'no-{e.name}', e.name in ('RuleLimit', 'MacroInfLoop'))

    def apply(self, X, args, kw):
        o, n, q, tape = bind(args, kw, ('self', 'steps', 'state', 'tape'))
        if not isinstance(tape, TapeX):
            raise Untranslatable('run_simulator')
        X.prove('simulation.off-the-tape', tape is not X.ghost.get('tape'))
        n, q, t = zint(n), zint(q), tape.t
        k = X.choose(3, 'simulation')
        tape.runs.append((n, q, t))
        X.heap_writes += 1
        if k:
            tape.t = X.fresh('left_at', T)
            if k == 1:
                raise_(X, MACRO, 'MacroInfLoop')
            raise_(X, RULES, 'RuleLimit', (Opaque('why'),))
        tape.t = SIMT(n, q, t)
        if not X.truth(SB(SIMOK(n, q, t))):
            return None
        return SI(SIMQ(n, q, t))


def check_min_sig(X, ms, delta, q, t):
    """the signature of t cut to what a simulation of delta rounds from it reads, with the edges it ran over"""
    ok = isinstance(ms, tuple) and len(ms) == 2 and isinstance(ms[0], tuple) and len(ms[0]) == 3 and \
        isinstance(ms[1], tuple) and len(ms[1]) == 2
    X.prove('min-sig.shape', ok)
    sig = [s for u, s in X.ghost['signatures'] if z3.eq(u, t)][0]
    tapes = [x for x in X.ghost.get('enum_tapes', ()) if len(x.runs) == 1 and hasattr(x, 'saw')]
    X.prove('min-sig.one-run', len(tapes) == 1)
    n, q0, t0 = tapes[0].runs[0]
    X.prove('min-sig.run', z3.And(n == delta, q0 == q, t0 == t))
    lo, ro, le, re = tapes[0].saw
    (scan, l, r), (lex, rex) = ms
    X.prove('min-sig.scan', zint(scan) == zint(sig[0]))
    X.prove('min-sig.edges', z3.And(zbool(lex) == le, zbool(rex) == re))
    for s, full, cut in ((l, sig[1], lo), (r, sig[2], ro)):
        s = as_seq(X, s)
        X.prove('min-sig.span', s is not None)
        X.prove('min-sig.span', s.n == z3.If(cut <= full.n, cut, full.n))
        k = X.fresh('block')
        X.assume(z3.And(k >= 0, k < s.n))
        X.prove('min-sig.span', zint(s.at(X, k)) == zint(full.at(X, k)))


class GetMinSig(Contract):
    key = f'{PROVER}:Prover.get_min_sig'
    inline = True

    def setup(self, X):
        t = TapeX(X.fresh('tape', T))
        q, n = X.fresh('state'), X.fresh('steps')
        X.assume(n >= 0)
        X.ghost.update(q=q, t=t.t, steps=n, tape=t)
        sig = t.signature(X)
        o = prover_obj(X, t.t)
        return [o, SI(n), SI(q), t.to_enum(X, [], {}), sig]

    def post(self, X, args, res):
        check_min_sig(X, res, X.ghost['steps'], X.ghost['q'], X.ghost['t'])

    def exc(self, X, args, e):
        X.prove(f'no-{e.name}', e.name in ('RuleLimit', 'MacroInfLoop'))


class SetRule(Contract):
    """the rule is added to those of its slot, the others stay"""
    key = f'{PROVER}:Prover.set_rule'
    inline = True

    def setup(self, X):
        t = TapeX(X.fresh('tape', T))
        X.ghost.update(t=t.t)
        ms = ((SI(SCAN(t.t)), span(X, 'left'), span(X, 'right')), (SB(X.fresh('le', 'bool')), SB(X.fresh('re', 'bool'))))
        return [prover_obj(X, t.t), RuleX(X), X.fresh_int('state'), ms]

    def post(self, X, args, res):
        o, rule, q, ms = args
        new = o.attrs['rules'].added(X)
        X.prove('added', len(new) == 1)
        (kq, kc), e = new[0]
        X.prove('slot', z3.And(zint(kq) == q.e, zint(kc) == zint(ms[0][0])))
        X.prove('entry', isinstance(e, tuple) and len(e) == 2 and e[1] is rule)
        m = e[0]
        X.prove('entry', m is ms or isinstance(m, tuple) and len(m) == 2 and m[0] is ms[0] and m[1] is ms[1])

    def exc(self, X, args, e):
        X.prove(f'no-{e.name}', False)


def make_rule(X, args, kw):
    if kw or not all(isinstance(a, Counts) for a in args):
        raise Untranslatable('make_rule')
    k = X.choose(5, 'make_rule')
    r = RuleX(X) if k == 0 else None
    X.ghost.setdefault('made', []).append((r, [a.t for a in args]))
    if k <= 1:
        if r is not None:
            r.size(X)
        return r
    raise_(X, RULES, ('InfiniteRule', 'RuleLimit', 'SuspectedRule')[k - 2], () if k == 2 else (Opaque('why'),))


LOOPS = (RunLoop(), RunWhile(), Rounds(), RoundsWhile())


def run_contracts(world):
    cs = [Run(), TryRule(), MachineInit(), Simple(), Marks(), GetRule(), Simulate(), GetMinSig(), SetRule(),
          Given(f'{TAPE}:Tape', new_tape), Given(f'{RULES}:apply_rule', apply_rule), Given(f'{RULES}:make_rule', make_rule),
          Given(f'{MACRO}:make_macro', make_macro), Given(f'{MACHINE}:Machine.show_tape', lambda X, a, k: None)]
    return {c.key: c for c in cs}
