"""Concrete search for a run or a prover step that is not what the program does.

Reference: the program on a tape kept cell by cell, and the contracts of pyvc/runspec.py written as executable Python over the
same tape and rule operations."""
from __future__ import annotations
import os
import random
import signal
import sys
from .common import REPO, Found
from . import stubs
from .macro_fz import gen_prog, show

sys.path.insert(0, REPO)
stubs.install()
import tm.machine as MM      # noqa: E402
import tm.prover as PP       # noqa: E402
import tm.macro as MC        # noqa: E402
import tm.rules as RR        # noqa: E402
from tm.tape import Tape     # noqa: E402

HERE = os.path.dirname(os.path.abspath(__file__))
PROGS = [p for p in open(os.path.join(HERE, 'progs.txt')).read().split('\n') if p]
PRE = (f'sys.path.insert(0, {os.path.dirname(HERE)!r})\nfrom fz import stubs; stubs.install()\n')
VERDICTS = ('undfnd', 'spnout', 'infrul', 'cfglim', 'limrul', 'xlimit')
BUG = (UnboundLocalError, AttributeError, TypeError, IndexError, NameError)


class Late(Exception):
    pass


def _late(*_):
    raise Late


def limited(secs):
    signal.signal(signal.SIGALRM, _late)
    signal.setitimer(signal.ITIMER_REAL, secs)


def cells_of(tape, cap=3000):
    """(left of head, scan, right) as colours, None when too long or symbolic"""
    out = []
    for span in (tape.lspan, tape.rspan):
        cells = []
        for b in span:
            if not isinstance(b.count, int) or len(cells) + b.count > cap:
                return None
            cells += [b.color] * b.count
        while cells and not cells[-1]:
            cells.pop()
        out.append(cells)
    return out[0], tape.scan, out[1]


class Naive:
    def __init__(self, prog):
        self.prog, self.tape, self.pos, self.q, self.n = prog, {}, 0, 0, 0
        self.lo = self.hi = 0
        self.nz = 0
        self.blanks = {}
        self.end = None

    def cells(self):
        def side(r):
            out = []
            for p in r:
                out.append(self.tape.get(p, 0))
            while out and not out[-1]:
                out.pop()
            return out
        return (side(range(self.pos - 1, self.lo - 1, -1)), self.tape.get(self.pos, 0), side(range(self.pos + 1, self.hi + 1)))

    def run(self, limit):
        """until a verdict or limit steps"""
        prog, tape = self.prog, self.tape
        while self.end is None and self.n < limit:
            s = tape.get(self.pos, 0)
            try:
                c, r, nq = prog[self.q, s]
            except KeyError as e:
                self.end = 'undfnd', self.n, e.args[0]
                break
            except MC.MacroInfLoop:
                self.end = 'macro', self.n
                break
            if not s and nq == self.q:
                if not any(tape.get(k, 0) for k in (range(self.pos, self.hi + 1) if r else range(self.lo, self.pos + 1))):
                    self.end = 'spnout', self.n
                    break
            self.nz += bool(c) - bool(s)
            tape[self.pos] = c
            self.pos += 1 if r else -1
            self.lo, self.hi = min(self.lo, self.pos), max(self.hi, self.pos)
            self.q = nq
            self.n += 1
            if not c and not self.nz:
                if nq in self.blanks or not nq:
                    self.blanks.setdefault(nq, self.n)
                    self.end = 'blank', self.n
                    break
                self.blanks[nq] = self.n
        return self


def show_v(m):
    return ', '.join(f'{k} = {str(getattr(m, k))[:60]}' for k in VERDICTS if getattr(m, k) is not None)


def script(text, kw, lim):
    a = ''.join(f', {k} = {v}' for k, v in kw.items())
    return PRE + (f'from tm.machine import Machine\nm = Machine({text!r}{a}).run(sim_lim = {lim})\n'
                  'print(m, m.steps, m.blanks)\n')


def against_naive(m, text, kw, lim, applied, stats):
    inp = f'Machine({text!r}, {kw}).run(sim_lim = {lim})'

    def bad(what, got, want):
        raise Found(what=what, input=inp, got=str(got), want=str(want), code=script(text, kw, lim))
    got = [k for k in VERDICTS if getattr(m, k) is not None]
    if len(got) != 1:
        bad('verdicts of a run', got, 'exactly one')
    k = got[0]
    v = getattr(m, k)
    step = v[0] if k == 'undfnd' else v
    nv = Naive(m.program).run(40000 if not kw else 8000)
    end = nv.end
    stats[k] = stats.get(k, 0) + 1
    if not 0 <= m.cycles < lim:
        bad('cycles', m.cycles, f'at most {lim - 1}')
    if k == 'xlimit' and m.cycles != lim - 1:
        bad('limit before its cycles were run', m.cycles, lim - 1)
    if k in ('undfnd', 'spnout'):
        if end is not None:
            if end[0] == 'blank':
                bad(f'run ends with {k}', show_v(m), 'a blank tape seen twice: never halts')
            if end[0] != k or k == 'undfnd' and end[2] != v[1] or step not in (-1, end[1]):
                bad(f'run ends with {k}', show_v(m), end)
            if applied is None and step == -1:
                bad('steps of a run without rules', -1, end[1])
            c = cells_of(m.tape)
            if c is not None and list(map(list, (c[0], c[2]))) + [c[1]] != [nv.cells()[0], nv.cells()[2], nv.cells()[1]]:
                bad('final tape', c, nv.cells())
        elif step != -1 and step < nv.n:
            bad(f'run ends with {k}', show_v(m), f'still running after {nv.n} steps')
    elif k == 'infrul':
        if end is not None and end[0] in ('undfnd', 'spnout'):
            bad('run called endless', show_v(m), end)
        if step != -1 and end is not None and end[0] == 'blank' and step > end[1]:
            bad('endless run seen late', show_v(m), end)
        if step != -1 and step > 0 and applied is None and end is None and m.tape.blank and nv.n >= step:
            bad('run called endless', show_v(m), f'no blank tape seen twice within {nv.n} steps')
    elif k == 'xlimit' and end is not None and step > end[1]:
        bad('run goes on after its end', show_v(m), end)
    if step != -1 and k not in ('limrul',) and (end is None or step <= end[1]) and isinstance(step, int) and step <= nv.n:
        at = Naive(m.program).run(step)
        if at.n == step:
            c = cells_of(m.tape)
            w = at.cells()
            if c is not None and (list(c[0]), c[1], list(c[2])) != w:
                bad(f'tape after {step} steps', c, w)
            for q, s in m.blanks.items():
                if s != -1 and at.blanks.get(q) != s:
                    bad(f'blank tape in state {q}', s, at.blanks)
            if set(at.blanks) != set(m.blanks):
                bad(f'states seen with a blank tape in {step} steps', m.blanks, at.blanks)
    if step != -1 and m.steps != step:
        bad('steps', m.steps, step)
    if m.simple_termination != (m.spnout if m.undfnd is None else m.undfnd[0]):
        bad('simple_termination', m.simple_termination, m.undfnd or m.spnout)


# ------------------------------------------------------------------ the contracts, executable
def op_eq(a, b):
    return a is b or type(a) is type(b) and a == b


class RefProver:
    def __init__(self, prog):
        self.prog, self.rules, self.configs = prog, {}, {}

    @staticmethod
    def fits(ms, sig):
        (scan, l, r), (lex, rex) = ms
        l, r = tuple(l), tuple(r)
        return scan == sig[0] and (l == tuple(sig[1]) if lex else l == tuple(sig[1])[:len(l)]) and (
            r == tuple(sig[2]) if rex else r == tuple(sig[2])[:len(r)])

    def get_rule(self, state, tape):
        sig = tape.signature
        for ms, rule in self.rules.get((state, tape.scan), ()):
            if self.fits(ms, sig):
                return rule
        return None

    def simulate(self, n, q, tape):
        for _ in range(n):
            rule = self.get_rule(q, tape)
            if rule is not None and RR.apply_rule(rule, tape) is not None:
                continue
            try:
                c, sh, nq = self.prog[q, tape.scan]
            except KeyError:
                return None
            tape.step(sh, c, q == nq)
            q = nq
        return q

    def min_sig(self, n, q, enum, sig):
        self.simulate(n, q, enum)
        l, r = enum.offsets
        return (sig[0], tuple(sig[1][:l]), tuple(sig[2][:r])), tuple(enum.edges)

    def try_rule(self, cycle, q, tape):
        sig = tape.signature
        rule = self.get_rule(q, tape)
        if rule is not None:
            return rule
        if sig not in self.configs:
            self.configs[sig] = self.past(q, cycle)
            return None
        past = self.configs[sig]
        ds = past.next_deltas(q, cycle)
        if ds is None:
            return None
        t, counts = tape.clone(), [tape.counts]
        for d in ds:
            if self.simulate(d, q, t) != q or not t.sig_compatible(sig):
                return None
            counts.append(t.counts)
        rule = RR.make_rule(*counts)
        if rule is None:
            return None
        vals = list(rule.values())
        if len(vals) == 2 and tape.span_lens == (1, 1) and all(isinstance(v, int) for v in vals) and abs(vals[0]) == abs(vals[1]):
            return None
        past.delete_configs(q)
        ms = self.min_sig(ds[0], q, tape.to_enum(), sig)
        self.rules.setdefault((q, sig[0]), []).append((ms, rule))
        return rule


EXCS = (RR.InfiniteRule, RR.RuleLimit, RR.SuspectedRule, MC.MacroInfLoop, PP.ConfigLimit)


def call(f, *a):
    try:
        return 'answer', f(*a)
    except Late:
        raise
    except EXCS as e:
        return 'raises', type(e).__name__
    except Exception as e:
        return 'raises', type(e).__name__


def same_rule(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'raises':
        return a[1] == b[1]
    x, y = a[1], b[1]
    if x is None or y is None:
        return x is y
    if not isinstance(x, dict) or not isinstance(y, dict):
        return x == y
    return x.keys() == y.keys() and all(op_eq(x[k], y[k]) for k in x)


def histories(past):
    if isinstance(past, AnyPast):
        return past.made, past.dropped
    return {q: list(c) for q, c in past.configs.items()}


def norm_rules(rs):
    return {k: [((s[0], tuple(s[1]), tuple(s[2])), tuple(e), r) for (s, e), r in v] for k, v in rs.items() if v}


class AnyPast:
    """next distances that follow from nothing: the prover has to cope with every answer"""
    seed = 0

    def __init__(self, state, cycle):
        self.made, self.dropped = (state, cycle), 0

    def next_deltas(self, state, cycle):
        x = random.Random(f'{self.seed} {state} {cycle} {self.made}')
        if x.random() < .4:
            return None
        d = x.choice((1, 1, 2, 2, 3, 4, 6, 8))
        return tuple(d if x.random() < .8 else x.choice((0, 1, 2, 3, 4, 5)) for _ in range(3))

    def delete_configs(self, state):
        self.dropped += 1


def drive(text, kw, lim, stats, pid, seed=None):
    """the prover against the reference, along a run driven by the reference"""
    prog = MM.make_macro(text, **kw)
    real, ref = PP.Prover(prog), RefProver(prog)
    past = stubs.PastConfigs
    if seed is not None:
        AnyPast.seed, past = seed, AnyPast
    ref.past = past
    if hasattr(PP, 'PastConfigs'):
        PP.PastConfigs = past
    tape, q = Tape(), 0
    inp = f'{text!r} {kw}'

    def bad(what, cyc, got, want):
        raise Found(what=what, input=f'{inp} cycle {cyc}', got=str(got)[:800], want=str(want)[:800],
                    code=PRE + f'from fz.run_fz import drive\ndrive({text!r}, {kw!r}, {lim}, {{}}, {pid!r}, {seed})\n')
    for cyc in range(lim):
        before = str(tape), tape.signature
        a = call(ref.try_rule, cyc, q, tape)
        if a[0] == 'raises' and a[1] not in [e.__name__ for e in EXCS]:
            return
        b = call(real.try_rule, cyc, q, tape)
        if (str(tape), tape.signature) != before:
            bad('try_rule changes the tape', cyc, str(tape), before[0])
        if not same_rule(b, a):
            bad('try_rule', cyc, b, a)
        if a[1] is not None:
            stats['rules'] = stats.get('rules', 0) + 1
        if hasattr(real, 'rules') and isinstance(real.rules, dict) and cyc % 16 == 0 or a[1] is not None:
            try:
                x = norm_rules(real.rules)
            except Exception:
                x = None
            if x is not None and x != norm_rules(ref.rules):
                bad('rules kept', cyc, x, norm_rules(ref.rules))
            try:
                x = {k: histories(v) for k, v in real.configs.items()}
            except Exception:
                x = None
            y = {k: histories(v) for k, v in ref.configs.items()}
            if x is not None and x != y:
                k = [k for k in {**x, **y} if x.get(k) != y.get(k)][0]
                bad(f'history of {k}', cyc, x.get(k), y.get(k))
        rule = a[1] if a[0] == 'answer' else None
        if a[0] == 'raises' and a[1] in ('InfiniteRule', 'RuleLimit', 'ConfigLimit'):
            return
        if rule is not None:
            try:
                if RR.apply_rule(rule, tape) is not None:
                    continue
            except Late:
                raise
            except Exception:
                return
        try:
            c, sh, nq = prog[q, tape.scan]
        except (KeyError, MC.MacroInfLoop):
            return
        if q == nq and tape.at_edge(sh):
            return
        if cyc % 7 == 0 and hasattr(real, 'run_simulator'):
            t1, t2 = tape.clone(), tape.clone()
            k = cyc % 5
            r1, r2 = call(real.run_simulator, k, q, t1), call(ref.simulate, k, q, t2)
            if r1 != r2 or r1[0] == 'answer' and str(t1) != str(t2):
                bad(f'run_simulator({k})', cyc, (r1, str(t1)), (r2, str(t2)))
        tape.step(sh, c, q == nq)
        q = nq


def fuzz_get_rule(rng, stats):
    """any rules, any tape"""
    from tm.tape import Block

    def rspan(n):
        out, last = [], None
        for i in range(n):
            c = rng.choice([x for x in range(3) if x != last and (i < n - 1 or x)])
            out.append((c, rng.choice((1, 1, 2, 3))))
            last = c
        return out
    tape = Tape.__new__(Tape)
    tape = Tape()
    tape.scan = rng.randrange(2)
    tape.lspan, tape.rspan = ([Block(c, n) for c, n in rspan(rng.randrange(4))] for _ in 'lr')
    sig = tape.signature
    p = PP.Prover({})
    ref = RefProver({})
    q = rng.randrange(2)
    for i in range(rng.randrange(1, 6)):
        def part(full):
            full = tuple(full)
            x = rng.random()
            if x < .5:
                return full[:rng.randrange(len(full) + 1)]
            if x < .8:
                return full
            return full + (1,) if x < .9 else tuple(rng.choice((v, 1, (1,), 2)) for v in full)
        ms = ((sig[0] if rng.random() < .9 else 1 - sig[0], part(sig[1]), part(sig[2])), (rng.random() < .4, rng.random() < .4))
        rule = {(0, 0): -i - 1}
        slot = (q if rng.random() < .8 else 1 - q)
        p.set_rule(rule, slot, ms)
        ref.rules.setdefault((slot, ms[0][0]), []).append((ms, rule))
    want = call(ref.get_rule, q, tape)
    for got in (call(p.get_rule, q, tape), call(p.get_rule, q, tape, sig)):
        if not same_rule(got, want):
            raise Found(what='get_rule', input=f'state {q} signature {sig} rules {ref.rules}', got=str(got), want=str(want),
                        code=f'# rules: {ref.rules}\n')
    stats['rules'] = stats.get('rules', 0) + (want[1] is not None)


def machine(text, kw, lim, stats):
    sums = []
    orig = getattr(MM, 'apply_rule', None)
    if orig is not None:
        def counted(rule, tape):
            t = orig(rule, tape)
            if t is not None:
                sums.append(t)
            return t
        MM.apply_rule = counted
    try:
        m = MM.Machine(text, **kw)
        m.run(sim_lim=lim)
    except Late:
        raise
    except BUG as e:
        import traceback
        if f'{REPO}/tm/' not in ''.join(traceback.format_tb(e.__traceback__)[-1:]):
            return
        if any(x in ''.join(traceback.format_tb(e.__traceback__)[-1:]) for x in ('tm/num.py', 'tm/rules.py', 'tm/tape.py')):
            return
        raise Found(what='run', input=f'{text!r} {kw}', got=f'{type(e).__name__}: {e}', want='a verdict', code=script(text, kw, lim))
    except Exception:
        return
    finally:
        if orig is not None:
            MM.apply_rule = orig
    against_naive(m, text, kw, lim, sums or None, stats)
    if orig is not None and m.limrul is None:
        try:
            total = sum(sums)
            ok = not isinstance(total, int) or total == m.rulapp
        except Exception:
            ok = True
        if not ok:
            raise Found(what='number of rule applications', input=f'{text!r} {kw} sim_lim {lim}', got=str(m.rulapp),
                        want=str(total), code=script(text, kw, lim))


def pick(rng):
    if rng.random() < .5:
        text = rng.choice(PROGS)
    else:
        while True:
            rows = gen_prog(rng)
            text = show(rows)
            if rng.random() < .04 or Naive(stubs.tcompile(text)).run(60).end is None:
                break
    kw, x = {}, rng.random()
    if x < .1:
        kw['blocks'] = rng.choice((2, 3))
    elif x < .2:
        kw['backsym'] = 1
    elif x < .24:
        kw = dict(blocks=2, backsym=1)
    return text, kw


def run(pid):
    def go(rng, hints, stats):
        while True:
            text, kw = pick(rng)
            try:
                limited(4)
                if pid == 'X01':
                    machine(text, kw, rng.choice((1, 2, 3, 5, 20, 100, 400, 400, 1500)), stats)
                else:
                    drive(text, kw, rng.choice((100, 400, 1000)), stats, pid,
                          rng.randrange(10 ** 6) if rng.random() < .5 else None)
                    if pid == 'P01':
                        for _ in range(40):
                            fuzz_get_rule(rng, stats)
            except (Late, MemoryError, RecursionError, OverflowError):
                pass
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            yield
    return go
