"""Concrete search for counts, rules and tapes on which tm/rules.py is wrong.

References: an op applied by hand, a rule applied one application at a time (or in closed form for long runs)."""
from __future__ import annotations
import itertools, sys
from .common import REPO, Found, search

sys.path.insert(0, REPO)
import tm.num as N      # noqa: E402
import tm.rules as R    # noqa: E402
from . import num_fz    # noqa: E402
from .num_fz import TooBig, val, code, TAINT    # noqa: E402

PRE = 'import tm.num as N\nfrom tm.num import *\nfrom tm.rules import *\nimport tm.rules as R\n'
NOANSWER = tuple(getattr(R, n) for n in ('RuleLimit', 'UnknownRule', 'SuspectedRule') if hasattr(R, n)) + (
    NotImplementedError, RecursionError, OverflowError, N.ExpModLimit, N.ModDepthLimit)
BROKEN = (AssertionError, AttributeError, TypeError, ValueError, ZeroDivisionError)     # of symbolic arithmetic: no answer


class Skip(Exception):
    pass


def show(x):
    if isinstance(x, tuple):
        return '(' + ''.join(show(y) + ', ' for y in x) + ')'
    if isinstance(x, list):
        return '[' + ', '.join(map(show, x)) + ']'
    if isinstance(x, dict):
        return '{' + ', '.join(f'{show(k)}: {show(v)}' for k, v in x.items()) + '}'
    if isinstance(x, str) or x is None or isinstance(x, int):
        return repr(x)
    return code(x)


def fail(what, inp, got, want, expr):
    if TAINT[0]:
        raise Skip
    raise Found(what=what, input=show(inp), got=str(got)[:400], want=str(want)[:400], code=PRE + expr)


def one(op, v, x):
    """the op applied to a count"""
    if op == '+':
        return x + v
    if op == '*':
        return x * v
    if op == '//':
        return x // v
    if op == '**':
        if isinstance(x, int):
            if not 1 <= x < 5000:
                raise Skip
            return N.make_exp(v, x)
        return v ** x
    if op == '~':
        if type(x).__name__ != 'Exp':
            raise Skip
        return x.exp
    raise Skip


def seq(ops, x):
    for op, v in ops:
        x = one(op, v, x)
    return x


def is_ops(op):
    return isinstance(op, tuple) and not (len(op) == 2 and all(isinstance(x, int) for x in op))


def image(op, x):
    if isinstance(op, int):
        return val(x) + op
    if is_ops(op):
        return val(seq(op, x))
    m, a = op
    return val(x) * m + a


def safe(f):
    try:
        return val(f())
    except (Skip, TooBig) + NOANSWER + BROKEN:
        raise Skip


# ------------------------------------------------------------------ learning
def check_diff(cs, expr=None):
    """calculate_diff of four counts"""
    TAINT[0] = False
    try:
        op = R.calculate_diff(*cs)
    except NOANSWER + BROKEN:
        return None, False
    expr = expr or f'print(calculate_diff({", ".join(map(show, cs))}))'
    same = all(c == cs[0] for c in cs)
    if op is None:
        if not same:
            fail('no op learned although the counts differ', tuple(cs), op, 'an op or an exception', expr)
        return op, True
    if isinstance(op, tuple) and not is_ops(op) and op[0] < 2:
        fail('an affine op must multiply by 2 or more', tuple(cs), op, 'mul >= 2', expr)
    for i, (a, b) in enumerate(itertools.pairwise(cs)):
        try:
            got, want = image(op, a), val(b)
        except (Skip, TooBig) + NOANSWER + BROKEN:
            raise Skip
        if got != want:
            fail(f'the learned op does not lead from count {i + 1} to count {i + 2}', tuple(cs), f'op {op} leads to {got}', want, expr)
    return op, True


def ints(rng):
    c = rng.choice((1, 2, 3, rng.randint(1, 40), rng.randint(1, 10 ** 6), rng.randint(1, 10 ** 30)))
    mode = rng.randrange(9)
    if mode == 0:
        cs = [c] * 4
    elif mode <= 2:
        d = rng.choice((rng.randint(-12, 12), rng.randint(-10 ** 6, 10 ** 6), rng.randint(1, c)))
        if d < 0:
            c += 4 * -d
        cs = [c + i * d for i in range(4)]
    elif mode <= 6:
        m = rng.choice((2, 2, 3, 4, 5, rng.randint(2, 30)))
        a = rng.choice((0, rng.randint(-9, 9), rng.randint(0, c + 2), rng.randint(-c, c), rng.randint(-c * m, c * m)))
        cs = [c]
        for _ in range(3):
            cs.append(cs[-1] * m + a)
    elif mode == 7:
        k, s = rng.choice(((3, 2), (5, 3), (5, 2), (5, 4), (4, 3)))
        cs = [c]
        for _ in range(3):
            cs.append(cs[-1] * k // s + rng.randint(0, 2))
    else:
        cs = sorted(rng.randint(1, 60) for _ in range(4))
    if rng.random() < .45:
        i = rng.randrange(4)
        cs[i] += rng.choice((-1, 1, 2, -2, cs[0], rng.randint(-9, 9)))
    if rng.random() < .1:
        rng.shuffle(cs)
    return [x if x >= 1 else 1 for x in cs]


def symbolic(rng):
    base = rng.choice((2, 2, 3, 5, 6, 10))
    x = N.make_exp(base, rng.randint(2, 9))
    for _ in range(rng.randint(0, 2)):
        x = x * rng.randint(2, 9) if rng.random() < .4 else x + rng.randint(-7, 9)
    if isinstance(x, int):
        raise Skip
    return x, base


def sym_counts(rng):
    x, base = symbolic(rng)
    n = rng.randrange(6)
    if n == 0:
        d = rng.choice((rng.randint(-9, 9), rng.randint(1, 500)))
        cs = [x + i * d for i in range(4)]
    elif n == 1:
        cs = [x] * 4
    else:
        up = rng.randint(1, 3)
        ops = []
        for _ in range(up):
            o = rng.choice(('+', '+', '*', '**', '//'))
            ops.append((o, rng.randint(1, 9) if o == '+' else base if o == '**' else rng.randint(2, 5)))
        cs = [x]
        for _ in range(3):
            y = cs[-1]
            for o, v in ops:
                if o == '//':
                    if safe(lambda y=y: y) % v:
                        continue
                if o == '**' and safe(lambda y=y: y) > 3000:
                    continue
                y = one(o, v, y)
            cs.append(y)
        # learned from the outside in: the ops of different counts may differ on purpose
    if rng.random() < .4:
        i = rng.randrange(4)
        cs[i] = cs[i] + rng.choice((1, -1, 2, 5))
    return cs


# ------------------------------------------------------------------ applying
class Tape:
    """counts by position"""
    def __init__(self, d):
        self.d = dict(d)

    def get_count(self, index):
        return self.d[index]

    def set_count(self, index, val):
        self.d[index] = val


TAPE = '''
class T:
    def __init__(self, d): self.d = dict(d)
    def get_count(self, index): return self.d[index]
    def set_count(self, index, val): self.d[index] = val
'''


def an_op(rng, dec=.35):
    r = rng.random()
    if r < dec:
        return -rng.choice((1, 1, 2, 3, 5, rng.randint(1, 40), rng.randint(1, 10 ** 6)))
    if r < .7:
        return rng.choice((0, 1, 2, 3, rng.randint(0, 60)))
    if r < .9:
        return (rng.choice((2, 2, 3, 4, 7)), rng.choice((0, 0, 1, 2, -1, rng.randint(-5, 30))))
    return tuple((rng.choice('+*'), rng.randint(2, 4)) for _ in range(rng.choice((1, 3))))


def a_count(rng):
    r = rng.random()
    if r < .8:
        return rng.choice((1, 2, 3, rng.randint(1, 12), rng.randint(1, 300), rng.randint(1, 10 ** 6)))
    base = rng.choice((2, 3, 10, 6))
    x = N.make_exp(base, rng.randint(60, 90))
    if rng.random() < .6:
        x = x + rng.randint(-9, 9)
    if rng.random() < .3:
        x = x * rng.randint(2, 5)
    return x


def check_apply(rng, stats):
    TAINT[0] = False
    n = rng.randint(1, 5)
    pos = [(s, i) for s in (0, 1) for i in range(4)]
    rng.shuffle(pos)
    small = rng.random() < .6
    rule = {p: an_op(rng) for p in pos[:n]}
    counts = {p: a_count(rng) for p in pos}
    if small:
        for p, o in rule.items():
            if isinstance(o, int) and o < 0 and isinstance(counts[p], int):
                counts[p] = max(1, -o * rng.randint(0, 9) + rng.choice((0, 1, -o, rng.randint(0, -o))))
    if any(not isinstance(o, int) for o in rule.values()) and not any(
            isinstance(o, int) and o < 0 and isinstance(counts[p], int) and counts[p] < 4000 for p, o in rule.items()):
        return False
    t = Tape(counts)
    expr = f'{TAPE}\nt = T({show(counts)})\nprint(apply_rule({show(rule)}, t), t.d)'
    decs = [(p, -o) for p, o in rule.items() if isinstance(o, int) and o < 0]
    try:
        got = R.apply_rule(rule, t)
    except NOANSWER:
        return False
    except BROKEN as e:
        if all(isinstance(c, int) for c in counts.values()):
            fail('applying a rule to plain counts fails', (rule, counts), repr(e), 'an application', expr)
        return False
    v0 = {p: safe(lambda p=p: counts[p]) for p in counts}
    want = min(((v0[p] - 1) // d for p, d in decs), default=0)
    if want <= 0:
        if got is not None:
            fail('a rule that does not apply was applied', (rule, counts), got, None, expr)
        if t.d != counts:
            fail('a rule that does not apply changed the tape', (rule, counts), t.d, counts, expr)
        return True
    if got is None or safe(lambda: got) != want:
        fail('number of applications', (rule, counts), got, want, expr)
    for p, c in t.d.items():
        new = safe(lambda: c)
        o = rule.get(p, 0)
        if isinstance(o, int):
            w = v0[p] + o * want
        elif is_ops(o):
            if want > 60:
                raise Skip
            x = counts[p]
            for _ in range(int(want)):
                x = seq(o, x)
            w = safe(lambda: x)
        else:
            m, a = o
            if want > 4000:
                raise Skip
            w = m ** int(want) * v0[p] + a * ((m ** int(want) - 1) // (m - 1))
        if new != w:
            fail(f'count at {p} after {want} applications', (rule, counts), new, w, expr)
    stats['applied'] = stats.get('applied', 0) + 1
    return True


def check_mult(rng):
    TAINT[0] = False
    c, t = a_count(rng), rng.choice((1, 1, 2, 3, rng.randint(1, 60)))
    m, a = rng.choice((2, 3, 4, 7, rng.randint(2, 40))), rng.choice((0, 1, -1, rng.randint(-50, 50)))
    expr = f'print(apply_mult({show(c)}, {t}, {m}, {a}))'
    try:
        got = R.apply_mult(c, t, m, a)
    except NOANSWER + BROKEN:
        return
    w = val(c) * m ** t + a * ((m ** t - 1) // (m - 1))
    if safe(lambda: got) != w:
        fail('count after repeated multiplication', (c, t, m, a), got, w, expr)


def check_ops(rng):
    TAINT[0] = False
    try:
        c, base = symbolic(rng) if rng.random() < .6 else (rng.randint(1, 30), 2)
    except Skip:
        return
    ops = tuple((o, rng.randint(2, 5) if o != '~' else base) for o in rng.choices('+*/^', k=rng.randint(1, 4)))
    ops = tuple(({'/': '//', '^': '**'}.get(o, o), -v if o == '+' and rng.random() < .4 else v) for o, v in ops)
    if rng.random() < .15:
        k = -rng.randint(1, 5)
        c, ops = N.make_exp(base, rng.randint(8, 20)) + k, (('+', -k), ('~', base)) + ops
    t = rng.choice((1, 1, 2, 3))
    x = c
    for _ in range(t):
        for o, v in ops:
            vx = safe(lambda: x)
            if o == '//' and vx % v or o == '**' and not 1 <= vx <= 4000:
                return
            x = one(o, v, x)
    want = safe(lambda: x)
    expr = f'print(apply_ops({show(c)}, {t}, {show(ops)}))'
    try:
        got = R.apply_ops(c, t, ops)
    except NOANSWER + BROKEN:
        return
    if safe(lambda: got) != want:
        fail('count after a sequence of ops', (c, t, ops), got, want, expr)


# ------------------------------------------------------------------ making rules
def const_dec(q):
    """decreases by the same plain number"""
    try:
        ds = [b - a for a, b in itertools.pairwise(q)]
    except (Skip, TooBig) + NOANSWER + BROKEN:
        return False
    return all(type(d) is int and d < 0 and d == ds[0] for d in ds)


def check_rule(rng, stats):
    TAINT[0] = False
    cols = []
    for s in (0, 1):
        side = []
        for _ in range(rng.randint(0, rng.choice((3, 3, 3, 3, 3, 8)))):
            if rng.random() < .75:
                d = rng.choice((0, 0, 1, -1, -2, 3, rng.randint(-6, 9)))
                c = rng.randint(1, 9) + 4 * abs(d)
                side.append([c + i * d for i in range(4)])
            elif rng.random() < .15:
                try:
                    side.append(sym_counts(rng))
                except (Skip, TooBig) + NOANSWER + BROKEN:
                    side.append([2] * 4)
            else:
                side.append(ints(rng))
        cols.append(side)
    tapes = [(tuple([q[j] for q in cols[0]]), tuple([q[j] for q in cols[1]])) for j in range(4)]
    expr = f'print(make_rule({", ".join(map(show, tapes))}))'
    try:
        rule, inf = R.make_rule(*tapes), False
    except R.InfiniteRule:
        rule, inf = None, True
    except NOANSWER + BROKEN:
        return
    where = {(s, i): q for s, side in enumerate(cols) for i, q in enumerate(side)}
    if inf:
        for p, q in where.items():
            if all(isinstance(c, int) for c in q) and q[1] < q[0] or const_dec(q):
                fail('infinite although a count decreases', tuple(tapes), 'InfiniteRule', f'{p} decreases', expr)
        return
    if rule is None:
        return
    stats['rules'] = stats.get('rules', 0) + 1
    if not any(isinstance(o, int) and o < 0 for o in rule.values()):
        fail('a rule in which nothing decreases', tuple(tapes), rule, 'InfiniteRule', expr)
    for p in rule:
        if p not in where:
            fail('a rule about a position that is not there', tuple(tapes), rule, sorted(where), expr)
    for p, q in where.items():
        if p not in rule:
            if any(c != q[0] for c in q):
                fail(f'the changing count at {p} is not in the rule', tuple(tapes), rule, f'{p}: {q}', expr)
            continue
        for a, b in itertools.pairwise(q):
            if image(rule[p], a) != val(b):
                fail(f'the rule does not explain the counts at {p}', tuple(tapes), rule, f'{p}: {q}', expr)


def run(pid):
    def go(rng, hints, stats):
        num_fz.install()
        samples = stats.setdefault('samples', [])
        if pid == 'R01':
            grid = list(itertools.product(range(1, 15), repeat=2))
            rng.shuffle(grid)
            for a, b in grid:
                for c, d in itertools.product(range(1, 15), repeat=2):
                    try:
                        check_diff([a, b, c, d])
                    except Skip:
                        pass
                yield
        while True:
            try:
                if pid == 'R01':
                    cs = ints(rng) if rng.random() < .6 else sym_counts(rng)
                    op, ok = check_diff(cs)
                    if ok and len(samples) < 3:
                        samples.append(f'{show(tuple(cs))[:100]} -> {op}')
                elif pid == 'R02':
                    r = rng.random()
                    if r < .7:
                        check_apply(rng, stats)
                    elif r < .85:
                        check_mult(rng)
                    else:
                        check_ops(rng)
                else:
                    check_rule(rng, stats)
            except (Skip, TooBig) + NOANSWER + BROKEN:
                stats['skipped'] = stats.get('skipped', 0) + 1
            yield
    return go


if __name__ == '__main__':
    import json
    for p in sys.argv[1:]:
        n, found, st = search(run(p), 1, 10, {})
        print(p, n, json.dumps(found, indent=1) if found else None, st)
