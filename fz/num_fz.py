"""Concrete search for an input on which the arithmetic of tm/num.py gives a wrong answer.

Counts are built from the real constructors; the meaning of a count is computed here from its
fields alone, with exact rationals.  An answer is compared with the meaning of the operands; a
raised exception is no answer.  Inputs outside the stated domain are skipped: a comparison that
answered wrongly along the way (property N05) or the known inexact common divisor of a sum."""
from __future__ import annotations
import ast, sys, random
from fractions import Fraction
from .common import REPO, Found, search

sys.path.insert(0, REPO)
import tm.num as N      # noqa: E402

MAXBITS = 6000
OPS = {
    'N01': ('add', 'sub', 'neg', 'radd', 'rsub'),
    'N02': ('mul', 'rmul', 'pow', 'rpow', 'mkexp'),
    'N03': ('floordiv', 'divmod', 'gcd'),
    'N04': ('mod', 'find_period'),
    'N05': ('lt', 'le', 'gt', 'ge'),
    'N06': ('eq', 'make', 'deep'),
}


class TooBig(Exception):
    pass


_memo = {}


def val(x):
    """exact meaning of a count"""
    if type(x) is int:
        return Fraction(x)
    if isinstance(x, bool):
        raise TooBig
    k = id(x)
    if k in _memo and _memo[k][0] is x:
        return _memo[k][1]
    t = type(x).__name__
    if t == 'Add':
        v = val(x.l) + val(x.r)
    elif t == 'Mul':
        v = val(x.l) * val(x.r)
    elif t == 'Div':
        v = val(x.num) / x.den
    elif t == 'Exp':
        e = val(x.exp)
        if e.denominator != 1 or not 0 <= e <= MAXBITS:
            raise TooBig
        v = Fraction(x.base) ** int(e)
    else:
        raise TooBig
    if v.numerator.bit_length() > 8 * MAXBITS:
        raise TooBig
    if len(_memo) > 20000:
        _memo.clear()
    _memo[k] = (x, v)
    return v


TAINT = [False]
DEPTH = [0]


def integral(x):
    """every quotient inside is exact and every symbolic exponent is positive"""
    if type(x) is int:
        return True
    t = type(x).__name__
    if t in ('Add', 'Mul'):
        return integral(x.l) and integral(x.r)
    if t == 'Div':
        return integral(x.num) and val(x).denominator == 1
    if t == 'Exp':
        return type(x.exp) is int or (integral(x.exp) and val(x.exp) >= 1)
    return False


def install():
    for c in (N.Num, N.Add, N.Mul, N.Div, N.Exp):
        f = c.__dict__.get('__lt__')
        if f is None:
            continue

        def lt(self, other, f=f):
            r = f(self, other)
            if DEPTH[0] < 1:
                DEPTH[0] += 1
                try:
                    if r is not (val(self) < val(other)):
                        TAINT[0] = True
                except (TooBig, AttributeError, TypeError, RecursionError):
                    TAINT[0] = True
                finally:
                    DEPTH[0] -= 1
            return r
        c.__lt__ = lt
    if hasattr(N, 'gcd'):
        g0 = N.gcd

        def gcd(l, r):
            g = g0(l, r)
            if type(r).__name__ == 'Add':
                try:
                    if g and val(r) % g and known_gcd(l, r, g, g0):
                        TAINT[0] = True
                except TooBig:
                    TAINT[0] = True
            return g
        N.gcd = gcd


def known_gcd(l, r, g, g0=None):
    """the recorded defect: the common divisor with a sum is the smaller of those with its parts"""
    g0 = g0 or N.gcd
    try:
        return g == min(g0(l, r.l), g0(l, r.r)) or g == 1
    except Exception:
        return False


def mine():
    """integer literals of the module: moduli, dictionary keys"""
    src = open(f'{REPO}/tm/num.py').read()
    tree = ast.parse(src)
    consts, tables = set(), []
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and type(n.value) is int and 1 < n.value < 10 ** 15:
            consts.add(n.value)
        if isinstance(n, ast.match_case) and isinstance(n.pattern, ast.MatchValue) and isinstance(n.pattern.value, ast.Constant):
            for b in n.body:
                if isinstance(b, ast.Assign) and isinstance(b.value, ast.Dict):
                    ks = [k.value for k in b.value.keys if isinstance(k, ast.Constant)]
                    tables.append((n.pattern.value.value, ks))
    return sorted(consts), tables


BASES = (2, 2, 2, 3, 3, 4, 5, 6, 7, 8, 10, 9, 12)


def small(rng):
    r = rng.random()
    if r < .35:
        return rng.randint(-4, 4)
    if r < .8:
        return rng.randint(-40, 40)
    return rng.choice((-1, 1)) * rng.choice((6, 12, 16, 18, 24, 32, 36, 48, 54, 64, 81, 96, 100, 120, 128))


def leaf(rng, base):
    r = rng.random()
    if r < .55:
        return N.make_exp(base, rng.randint(9, 90) if rng.random() < .8 else rng.randint(1, 12))
    e = N.make_exp(rng.choice((base, 2, 3)), rng.randint(5, 9) if base < 5 else rng.randint(3, 5))
    if rng.random() < .7:
        e = rng.randint(-9, 40) + e
    if rng.random() < .2:
        e = rng.randint(2, 5) * e
    if val(e) > 3000 or val(e) < 15:
        raise TooBig
    return N.make_exp(base, e)


def rand(rng, depth, base):
    r = rng.random()
    if depth <= 0 or r < .25:
        return leaf(rng, base)
    if r < .5:
        l = small(rng) if rng.random() < .6 else rand(rng, depth - 1, base)
        return l + rand(rng, depth - 1, base)
    if r < .7:
        return small(rng) * rand(rng, depth - 1, base)
    if r < .78:
        return rand(rng, depth - 1, base) * rand(rng, depth - 1, base)
    if r < .84:
        return rand(rng, depth - 1, base) - rand(rng, depth - 1, base)
    if r < .93:
        x = rand(rng, depth - 1, base)
        d = rng.choice((2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15))
        v = val(x)
        m = int(v % d)
        if m:
            x = x - m if rng.random() < .5 else x + (d - m)
        return x // d
    # raw constructors: shapes the operators only meet in passing
    if r < .96:
        return N.make_add(small(rng), rand(rng, depth - 1, base))
    x = rand(rng, depth - 1, base)
    if type(x).__name__ == 'Exp':
        k = small(rng)
        if k not in (0, 1):
            return N.make_mul(k, x)
    return N.make_add(rand(rng, 0, base), x)


def operand(rng, base, cls=None):
    for _ in range(30):
        try:
            TAINT[0] = False
            x = rand(rng, rng.choice((0, 1, 1, 2, 2, 3)), base)
            if type(x) is int or TAINT[0]:
                continue
            if cls and type(x).__name__ != cls:
                continue
            if not integral(x):
                continue
            return x
        except (AssertionError, NotImplementedError, TooBig, ZeroDivisionError, ValueError, TypeError,
                AttributeError, OverflowError, RecursionError, N.ExpModLimit, N.ModDepthLimit):
            continue
    return None


ERR = (AssertionError, NotImplementedError, TooBig, ZeroDivisionError, ValueError, TypeError, AttributeError,
       OverflowError, RecursionError, KeyError, N.ExpModLimit, N.ModDepthLimit)


def code(x):
    """python that rebuilds the count with the raw constructors"""
    if type(x) is int:
        return repr(x)
    t = type(x).__name__
    if t == 'Add':
        return f'make_add({code(x.l)}, {code(x.r)})'
    if t == 'Mul':
        return f'make_mul({code(x.l)}, {code(x.r)})'
    if t == 'Div':
        return f'make_div({code(x.num)}, {x.den})'
    return f'make_exp({x.base}, {code(x.exp)})'


def fail(what, args, got, want, expr):
    raise Found(what=what, input=[str(a) for a in args], got=str(got)[:400], want=str(want)[:400],
                code='from tm.num import *\nfrom tm.num import gcd, find_period\n' + expr)


def check_value(what, args, got, want, expr):
    if not (type(got) is int or isinstance(got, N.Num)):
        fail(what, args, repr(got), want, expr)
    v = val(got)
    if v != want:
        fail(what, args, f'{got} = {v}', want, expr)
    return v


def mod_case(rng, consts, tables):
    r = rng.random()
    if r < .25 and tables:
        m, ks = rng.choice(tables)
        P = m // 3
        k = rng.choice(ks) if rng.random() < .8 else rng.randrange(P)
        # 2 ** (c + 2 ** t) with the exponent congruent to k modulo m // 3
        t = rng.randint(5, 11)
        if P > 4000:
            c = k - 2 ** t % P
            e = N.make_add(c, N.make_exp(2, t)) if c else N.make_exp(2, t)
            return 'big', N.make_exp(2, e), m, (2, c + 2 ** t)
        c = (k - 2 ** t) % P
        if rng.random() < .5:
            c -= P * rng.randint(0, max(0, (2 ** t + c - 1) // P))
        if c + 2 ** t < 1:
            raise TooBig
        e = N.make_add(c, N.make_exp(2, t)) if c else N.make_exp(2, t)
        return 'big', N.make_exp(2, e), m, (2, c + 2 ** t)
    if r < .7:
        b = rng.choice((2, 2, 3, 3, 5, 6, 7, 10, 11, 13))
        m = rng.choice((2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 30, 32, 64, 128, 18, 54, rng.randint(2, 400)))
        if rng.random() < .1:
            m = rng.choice([c for c in consts if c < 10 ** 6] or [7])
        if rng.random() < .6:
            e = rng.randint(2, 300)
            return 'big', N.make_exp(b, e), m, (b, e)
        t, k = rng.randint(5, 10), rng.randint(-30, 60)
        e = N.make_add(k, N.make_exp(2, t)) if k else N.make_exp(2, t)
        if k + 2 ** t < 2:
            raise TooBig
        return 'big', N.make_exp(b, e), m, (b, k + 2 ** t)
    return 'any', operand(rng, rng.choice(BASES)), rng.choice((2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 30, rng.randint(2, 90))), None


def run(prop):
    def gen(rng, hints, stats):
        install()
        consts, tables = mine()
        ops = OPS[prop]
        classes = [c for c in hints.get('classes', ()) if c in ('Add', 'Mul', 'Div', 'Exp')]
        stats.update(answers=0, skipped=0)
        seen = set()
        samples = stats.setdefault('samples', [])
        while True:
            if len(N.ADDS) + len(N.MULS) + len(N.EXPS) > 3000:
                for c in (N.ADDS, N.MULS, N.DIVS, N.EXPS):
                    c.clear()
                _memo.clear()
            op = rng.choice(ops)
            base = rng.choice(BASES)
            yield
            try:
                one(op, rng, base, consts, tables, classes, stats, samples)
                stats['answers'] += 1
            except ERR:
                stats['skipped'] += 1
    return gen


def one(op, rng, base, consts, tables, classes, stats, samples):
    cls = rng.choice(classes) if classes and rng.random() < .7 else None
    if op in ('mod',):
        kind, x, m, be = mod_case(rng, consts, tables)
        if x is None:
            raise TooBig
        TAINT[0] = False
        got = x % m
        if TAINT[0]:
            raise TooBig
        want = pow(be[0], be[1], m) if be else int(val(x)) % m
        if got != want or type(got) is not int:
            fail('remainder', (x, m), got, want, f'print(({code(x)}) % {m}, "expected", {want})')
        return sample(stats, samples, f'{x} % {m} = {got}')
    if op == 'find_period':
        b, m = rng.randint(2, 14), rng.randint(2, 500)
        p = N.find_period(b, m)
        if p < 0 or (p and pow(b, p, m) != 1 % m):
            fail('period', (b, m), p, 'a period', f'print(pow({b}, find_period({b}, {m}), {m}), "expected 1")')
        return sample(stats, samples, f'find_period({b}, {m}) = {p}')
    if op == 'mkexp':
        r = rng.random()
        if r < .5:
            b = rng.randint(2, 300)
        elif r < .75:
            b = rng.randint(2, 40) ** rng.randint(2, 6)
        elif r < .85:
            b = rng.choice([c for c in consts if c > 1] or [2])
        else:
            b = rng.randint(2, 10 ** 20) ** 2 + rng.choice((0, 0, 1, -1, 2))
        e = rng.randint(1, 60) if rng.random() < .7 else N.make_exp(2, rng.randint(3, 5))
        if b.bit_length() * val(e) > MAXBITS:
            raise TooBig
        got = N.make_exp(b, e)
        check_value('a power', (b, e), got, Fraction(b) ** int(val(e)), f'print(make_exp({b}, {code(e)}), "expected", {b}, "**", {code(e)})')
        return sample(stats, samples, f'make_exp({b}, {e})')
    if op == 'deep':
        return deep(rng, consts, stats, samples)
    x = operand(rng, base, cls)
    if x is None:
        raise TooBig
    vx = val(x)
    r = rng.random()
    if op in ('neg',):
        TAINT[0] = False
        got = -x
        if TAINT[0]:
            raise TooBig
        check_value('negation', (x,), got, -vx, f'print(-({code(x)}))')
        return sample(stats, samples, f'-{x}')
    if op == 'gcd':
        l = rng.choice((2, 3, 4, 5, 6, 8, 9, 10, 12, 15, 16, 18, 20, 24, 27, 30, 32, 36, 60, 64, 81, 100, 125, 128))
        TAINT[0] = False
        g = N.gcd(l, x)
        if TAINT[0]:
            raise TooBig
        if g < 1 or l % g or vx % g:
            fail('common divisor', (l, x), g, 'a divisor of both', f'print(gcd({l}, {code(x)}), "must divide both")')
        return sample(stats, samples, f'gcd({l}, {x}) = {g}')
    if op in ('radd', 'rmul', 'rsub'):
        k = small(rng)
        TAINT[0] = False
        got = {'radd': lambda: k + x, 'rmul': lambda: k * x, 'rsub': lambda: k - x}[op]()
        if TAINT[0]:
            raise TooBig
        want = {'radd': k + vx, 'rmul': k * vx, 'rsub': k - vx}[op]
        s = {'radd': '+', 'rmul': '*', 'rsub': '-'}[op]
        check_value('value of an operation', (k, s, x), got, want, f'print({k} {s} {code(x)})')
        return sample(stats, samples, f'{k} {s} {x}')
    if op == 'rpow':
        if vx < 1 or vx > 3000:
            raise TooBig
        b = rng.choice((2, 3, 4, 5, 6, 8, 9, 16, 64))
        got = b ** x
        check_value('power', (b, x), got, Fraction(b) ** int(vx), f'print({b} ** {code(x)})')
        return sample(stats, samples, f'{b} ** {x}')
    if op == 'pow':
        if type(x).__name__ != 'Exp':
            x = leaf(rng, base)
        k = rng.randint(1, 6) if rng.random() < .7 else N.make_exp(2, rng.randint(3, 5))
        vx = val(x)
        if vx.numerator.bit_length() * val(k) > MAXBITS:
            raise TooBig
        got = x ** k
        check_value('power', (x, k), got, vx ** int(val(k)), f'print(({code(x)}) ** {code(k)})')
        return sample(stats, samples, f'{x} ** {k}')
    if op == 'floordiv':
        if r < .8:
            d = rng.choice((1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 18, 20, 24, 25, 27, 32, 36, 64, 81))
            TAINT[0] = False
            m = int(vx % d)
            if m and type(x).__name__ in ('Exp', 'Mul'):
                x = d * x if rng.random() < .7 else x - m
            elif m:
                x = x - m if rng.random() < .5 else x + (d - m)
            if type(x) is int or val(x) % d or not integral(x):
                raise TooBig
            vx = val(x)
        else:
            if type(x).__name__ != 'Exp':
                x = leaf(rng, base)
            vx = val(x)
            d = N.make_exp(x.base, rng.randint(1, 40))
            if vx % val(d):
                raise TooBig
        TAINT[0] = False
        got = x // d
        if TAINT[0]:
            raise TooBig
        check_value('exact quotient', (x, d), got, vx / val(d), f'print(({code(x)}) // {code(d)})')
        return sample(stats, samples, f'{x} // {d}')
    if op == 'divmod':
        d = rng.randint(1, 40)
        TAINT[0] = False
        q, m = divmod(x, d)
        if TAINT[0]:
            raise TooBig
        if val(m) != vx % d:
            fail('divmod', (x, d), m, vx % d, f'print(divmod({code(x)}, {d}))')
        check_value('divmod', (x, d), q, vx // d, f'print(divmod({code(x)}, {d}))')
        return sample(stats, samples, f'divmod({x}, {d})')
    if op == 'make':
        again = eval(code(x), vars(N))
        if again is not x:
            fail('same structure, different objects', (x,), id(again), id(x),
                 f'x = {code(x)}; y = {code(x)}\nprint(x is y, x == y)')
        for table, cls, a, b in ((N.ADDS, N.Add, 'l', 'r'), (N.MULS, N.Mul, 'l', 'r'), (N.DIVS, N.Div, 'num', 'den'),
                                 (N.EXPS, N.Exp, 'base', 'exp')):
            for k1, row in list(table.items())[-3:]:
                for k2, o in list(row.items())[-3:]:
                    if not (type(o) is cls and getattr(o, a) == k1 and getattr(o, b) == k2):
                        fail('interning table entry', (k1, k2), o, 'an object with these fields',
                             f'x = {code(x)}')
        return sample(stats, samples, code(x))
    # binary with a count or an int
    if op == 'eq':
        y = operand(rng, base) if r < .5 else eval(code(x), vars(N))
        if y is None:
            raise TooBig
        want = code(x) == code(y)
        if (x == y) is not want or (x != y) is want or (want and hash(x) != hash(y)):
            fail('equality', (x, y), x == y, want, f'print({code(x)} == {code(y)})')
        return sample(stats, samples, f'{x} == {y}')
    y = small(rng) if r < .3 else related(rng, x, base)
    if y is None:
        raise TooBig
    vy = val(y)
    if op in ('lt', 'le', 'gt', 'ge'):
        return compare(op, x, y, vx, vy, stats, samples)
    TAINT[0] = False
    got = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y}[op]()
    if TAINT[0]:
        raise TooBig
    want = {'add': vx + vy, 'sub': vx - vy, 'mul': vx * vy}[op]
    s = {'add': '+', 'sub': '-', 'mul': '*'}[op]
    check_value('value of an operation', (x, s, y), got, want, f'print({code(x)} {s} {code(y)})')
    sample(stats, samples, f'{x} {s} {y}')


def parts(x):
    t = type(x).__name__
    return t, {'Add': ('l', 'r'), 'Mul': ('l', 'r'), 'Div': ('num', 'den'), 'Exp': ('base', 'exp')}[t]


def deep(rng, consts, stats, samples):
    """a chain of raw constructors, each application done twice: the same object with these fields"""
    x = N.make_exp(rng.choice(BASES), rng.randint(1, 200))
    pool = [x]
    trail = []
    for _ in range(rng.choice((3, 10, 40, 120))):
        k = rng.random()
        y = rng.choice(pool) if rng.random() < .4 else None
        i = small(rng) if rng.random() < .8 else rng.choice(consts)
        if k < .3:
            f, a = N.make_add, ((y if y is not None else i), x)
        elif k < .55 and (y is not None or type(x).__name__ == 'Exp'):
            f, a = N.make_mul, ((y if y is not None else i), x)
        elif k < .7:
            f, a = N.make_div, (x, abs(i) + 1)
        else:
            f, a = N.make_exp, (rng.choice((2, 3, 5, 6, 7, 10, 11, 33, 50)), x)
        z, w = f(*a), f(*a)
        trail.append(f'{f.__name__}{a!r}'[:200])
        t, (p, q) = parts(z)
        if z is not w or not z == w or hash(z) != hash(w):
            fail('same parts, different objects', (t, str(a)[:200]), (id(z), id(w)), 'one object',
                 'args = (' + ', '.join(code(v) for v in a) + f')\nprint({f.__name__}(*args) is {f.__name__}(*args), "expected True")')
        if t.lower() != f.__name__[5:] or {id(getattr(z, p)), id(getattr(z, q))} != {id(a[0]), id(a[1])} and \
                (getattr(z, p), getattr(z, q)) not in (a, a[::-1]):
            if f is not N.make_exp or getattr(z, p) ** 1 == a[0]:
                fail('wrong parts', (t, str(a)[:200]), str(z)[:200], str(a)[:200],
                     'args = (' + ', '.join(code(v) for v in a) + f')\nprint({f.__name__}(*args), "expected these parts:", args)')
        pool.append(z)
        x = z
        if z.depth > 300:
            break
    sample(stats, samples, ' '.join(trail[:3])[:200])


def compare(op, x, y, vx, vy, stats, samples):
    raise TooBig


def related(rng, x, base):
    """a second operand, often sharing parts with the first"""
    if rng.random() < .5:
        return operand(rng, base)
    t = type(x).__name__
    parts = [x]
    if t in ('Add', 'Mul'):
        parts += [p for p in (x.l, x.r) if type(p) is not int]
    if t == 'Div':
        parts += [x.num]
    p = rng.choice(parts)
    try:
        r = rng.random()
        if r < .25:
            y = -p
        elif r < .5:
            y = small(rng) * p
        elif r < .7:
            y = small(rng) + p
        elif r < .85:
            y = leaf(rng, base) * p
        else:
            y = leaf(rng, base) + p
    except ERR:
        return p
    if type(y) is not int and not integral(y):
        return p
    return y


def sample(stats, samples, s):
    if len(samples) < 3:
        samples.append(s[:200])


if __name__ == '__main__':
    import json
    for p in sys.argv[1:]:
        n, found, st = search(run(p), 1, 15, {})
        print(p, n, json.dumps(found, indent=1) if found else None, st)
