"""Concrete search for a tape on which tm/tape.py differs from a tape kept cell by cell."""
from __future__ import annotations
import sys
from .common import REPO, Found, search

sys.path.insert(0, REPO)
import tm.tape as T      # noqa: E402


def blocks(rng, k, cmax, nmax):
    out, prev = [], None
    for i in range(k):
        c = rng.choice([x for x in range(cmax + 1) if x != prev])
        out.append([c, 1 if rng.random() < .5 else rng.randint(1, nmax)])
        prev = c
    while out and out[-1][0] == 0:
        out.pop()
    return out


def gen(rng):
    cmax = rng.choice((1, 1, 2, 3, 5))
    nmax = rng.choice((2, 3, 4, 9, 10 ** 6, 10 ** 20))
    most = rng.choice((5,) * 18 + (9, 40))
    return (blocks(rng, rng.randint(0, most), cmax, nmax), rng.randint(0, cmax), blocks(rng, rng.randint(0, most), cmax, nmax)), cmax


def build(spec):
    l, s, r = spec
    return T.Tape([T.Block(*b) for b in l], s, [T.Block(*b) for b in r])


def spec_of(t):
    return ([[b.color, b.count] for b in t.lspan], t.scan, [[b.color, b.count] for b in t.rspan])


def code(spec):
    l, s, r = spec
    f = lambda x: '[' + ', '.join(f'Block({c}, {n})' for c, n in x) + ']'
    return f'Tape({f(l)}, {s}, {f(r)})'


PRE = 'from tm.tape import Tape, Block, EnumTape\n'


def norm(bl):
    """merged blocks without trailing blanks"""
    out = []
    for c, n in bl:
        if n == 0:
            continue
        if out and out[-1][0] == c:
            out[-1] = [c, out[-1][1] + n]
        else:
            out.append([c, n])
    while out and out[-1][0] == 0:
        out.pop()
    return out


def drop(bl, n):
    """cells n.. and the colours of the cells 0..n-1 as blocks"""
    got, rest = [], [list(b) for b in bl]
    while n and rest:
        c, k = rest[0]
        m = min(n, k)
        got.append([c, m])
        n -= m
        if m == k:
            rest.pop(0)
        else:
            rest[0][1] = k - m
    if n:
        got.append([0, n])
    return got, rest


def ref_step(spec, shift, color, skip):
    """reference: (new spec, steps) - the head writes color over the run and moves past it"""
    l, s, r = spec
    pull, push = (r, l) if shift else (l, r)
    n = 1
    if skip and pull and pull[0][0] == s:
        n += pull[0][1]
    got, rest = drop(pull, n)
    scan = got[-1][0]
    push = norm([[color, n]] + [list(b) for b in push])
    rest = norm(rest)
    return ((push, scan, rest) if shift else (rest, scan, push)), n


def canonical(spec):
    l, s, r = spec
    return all(n >= 1 for b in (l, r) for _, n in b) and norm(l) == l and norm(r) == r


def fail(what, spec, got, want, expr):
    raise Found(what=what, input=code(spec), got=str(got)[:600], want=str(want)[:600],
                code=PRE + f't = {code(spec)}\n{expr}\nprint("expected:", {str(want)!r})')


def run(pid):
    return {'T01': fz_step, 'T02': fz_obs, 'T03': fz_enum}[pid]


def guard(what, spec, expr, f):
    try:
        return f()
    except Found:
        raise
    except Exception as e:      # the operations are total on these tapes
        fail(f'{what} raises', spec, repr(e), 'an answer', expr)


def fz_step(rng, hints, stats):
    samples = stats.setdefault('samples', [])
    while True:
        spec, cmax = gen(rng)
        t = build(spec)
        for _ in range(rng.randint(1, 25)):
            shift, color, skip = rng.random() < .5, rng.randint(0, cmax), rng.random() < .5
            if rng.random() < .4:
                shift = last if _ else shift
            last = shift
            want, n = ref_step(spec, shift, color, skip)
            expr = f'print(t.step({shift}, {color}, {skip}), t)'
            got = guard('step', spec, expr, lambda: t.step(shift, color, skip))
            if got != n:
                fail('number of steps', spec, got, n, expr)
            now = spec_of(t)
            if now != want:
                fail('tape after a step', spec, code(now), code(want), expr)
            if not canonical(now):
                fail('tape not canonical', spec, code(now), 'canonical', expr)
            spec = want
            yield
        if len(samples) < 3:
            samples.append(code(spec)[:150])


def sig_of(spec):
    l, s, r = spec
    f = lambda b: tuple(c if n != 1 else (c,) for c, n in b)
    return s, f(l), f(r)


def fz_obs(rng, hints, stats):
    samples = stats.setdefault('samples', [])
    while True:
        spec, cmax = gen(rng)
        if rng.random() < .15:
            spec = ([], spec[1], spec[2])
        if rng.random() < .15:
            spec = (spec[0], 0, [])
        l, s, r = spec
        t = build(spec)
        marks = (1 if s else 0) + sum(n for b in (l, r) for c, n in b if c)
        checks = [('blank', 't.blank', not l and not r and s == 0), ('marks', 't.marks', marks),
                  ('at_edge', 't.at_edge(True)', s == 0 and not r), ('at_edge', 't.at_edge(False)', s == 0 and not l),
                  ('span_lens', 't.span_lens', (len(l), len(r))),
                  ('counts', 't.counts', ([n for _, n in l], [n for _, n in r])), ('signature', 't.signature', sig_of(spec))]
        for side, b in ((0, l), (1, r)):
            for i, (c, n) in enumerate(b):
                checks.append(('get_count', f't.get_count(({side}, {i}))', n))
        # prefixes of signatures match, changed ones do not
        sl, sr = sig_of(spec)[1:]
        i, j = rng.randint(0, len(sl)), rng.randint(0, len(sr))
        sig = [s, list(sl[:i]), list(sr[:j])]
        for side in (1, 2):
            for k, c in enumerate(sig[side]):
                c0 = c[0] if isinstance(c, tuple) else c
                sig[side][k] = c0 if rng.random() < .5 else (c0,)
        want = True
        if rng.random() < .6:
            k = rng.random()
            sd = rng.choice((1, 2))
            if k < .3 or not sig[sd]:
                if rng.random() < .5:
                    sig[0] = sig[0] + 1
                    want = False
                elif (i, j)[sd - 1] == len((sl, sr)[sd - 1]):
                    sig[sd].append(rng.randint(0, cmax))
                    want = False
            else:
                q = rng.randrange(len(sig[sd]))
                c = sig[sd][q]
                sig[sd][q] = (c[0] + 1,) if isinstance(c, tuple) else c + 1
                want = False
        sg = (sig[0], tuple(sig[1]), tuple(sig[2]))
        checks.append(('sig_compatible', f't.sig_compatible({sg!r})', want))
        for what, ex, want in checks:
            got = guard(what, spec, f'print({ex})', lambda: eval(ex, dict(t=t)))
            if got != want or (what == 'signature' and repr(got) != repr(want)):
                fail(what, spec, got, want, f'print({ex})')
            if spec_of(t) != spec:
                fail(f'{what} changes the tape', spec, code(spec_of(t)), code(spec), f'{ex}\nprint(t)')
            yield
        u = guard('clone', spec, 't.clone()', t.clone)
        if spec_of(u) != spec or u is t:
            fail('clone', spec, code(spec_of(u)), code(spec), 'print(t.clone())')
        sides = [(sd, k) for sd, b in ((0, l), (1, r)) for k in range(len(b))]
        if sides:
            ix, v = rng.choice(sides), rng.randint(1, 50)
            which = u if rng.random() < .5 else t
            guard('set_count', spec, f't.set_count({ix}, {v})', lambda: which.set_count(ix, v))
            want = ([list(b) for b in l], s, [list(b) for b in r])
            want[2 if ix[0] else 0][ix[1]][1] = v
            if spec_of(which) != want:
                fail('set_count', spec, code(spec_of(which)), code(want), f't.set_count({ix}, {v}); print(t)')
            other = t if which is u else u
            if spec_of(other) != spec:
                fail('a clone shares blocks', spec, code(spec_of(other)), code(spec),
                     f'u = t.clone(); u.set_count({ix}, {v}); print(t)')
        for k in range(3):
            shift, color = rng.random() < .5, rng.randint(0, cmax)
            v = t.clone()
            w = spec_of(v)
            v.step(shift, color, True)
            if spec_of(t) != w:
                fail('a clone shares blocks', w, code(spec_of(t)), code(w), f't.clone().step({shift}, {color}, True); print(t)')
            yield
        if len(samples) < 3:
            samples.append(code(spec)[:150])


def fz_enum(rng, hints, stats):
    samples = stats.setdefault('samples', [])
    while True:
        spec, cmax = gen(rng)
        first = spec
        t = build(spec)
        e = guard('to_enum', spec, 't.to_enum()', t.to_enum)
        if spec_of(e.tape) != spec or e.tape is t:
            fail('to_enum copies the tape', spec, code(spec_of(e.tape)), code(spec), 'print(t.to_enum().tape)')
        trail = ['e = t.to_enum()']
        off, edge = [0, 0], [False, False]
        num = [[(s, k + 1) for k in range(len(b))] for s, b in ((0, spec[0]), (1, spec[2]))]
        ids = {id(b): (s, k + 1) for s, sp in ((0, e.tape.lspan), (1, e.tape.rspan)) for k, b in enumerate(sp)}
        held = list(e.tape.lspan) + list(e.tape.rspan)      # keeps the blocks alive: addresses are not reused

        def touch(b):
            if id(b) in ids:
                s, k = ids[id(b)]
                off[s] = max(off[s], k)
        for _ in range(rng.randint(1, 20 + 6 * max(0, len(first[0]) - 5, len(first[2]) - 5))):
            before = spec_of(e.tape)
            tp = e.tape
            if rng.random() < .75:
                shift, color, skip = rng.random() < .5, rng.randint(0, cmax), rng.random() < .5
                pull, push = (tp.rspan, tp.lspan) if shift else (tp.lspan, tp.rspan)
                if not pull:
                    edge[shift] = True
                else:
                    touch(pull[0])
                    if skip and pull[0].color == tp.scan:
                        if len(pull) == 1:
                            edge[shift] = True
                        else:
                            touch(pull[1])
                if push and push[0].color == color:
                    touch(push[0])
                want, _n = ref_step(before, shift, color, skip)
                ex = f'e.step({shift}, {color}, {skip})'
                trail.append(ex)
                got = guard('step', first, '\n'.join(trail), lambda: e.step(shift, color, skip))
            else:
                ixs = [(s, k) for s, b in ((0, tp.lspan), (1, tp.rspan)) for k in range(len(b))]
                if not ixs:
                    continue
                ix = rng.choice(ixs)
                want = before
                touch((tp.rspan if ix[0] else tp.lspan)[ix[1]])
                ex = f'e.get_count({ix})'
                trail.append(ex)
                got = guard('get_count', first, '\n'.join(trail), lambda: e.get_count(ix))
                if got != before[2 if ix[0] else 0][ix[1]][1]:
                    fail('get_count', first, got, before[2 if ix[0] else 0][ix[1]][1], '\n'.join(trail[:-1]) + f'\nprint({ex})')
                if rng.random() < .3:
                    v = rng.randint(1, 9)
                    trail.append(f'e.set_count({ix}, {v})')
                    guard('set_count', first, '\n'.join(trail), lambda: e.set_count(ix, v))
                    want = ([list(b) for b in before[0]], before[1], [list(b) for b in before[2]])
                    want[2 if ix[0] else 0][ix[1]][1] = v
            show = '\n'.join(trail) + '\nprint(e.tape, e.offsets, e.edges)'
            now = spec_of(e.tape)
            if now != want:
                fail('tape of an EnumTape', first, code(now), code(want), show)
            if tuple(e.offsets) != tuple(off):
                fail('offsets: the farthest block looked at on each side', first, e.offsets, tuple(off), show)
            if tuple(map(bool, e.edges)) != tuple(edge):
                fail('edges: the tape ended there', first, e.edges, tuple(edge), show)
            if e.scan != now[1] or e.signature != sig_of(now):
                fail('scan/signature of an EnumTape', first, (e.scan, e.signature), sig_of(now), show)
            if spec_of(t) != first:
                fail('the original tape changed', first, code(spec_of(t)), code(first), show)
            yield
        del held
        if len(samples) < 3:
            samples.append(code(first)[:150])


if __name__ == '__main__':
    import json
    for p in sys.argv[1:]:
        n, found, st = search(run(p), 1, 8, {})
        print(p, n, json.dumps(found, indent=1) if found else None, st)
