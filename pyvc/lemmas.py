"""The power lemmas the prover instantiates, proved by induction from
   pow(b, 0) = 1   and   pow(b, x + 1) = b * pow(b, x)  for x >= 0.
Every induction is two z3 queries (base, step); earlier lemmas are used as instances.
run: python3-vt -m pyvc.lemmas"""
import sys
import z3
from .prover import POW

I = z3.Ints
RESULTS = []


def defn(b, x):
    """both defining equations at (b, x)"""
    return [POW(b, z3.IntVal(0)) == 1, z3.Implies(x >= 0, POW(b, x + 1) == b * POW(b, x))]


def query(name, hyps, goal):
    s = z3.Solver()
    s.set('timeout', 20000)
    s.add(*hyps)
    s.add(z3.Not(goal))
    ok = s.check() == z3.unsat
    RESULTS.append((name, ok))
    return ok


def induct(name, v, P, base=0, defs=(), pre=()):
    """P(v) for all v >= base"""
    query(name + '.base', list(defs) + list(pre), P(z3.IntVal(base)))
    query(name + '.step', list(defs) + list(pre) + [v >= base, P(v)], P(v + 1))


def prove_all():
    RESULTS.clear()
    b, x, y, m, k, t, n = I('b x y m k t n')
    # pow_one, pow_zero_base, pow_one_base
    query('pow_one', defn(b, z3.IntVal(0)), POW(b, z3.IntVal(1)) == b)
    induct('one_base', x, lambda x: POW(z3.IntVal(1), x) == 1, 0, defn(z3.IntVal(1), x))
    query('zero_base', defn(z3.IntVal(0), x - 1), z3.Implies(x >= 1, POW(z3.IntVal(0), x) == 0))
    # positivity and growth
    induct('positive', x, lambda x: POW(b, x) >= 1, 0, defn(b, x), [b >= 1])
    induct('at-least-base', x, lambda x: POW(b, x) >= b, 1, defn(b, x) + defn(b, z3.IntVal(0)), [b >= 2])
    induct('exceeds-exponent', x, lambda x: POW(b, x) > x, 0, defn(b, x), [b >= 2])
    # b^(x+y) = b^x * b^y, induction on y; B = b^x
    A, B, C = I('A B C')
    query('add.base', defn(b, x), POW(b, x + 0) == POW(b, x) * POW(b, z3.IntVal(0)))
    query('add.step', [y >= 0, x >= 0, POW(b, x + y) == A, POW(b, x) == B, POW(b, y) == C, A == B * C,
                       POW(b, x + y + 1) == b * A, POW(b, y + 1) == b * C],
          z3.Implies(A == B * C, b * (B * C) == B * (b * C)))
    query('add.step-defs', [x >= 0, y >= 0] + defn(b, x + y) + defn(b, y),
          z3.And(POW(b, x + y + 1) == b * POW(b, x + y), POW(b, y + 1) == b * POW(b, y)))
    # monotone: x < y -> b^x * b <= b^y   (y = x + 1 + k, add, positive)
    query('monotone', [b >= 2, x >= 0, k >= 0, POW(b, x + 1 + k) == POW(b, x + 1) * POW(b, k), POW(b, k) >= 1,
                       POW(b, x + 1) == b * POW(b, x), POW(b, x) >= 1, A == POW(b, x + 1), C == POW(b, k), A >= 1],
          z3.Implies(POW(b, x + 1 + k) == A * C, POW(b, x) * b <= A * C))
    # (b^x)^y = b^(x*y), induction on y with add at (x*y, x)
    query('mul.base', defn(POW(b, x), y) + defn(b, x), POW(POW(b, x), z3.IntVal(0)) == POW(b, x * 0))
    query('mul.step', [x >= 0, y >= 0, POW(POW(b, x), y + 1) == POW(b, x) * POW(POW(b, x), y),
                       POW(POW(b, x), y) == POW(b, x * y), POW(b, x * y + x) == POW(b, x * y) * POW(b, x)],
          POW(POW(b, x), y + 1) == POW(b, x * y + x))
    # (b*b)^x = b^(2x), (b*b*b)^x = b^(3x)
    sq, cu = b * b, b * b * b
    query('square.base', [POW(sq, z3.IntVal(0)) == 1, POW(b, z3.IntVal(0)) == 1], POW(sq, z3.IntVal(0)) == POW(b, 2 * z3.IntVal(0)))
    query('square.step', [x >= 0, POW(sq, x) == A, POW(b, 2 * x) == A, POW(sq, x + 1) == sq * A,
                          POW(b, 2 * x + 1) == b * A, B == b * A, POW(b, 2 * x + 2) == b * B],
          POW(sq, x + 1) == POW(b, 2 * x + 2))
    query('cube.step', [x >= 0, POW(cu, x) == A, POW(b, 3 * x) == A, POW(cu, x + 1) == cu * A, B == b * A, C == b * B,
                        POW(b, 3 * x + 3) == b * C], POW(cu, x + 1) == POW(b, 3 * x + 3))
    # congruence: s = r (mod m) -> s^x = r^x (mod m); step: S = R + m*k, s = r + m*t
    s_, r_, S, R = I('s r S R')
    query('congruent-powers.step', [s_ == r_ + m * t, S == R + m * k], s_ * S == r_ * R + m * (r_ * k + t * R + m * t * k))
    # period: b^p = 1 (mod m) -> b^(p*n + x) = b^x (mod m); step multiplies by b^p = 1 + m*t
    query('period.step', [S == R + m * k, A == 1 + m * t], S * A == R + m * (k + t * S))
    # odd b: b^(2^(k-2)) = 1 (mod 2^k), k >= 3
    query('odd-square-mod-8', [b == 2 * t + 1, t == 2 * n], (b * b) == 1 + 8 * (2 * n * n + n))
    query('odd-square-mod-8-odd', [b == 2 * t + 1, t == 2 * n + 1], (b * b) == 1 + 8 * (2 * n * n + 3 * n + 1))
    # (1 + M*t)^2 = 1 + 2M*(t + (M/2)*t*t) for M even
    M, h = I('M h')
    query('odd-order.step', [M == 2 * h, S == 1 + M * t], S * S == 1 + (2 * M) * (t + h * t * t))
    return list(RESULTS)


def prove_rules():
    """lemmas of pyvc/rulespec.py; geo(m, 0) = 0, geo(m, n + 1) = m * geo(m, n) + 1"""
    from .rulespec import GEO
    RESULTS.clear()
    m, n, c, a, g, P, x = I('m n c a g P x')
    gd = lambda n: [GEO(m, z3.IntVal(0)) == 0, z3.Implies(n >= 0, GEO(m, n + 1) == m * GEO(m, n) + 1)]
    # m**n - 1 = (m - 1) * geo(m, n)
    query('geo.base', defn(m, n) + gd(n), POW(m, z3.IntVal(0)) - 1 == (m - 1) * GEO(m, z3.IntVal(0)))
    query('geo.step', [P - 1 == (m - 1) * g], m * P - 1 == (m - 1) * (m * g + 1))
    query('geo.one', gd(z3.IntVal(0)), GEO(m, z3.IntVal(1)) == 1)
    # the n-fold image of c under c -> m * c + a is m**n * c + a * geo(m, n)
    query('affine.base', defn(m, n) + gd(n), POW(m, z3.IntVal(0)) * c + a * GEO(m, z3.IntVal(0)) == c)
    query('affine.step', [x == P * c + a * g], m * x + a == (m * P) * c + a * (m * g + 1))
    query('sign', [m <= 0, c >= 1], m * c <= 0)
    query('times-monotone', [a >= 1, n <= m], a * n <= a * m)
    return list(RESULTS)


def prove_positional():
    """tapes of one width over digits below b have distinct values below b**width"""
    RESULTS.clear()
    b, d, e, v, w, P = I('b d e v w P')
    dig = [0 <= d, d < b, 0 <= e, e < b]
    query('digits.range', [0 <= d, d < b, 0 <= v, v < P], z3.And(0 <= d + b * v, d + b * v < b * P))
    query('digits.unique-rest-lt', dig + [v < w, v + 1 <= w, b * (v + 1) <= b * w], d + b * v < e + b * w)
    query('digits.monotone', [b >= 0, v + 1 <= w], b * (v + 1) <= b * w)
    query('digits.unique', dig + [v == w, d + b * v == e + b * w], d == e)
    return list(RESULTS)


def prove_reason():
    """what rreasonspec assumes of partly known tapes and of the search, from the cell-level contracts of rbackspec

    A configuration x: state, scanned colour, sides L(k), R(k), k >= 0.  A partly known tape: scan and sides that answer -1 where the
    colour is not known; x is a member iff the scans agree and every known cell agrees.  Moving right: the printed colour is put on L
    and R(0) is scanned; left is the mirror image, so one direction is proved."""
    from . import rreasonspec as S
    RESULTS.clear()
    k, c, p, scan, s = I('k c p scan s')
    F, N, B = z3.Function, z3.IntSort(), z3.BoolSort()
    fits = lambda a, v: z3.Or(a == -1, a == v)
    # x before, y = nxt x after, a the partly known tape of y, b the one stepped back (contract of backstep)
    xl, xr, yl, yr, al, ar, bl, br = (F(n, N, N) for n in 'xl xr yl yr al ar bl br'.split())
    xs, ys = I('xscan yscan')
    nat = lambda i: [xl(i) >= 0, xr(i) >= 0, yl(i) >= 0, yr(i) >= 0]
    step = lambda i: nat(i) + [ys == xr(0), yl(0) == p, z3.Implies(i >= 0, z3.And(yl(i + 1) == xl(i), yr(i) == xr(i + 1)))]
    back = lambda i: [z3.Implies(i >= 0, z3.And(bl(i) == al(i + 1), br(i + 1) == ar(i))), br(0) == scan]
    member_y = lambda i: z3.And(ys == scan, z3.Implies(i >= 0, z3.And(fits(al(i), yl(i)), fits(ar(i), yr(i)))))
    member_x = lambda i: z3.And(xs == c, z3.Implies(i >= 0, z3.And(fits(bl(i), xl(i)), fits(br(i), xr(i)))))
    at = lambda f, *ks: [h for i in ks for h in (f(i) if isinstance(f(i), list) else [f(i)])]
    zero = z3.IntVal(0)
    ks = (k - 1, k, k + 1, zero)
    # AxA: a member is stepped to from x in slot (s, xs), printing p: the step back is possible and x is a member of it
    query('step-back.found', at(step, *ks) + at(member_y, *ks), fits(al(0), p))
    query('step-back.member', at(step, *ks) + at(member_y, *ks) + at(back, *ks) + [c == xs, k >= 0, scan >= 0], member_x(k))
    # AxB: members of the tape stepped back (possible for print p) step to members
    query('step.member', at(step, *ks) + at(member_x, *ks) + at(back, *ks) + [fits(al(0), p), k >= 0, scan >= 0], member_y(k))
    # a step is undone in one way: same print and read, same result
    zl, zr = F('zl', N, N), F('zr', N, N)
    step2 = lambda i: [ys == zr(0), yl(0) == p, z3.Implies(i >= 0, z3.And(yl(i + 1) == zl(i), yr(i) == zr(i + 1)))]
    query('step.injective', at(step, *ks) + at(step2, *ks) + [k >= 0], z3.And(xl(k) == zl(k), xr(k) == zr(k)))
    # the blank configuration is a member iff every known cell is blank; blocks: cells of the blocks from number i on,
    # cell(i, j) = colour(i) for j < count(i), else cell(i + 1, j - count(i)); behind the last (number n): blank or unknown
    cell = F('cell', N, N, N)
    col, cnt = F('colour', N, N), F('count', N, N)
    i, j, n, w = I('i j n w')
    end = z3.Bool('end_blank')
    rec = lambda i, j: z3.If(i >= n, cell(i, j) == z3.If(end, 0, -1), cell(i, j) == z3.If(j < cnt(i), col(i), cell(i + 1, j - cnt(i))))
    # every block from i on blank -> every cell from i on is blank or unknown (induction from n down)
    query('blank.base', [i >= n, rec(i, j)], z3.Or(cell(i, j) == -1, cell(i, j) == 0))
    query('blank.step', [i < n, j >= 0, cnt(i) >= 1, col(i) == 0, rec(i, j), z3.Implies(j - cnt(i) >= 0, z3.Or(cell(i + 1, j - cnt(i)) == -1, cell(i + 1, j - cnt(i)) == 0))],
          z3.Or(cell(i, j) == -1, cell(i, j) == 0))
    # a block w >= i with another colour -> a cell from i on has it (induction on w - i)
    query('not-blank.base', [w == i, w < n, cnt(w) >= 1, col(w) > 0, rec(i, zero)], cell(i, zero) > 0)
    query('not-blank.step', [i < w, w < n, cnt(i) >= 1, j >= 0, cell(i + 1, j) > 0, rec(i, cnt(i) + j)], z3.And(cell(i, cnt(i) + j) > 0, cnt(i) + j >= 0))
    # targets: init_spinout(right), init_blank: blocks none, so a side is all blank or all unknown
    query('init.unknown', [cell(zero, k) == -1], fits(cell(zero, k), xl(k)))
    query('init.blank', [cell(zero, k) == 0, xl(k) >= 0], fits(cell(zero, k), xl(k)) == (xl(k) == 0))
    # spin-out: the target is kept by a step, and a step by the same slot into it came from it.  Direction right: R blank
    query('spin.kept', at(step, *ks) + [xs == 0, xr(0) == 0, xr(k + 1) == 0, k >= 0], z3.And(ys == 0, yr(k) == 0))
    query('spin.came-from', at(step, *ks) + [xs == 0, ys == 0, k >= 0, z3.Implies(k >= 1, yr(k - 1) == 0)], xr(k) == 0)
    # prune: y reaches the target first at m; the blank b reaches it at m by the same steps, and earlier at q < m: impossible
    X = Collect()
    y, b = z3.Consts('y b', S.CONC)
    m, q = I('m q')
    for mode in ('halt', 'blank', 'spin'):
        T = lambda v: S.tgt(mode, v)
        like = (lambda a, b, m: a == b) if mode == 'blank' else S.SAME
        hyp = lambda y, b, m, q: z3.And(q >= 0, q < m, S.REACH(y, m), S.REACH(b, m), like(y, b, m), S.FH(y, m), S.REACH(b, q))
        for v in (y, b):
            S.nxt_facts(X, v)
        S.unfold(X, mode, y, b, m - 1)
        S.unfold(X, mode, y, b, q - 1)
        facts = X.take()
        extra = []
        if mode == 'spin':
            # lemma: b in the target, y by the same slots for m steps reaching the target at m -> y in the target (induction on m)
            hs = lambda y, b, m: z3.And(T(b), S.SAME(y, b, m), S.REACH(y, m))
            X.take()
            S.unfold(X, mode, y, b, m)
            for v in (y, b):
                S.nxt_facts(X, v)
            fs = X.take()
            kept = z3.Implies(T(b), T(S.NXT(b)))
            came = z3.Implies(z3.And(S.DFN(*S.slot(y)), S.TO(*S.slot(y)) == S.ST(y), S.COL(y) == 0, T(S.NXT(y))), T(y))
            query('prune.spin.base', fs, z3.Implies(hs(y, b, zero), T(y)))
            query('prune.spin.step', fs + [kept, came, m >= 0, z3.Implies(hs(S.NXT(y), S.NXT(b), m), T(S.NXT(y)))],
                  z3.Implies(hs(y, b, m + 1), T(y)))
            extra = [z3.Implies(hs(y, b, m), T(y))]
        query(f'prune.{mode}.base', facts + extra, z3.Not(hyp(y, b, m, zero)))
        query(f'prune.{mode}.step', facts + [q >= 1, z3.Not(hyp(S.NXT(y), S.NXT(b), m - 1, q - 1))], z3.Not(hyp(y, b, m, q)))
    return list(RESULTS)


def prove_quick():
    """what rquickspec assumes of runs: a configuration met again, moved, as far as the positions in between show, is met for ever

    Base steps: state q(n), head p(n), colour T(n, i) of position i after n steps; D(n): the slot then is defined.  Steps 0..m lead from
    the reference to the configuration aligned with it, d to the right (or 0; to the left is the mirror image)."""
    RESULTS.clear()
    F, N, B = z3.Function, z3.IntSort(), z3.BoolSort()
    q, p, T = F('q', N, N), F('p', N, N), F('T', N, N, N)
    HAS, WR, NX, DIR = F('HAS', N, N, B), F('WR', N, N, N), F('NX', N, N, N), F('DIR', N, N, N)
    sl = lambda n: (q(n), T(n, p(n)))
    D = lambda n: HAS(*sl(n))
    step = lambda n, i: z3.Implies(D(n), z3.And(q(n + 1) == NX(*sl(n)), p(n + 1) == p(n) + DIR(*sl(n)),
                                               T(n + 1, i) == z3.If(i == p(n), WR(*sl(n)), T(n, i))))
    n, u, s, i, lo, hi, d, m, k = I('n u s i lo hi d m k')
    for name, side in (('right', lambda i: i >= lo), ('left', lambda i: i <= hi), ('still', lambda i: z3.BoolVal(True))):
        sim = lambda n, u, s, i: z3.And(q(n) == q(u), p(u) == p(n) + s, z3.Implies(side(i), T(n, i) == T(u, i + s)))
        # a step within the window is made by both: the later one is defined, and they stay alike
        query(f'alike.step.{name}', [sim(n, u, s, i), sim(n, u, s, p(n)), side(p(n)), D(n), step(n, i), step(u, i + s)],
              z3.And(D(u), sim(n + 1, u + 1, s, i)))
        # k rounds on: alike with the reference, moved k * d =: s; after the m steps of a round (alike.step) alike with its end at u
        way = {'right': d > 0, 'left': d < 0, 'still': d == 0}[name]
        query(f'alike.round.{name}', [way, sim(z3.IntVal(0), m, d, i), sim(m, u, s, i + d), p(m) == p(0) + d],
              sim(z3.IntVal(0), u, s + d, i))
        # what aligns_with says of the cells at every distance from the head is alike(0, m, d)
        t0, tm = z3.IntVal(0), m
        L0, R0, Lm, Rm = (F(x, N, N) for x in ('L0', 'R0', 'Lm', 'Rm'))
        cells = lambda n, L, R, i: T(n, i) == z3.If(i == p(n), T(n, p(n)), z3.If(i > p(n), R(i - p(n) - 1), L(p(n) - i - 1)))
        says = lambda x: z3.And(z3.Implies(z3.And(x >= 0, z3.Or(d >= 0, x < hi - p(t0))), Rm(x) == R0(x)),
                                z3.Implies(z3.And(x >= 0, z3.Or(d <= 0, x < p(t0) - lo)), Lm(x) == L0(x)))
        query(f'aligned.{name}', [way, q(m) == q(0), p(m) == p(0) + d, T(m, p(m)) == T(t0, p(t0)), cells(t0, L0, R0, i), cells(tm, Lm, Rm, i + d),
                                  says(i - p(t0) - 1), says(p(t0) - i - 1), lo <= p(t0), p(t0) <= hi], sim(t0, m, d, i))
    # the positions of a sweep lie between where it began and ended
    j = z3.Int('j')
    query('sweep.window', [0 <= j, j <= k, lo <= p(0), lo <= p(0) - k], z3.And(p(0) - j >= lo, z3.Implies(p(0) + k <= hi, p(0) + j <= hi)))
    # a spin-out: the same state over blanks
    blank = lambda n, i: z3.Implies(i >= p(n), T(n, i) == 0)
    query('spin.step', [blank(n, i), blank(n, p(n)), HAS(q(n), 0), NX(q(n), 0) == q(n), DIR(q(n), 0) == 1, step(n, i)],
          z3.And(D(n), q(n + 1) == q(n), blank(n + 1, i)))
    return list(RESULTS)


def prove_segment():
    """what rsegspec uses of runs and windows

    Base steps: state q(n), head p(n), colour T(n, i) of position i after n steps; D(n): the slot then is defined.  The window laid at w
    shows position w + i as cell i (1 .. SEG - 2) and the head at clamp(p(n) - w): POS and CELL of a window tape."""
    from . import rsegspec as rs
    RESULTS.clear()
    F, N, B = z3.Function, z3.IntSort(), z3.BoolSort()
    SEG, NS, NC = rs.SEG, rs.NS, rs.NC
    POS, INS, COL, DFN, PR, SH, TO, HALT = rs.POS, rs.INS, rs.COL, rs.DFN, rs.PR, rs.SH, rs.TO, rs.HALT
    CELL = F('CELL', rs.TP, N, N)
    n, w, i, j, k, h, c = I('n w i j k h c')
    # (A) a window tape is determined by its position and its cells (the spans are lists of cells from the head outwards)
    nl, nr, ml, mr, cells, sa, sb = I('nl nr ml mr cells sa sb')
    a, b = z3.Bools('a b')
    la, ra, lb, rb = (F(x, N, N) for x in ('la', 'ra', 'lb', 'rb'))
    wf = lambda ins, l, r: z3.And(l >= 0, r >= 0, z3.If(ins, l + r + 1 == cells, z3.Or(z3.And(l == 0, r == cells), z3.And(r == 0, l == cells))))
    pos = lambda ins, l: z3.If(ins, l + 1, z3.If(l > 0, l + 1, 0))
    cell = lambda ins, l, fl, fr, s, x: z3.If(x < pos(ins, l), fl(pos(ins, l) - 1 - x), z3.If(x == pos(ins, l), z3.If(ins, s, -1), fr(x - pos(ins, l) - 1)))
    same = lambda x: z3.Implies(z3.And(x >= 1, x <= cells), cell(a, nl, la, ra, sa, x) == cell(b, ml, lb, rb, sb, x))
    hyp = [cells >= 2, wf(a, nl, nr), wf(b, ml, mr), pos(a, nl) == pos(b, ml)]
    query('tape.shape', hyp, z3.And(a == b, nl == ml, nr == mr, a == z3.And(pos(a, nl) >= 1, pos(a, nl) <= cells),
                                    pos(a, nl) >= 0, pos(a, nl) <= cells + 1))
    eq = hyp + [a == b, nl == ml, nr == mr]
    query('tape.scan', eq + [a, same(pos(a, nl))], sa == sb)
    query('tape.left', eq + [0 <= j, j < nl, same(pos(a, nl) - 1 - j)], la(j) == lb(j))
    query('tape.right', eq + [0 <= j, j < nr, same(pos(a, nl) + 1 + j)], ra(j) == rb(j))
    # (B) the run, shown in a window
    q, p, T = F('q', N, N), F('p', N, N), F('T', N, N, N)
    sl = lambda n: (q(n), T(n, p(n)))
    D = lambda n: DFN(*sl(n))
    step = lambda n, i: z3.Implies(D(n), z3.And(q(n + 1) == TO(*sl(n)), p(n + 1) == p(n) + z3.If(SH(*sl(n)), 1, -1),
                                               T(n + 1, i) == z3.If(i == p(n), PR(*sl(n)), T(n, i))))
    clamp = lambda x: z3.If(x < 0, 0, z3.If(x > SEG - 1, SEG - 1, x))
    inw = lambda x: z3.And(x >= 1, x <= SEG - 2)
    shows = lambda tp, n, w, i: z3.And(POS(tp) == clamp(p(n) - w), z3.Implies(inw(i), CELL(tp, i) == T(n, w + i)))
    tp = z3.Const('tp', rs.TP)
    base = [SEG >= 4, INS(tp) == inw(POS(tp)), z3.Implies(INS(tp), COL(tp) == CELL(tp, POS(tp)))]
    moved = lambda t2, sh: POS(t2) == POS(tp) + z3.If(sh, 1, -1)
    stept = lambda sh, pr, i: z3.And(moved(rs.STEPT(tp, sh, pr), sh), z3.Implies(inw(i), CELL(rs.STEPT(tp, sh, pr), i) == z3.If(i == POS(tp), pr, CELL(tp, i))))
    stepin = lambda sh, i: z3.And(moved(rs.STEPIN(tp, sh), sh), z3.Implies(inw(i), CELL(rs.STEPIN(tp, sh), i) == CELL(tp, i)))
    sh, pr = SH(*sl(n)), PR(*sl(n))
    query('run.scan', base + [INS(tp), shows(tp, n, w, i), shows(tp, n, w, POS(tp))], COL(tp) == T(n, p(n)))
    query('run.inside', base + [INS(tp), D(n), step(n, w + i), shows(tp, n, w, i), stept(sh, pr, i)], shows(rs.STEPT(tp, sh, pr), n + 1, w, i))
    side = POS(tp) == SEG - 1
    out = [z3.Not(INS(tp)), POS(tp) >= 0, POS(tp) < SEG, D(n), step(n, w + i), shows(tp, n, w, i)]
    came = z3.And(sh == z3.Not(side), inw(p(n + 1) - w))
    query('run.edge.in', base + out + [came, stepin(sh, i)], shows(rs.STEPIN(tp, sh), n + 1, w, i))
    query('run.edge.out', base + out + [z3.Not(came)], shows(tp, n + 1, w, i))
    query('run.window-at', [SEG >= 4, j >= 0, j < SEG, w == p(n) - j], clamp(p(n) - w) == j)
    # states and colours stay below the numbers given
    inr = lambda n, i: z3.And(q(n) >= 0, q(n) < NS, T(n, i) >= 0, T(n, i) < NC)
    query('run.range', [inr(n, i), inr(n, p(n)), D(n), step(n, i), TO(*sl(n)) >= 0, TO(*sl(n)) < NS, pr >= 0, pr < NC], inr(n + 1, i))
    # (C) a search over with all handled: what the window shows of a run that halts ends as some seen configuration does
    s, t2, ss = z3.Const('s', rs.TP), z3.Const('t2', rs.TP), z3.Int('ss')
    q0, q2, sc = I('q0 q2 sc')
    INF, EQ, ET = rs.INF, rs.ENDQ, rs.ENDT
    SEEN, REACHED = F('SEEN', N, rs.TP, B), F('REACHED', N, N, B)
    ends = lambda s, ss, x, y: z3.And(INF(s, ss) == INF(x, y), EQ(s, ss) == EQ(x, y), ET(s, ss) == ET(x, y))

    class Y:                                     # the facts unfold states, collected
        def __init__(self):
            self.fs = []

        def assume(self, f):
            self.fs.append(f)

    def unfolded(x, y):
        Z = Y()
        rs.unfold(Z, x, y)
        return Z.fs
    x = z3.Int('x')
    query('cover.inside', unfolded(x, tp) + [z3.Not(rs.stop(x, tp)), ends(ss, s, x, tp)], ends(ss, s, *rs.nxt(x, tp)))
    st, en = rs.STEPIN(tp, SH(x, sc)), TO(x, sc)
    e, et = EQ(ss, s), ET(ss, s)
    handled = z3.Or(INF(ss, s), z3.And(
        z3.Implies(HALT(e), REACHED(e, POS(et))),
        z3.Implies(z3.And(z3.Not(INS(et)), DFN(e, sc)), z3.And(
            z3.Implies(TO(e, sc) != e, SEEN(TO(e, sc), et)),
            z3.Implies(SH(e, sc) == z3.Not(rs.SIDE(et)), SEEN(TO(e, sc), rs.STEPIN(et, SH(e, sc))))))))
    edge = unfolded(x, tp) + [z3.Not(INS(tp)), ends(ss, s, x, tp), handled, DFN(x, sc)]
    query('cover.edge.in', edge + [SH(x, sc) == z3.Not(rs.SIDE(tp))], SEEN(en, st))
    query('cover.edge.out', edge, z3.Or(en == x, SEEN(en, tp)))
    query('cover.halt.inside', unfolded(x, tp) + [INS(tp), x >= 0, x < NS, COL(tp) >= 0, COL(tp) < NC, z3.Not(DFN(x, COL(tp))), ends(ss, s, x, tp), handled],
          REACHED(x, POS(tp)))
    Z = Y()
    rs.slot_facts(Z, x, sc)
    query('cover.halt.outside', unfolded(x, tp) + Z.fs + [z3.Not(INS(tp)), x >= 0, x < NS, sc >= 0, sc < NC, z3.Not(DFN(x, sc)), ends(ss, s, x, tp), handled],
          REACHED(x, POS(tp)))
    # (D) all positions reached are SEG many: cnt(k) members below k, of a set of size m
    cnt = F('cnt', N, N)
    query('reached.count', [cnt(k) == k, cnt(k + 1) == cnt(k) + z3.If(REACHED(h, k), 1, 0), REACHED(h, k)], cnt(k + 1) == k + 1)
    m = z3.Int('m')
    query('reached.all', [cnt(SEG) == SEG, m >= cnt(SEG)], z3.Not(m < SEG))
    # (E) the part of the run from the blank tape that has not left the window: the cells outside are still blank
    blank_out = lambda n, i: z3.Implies(z3.Not(inw(i - w)), T(n, i) == 0)
    query('first.untouched', [blank_out(n, i), inw(p(n) - w), D(n), step(n, i)], blank_out(n + 1, i))
    query('first.blank-again', [blank_out(n, i), z3.Implies(inw(i - w), CELL(tp, i - w) == 0), shows(tp, n, w, i - w)], T(n, i) == 0)
    sim = lambda n, u, d, i: z3.And(q(n) == q(u), p(u) == p(n) + d, T(u, i + d) == T(n, i))
    u, d = I('u d')
    query('first.repeats', [sim(n, u, d, i), sim(n, u, d, p(n)), D(n), step(n, i), step(u, i + d)], z3.And(D(u), sim(n + 1, u + 1, d, i)))
    ahead = lambda tp, i: z3.Implies(z3.And(inw(i), z3.If(sh, i > POS(tp), i < POS(tp))), CELL(tp, i) == 0)
    query('first.spin.start', base + [INS(tp), blank_out(n, i), shows(tp, n, w, i - w), ahead(tp, i - w), z3.If(sh, i > p(n), i < p(n))], T(n, i) == 0)
    for nm, r in (('right', True), ('left', False)):
        past = lambda n, i: z3.Implies(i >= p(n) if r else i <= p(n), T(n, i) == 0)
        query(f'first.spin.{nm}', [past(n, i), past(n, p(n)), DFN(q(n), 0), TO(q(n), 0) == q(n), SH(q(n), 0) == z3.BoolVal(r), step(n, i)],
              z3.And(D(n), q(n + 1) == q(n), past(n + 1, i)))
    # (F) a configuration met again strictly later stops nowhere: were it to stop, after LEN steps both times
    query('repeat', [rs.LEN(q0, s) == rs.LEN(q2, t2) + k, k >= 1, q0 == q2, s == t2], z3.BoolVal(False))
    return list(RESULTS)


class Collect:
    """collects what a fact function assumes"""
    def __init__(self):
        self.facts = []

    def assume(self, f):
        self.facts.append(f)

    def take(self):
        r, self.facts = self.facts, []
        return r


def prove_tree():
    """what rtreespec uses of tables, runs and lists of instructions

    A table p: get(p, q, c) for its slots.  SUB: every defined slot is as in G.  MS, MC: the last state and colour of its instructions (0
    with none).  TOPS, TOPC: an instruction has the last state, the last colour.  SIZE: how many slots are defined, counted slot by slot."""
    from . import rtreespec as rt
    RESULTS.clear()
    F, N, B = z3.Function, z3.IntSort(), z3.BoolSort()
    p, v = z3.Const('p', rt.PROG), z3.Const('v', rt.INS)
    q, c, x, y, n, k, j, i = I('q c x y n k j i')
    get, put, NONE, G, S, C = rt.get, rt.put, rt.NONE, rt.G, rt.S, rt.C
    new = put(p, q, c, v)
    fill = [get(p, q, c) == NONE, v != NONE]
    # filling an undefined slot changes that slot alone
    other = z3.Or(x != q, y != c)
    query('put.slot', fill, get(new, q, c) == v)
    query('put.others', fill + [other], get(new, x, y) == get(p, x, y))
    query('put.restore', fill, put(new, q, c, NONE) == p)
    # part of G
    agrees = lambda t, x, y: z3.Implies(get(t, x, y) != NONE, get(t, x, y) == G(x, y))
    query('sub.kept', fill + [agrees(p, x, y), v == G(q, c)], agrees(new, x, y))
    query('sub.before', fill + [agrees(new, x, y)], agrees(p, x, y))
    query('sub.slot', fill + [agrees(new, q, c)], v == G(q, c))
    # the last state (and alike the last colour): m bounds the instructions, and one has it, or it is 0
    for name, f in (('state', rt.to), ('colour', rt.pr)):
        m, wx, wy = I('m wx wy')
        e = get(new, x, y)
        most = rt.kmax(m, f(v))
        has = lambda t, x, y, m: z3.And(get(t, x, y) != NONE, f(get(t, x, y)) == m)
        hyp = fill + [z3.Implies(get(p, x, y) != NONE, f(get(p, x, y)) <= m), f(v) >= 0, z3.Or(has(p, wx, wy, m), m == 0)]
        query(f'last.{name}.bound', hyp + [e != NONE], f(e) <= most)
        query(f'last.{name}.there', hyp, z3.Or(has(new, wx, wy, most), has(new, q, c, most), most == 0))
        top = lambda t, x, y: z3.And(get(t, x, y) != NONE, f(get(t, x, y)) >= S - 1)
        query(f'top.{name}.kept', fill + [top(p, x, y)], top(new, x, y))
        query(f'top.{name}.from', fill + [top(new, x, y)], z3.Or(top(p, x, y), f(v) >= S - 1))
        query(f'top.{name}.slot', fill + [f(v) >= S - 1], top(new, q, c))
    # the number of slots: cp, cn count along any order of the slots in which place k is (ox(k), oy(k)), the filled one at place j
    ox, oy, cp, cn = (F(s, N, N) for s in ('ox', 'oy', 'cp', 'cn'))
    count = lambda g, t, k: g(k + 1) == g(k) + z3.If(get(t, ox(k), oy(k)) != NONE, 1, 0)
    step = fill + [count(cp, p, k), count(cn, new, k), k >= 0, ox(j) == q, oy(j) == c, (k == j) == z3.And(ox(k) == q, oy(k) == c)]
    says = lambda k: cn(k) == cp(k) + z3.If(k > j, 1, 0)
    query('size.base', [cp(0) == 0, cn(0) == 0, j >= 0], says(z3.IntVal(0)))
    query('size.step', step + [says(k)], says(k + 1))
    # the run of p, base steps (a sweep is several): state s(n), head h(n), colour T(n, i) of position i
    s, h, T, s2, h2, T2 = F('s', N, N), F('h', N, N), F('T', N, N, N), F('s2', N, N), F('h2', N, N), F('T2', N, N, N)

    def moves(t, s, h, T, i):
        e = get(t, s(n), T(n, h(n)))
        return z3.And(e != NONE, s(n + 1) == rt.to(e), h(n + 1) == h(n) + z3.If(rt.sh(e), 1, -1), T(n + 1, i) == z3.If(i == h(n), rt.pr(e), T(n, i)))
    # with a slot filled the run is the same as long as it met no undefined slot
    alike = lambda n, i: z3.And(s(n) == s2(n), h(n) == h2(n), T(n, i) == T2(n, i))
    e2 = get(new, s2(n), T2(n, h2(n)))
    moves2 = z3.And(s2(n + 1) == rt.to(e2), h2(n + 1) == h2(n) + z3.If(rt.sh(e2), 1, -1), T2(n + 1, i) == z3.If(i == h2(n), rt.pr(e2), T2(n, i)))
    query('run.grown', fill + [moves(p, s, h, T, i), moves2, alike(n, i), alike(n, h(n))], z3.And(e2 != NONE, alike(n + 1, i)))
    # its states and colours are among those of the instructions
    ms, mc = I('ms mc')
    e = get(p, s(n), T(n, h(n)))
    inside = lambda n, i: z3.And(s(n) >= 0, s(n) <= ms, T(n, i) >= 0, T(n, i) <= mc)
    query('run.range', [moves(p, s, h, T, i), inside(n, i), rt.to(e) >= 0, rt.to(e) <= ms, rt.pr(e) >= 0, rt.pr(e) <= mc], inside(n + 1, i))
    query('run.range.start', [ms >= 0, mc >= 0, s(0) == 0, T(0, i) == 0], inside(z3.IntVal(0), i))
    # a list in which v is counted once has it at one place: cnt(k) counts the first k elements
    at, cnt = F('at', N, rt.INS), F('cnt', N, N)
    one = cnt(k + 1) == cnt(k) + z3.If(at(k) == v, 1, 0)
    seen = lambda k: z3.And(cnt(k) >= 0, z3.Implies(z3.And(j >= 0, j < k, at(j) == v), cnt(k) >= 1))
    query('list.there.base', [cnt(0) == 0], seen(z3.IntVal(0)))
    query('list.there', [one, k >= 0, seen(k)], seen(k + 1))
    w = F('where', N, N)
    found = lambda k: z3.Implies(cnt(k) >= 1, z3.And(w(k) >= 0, w(k) < k, at(w(k)) == v))
    query('list.where', [one, k >= 0, cnt(k) >= 0, found(k), w(k + 1) == z3.If(at(k) == v, k, w(k))], found(k + 1))
    twice = lambda k: z3.Implies(z3.And(j >= 0, j < i, i < k, at(j) == v, at(i) == v), cnt(k) >= 2)
    query('list.once', [one, k >= 0, seen(k), twice(k)], twice(k + 1))
    # no table is covered twice
    class Y:
        def __init__(self):
            self.fs = []

        def assume(self, f):
            self.fs.append(f)
    Z, t = Y(), z3.Const('t', rt.TT)
    rem = z3.Int('rem')
    rt.unfold_tree(Z, p, q, t, rem)
    a, b = rt.RQ(p, q, t, rt.LIM), rt.RC(p, q, t, rt.LIM)
    below = rt.W(put(p, a, b, G(a, b)), a, rt.RT_(p, q, t, rt.LIM), rem - 1)
    bit = lambda w: z3.And(w >= 0, w <= 1)
    query('tree.once', Z.fs + [z3.Implies(rem > 1, bit(below))], bit(rt.W(p, q, t, rem)))
    return list(RESULTS)


def main():
    bad = [n for n, ok in prove_all() if not ok]
    print(f'power lemmas: {len(RESULTS) - len(bad)}/{len(RESULTS)} queries proved', *bad)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())


def prove_graph():
    """what rgraphspec uses of graphs: a set that holds what the last state enters and is closed under edges holds all REACHED

    W(b, d): b is entered from the last state in d edges, d >= 1; pre(b, d) is the state before b on the way; REACHED(b): W(b, d) for some d."""
    from . import rgraphspec as rg
    RESULTS.clear()
    N, B = z3.IntSort(), z3.BoolSort()
    W, pre = z3.Function('W', N, N, B), z3.Function('pre', N, N, N)
    b, d = I('b d')
    R = z3.Const('R', rg.SET)
    last = rg.NS - 1
    first = lambda x: z3.Implies(rg.EDGE(last, x), R[x])
    closed = lambda y, x: z3.Implies(z3.And(R[y], rg.EDGE(y, x)), R[x])
    query('closed.base', [z3.Implies(W(b, 1), rg.EDGE(last, b)), first(b)], z3.Implies(W(b, 1), R[b]))
    p = pre(b, d + 1)
    query('closed.step', [d >= 1, z3.Implies(W(b, d + 1), z3.And(W(p, d), rg.EDGE(p, b))), z3.Implies(W(p, d), R[p]), closed(p, b)],
          z3.Implies(W(b, d + 1), R[b]))
    query('start', [z3.Implies(rg.REACHED(0), W(0, d)), z3.Implies(W(0, d), R[0]), z3.Not(R[0])], z3.Not(rg.REACHED(0)))
    return list(RESULTS)
