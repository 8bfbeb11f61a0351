"""Congruences modulo a count and exact cancellation: decision procedures on top of the
polynomial normaliser.  Every rule used here is an instance of a lemma proved in lemmas.py:
  pow_add, pow_cong (a = b mod m -> a^e = b^e), pow_period (b^p = 1 -> b^(pk+t) = b^t),
  pow_zero (m | b, e >= 1 -> m | b^e), eventually-periodic powers of a literal base."""
from __future__ import annotations
import math
import z3
from . import prover
from .prover import PolyCtx, Poly, POW, smt


def literal_subst(facts):
    """variable := literal equations among the facts"""
    sub = {}
    for f in prover.flat(facts):
        if z3.is_eq(f) and f.arg(0).sort() == z3.IntSort():
            a, b = f.arg(0), f.arg(1)
            for x, y in ((a, b), (b, a)):
                if z3.is_int_value(y) and z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    sub.setdefault(x.get_id(), (x, y))
    lo, hi = {}, {}
    for f in prover.flat(facts):
        neg = z3.is_not(f)
        g = f.arg(0) if neg else f
        if not (z3.is_le(g) or z3.is_ge(g) or z3.is_lt(g) or z3.is_gt(g)):
            continue
        a, b = g.arg(0), g.arg(1)
        kind = 'le' if z3.is_le(g) else 'ge' if z3.is_ge(g) else 'lt' if z3.is_lt(g) else 'gt'
        if neg:
            kind = {'le': 'gt', 'ge': 'lt', 'lt': 'ge', 'gt': 'le'}[kind]
        if z3.is_int_value(a):
            a, b = b, a
            kind = {'le': 'ge', 'ge': 'le', 'lt': 'gt', 'gt': 'lt'}[kind]
        if z3.is_int_value(b) and z3.is_const(a) and not z3.is_int_value(a) and a.sort() == z3.IntSort():
            n = b.as_long()
            if kind in ('le', 'lt'):
                n -= kind == 'lt'
                hi[a.get_id()] = (a, min(n, hi.get(a.get_id(), (a, n))[1]))
            else:
                n += kind == 'gt'
                lo[a.get_id()] = (a, max(n, lo.get(a.get_id(), (a, n))[1]))
    for k, (x, n) in lo.items():
        if k in hi and hi[k][1] == n:
            sub.setdefault(k, (x, z3.IntVal(n)))
    return list(sub.values())


def parity(f):
    """not x % 2 == 1  becomes  x % 2 == 0"""
    if z3.is_not(f) and z3.is_eq(f.arg(0)):
        e = f.arg(0)
        for a, b in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
            if z3.is_int_value(a) and z3.is_app(b) and b.decl().kind() == z3.Z3_OP_MOD:
                k = b.arg(1)
                if z3.is_int_value(k) and k.as_long() == 2 and a.as_long() in (0, 1):
                    return b == 1 - a.as_long()
    return f


def far_diseq(f):
    """x != literal for a literal other than 0: never decides a congruence here"""
    if z3.is_not(f) and z3.is_eq(f.arg(0)):
        e = f.arg(0)
        return any(z3.is_int_value(a) and a.as_long() != 0 for a in e.children())
    return False


def simp(facts, *terms):
    out, ts = [parity(f) for f in facts], list(terms)
    out = [f for f in out if not far_diseq(f)]
    for _ in range(3):
        sub = literal_subst(out)
        if not sub:
            break
        nf = []
        for f in out:
            if z3.is_quantifier(f):
                continue
            g = z3.simplify(z3.substitute(f, *sub), som=False)
            if not z3.is_true(g):
                nf.append(g)
        # keep the definitions themselves for the solver
        keep = [x == y for x, y in sub]
        ts = [z3.simplify(z3.substitute(t, *sub)) for t in ts]
        if len(nf) == len(out) and all(z3.eq(a, b) for a, b in zip(nf, out)):
            out = nf
            break
        out = nf
        out += keep
        if all(any(z3.eq(k, f) for f in facts) for k in keep):
            # nothing new was learnt in this round
            pass
    return out, ts


def context(facts, terms):
    extra, eqs = prover.pow_instances(list(facts) + [t == t for t in terms] + [t == z3.IntVal(-987654321) for t in terms], facts)
    usable = []
    for c, l, r in eqs:
        if smt(facts, c, 400)[0] == 'ok':
            usable.append((l, r))
    pc = PolyCtx()
    prover.use_lemmas(pc, usable)
    prover.orient(pc, facts)
    prover.use_lemmas(pc, usable)
    return pc, extra


def to_z3(pc, p):
    from .numdom import to_z3 as t
    return t(pc, p)


def congruent(X, s, r, m):
    """True when m | s - r follows from the facts"""
    facts, (s, r, m) = simp(X.facts, s, r, m)
    try:
        pc, extra = context(facts, [s, r, m])
        d = pc.of(s) - pc.of(r)
        mp = pc.of(m)
    except (OverflowError, RecursionError):
        return False
    if d.is_zero():
        return True
    d = by_period(X, facts, extra, pc, d, mp)
    if d.is_zero():
        return True
    if mp.is_const():
        return residues(facts, extra, pc, d, mp.const_val())
    return reducible(pc, facts, d, mp, lambda e: by_period(X, facts, extra, pc, e, mp))


def reducible(pc, facts, d, mp, norm, depth=3):
    """d is a combination of m and of equations among the facts"""
    if divisible(pc, d, mp):
        return True
    eqs = []
    for f in prover.flat(facts):
        if z3.is_eq(f) and f.arg(0).sort() == z3.IntSort():
            e = pc.of(f.arg(0)) - pc.of(f.arg(1))
            if not e.is_zero() and len(e.t) <= 12:
                if any(a in pc.pows for m in e.t for a in m):
                    e = norm(e)
                if not e.is_zero():
                    eqs.append(e)
    seen = set()
    todo = [(d, 0)]
    while todo and len(seen) < 400:
        p, n = todo.pop(0)
        if p.key() in seen:
            continue
        seen.add(p.key())
        if divisible(pc, p, mp):
            return True
        if n >= depth:
            continue
        for e in eqs:
            for em, ec in e.t.items():
                if not em:
                    continue
                for dm, dc in p.t.items():
                    rest = list(dm)
                    ok = dc % ec == 0
                    for a in em:
                        if a in rest:
                            rest.remove(a)
                        else:
                            ok = False
                            break
                    if ok:
                        q = p - e * Poly({tuple(rest): dc // ec})
                        if len(q.t) <= 40:
                            todo.append((q, n + 1))
    return False


def divisible(pc, d, mp):
    """polynomial division of d by mp leaves nothing (graded lexicographic order)"""
    if mp.is_zero():
        return d.is_zero()
    lead = max(mp.t, key=lambda m: (len(m), m))
    lc = mp.t[lead]
    p = d
    for _ in range(60):
        if p.is_zero():
            return True
        m = max(p.t, key=lambda m: (len(m), m))
        rest = list(m)
        for a in lead:
            if a not in rest:
                return False
            rest.remove(a)
        if p.t[m] % lc:
            return False
        p = p - mp * Poly({tuple(rest): p.t[m] // lc})
        if len(p.t) > 60:
            return False
    return p.is_zero()


def by_period(X, facts, extra, pc, d, mp):
    """replace powers inside d by congruent smaller ones"""
    if mp.is_const():
        return d
    out = Poly()
    for mono, c in d.t.items():
        term = Poly.const(c)
        for a in mono:
            f = Poly({(a,): 1})
            if a in pc.pows:
                bp, xp = pc.pows[a]
                xt = to_z3(pc, xp)
                if not mp.is_const():
                    nb = drop_multiples(bp, mp)
                    if nb.key() != bp.key() and smt(facts, xt >= 0, 800, extra)[0] == 'ok':
                        bp = nb                                   # lemma pow_cong
                        f = split_power(pc, facts, extra, bp, xp)
                    elif any(xp.t.get((), 0) > 0 for _ in (0,)):
                        f = split_power(pc, facts, extra, bp, xp)
                bt = to_z3(pc, bp)
                if not mp.is_const() and divisible(pc, bp, mp) and smt(facts, xt >= 1, 800, extra)[0] == 'ok':
                    f = Poly()
                else:
                    for (b, p, mm) in periods(X, facts, extra, mp, pc, bt):
                        fs2, (b2, p2, m2) = simp(X.facts, b, p, mm)
                        if (drop_multiples(pc.of(b2), mp) - drop_multiples(bp, mp)).is_zero() and (pc.of(m2) - mp).is_zero():
                            pp = pc.of(p2)
                            q = split_multiple(pp, xp)
                            if q is None:
                                continue
                            A, t = q
                            tt = to_z3(pc, t)
                            if smt(facts, z3.And(p2 >= 1, to_z3(pc, xp) >= 0, tt >= 0), 1500, extra)[0] == 'ok':
                                xp = t                            # lemma pow_period
                                f = pc.pow_poly(bp, xp)
                for i, (b2, x2) in list(pc.pows.items()):
                    if i in pc.rw and i != a and (prover.apply_rw(pc, x2) - xp).is_zero() and \
                            (drop_multiples(prover.apply_rw(pc, b2), mp) - drop_multiples(bp, mp)).is_zero():
                        w = pc.rw[i]
                        if divisible(pc, w, mp):
                            f = w
            term = term * f
        out = out + term
    return out


def split_power(pc, facts, extra, bp, xp):
    """(a*b)^x = a^x * b^x, a^(x+c) = a^x * a^c   (x >= 0 known)"""
    out = Poly.const(1)
    if len(bp.t) == 1:
        (mono, c), = bp.t.items()
        if c == 1 and len(mono) > 1:
            for a in sorted(set(mono)):
                out = out * split_power(pc, facts, extra, Poly({(a,): 1}), xp.scale(mono.count(a)))
            return out
    c = xp.t.get((), 0)
    if 0 < c <= 6 and not xp.is_const():
        x = xp - Poly.const(c)
        if smt(facts, to_z3(pc, x) >= 0, 800, extra)[0] == 'ok':
            out = pc.pow_poly(bp, x)
            for _ in range(c):
                out = out * bp
            return out
    return pc.pow_poly(bp, xp)


def periods(X, facts, extra, mp, pc, bt):
    out = [(b, p, m) for (b, p, m, K) in X.ghost.get('periods', ())]
    for (x, k) in X.ghost.get('pow2', ()):
        f2, (x2,) = simp(X.facts, x)
        if (pc.of(x2) - mp).is_zero() and z3.is_int_value(bt) and bt.as_long() % 2 == 1:
            if smt(facts, z3.And(x2 >= 8, x2 == POW(z3.IntVal(2), k)), 1500, extra)[0] == 'ok':
                out.append((bt, x / 4, x))                        # lemma odd_order
    return out


def drop_multiples(p, mp):
    return Poly({m: c for m, c in p.t.items() if not divisible(None, Poly({m: c}), mp)})


def split_multiple(pp, xp):
    """xp = pp * A + t with the monomials of A taken greedily; pp a monomial"""
    if len(pp.t) != 1:
        return None
    (mono, c), = pp.t.items()
    A, t = {}, {}
    for mm, cc in xp.t.items():
        rest = list(mm)
        ok = True
        for a in mono:
            if a in rest:
                rest.remove(a)
            else:
                ok = False
        if ok and cc % c == 0 and mono:
            A[tuple(rest)] = cc // c
        else:
            t[mm] = cc
    return (Poly(A), Poly(t)) if A else None


def by_literal_period(facts, extra, pc, d, M):
    """powers of a literal base whose exponent is g*x + r with b^g = 1 modulo the part of M
    prime to b"""
    out = Poly()
    for mono, c in d.t.items():
        term = Poly.const(c)
        for a in mono:
            f = Poly({(a,): 1})
            if a in pc.pows and pc.pows[a][0].is_const():
                b = pc.pows[a][0].const_val()
                xp = pc.pows[a][1]
                g = 0
                for m, k in xp.t.items():
                    if m:
                        g = math.gcd(g, k)
                M2, tail = M, 0
                while math.gcd(M2, b) > 1:
                    M2 //= math.gcd(M2, b)
                    tail += 1
                if g and b >= 1 and pow(b, g, M2) == 1 % M2:
                    if smt(facts, to_z3(pc, xp) >= tail, 800, extra)[0] == 'ok':
                        r = xp.t.get((), 0)
                        while r < tail:
                            r += g
                        f = Poly.const(pow(b, r, M))
            term = term * f
        out = out + term
    return Poly({m: c % M for m, c in out.t.items() if c % M})


def cycle(b, m):
    """(tail, period) of the sequence b^0, b^1, ... mod m"""
    seen, v, i = {}, 1 % m, 0
    while v not in seen:
        seen[v] = i
        v = v * b % m
        i += 1
        if i > 20000:
            return None
    return seen[v], i - seen[v]


def residues(facts, extra, pc, d, M):
    """d = 0 mod the literal M, by enumerating the residue classes the facts leave open"""
    M = abs(M)
    if M == 0:
        return False
    d = by_literal_period(facts, extra, pc, d, M)
    if M > 10 ** 7 and not d.is_const():
        return False
    d = Poly({m: c % M for m, c in d.t.items() if c % M})
    if d.is_zero():
        return True
    atoms = sorted({a for m in d.t for a in m})
    s = z3.Solver()
    s.set('timeout', 3000)
    for f in facts:
        if not z3.is_quantifier(f):
            s.add(f)
    base_terms = {}
    for a in atoms:
        if a in pc.pows:
            bp, xp = pc.pows[a]
            base_terms[a] = (to_z3(pc, bp), to_z3(pc, xp))
    for _ in range(80):
        r = s.check()
        if r == z3.unsat:
            return True
        if r != z3.sat:
            return False
        mo = s.model()
        val, block = {}, []
        for a in atoms:
            if a in base_terms:
                bt, xt = base_terms[a]
                b = mo.eval(bt, model_completion=True)
                x = mo.eval(xt, model_completion=True)
                if not (z3.is_int_value(b) and z3.is_int_value(x)):
                    return False
                b, x = b.as_long(), x.as_long()
                if not z3.is_int_value(bt):
                    block.append(bt % M == b % M)
                cyc = cycle(b % M, M)
                if cyc is None or x < 0:
                    return False
                tail, per = cyc
                if x < tail:
                    block.append(xt == x)
                    val[a] = pow(b % M, x, M)
                else:
                    block.append(z3.And(xt >= tail, xt % per == x % per))
                    val[a] = pow(b % M, x, M)
            else:
                t = pc.terms[a]
                v = mo.eval(t, model_completion=True)
                if not z3.is_int_value(v):
                    return False
                val[a] = v.as_long() % M
                block.append(t % M == val[a])
        tot = 0
        for mono, c in d.t.items():
            p = c
            for a in mono:
                p = p * val[a] % M
            tot += p
        if tot % M:
            return False
        if not block:
            return True
        s.add(z3.Not(z3.And(block)))
    return False
