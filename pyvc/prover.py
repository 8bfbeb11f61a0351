"""Discharging one verification condition: facts |= goal.

Back ends, in order: z3's simplifier, polynomial identity (after rewriting with the definitional
equations on the path), z3 (SMT), cvc5.  Instances of the lemmas about integer powers are added
for the power terms that occur (lemmas.py proves them by induction on every run)."""
from __future__ import annotations
import itertools
import os
import subprocess
import tempfile
import time
import z3

POW = z3.Function('pow', z3.IntSort(), z3.IntSort(), z3.IntSort())


# ------------------------------------------------------------------ polynomials
class Poly:
    """integer polynomial over opaque atoms: {monomial (sorted tuple of atom ids): coefficient}"""
    __slots__ = ('t',)

    def __init__(self, t=None):
        self.t = t or {}

    @staticmethod
    def const(c):
        return Poly({(): c} if c else {})

    def __add__(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m, 0) + c
            if n:
                t[m] = n
            else:
                t.pop(m, None)
        return Poly(t)

    def scale(self, k):
        return Poly({m: c * k for m, c in self.t.items()} if k else {})

    def __sub__(self, o):
        return self + o.scale(-1)

    def __mul__(self, o):
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = tuple(sorted(m1 + m2))
                n = t.get(m, 0) + c1 * c2
                if n:
                    t[m] = n
                else:
                    t.pop(m, None)
        if len(t) > 4000:
            raise OverflowError
        return Poly(t)

    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_val(self):
        return self.t.get((), 0)

    def key(self):
        return tuple(sorted(self.t.items()))


class PolyCtx:
    """converts z3 integer terms to polynomials; powers are split multiplicatively"""
    def __init__(self):
        self.atoms = {}       # sexpr -> id
        self.terms = []       # id -> z3 term
        self.rw = {}          # id -> Poly     (oriented definitions)
        self.pows = {}        # id -> (base term, exponent Poly)
        self.pow_ids = {}     # (base key, exponent key) -> id

    def atom(self, e):
        k = e.get_id()
        if k in self.atoms:
            return self.atoms[k]
        i = len(self.terms)
        self.atoms[k] = i
        self.terms.append(e)
        return i

    def of(self, e):
        e = z3.simplify(e) if False else e
        if z3.is_int_value(e):
            return Poly.const(e.as_long())
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = Poly()
            for c in e.children():
                r = r + self.of(c)
            return r
        if k == z3.Z3_OP_SUB:
            ch = e.children()
            r = self.of(ch[0])
            for c in ch[1:]:
                r = r - self.of(c)
            return r
        if k == z3.Z3_OP_UMINUS:
            return self.of(e.children()[0]).scale(-1)
        if k == z3.Z3_OP_MUL:
            r = Poly.const(1)
            for c in e.children():
                r = r * self.of(c)
            return r
        if e.decl().eq(POW):
            return self.pow(e.arg(0), e.arg(1))
        if k == z3.Z3_OP_MOD and z3.is_int_value(e.arg(1)) and e.arg(1).as_long() > 0:
            return self.of(e.arg(0)) - self.of(e.arg(0) / e.arg(1)).scale(e.arg(1).as_long())
        i = self.atom(e)
        if i in self.rw:
            return self.rw[i]
        return Poly({(i,): 1})

    def pow(self, b, x):
        """pow(b, exponent) -> product of normalised power atoms, see split()"""
        bp = self.of(b)
        xp = self.of(x)
        return self.pow_poly(bp, xp)

    def pow_poly(self, bp, xp):
        if xp.is_const():
            n = xp.const_val()
            if n == 0:
                return Poly.const(1)
            if bp.is_const() and 0 < n < 4096:
                return Poly.const(bp.const_val() ** n)
            if 0 < n <= 8:
                r = Poly.const(1)
                for _ in range(n):
                    r = r * bp
                return r
        hook = getattr(self, 'pow_hook', None)
        if hook:
            r = hook(bp, xp)
            if r is not None:
                return r
        key = (bp.key(), xp.key())
        if key not in self.pow_ids:
            i = len(self.terms)
            self.terms.append(('pow', bp, xp))
            self.pow_ids[key] = i
            self.pows[i] = (bp, xp)
        i = self.pow_ids[key]
        if i in self.rw:
            return self.rw[i]
        return Poly({(i,): 1})


# ------------------------------------------------------------------ lemma instances
def collect_pows(fs):
    out, seen = [], set()
    stack = list(fs)
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            continue
        if z3.is_app(e):
            if e.decl().eq(POW):
                out.append(e)
            stack.extend(e.children())
    return out


def pow_instances(fs, facts=()):
    """instances of the power lemmas for the power terms that occur.
    Returns (formulas, equations) where equations are (condition, lhs power, rhs)."""
    ps = collect_pows(fs)
    ps = ps[:16]
    out, eqs = [], []
    pc = PolyCtx()
    try:
        orient(pc, facts)
    except (OverflowError, RecursionError):
        pc = PolyCtx()
    info = []
    for p in ps:
        b, x = p.arg(0), p.arg(1)
        out.append(z3.Implies(x == 0, p == 1))
        out.append(z3.Implies(x == 1, p == b))
        out.append(z3.Implies(z3.And(b >= 1, x >= 0), p >= 1))
        out.append(z3.Implies(z3.And(b >= 2, x >= 1), z3.And(p >= b, p > x)))
        out.append(z3.Implies(z3.And(b == 0, x >= 1), p == 0))
        out.append(z3.Implies(z3.And(b == 1, x >= 0), p == 1))
        bp, xp = pc.of(b), pc.of(x)
        info.append((p, bp, xp))
        if not xp.is_const():
            eqs.append((x == 0, p, z3.IntVal(1)))
        if len(bp.t) == 1:
            (mono, co), = bp.t.items()
            if co == 1 and len(mono) == 1 and mono[0] in pc.pows:
                from .numdom import to_z3
                ib, ix = pc.pows[mono[0]]
                ibt, ixt = to_z3(pc, ib), to_z3(pc, ix)
                c = z3.And(ixt >= 0, x >= 0)
                q = POW(ibt, ixt * x)
                out.append(z3.Implies(c, p == q))
                eqs.append((c, p, q))
    for (p, bp, xp), (q, bq, xq) in itertools.combinations(info, 2):
        x, y = p.arg(1), q.arg(1)
        if bp.key() != bq.key():
            # pow(b*b, x) = pow(b, 2x)   pow(b*b*b, x) = pow(b, 3x)
            for (u, bu, xu), (v, bv, xv) in (((p, bp, xp), (q, bq, xq)), ((q, bq, xq), (p, bp, xp))):
                for k in (2, 3):
                    dd = xv - xu.scale(k)
                    if dd.is_const() and 0 <= dd.const_val() <= 3:
                        bb = v.arg(0)
                        pw = bb * bb if k == 2 else bb * bb * bb
                        c = z3.And(u.arg(0) == pw, u.arg(1) >= 0)
                        t = u
                        for _ in range(dd.const_val()):
                            t = t * bb
                        out.append(z3.Implies(c, v == t))
                        eqs.append((c, v, t))
            continue
        b = p.arg(0)
        if not z3.eq(b, q.arg(0)):
            out.append(z3.Implies(b == q.arg(0), POW(b, q.arg(1)) == q))
        out.append(z3.Implies(x == y, p == q))
        out.append(z3.Implies(z3.And(b >= 2, x >= 0, y >= 0, x < y), p * b <= q))
        out.append(z3.Implies(z3.And(b >= 2, x >= 0, y >= 0, y < x), q * b <= p))
        for (r, br, xr) in info:
            if br.key() == bp.key() and r is not p and r is not q:
                dd = xr - xp - xq
                if dd.is_const() and 0 <= dd.const_val() <= 6:
                    c = z3.And(x >= 0, y >= 0)
                    t = p * q
                    for _ in range(dd.const_val()):
                        t = t * b
                    out.append(z3.Implies(c, r == t))
                    eqs.append((c, r, t))
        d = xq - xp
        # the two exponents differ by a literal
        if d.is_const() and abs(d.const_val()) <= 6:
            k = d.const_val()
            m = z3.IntVal(1)
            for _ in range(abs(k)):
                m = m * b
            if k > 0:
                out.append(z3.Implies(x >= 0, q == p * m))
                eqs.append((x >= 0, q, p * m))
            elif k < 0:
                out.append(z3.Implies(y >= 0, p == q * m))
                eqs.append((y >= 0, p, q * m))
    return out, eqs


# ------------------------------------------------------------------ main entry
def smt(facts, goal, timeout, extra=()):
    s = z3.Solver()
    s.set('timeout', int(timeout))
    for f in facts:
        s.add(f)
    for f in extra:
        s.add(f)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unsat:
        return 'ok', None, s
    if r == z3.sat:
        return 'failed', s.model(), s
    return 'unknown', None, s


def cvc5_check(s, timeout):
    try:
        import cvc5
    except Exception:
        return None
    try:
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption('tlimit-per', str(int(timeout)))
        slv.setLogic('ALL')
        parser = cvc5.InputParser(slv)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, s.to_smt2(), 'q')
        sm = parser.getSymbolManager()
        res = None
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(slv, sm)
            if str(out).strip() in ('sat', 'unsat', 'unknown'):
                res = str(out).strip()
        return res
    except Exception:
        return None


def model_dict(m):
    out = {}
    try:
        for d in m.decls():
            if d.arity() == 0:
                out[d.name()] = str(m[d])
    except Exception:
        pass
    return out


def prove(X, goal, timeout):
    g = z3.simplify(goal) if not z3.is_quantifier(goal) else goal
    if z3.is_true(g):
        return 'ok', 'simplifier', '', None
    facts = list(X.facts)
    dom = X.domain
    # domain-specific normalisation (definitional substitution, polynomial identities)
    if dom is not None and hasattr(dom, 'prove_hook'):
        r = dom.prove_hook(X, facts, goal)
        if r is not None:
            return r
    extra, eqs = pow_instances(facts + [goal], facts)
    fast = z3.is_eq(goal) and goal.arg(0).sort() == z3.IntSort()
    if fast and not eqs and poly_identity(facts, goal):
        return 'ok', 'polynomial identity', '', None
    if z3.is_false(g):
        st, m, s = smt(facts, z3.BoolVal(False), timeout, extra)
    else:
        st, m, s = smt(facts, goal, min(timeout, 1500) if fast else timeout, extra)
    if st == 'ok':
        return 'ok', 'z3', '', None
    if fast:
        usable = []
        for c, l, r in eqs:
            if smt(facts, c, 400)[0] == 'ok':
                usable.append((l, r))
        if poly_identity(facts, goal, usable, extra):
            return 'ok', 'polynomial identity', '', None
    if st == 'unknown':
        if fast:
            st, m, s = smt(facts, goal, timeout, extra)
            if st == 'ok':
                return 'ok', 'z3', '', None
        r = cvc5_check(s, timeout)
        if r == 'unsat':
            return 'ok', 'cvc5', '', None
        return 'unknown', 'z3+cvc5', f'goal: {str(goal)[:1500]}\nreason: {s.reason_unknown()}', None
    return 'failed', 'z3', f'goal: {str(goal)[:1500]}', model_dict(m)


def poly_identity(facts, goal, lemmas=(), extra=()):
    """goal is an equation that holds identically after substituting atom := polynomial equations"""
    if not (z3.is_eq(goal) and goal.arg(0).sort() == z3.IntSort()):
        return False
    try:
        pc = PolyCtx()
        use_lemmas(pc, lemmas)
        orient(pc, facts)
        if lemmas:
            use_lemmas(pc, lemmas)
        d = pc.of(goal.arg(0)) - pc.of(goal.arg(1))
        if d.is_zero():
            return True
        return cancel(pc, facts, d, extra)
    except (OverflowError, RecursionError):
        return False


def use_lemmas(pc, lemmas):
    for l, r in lemmas:
        p = pc.of(l)
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if len(m) == 1 and c == 1 and m[0] not in pc.rw:
                rest = pc.of(r)
                if not any(m[0] in mm for mm in rest.t):
                    pc.rw[m[0]] = rest
                    for k in list(pc.rw):
                        pc.rw[k] = subst(pc.rw[k], m[0], rest)


def cancel(pc, facts, d, extra):
    """d = 0 because c*d = 0 by an equation c*x + rest = 0 of the facts, and c != 0"""
    from .numdom import to_z3
    for f in flat(facts):
        if not (z3.is_eq(f) and f.arg(0).sort() == z3.IntSort()):
            continue
        e = pc.of(f.arg(0)) - pc.of(f.arg(1))
        if e.is_zero():
            continue
        for m, c in e.t.items():
            if len(m) < 2 and abs(c) == 1:
                continue
            for x in set(m):
                if m.count(x) != 1 or not any(x in mm for mm in d.t):
                    continue
                if any(x in mm for mm in e.t if mm != m):
                    continue
                co = list(m)
                co.remove(x)
                cof = Poly({tuple(co): c})
                rest = Poly({k: v for k, v in e.t.items() if k != m}).scale(-1)
                # cof*x = rest ; multiply d by cof and replace cof*x
                if any(mm.count(x) > 1 for mm in d.t):
                    continue
                with_x = Poly({tuple(a for a in mm if a != x): v for mm, v in d.t.items() if x in mm})
                no_x = Poly({mm: v for mm, v in d.t.items() if x not in mm})
                if (with_x * rest + no_x * cof).is_zero():
                    if smt(facts, to_z3(pc, cof) != 0, 1500, extra)[0] == 'ok':
                        return True
    return False


def orient(pc, facts):
    """use each integer equation among the facts as a rewrite of one atom, when that is acyclic"""
    for f in flat(facts):
        if z3.is_eq(f) and f.arg(0).sort() == z3.IntSort():
            l, r = f.arg(0), f.arg(1)
            d = pc.of(l) - pc.of(r)
            for m, c in sorted(d.t.items(), key=lambda kv: (len(kv[0]), bool(kv[0]) and kv[0][0] in pc.pows, kv[0]), reverse=False):
                if len(m) == 1 and abs(c) == 1:
                    a = m[0]
                    rest = Poly({k: v for k, v in d.t.items() if k != m}).scale(-c)
                    if any(a in mm for mm in rest.t):
                        continue
                    pc.rw[a] = rest
                    for k in list(pc.rw):
                        pc.rw[k] = subst(pc.rw[k], a, rest)
                    break
    refresh(pc)


def apply_rw(pc, p):
    r = Poly()
    for m, c in p.t.items():
        t = Poly.const(c)
        for a in m:
            t = t * pc.rw.get(a, Poly({(a,): 1}))
        r = r + t
    return r


def refresh(pc):
    """power atoms met before their exponent was rewritten"""
    for _ in range(2):
        changed = False
        for i, (bp, xp) in list(pc.pows.items()):
            if i in pc.rw:
                continue
            nb, nx = apply_rw(pc, bp), apply_rw(pc, xp)
            if nb.key() != bp.key() or nx.key() != xp.key():
                q = pc.pow_poly(nb, nx)
                if any(i in m for m in q.t):
                    continue
                pc.rw[i] = q
                for k in list(pc.rw):
                    if k != i:
                        pc.rw[k] = subst(pc.rw[k], i, q)
                changed = True
        if not changed:
            break


def subst(p, a, q):
    r = Poly()
    for m, c in p.t.items():
        n = m.count(a)
        base = Poly({tuple(x for x in m if x != a): c})
        for _ in range(n):
            base = base * q
        r = r + base
    return r


def flat(fs):
    for f in fs:
        if z3.is_and(f):
            yield from flat(f.children())
        else:
            yield f
