"""Contracts of src/graph.rs: is_connected and get_exitpoints.

The program is any table (CompV of rreasonspec: DFN, TO); its states are 0 .. N-1.  EDGE(a, b): an instruction of state a enters another
state b.  REACHED(b): b is entered from the last state by one or more edges.  get_exitpoints files each b with EDGE(a, b) under a, once, and
no state without edges; verified for one arbitrary edge.  is_connected is true exactly if every state has an edge and REACHED(0): the
states on the list and those handled are sets; whatever is put on the list is REACHED and on neither; what the tracked states x and y lead
to is on one of them.  At the end the list is empty, so the handled states are closed under edges (lemma prove_graph), or as many states as
there are were handled, none of them 0, which cannot be."""
from __future__ import annotations
import ast
import z3
from .values import *
from .engine import Contract, Ext, LoopSpec, LoopIter, RangeV, SB, SI, zbool
from .rengine import RDomain, Some, deref, is_none
from .rreasonspec import CompV, DFN, TO
from .seq import SeqV, SeqDomain

RG = 'src/graph.rs'
I, B = z3.IntSort(), z3.BoolSort()
F = z3.Function
SET = z3.ArraySort(I, B)
EDGE, WIT, REACHED, HASX = F('EDGE', I, I, B), F('WIT', I, I, I), F('REACHED', I, B), F('HASX', I, B)
NEX, EX, EPOS = F('NEX', I, I), F('EX', I, I, I), F('EPOS', I, I, I)
NS, MISS = z3.Ints('NSTATES MISSING')
NONE_ = z3.K(I, False)


def edge(a, b):
    """an edge and its instruction"""
    return z3.Implies(EDGE(a, b), z3.And(DFN(a, WIT(a, b)), TO(a, WIT(a, b)) == b, a != b, a >= 0, a < NS, b >= 0, b < NS, HASX(a)))


def edge_of(s, c):
    """an instruction and its edge"""
    return z3.Implies(z3.And(DFN(s, c), TO(s, c) != s), EDGE(s, TO(s, c)))


def place(a, b):
    return z3.Implies(EDGE(a, b), z3.And(EPOS(a, b) >= 0, EPOS(a, b) < NEX(a), EX(a, EPOS(a, b)) == b))


# ------------------------------------------------------------------ get_exitpoints
class Exits(Ext):
    """the vector of one state, under construction"""
    def __init__(self, m, key):
        self.m, self.key, self.sorted = m, key, False

    def rm_push(self, X, e):
        m, e = self.m, zint(deref(e))
        X.prove('filed.is-an-edge', EDGE(self.key, e))
        here = z3.And(self.key == m.a, e == m.b)
        # a vector into which a state is put again is no longer without repetition
        m.once = z3.And(m.once, z3.Not(z3.And(here, m.has)))
        m.has = z3.Or(m.has, here)
        m.pending = [k for k in m.pending if not z3.eq(k, self.key)]
        self.sorted = False
        X.heap_writes += 1

    def rm_sort_unstable(self, X, *a):
        self.sorted = True
    rm_sort = rm_sort_unstable

    def rm_dedup(self, X):
        if self.sorted:
            self.m.once = z3.Or(self.m.once, self.key == self.m.a)
        X.heap_writes += 1

    def rm_contains(self, X, e):
        e = zint(deref(e))
        r = X.fresh('contained', 'bool')
        X.assume(z3.Implies(z3.And(self.key == self.m.a, e == self.m.b), r == self.m.has))
        if X.branch(r):
            self.m.pending = [k for k in self.m.pending if not z3.eq(k, self.key)]
            return True
        return False


class EntryX(Ext):
    def __init__(self, m, k):
        self.m, self.k = m, k

    def rm_or_default(self, X):
        self.m.pending.append(self.k)
        return Exits(self.m, self.k)

    def rm_or_insert(self, X, v):
        v = deref(v)
        if not (isinstance(v, Lst) and v.tail is None and not v.items):
            raise Untranslatable('or_insert')
        return self.rm_or_default(X)

    def rm_or_insert_with(self, X, f):
        return self.rm_or_default(X)


class Build(Ext):
    """BTreeMap<State, Vec<State>> under construction; has: the tracked edge is filed, once: the vector of a has b at most once"""
    def __init__(self, X, a, b, has, once):
        i = next(X.fresh_n)
        self.a, self.b, self.has, self.once, self.pending = a, b, has, once, []
        self.size, self.kat, self.kix = X.fresh('keys'), F(f'gkat!{i}', I, I), F(f'gkix!{i}', I, I)
        X.assume(self.size >= 0)

    def rm_entry(self, X, k):
        return EntryX(self, zint(deref(k)))

    def items(self, X, f, label):
        k = self.kix(self.a)
        X.assume(z3.Implies(self.has, z3.And(k >= 0, k < self.size, self.kat(k) == self.a)))
        s = SeqV(self.size, lambda X, k: f(k), 'gen', label=label)
        s.vectors_of = self
        return s

    def rm_values_mut(self, X):
        return self.items(X, lambda k: Exits(self, self.kat(k)), 'values')

    def rm_iter_mut(self, X):
        return self.items(X, lambda k: (SI(self.kat(k)), Exits(self, self.kat(k))), 'items')

    def loop_iter(self, X):
        return self.rm_iter_mut(X).loop_iter(X)


def build_of(X, v):
    v = deref(v)
    if isinstance(v, Dct) and not v.d:
        return Build(X, *X.contract.edge, z3.BoolVal(False), z3.BoolVal(True))
    if not isinstance(v, Build):
        raise Untranslatable(f'exits {v!r}')
    return v


class GetExitpoints(Contract):
    key = f'{RG}:get_exitpoints'

    def setup(self, X):
        self.comp = CompV(X)
        self.edge = a, b = X.fresh('from'), X.fresh('to')
        X.assume(EDGE(a, b))
        X.assume(edge(a, b))
        self.comp.index(X, a, WIT(a, b))
        return [self.comp]

    def post(self, X, args, res):
        m = build_of(X, res)
        X.prove('edge-filed', m.has)
        X.prove('filed-once', m.once)

    def apply(self, X, args, kw):
        if not isinstance(deref(args[0]), ConnComp):
            raise Untranslatable('program')
        return ExitMap(X)


class FileLoop(LoopSpec):
    name, roles = 'edges', ('exitpoints',)

    def applies(self, X, node, fr, it):
        return X.target == GetExitpoints.key and (isinstance(it, CompV) or hasattr(it, 'comp'))

    def havoc(self, X, L, names):
        c = X.contract
        L.set('exitpoints', Build(X, *c.edge, X.fresh('has', 'bool'), X.fresh('once', 'bool')))

    def inv_assume(self, X, L):
        c = X.contract
        if L.idx is not None:
            s, k = c.comp.known(X, L.idx)
            X.assume(edge_of(s, k))
        return []

    def inv(self, X, L):
        c, m = X.contract, build_of(X, L.get('exitpoints'))
        a, b = c.edge
        return [('filed', z3.Implies(c.comp.ix(a, WIT(a, b)) < L.idx, m.has)), ('no-empty-vector', z3.BoolVal(not m.pending))]


class SortLoop(LoopSpec):
    """each vector is sorted and freed of repetitions"""
    name, roles = 'sort', ()

    def applies(self, X, node, fr, it):
        return X.target == GetExitpoints.key and (isinstance(it, Build) or hasattr(it, 'vectors_of'))

    def pre(self, X, L):
        L.map = L.iterable if isinstance(L.iterable, Build) else L.iterable.vectors_of
        L.has = L.map.has

    def havoc(self, X, L, names):
        L.map.has, L.map.once = X.fresh('has', 'bool'), X.fresh('once', 'bool')

    def inv(self, X, L):
        m = L.map
        return [('kept', m.has == L.has), ('once', z3.Implies(m.kix(m.a) < L.idx, m.once)), ('no-empty-vector', z3.BoolVal(not m.pending))]


# ------------------------------------------------------------------ is_connected
class ConnComp(Ext):
    """the program, only handed to get_exitpoints"""


class ExitMap(Ext):
    """what get_exitpoints returns: the states with edges"""
    def __init__(self, X):
        self.n = X.fresh('exits')
        # its keys are states: as many as there are states exactly if none is missing
        X.assume(z3.And(self.n >= 0, self.n <= NS, z3.Implies(self.n < NS, z3.And(MISS >= 0, MISS < NS, z3.Not(HASX(MISS))))))
        X.ghost['exits'] = self

    def rm_len(self, X):
        return SI(self.n)

    def key(self, X, q):
        X.assume(z3.Implies(z3.And(self.n >= NS, q >= 0, q < NS), HASX(q)))
        return HASX(q)

    def rm_contains_key(self, X, k):
        return SB(self.key(X, zint(deref(k))))

    def getitem(self, X, k):
        q = zint(deref(k))
        X.prove('state-has-exits', self.key(X, q))
        return ExitList(q)

    def rm_get(self, X, k):
        q = zint(deref(k))
        return Some(ExitList(q)) if X.branch(self.key(X, q)) else None


class ExitList(Ext):
    """the states a state enters, each once"""
    def __init__(self, q):
        self.q = q

    def seq(self, X):
        q = self.q
        X.assume(NEX(q) >= 0)

        def at(X, k):
            e = EX(q, k)
            X.assume(z3.Implies(z3.And(k >= 0, k < NEX(q)), z3.And(EDGE(q, e), EPOS(q, e) == k)))
            X.assume(edge(q, e))
            X.assume(z3.Implies(EDGE(q, e), z3.And(z3.Implies(z3.Or(REACHED(q), q == NS - 1), REACHED(e)))))
            return SI(e)
        s = SeqV(NEX(q), at, 'list', label='exits')
        s.exits_of = q
        return s

    def rm_iter(self, X):
        return self.seq(X)
    rm_into_iter = rm_iter

    def as_seq(self, X):
        return self.seq(X)

    def loop_iter(self, X):
        return self.seq(X).loop_iter(X)

    def rm_clone(self, X):
        T = X.fresh_const('todo', SET) if hasattr(X, 'fresh_const') else z3.Const(f'todo!{next(X.fresh_n)}', SET)
        u = z3.Int('u')
        X.assume(T == z3.Lambda([u], EDGE(self.q, u)))
        t = Todo(T)
        # the elements are entered from this state
        t.source = self.q
        X.prove('list-of-the-last-state', self.q == NS - 1)
        X.ghost['todo'] = t
        return t
    rm_to_vec = rm_to_owned = rm_clone

    def rm_is_empty(self, X):
        return SB(NEX(self.q) == 0)

    def rm_len(self, X):
        return SI(NEX(self.q))

    def rm_contains(self, X, e):
        return SB(EDGE(self.q, zint(deref(e))))


class Todo(Ext):
    """the list: a set, every member REACHED and not among the handled"""
    def __init__(self, T):
        self.T = T

    def rm_pop(self, X):
        if X.choose(2, 'pop') == 0:
            u = z3.Int('u')
            x = X.contract.tracked[1]
            X.assume(z3.And(z3.ForAll([u], z3.Not(self.T[u])), z3.Not(self.T[x])))
            X.ghost['emptied'] = True
            return None
        v = X.fresh('state')
        r = X.ghost.get('reached')
        X.assume(z3.And(self.T[v], REACHED(v), v >= 0, v < NS))
        if r is not None:
            X.assume(z3.Not(r.R[v]))
        self.T = z3.Store(self.T, v, False)
        X.heap_writes += 1
        return Some(SI(v))

    def rm_push(self, X, e):
        e = zint(deref(e))
        r = X.ghost.get('reached')
        X.prove('listed.is-reached', REACHED(e))
        X.prove('listed.once', z3.Not(self.T[e]))
        X.prove('listed.not-handled', z3.Not(r.R[e]) if r is not None else z3.BoolVal(True))
        self.T = z3.Store(self.T, e, True)
        X.heap_writes += 1

    def rm_contains(self, X, e):
        return SB(self.T[zint(deref(e))])

    def contains(self, X, e):
        return self.rm_contains(X, e)

    def rm_is_empty(self, X):
        e = X.fresh('empty', 'bool')
        u = z3.Int('u')
        X.assume(e == z3.ForAll([u], z3.Not(self.T[u])))
        X.assume(z3.Implies(e, z3.Not(self.T[X.contract.tracked[1]])))
        return SB(e)


class Handled(Ext):
    """the states handled: none is 0; n of them"""
    def __init__(self, R, n):
        self.R, self.n = R, n

    def rm_contains(self, X, e):
        return SB(self.R[zint(deref(e))])

    def contains(self, X, e):
        return self.rm_contains(X, e)

    def rm_insert(self, X, e):
        e = zint(deref(e))
        t = X.ghost.get('todo')
        X.prove('handled.not-the-start', z3.And(e > 0, e < NS))
        X.prove('handled.off-the-list', z3.Not(t.T[e]) if t is not None else z3.BoolVal(True))
        old = self.R[e]
        self.R, self.n = z3.Store(self.R, e, True), z3.If(old, self.n, self.n + 1)
        # so many different states, all of 1 .. NS-1
        X.assume(self.n <= NS - 1)
        X.heap_writes += 1
        return SB(z3.Not(old))

    add = rm_insert

    def rm_len(self, X):
        return SI(self.n)

    def rm_is_empty(self, X):
        X.assume(z3.Implies(self.n == 0, self.R == NONE_))
        return SB(self.n == 0)


class IsConnected(Contract):
    key = f'{RG}:is_connected'

    def setup(self, X):
        self.tracked = y, x = X.fresh('y'), X.fresh('x')
        X.assume(NS >= 1)
        for a in (y, NS - 1):
            X.assume(edge(a, x))
            X.assume(place(a, x))
        X.ghost['exits'] = None
        return [ConnComp(), SI(NS)]

    def post(self, X, args, res):
        ex = X.ghost.get('exits')
        if ex is None:
            raise Untranslatable('the exits are not asked for')
        r = zbool(deref(res)) if not isinstance(res, bool) else z3.BoolVal(res)
        y, x = self.tracked
        a = X.fresh('state')
        ex.key(X, a)
        X.prove('connected.all-have-exits', z3.Implies(z3.And(r, a >= 0, a < NS), HASX(a)))
        X.prove('connected.reached', z3.Implies(r, REACHED(0)))
        # not: a state is without exits, or the handled states are closed and without 0
        R = X.ghost['reached'].R if X.ghost.get('reached') is not None else NONE_
        no = z3.And(z3.Not(r), ex.n >= NS)
        X.prove('unconnected.first', z3.Implies(z3.And(no, EDGE(NS - 1, x)), R[x]))
        X.prove('unconnected.closed', z3.Implies(z3.And(no, R[y], EDGE(y, x)), R[x]))
        X.prove('unconnected.without-start', z3.Implies(no, z3.Not(R[0])))


def sets(X, L):
    t, r = deref(L.get('todo')), deref(L.get('reached'))
    if isinstance(r, SetV) and not r.s:
        r = Handled(NONE_, z3.IntVal(0))
    if not isinstance(t, Todo) or not isinstance(r, Handled):
        raise Untranslatable('the lists of the search')
    return t, r


class Search(LoopSpec):
    name, roles = 'search', ('todo', 'reached')

    def applies(self, X, node, fr, it):
        return X.target == IsConnected.key and (isinstance(node, ast.While) or isinstance(deref(it), RangeV))

    def havoc(self, X, L, names):
        i = next(X.fresh_n)
        t, r = Todo(z3.Const(f'todo!{i}', SET)), Handled(z3.Const(f'reached!{i}', SET), X.fresh('handled'))
        L.set('todo', t)
        L.set('reached', r)
        X.ghost['todo'], X.ghost['reached'] = t, r
        X.assume(r.n <= NS - 1)

    def inv(self, X, L):
        t, r = sets(X, L)
        y, x = X.contract.tracked
        either = z3.Or(t.T[x], r.R[x])
        return [('first', z3.Implies(EDGE(NS - 1, x), either)), ('follow', z3.Implies(z3.And(r.R[y], EDGE(y, x)), either)),
                ('without-start', z3.Not(r.R[0])), ('one-each-round', r.n == L.idx)]


class Follow(LoopSpec):
    """the states entered from the one handled, so far"""
    name, roles = 'follow', ('todo', 'reached')

    def applies(self, X, node, fr, it):
        return X.target == IsConnected.key and (isinstance(it, ExitList) or hasattr(it, 'exits_of'))

    def pre(self, X, L):
        L.q = L.iterable.q if isinstance(L.iterable, ExitList) else L.iterable.exits_of
        t, r = sets(X, L)
        L.R, L.n0 = r.R, r.n

    def havoc(self, X, L, names):
        # in place: the list may be borrowed from a caller
        X.ghost['todo'] = t = sets(X, L)[0]
        t.T = z3.Const(f'todo!{next(X.fresh_n)}', SET)

    def inv(self, X, L):
        t, r = sets(X, L)
        y, x = X.contract.tracked
        q = L.q
        either = z3.Or(t.T[x], r.R[x], x == q)
        so_far = z3.Or(z3.And(r.R[y], y != q), z3.And(y == q, EPOS(y, x) < L.idx))
        return [('first', z3.Implies(EDGE(NS - 1, x), either)), ('follow', z3.Implies(z3.And(so_far, EDGE(y, x)), either)),
                ('handled-kept', z3.And(r.R == L.R, r.n == L.n0)), ('off-the-list', z3.Not(t.T[q]))]


class GraphDomain(RDomain, SeqDomain):
    def clone(self, X, o):
        return o.rm_clone(X) if isinstance(o, ExitList) else NotImplemented


LOOPS = [FileLoop(), SortLoop(), Search(), Follow()]


def contracts(world):
    return {c.key: c for c in (GetExitpoints(), IsConnected())}
