"""Path-splitting symbolic executor over the Python AST: generates verification conditions
function by function.  Callees with a contract are replaced by it; callees without one are
executed in place.  Loops over unknown iterations need a loop invariant (LoopSpec)."""
from __future__ import annotations
import ast
import builtins
import itertools
import time
import z3
from .values import *
from .source import World, Module
from . import prover


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Frame:
    __slots__ = ('vars', 'parent', 'module', 'comp', 'qual', 'cls')

    def __init__(self, module, parent=None, comp=False, qual=''):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.comp = comp
        self.qual = qual


class Ext(Val):
    """base for domain-specific values"""
    def binop(self, X, op, other, refl):
        raise Untranslatable(f'{op} on {self!r}')

    def compare(self, X, op, other, refl):
        raise Untranslatable(f'{op} on {self!r}')

    def unary(self, X, op):
        raise Untranslatable(f'unary {op} on {self!r}')

    def truth(self, X):
        raise Untranslatable(f'truth of {self!r}')

    def getattr(self, X, name):
        raise Untranslatable(f'.{name} on {self!r}')

    def setattr(self, X, name, v):
        raise Untranslatable(f'set .{name} on {self!r}')

    def getitem(self, X, k):
        raise Untranslatable(f'[] on {self!r}')

    def setitem(self, X, k, v):
        raise Untranslatable(f'[]= on {self!r}')

    def contains(self, X, k):
        raise Untranslatable(f'in on {self!r}')

    def isinstance(self, X, cls):
        raise Untranslatable(f'isinstance of {self!r}')

    def call(self, X, args, kw):
        raise Untranslatable(f'call of {self!r}')

    def length(self, X):
        raise Untranslatable(f'len of {self!r}')

    def loop_iter(self, X):
        raise Untranslatable(f'iteration over {self!r}')


class LoopIter:
    """unknown-length iteration: element idx exists iff guard(idx)"""
    def __init__(self, guard, elem, key='iter'):
        self.guard = guard
        self.elem = elem
        self.key = key


class LoopCtx:
    def __init__(self, X, fr, roles):
        self.X = X
        self.fr = fr
        self.roles = roles
        self.idx = None
        self.ghost = {}

    def name(self, role):
        return self.roles.get(role, role)

    def get(self, role):
        return self.X.lookup(self.name(role), self.fr)

    def set(self, role, v):
        self.X.assign_name(self.name(role), v, self.fr)


class Restart(Exception):
    pass


class Cong:
    """s and r are congruent modulo m"""
    def __init__(self, s, r, m):
        self.s, self.r, self.m = s, r, m


class LoopSpec:
    name = 'loop'
    roles = ()

    def applies(self, X, node, fr, it):
        return True

    def pre(self, X, L):
        pass

    def havoc(self, X, L, names):
        """names: locals assigned in the loop that the invariant is about"""
        for n in names:
            if X.has_local(n, L.fr):
                X.assign_name(n, X.havoc_like(X.lookup(n, L.fr), n), L.fr)

    def modifies(self, X, L):
        return ()

    def inv(self, X, L):
        return []

    def step(self, X, L):
        pass

    def on_exit(self, X, L):
        pass


def unit_steps(st):
    """locals a loop body changes in one place only, by one: name -> +1 or -1"""
    out, stores = {}, {}
    for n in ast.walk(st):
        name = None
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            stores[n.id] = stores.get(n.id, 0) + 1
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            name, op, by = n.target.id, n.op, n.value
        elif (isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.BinOp)
              and isinstance(n.value.left, ast.Name) and n.value.left.id == n.targets[0].id):
            name, op, by = n.targets[0].id, n.value.op, n.value.right
        if name and isinstance(by, ast.Constant) and by.value == 1 and isinstance(op, (ast.Add, ast.Sub)):
            out[name] = 1 if isinstance(op, ast.Add) else -1
    return {k: v for k, v in out.items() if stores.get(k) == 1}


class ScanSpec(LoopSpec):
    """a loop that only looks for something: every earlier element let the body run to its end"""
    name = 'scan'

    def applies(self, X, node, fr, it):
        return False

    def havoc(self, X, L, names):
        pass

    def inv_assume(self, X, L):
        from .seq import SeqV, as_seq
        fr, st, src = L.fr, L.node, as_seq(X, L.iterable)
        snap = X.snapshot(fr)
        names = X.assigned_names(st)
        heap = X.heap_writes

        def runs(X, k):
            return X.lazily(heap, lambda: runs_(X, k))

        def runs_(X, k):
            f = Frame(fr.module, parent=snap, comp=False, qual=fr.qual)
            for n in names:
                f.vars[n] = _Havocked(n)
            X.assign(st.target, src.at(X, k), f)
            before = X.heap_snapshot(fr)
            try:
                X.exec_block(st.body, f)
            except ContinueEx:
                pass
            except (BreakEx, ReturnEx, PyRaise):
                return False
            if X.heap_changed(before, ()) is not None:
                raise Untranslatable('a loop changes what it looks at')
            return True
        s = SeqV(src.n, runs, 'gen', src.cond, label=f'scan@{st.lineno}')
        s.source = src
        L.scan = s
        done = SeqV(L.idx, runs, 'gen', src.cond, label=f'scanned@{st.lineno}')
        done.source = src
        X.ghost.setdefault('forall', []).append((done, True))
        X.assume(L.idx <= src.n)
        X.ghost.setdefault('witness', []).append((s, L.idx))
        return []


class Contract:
    key = ''
    verify = True
    inline = False          # calls see the body (which is verified on its own as well)

    def inline_for(self, X):
        return False
    total = False
    raises = ()
    loops = ()
    concrete_consts = {}

    def setup(self, X):
        raise NotImplementedError

    def kwargs(self, X):
        return {}

    def post(self, X, args, result):
        raise NotImplementedError

    def exc(self, X, args, e):
        if self.total and e.name not in self.raises:
            X.prove(f'no-{e.name}', z3.BoolVal(False))

    def apply(self, X, args, kw):
        raise Untranslatable(f'contract of {self.key} not usable at a call site')


class Verdict:
    def __init__(self, name, status, backend='', secs=0.0, detail='', model=None):
        self.name = name
        self.status = status      # 'ok' | 'failed' | 'unknown' | 'untranslatable'
        self.backend = backend
        self.secs = secs
        self.detail = detail
        self.model = model

    def as_dict(self):
        return dict(name=self.name, status=self.status, backend=self.backend,
                    secs=round(self.secs, 4), detail=self.detail[:4000], model=self.model)


MAX_PATHS = 6000


def positional(a, args, kw):
    """arguments given by name in their places, as far as the places before them are filled"""
    names = [x.arg for x in a.posonlyargs + a.args]
    args, kw = list(args), dict(kw)
    while len(args) < len(names) and names[len(args)] in kw:
        args.append(kw.pop(names[len(args)]))
    return args, kw


class Interp:
    def __init__(self, world, contracts, domain=None, loops=(), opts=None):
        self.world = world
        self.contracts = contracts
        self.domain = domain
        self.loops = list(loops)
        self.opts = opts or {}
        self.verdicts = []
        self.npaths = 0
        self.paths_done = 0
        self.loop_variant = {}
        self.loop_sites = {}
        self.deadline = None
        self.seen_obl = set()
        self.used = set()
        self.inlined = set()

    # ---------------------------------------------------------------- driver
    def verify(self, contract, target=None):
        """explore every path of contract.key; returns list of verdicts"""
        fv = target if target is not None else self.world.func(contract.key)
        self.must_havoc = {}
        for _ in range(12):
            self.verdicts = []
            self.npaths = self.paths_done = 0
            try:
                return self._verify(fv, contract)
            except Restart:
                continue
        self.verdicts = [Verdict(f'{contract.key}#loops', 'untranslatable', detail='loop variables')]
        return self.verdicts

    def explore(self, contract, start, must_havoc, budget):
        """a slice of the exploration: returns the path prefixes left when the budget is used up"""
        fv = self.world.func(contract.key)
        self.must_havoc = {k: set(v) for k, v in must_havoc.items()}
        for _ in range(12):
            self.verdicts = []
            self.npaths = self.paths_done = 0
            before = {k: set(v) for k, v in self.must_havoc.items()}
            try:
                self._verify(fv, contract, start, budget)
                return self.left, False
            except Restart:
                if start != [[]]:
                    return [], True
        self.verdicts = [Verdict(f'{contract.key}#loops', 'untranslatable', detail='loop variables')]
        return [], False

    def _verify(self, fv, contract, start=None, budget=None):
        self.contract = contract
        self.target = contract.key
        pending = [list(p) for p in (start or [[]])]
        self.reached = False
        self.left = []
        t0 = time.time()
        while pending:
            if budget and time.time() - t0 > budget and len(pending) > 1:
                self.left = pending
                break
            forced = pending.pop()
            self.npaths += 1
            if self.npaths > MAX_PATHS:
                self.verdicts.append(Verdict(f'{contract.key}#paths', 'unknown', detail='path limit'))
                break
            if self.deadline and time.time() > self.deadline:
                self.verdicts.append(Verdict(f'{contract.key}#time', 'unknown', detail='time limit'))
                break
            self._reset(forced)
            try:
                self._one(fv, contract)
                self.paths_done += 1
            except PathEnd:
                pass
            except Untranslatable as e:
                self.verdicts.append(Verdict(f'{contract.key}#translate', 'untranslatable', detail=str(e)))
            except RecursionError:
                self.verdicts.append(Verdict(f'{contract.key}#translate', 'untranslatable', detail='recursion'))
            for i in range(len(forced), len(self.decisions)):
                alts = self.alts[i]
                for a in alts:
                    pending.append(self.decisions[:i] + [a])
        return self.verdicts

    def _reset(self, forced):
        self.heap_writes = 0
        self.write_log, self.written, self.lazy_since = {}, [], []
        self.decisions = []
        self.alts = []
        self.forced = forced
        self.facts = []
        self.solver = z3.Solver()
        self.solver.set('timeout', 250)
        self.fresh_n = itertools.count()
        self.try_stack = []
        self.depth = 0
        self.ghost = {}
        self.trace = []
        self.subst = []
        self.module_state = {}
        self.hooks = {}
        for m in self.world.modules.values():
            m.globals.clear()
        if self.domain is not None:
            self.domain.reset(self)

    def _one(self, fv, contract):
        args = contract.setup(self)
        self.reached = True
        self.root_args = args
        try:
            res = self.invoke(fv, list(args), contract.kwargs(self), force_inline=True)
        except PyRaise as e:
            self.exit_kind = ('raise', e)
            contract.exc(self, args, e)
            return
        self.exit_kind = ('return', res)
        contract.post(self, args, res)

    # ---------------------------------------------------------------- path conditions
    def fresh(self, name='v', sort=None):
        n = next(self.fresh_n)
        nm = f'{name}!{n}'
        if not isinstance(sort, str) and sort is not None:
            return z3.Const(nm, sort)
        return {'int': z3.Int, 'bool': z3.Bool, 'real': z3.Real, None: z3.Int}[sort](nm)

    def fresh_int(self, name='v'):
        return SI(self.fresh(name))

    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                raise PathEnd
            return
        if isinstance(f, SB):
            f = f.e
        f = z3.simplify(f) if not z3.is_quantifier(f) else f
        if z3.is_true(f):
            return
        if z3.is_false(f):
            raise PathEnd
        self.facts.append(f)
        if not z3.is_quantifier(f):
            self.solver.add(f)

    def _decide(self, options):
        """record a decision among the options (list), the first unforced one is taken"""
        i = len(self.decisions)
        if i < len(self.forced):
            d = self.forced[i]
            self.decisions.append(d)
            self.alts.append([])
            return d
        d = options[0]
        self.decisions.append(d)
        self.alts.append(list(options[1:]))
        return d

    def replaying(self):
        return len(self.decisions) < len(self.forced)

    def choose(self, n, label=''):
        if n == 1:
            return 0
        d = self._decide(list(range(n)))
        self.trace.append((label, d))
        return d

    def feasible(self, f):
        r = self.solver.check(f)
        return r != z3.unsat

    def branch(self, cond, label=''):
        """python bool for a symbolic condition (forks the path)"""
        if isinstance(cond, bool):
            return cond
        if isinstance(cond, SB):
            cond = cond.e
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = len(self.decisions)
        if i < len(self.forced):
            d = self._decide([None])
        else:
            t = self.feasible(c)
            f = self.feasible(z3.Not(c))
            if t and f:
                d = self._decide([True, False])
            elif t:
                d = self._decide([True])
            elif f:
                d = self._decide([False])
            else:
                raise PathEnd
        self.trace.append((label or c, d))
        self.assume(c if d else z3.Not(c))
        return d

    # ---------------------------------------------------------------- obligations
    def prove(self, name, goal, timeout=None, **kw):
        if isinstance(goal, SB):
            goal = goal.e
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if len(self.decisions) < len(self.forced):
            self.facts.append(goal) if not z3.is_true(goal) else None
            return True          # already handled on the path this one was split from
        t0 = time.time()
        full = f'{self.contract.key}:{name}'
        st, backend, detail, model = prover.prove(self, goal, timeout or self.opts.get('timeout', 4000))
        v = Verdict(full, st, backend, time.time() - t0, detail, model)
        if st != 'ok':
            v.detail = (f'path: {self.trace_str()}\n' + v.detail)
        self.verdicts.append(v)
        if not (z3.is_true(goal) or z3.is_false(goal)):
            self.assume(goal)
        elif z3.is_false(goal):
            raise PathEnd
        return st == 'ok'

    def prover_ok(self, goal):
        """is the goal provable here (no obligation is recorded)"""
        if len(self.decisions) < len(self.forced):
            pass
        return prover.prove(self, goal, self.opts.get('timeout', 4000))[0] == 'ok'

    def prove_known(self, name, goal, defect):
        """the goal, or else exactly the recorded defect (status 'known'); False if neither is shown"""
        if len(self.decisions) < len(self.forced):
            return True
        t0 = time.time()
        full = f'{self.contract.key}:{name}'
        st, backend, detail, model = prover.prove(self, goal, self.opts.get('timeout', 4000))
        if st != 'ok':
            st2, backend, _, _ = prover.prove(self, defect, self.opts.get('timeout', 4000))
            if st2 != 'ok':
                return False
            st = 'known'
        self.verdicts.append(Verdict(full, st, backend, time.time() - t0, detail if st != 'ok' else ''))
        return True

    def settled(self, name, backend):
        """an obligation discharged by a decision procedure of the domain"""
        self.verdicts.append(Verdict(f'{self.contract.key}:{name}', 'ok', backend))

    def trace_str(self):
        return ' ; '.join(f'{str(l)[:80]}={d}' for l, d in self.trace[-40:])[-1800:]

    # ---------------------------------------------------------------- names
    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.vars:
                return f.vars[name]
            f = f.parent
        return self.global_name(name, fr.module)

    def global_name(self, name, mod):
        if mod is not None:
            ov = self.domain.global_override(self, mod, name) if self.domain else None
            if ov is not None:
                return ov
            if name in mod.globals:
                return mod.globals[name]
            if name in mod.defs:
                kind, what = mod.defs[name]
                if kind == 'func':
                    v = FuncVal(what, mod, f'{mod.path}:{name}')
                    for d in what.decorator_list:
                        dn = ast.unparse(d)
                        if dn not in ('cache', 'functools.cache'):
                            raise Untranslatable(f'decorator {dn}')
                elif kind == 'class':
                    v = self.world.class_val(mod, name)
                elif kind == 'import':
                    v = self.world.resolve_import(*what)
                    if isinstance(v, tuple) and v and v[0] == 'global':
                        v = self.global_name(v[2], v[1])
                    elif isinstance(v, Module):
                        v = ModVal(v)
                elif kind == 'module':
                    m = self.world.module(what)
                    v = ModVal(m) if m is not None else Extern(what)
                elif kind == 'assign':
                    v = self.eval(what, Frame(mod))
                elif kind == 'assign_item':
                    v = self.eval(what[0], Frame(mod))[what[1]]
                else:
                    raise Untranslatable(name)
                mod.globals[name] = v
                return v
        if name in BUILTINS:
            return Builtin(name, BUILTINS[name])
        if name == 'NotImplemented':
            return Extern('NotImplemented')
        b = getattr(builtins, name, None)
        if b is not None and isinstance(b, type):
            return b
        raise Untranslatable(f'unknown name {name}')

    def assign_name(self, name, v, fr):
        f = fr
        while f.comp:
            f = f.parent
        f.vars[name] = v

    # ---------------------------------------------------------------- calls
    def call(self, f, args, kw):
        if isinstance(f, Builtin):
            return f.fn(self, args, kw)
        if isinstance(f, BoundMethod):
            return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, FuncVal):
            return self.invoke(f, args, kw)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kw)
        if isinstance(f, Ext):
            return f.call(self, args, kw)
        if isinstance(f, Extern):
            h = EXTERNS.get(f.name)
            if self.domain is not None:
                h = self.domain.externs.get(f.name, h)
            if h is None:
                raise Untranslatable(f'external function {f.name}')
            return h(self, args, kw)
        if isinstance(f, type) and issubclass(f, BaseException):
            return ExcVal(f, args)
        if isinstance(f, type):
            b = BUILTINS.get(f.__name__)
            if b:
                return b(self, args, kw)
        if callable(f):
            return f(self, args, kw)
        raise Untranslatable(f'call of {f!r}')

    def invoke(self, fv, args, kw, force_inline=False):
        c = self.contracts.get(fv.qual)
        (self.used if c is not None and not force_inline else self.inlined).add(fv.qual)
        if c is not None and not force_inline and not c.inline and not c.inline_for(self):
            return c.apply(self, *positional(fv.node.args, args, kw))
        if self.depth > 60:
            raise Untranslatable(f'recursion without contract: {fv.qual}')
        for d in getattr(fv.node, 'decorator_list', []):
            dn = ast.unparse(d)
            if dn not in ('property', 'cached_property', 'classmethod', 'staticmethod', 'cache',
                          'abstractmethod', 'functools.cache'):
                raise Untranslatable(f'decorator {dn} on {fv.qual}')
        fr = Frame(fv.module, parent=fv.closure, qual=fv.qual)
        self.bind(fv.node.args, fr, args, kw, fv)
        self.depth += 1
        try:
            if isinstance(fv.node, ast.Lambda):
                return self.eval(fv.node.body, fr)
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(fv.node)):
                raise Untranslatable(f'generator function {fv.qual}')
            try:
                self.exec_block(fv.node.body, fr)
            except ReturnEx as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def bind(self, a, fr, args, kw, fv):
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kw = dict(kw)
        for i, n in enumerate(names):
            if i < len(args):
                fr.vars[n] = args[i]
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise(TypeError, ('too many arguments',))
            fr.vars[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None:
            fr.vars[a.vararg.arg] = ()
        for k in list(kw):
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                fr.vars[k] = kw.pop(k)
        if kw:
            if a.kwarg is None:
                raise PyRaise(TypeError, ('unexpected keyword',))
            fr.vars[a.kwarg.arg] = Dct(kw)
        defs = a.defaults
        for n, d in zip(names[len(names) - len(defs):], defs):
            if n not in fr.vars:
                fr.vars[n] = self.eval(d, Frame(fv.module, parent=fv.closure))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in fr.vars and d is not None:
                fr.vars[x.arg] = self.eval(d, Frame(fv.module, parent=fv.closure))
        for n in names:
            if n not in fr.vars:
                raise PyRaise(TypeError, (f'missing argument {n}',))

    def instantiate(self, cv, args, kw):
        ck = cv.qual
        c = self.contracts.get(ck)
        if c is not None:
            self.used.add(ck)
        if c is not None:
            if kw:
                _, init = cv.lookup('__init__')
                if isinstance(init, FuncVal):
                    args, kw = positional(init.node.args, [cv] + list(args), kw)
                    args = args[1:]
            return c.apply(self, args, kw)
        if any(isinstance(b, type) and issubclass(b, BaseException) for b in cv.mro()):
            return ExcVal(cv, args)
        if self.domain is not None and self.domain.owns_class(self, cv):
            return self.domain.instantiate(self, cv, args, kw)
        o = Obj(cv)
        _, init = cv.lookup('__init__')
        if isinstance(init, FuncVal):
            self.invoke(init, [o] + list(args), kw)
            return o
        decos = [ast.unparse(d) for d in cv.node.decorator_list]
        if any(d.startswith('dataclass') for d in decos):
            fields = [(st.target.id, st.value) for st in cv.node.body
                      if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name)]
            for (n, d), v in itertools.zip_longest(fields, args, fillvalue=_MISSING):
                if (n, d) == _MISSING:
                    raise PyRaise(TypeError, ())
                if v is _MISSING:
                    if n in kw:
                        v = kw[n]
                    elif d is not None:
                        v = self.eval(d, Frame(cv.module))
                    else:
                        raise PyRaise(TypeError, ())
                o.attrs[n] = v
            return o
        if args or kw:
            raise PyRaise(TypeError, ())
        return o

    # ---------------------------------------------------------------- attributes
    def getattr(self, o, name):
        if isinstance(o, Ext):
            return o.getattr(self, name)
        if isinstance(o, Obj):
            if name in o.attrs:
                if self.lazy_since and self.write_log.get((id(o), name), 0) > min(self.lazy_since):
                    raise Untranslatable('a collection evaluated lazily reads what was written since')
                return o.attrs[name]
            owner, m = o.cls.lookup(name)
            if m is None:
                raise PyRaise(AttributeError, (name,))
            if isinstance(m, FuncVal):
                decos = [ast.unparse(d) for d in m.node.decorator_list]
                if 'property' in decos or 'cached_property' in decos:
                    v = self.call(m, [o], {})
                    if 'cached_property' in decos:
                        o.attrs[name] = v
                    return v
                if 'staticmethod' in decos:
                    return m
                if 'classmethod' in decos:
                    return BoundMethod(o.cls, m)
                return BoundMethod(o, m)
            if isinstance(m, tuple) and m[0] == 'expr':
                return self.eval(m[1], Frame(m[2]))
        if isinstance(o, ClassVal):
            owner, m = o.lookup(name)
            if isinstance(m, FuncVal):
                decos = [ast.unparse(d) for d in m.node.decorator_list]
                if 'classmethod' in decos:
                    return BoundMethod(o, m)
                return m
            if isinstance(m, tuple) and m[0] == 'expr':
                return self.eval(m[1], Frame(m[2]))
        if isinstance(o, ModVal):
            return self.global_name(name, o.mod)
        if isinstance(o, Extern):
            return Extern(f'{o.name}.{name}')
        if isinstance(o, SuperV):
            owner, m = o.lookup(name)
            if isinstance(m, FuncVal):
                return BoundMethod(o.self_, m)
            if m is None and name == '__init__':
                return Builtin('object.__init__', lambda X, a, k: None)
        if isinstance(o, ExcVal):
            if name == 'args':
                return tuple(o.args)
        if isinstance(o, (Lst, Dct, SetV, str, tuple)):
            key = (type(o).__name__, name)
            if key in METHODS:
                fn = METHODS[key]
                return Builtin(f'{key[0]}.{name}', lambda X, a, k, o=o: fn(X, o, *a, **k))
        if isinstance(o, FuncVal) and name == '__name__':
            return o.qual.split(':')[1].split('.')[-1]
        raise Untranslatable(f'attribute {name} of {o!r}')

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            if name in o.attrs:         # not its initialisation
                self.heap_writes += 1
                self.write_log[id(o), name] = self.heap_writes
                self.written.append(o)          # keeps the id alive
            o.attrs[name] = v
            return
        if isinstance(o, Ext):
            return o.setattr(self, name, v)
        raise Untranslatable(f'set attribute {name} of {o!r}')

    # ---------------------------------------------------------------- truth / equality
    def truth(self, v):
        """python bool (may fork)"""
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, SB):
            return self.branch(v.e)
        if isinstance(v, SI):
            return self.branch(v.e != 0)
        if isinstance(v, (int, str, tuple)):
            return bool(v)
        if isinstance(v, Lst):
            if v.items:
                return True
            if v.tail is None:
                return False
            return v.tail.nonempty(self, v)
        if isinstance(v, Dct):
            return bool(v.d)
        if isinstance(v, SetV):
            return bool(v.s)
        if isinstance(v, Ext):
            return self.truth(v.truth(self))
        if isinstance(v, Obj):
            _, m = v.cls.lookup('__bool__')
            if m:
                return self.truth(self.call(m, [v], {}))
            _, m = v.cls.lookup('__len__')
            if m:
                return self.truth(self.call(m, [v], {}))
            return True
        if isinstance(v, (FuncVal, ClassVal, BoundMethod, Builtin, Extern)):
            return True
        raise Untranslatable(f'truth value of {v!r}')

    def eq(self, a, b):
        """bool / SB for python =="""
        if isinstance(a, Ext):
            return a.compare(self, '==', b, False)
        if isinstance(b, Ext):
            return b.compare(self, '==', a, True)
        if isinstance(a, Obj) or isinstance(b, Obj):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Obj):
                    _, m = x.cls.lookup('__eq__')
                    if isinstance(m, FuncVal):
                        return self.call(m, [x, y], {})
            if isinstance(a, Obj) and isinstance(b, Obj) and a is not b and a.cls is b.cls:
                decos = [ast.unparse(d) for d in a.cls.node.decorator_list]
                if any(d.startswith('dataclass') for d in decos):
                    return self.eq(tuple(a.attrs.values()), tuple(b.attrs.values()))
            return a is b
        if is_int(a) and is_int(b):
            if isinstance(a, int) and isinstance(b, int):
                return a == b
            if isinstance(a, SB) and isinstance(b, (SB, bool)) or isinstance(b, SB) and isinstance(a, bool):
                return SB(zbool(a) == zbool(b))
            return SB(zint(a) == zint(b))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.conj([self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, Lst) and isinstance(b, Lst):
            if a is b:
                return True
            if a.tail is None and b.tail is None:
                if len(a.items) != len(b.items):
                    return False
                return self.conj([self.eq(x, y) for x, y in zip(a.items, b.items)])
            raise Untranslatable('== of opaque lists')
        if isinstance(a, Dct) and isinstance(b, Dct):
            if set(a.d) != set(b.d):
                return False
            return self.conj([self.eq(a.d[k], b.d[k]) for k in a.d])
        if isinstance(a, SetV) and isinstance(b, SetV):
            raise Untranslatable('== of sets')
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if a is b:
                return True
            raise Untranslatable('== on opaque value')
        if a is None or b is None:
            return a is b
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, (ClassVal, FuncVal)) or isinstance(b, (ClassVal, FuncVal)):
            return a is b
        if isinstance(a, SF) or isinstance(b, SF):
            x, y = zreal(a), zreal(b)
            return SB(x == y)
        if type(a) is not type(b):
            return False
        raise Untranslatable(f'== of {a!r} and {b!r}')

    def conj(self, bs):
        out = []
        for b in bs:
            if isinstance(b, bool):
                if not b:
                    return False
                continue
            out.append(zbool(b))
        if not out:
            return True
        return SB(z3.And(out)) if len(out) > 1 else SB(out[0])

    def not_(self, b):
        if isinstance(b, bool):
            return not b
        return SB(z3.Not(b.e))

    def compare(self, op, a, b):
        if op in ('is', 'is not'):
            r = self.is_(a, b)
            return r if op == 'is' else self.not_(r)
        if op == '==':
            return self.eq(a, b)
        if op == '!=':
            return self.not_(self.eqb(a, b))
        if op in ('in', 'not in'):
            r = self.contains(b, a)
            return r if op == 'in' else self.not_(r if isinstance(r, (bool, SB)) else self.truth(r))
        if isinstance(a, Ext):
            return a.compare(self, op, b, False)
        if isinstance(b, Ext):
            return b.compare(self, op, a, True)
        if is_int(a) and is_int(b):
            if isinstance(a, int) and isinstance(b, int):
                return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
            x, y = zint(a), zint(b)
            return SB({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])
        if isinstance(a, (SF, float)) or isinstance(b, (SF, float)):
            x, y = zreal(a), zreal(b)
            return SB({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.tuple_lt(op, a, b)
        if isinstance(a, str) and isinstance(b, str):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        if a is None or b is None:
            raise PyRaise(TypeError, ())
        if isinstance(a, SetV) and isinstance(b, SetV):
            raise Untranslatable('set comparison')
        raise Untranslatable(f'{op} of {a!r}, {b!r}')

    def tuple_lt(self, op, a, b):
        for x, y in zip(a, b):
            if self.truth(self.eq(x, y)):
                continue
            return self.compare({'<=': '<', '>=': '>'}.get(op, op), x, y)
        return {'<': len(a) < len(b), '<=': len(a) <= len(b), '>': len(a) > len(b), '>=': len(a) >= len(b)}[op]

    def eqb(self, a, b):
        r = self.eq(a, b)
        if isinstance(r, (bool, SB)):
            return r
        return self.truth(r)

    def is_(self, a, b):
        if a is None or b is None:
            return a is b
        if isinstance(a, Ext):
            return a.compare(self, 'is', b, False)
        if isinstance(b, Ext):
            return b.compare(self, 'is', a, True)
        if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)):
            return self.eq(a, b)
        return a is b

    def contains(self, c, k):
        if isinstance(c, Ext):
            return c.contains(self, k)
        if isinstance(c, Obj):
            _, m = c.cls.lookup('__contains__')
            if m:
                return self.call(m, [c, k], {})
        if isinstance(c, Dct):
            return self.disj([self.eq(kk, k) for kk in c.d])
        if isinstance(c, (tuple, Lst, SetV)):
            items = c if isinstance(c, tuple) else c.items if isinstance(c, Lst) else c.s
            if isinstance(c, Lst) and c.tail is not None:
                raise Untranslatable('in opaque list')
            return self.disj([self.eq(x, k) for x in items])
        if isinstance(c, str) and isinstance(k, str):
            return k in c
        raise Untranslatable(f'in {c!r}')

    def disj(self, bs):
        out = []
        for b in bs:
            if isinstance(b, bool):
                if b:
                    return True
                continue
            out.append(b.e)
        if not out:
            return False
        return SB(z3.Or(out)) if len(out) > 1 else SB(out[0])

    # ---------------------------------------------------------------- arithmetic
    def binop(self, op, a, b):
        if isinstance(a, Ext):
            return a.binop(self, op, b, False)
        if isinstance(b, Ext):
            return b.binop(self, op, a, True)
        if is_int(a) and is_int(b):
            return self.int_op(op, a, b)
        if isinstance(a, (SF, float)) or isinstance(b, (SF, float)):
            x, y = zreal(a), zreal(b)
            if x is None or y is None:
                return SF()
            if op == '+':
                return SF(x + y)
            if op == '-':
                return SF(x - y)
            if op == '*':
                return SF(x * y)
            return SF()
        if isinstance(a, str) and isinstance(b, str) and op == '+':
            return a + b
        if isinstance(a, str) and op == '%':
            return Opaque('str')
        if isinstance(a, (Opaque, str)) and isinstance(b, (Opaque, str)) and op == '+':
            return Opaque('str')
        if isinstance(a, str) and isinstance(b, int) and op == '*':
            return a * b
        if isinstance(a, tuple) and isinstance(b, tuple) and op == '+':
            return a + b
        if op == '*' and (isinstance(a, tuple) and is_int(b) or isinstance(b, tuple) and is_int(a)):
            t, n = (a, b) if isinstance(a, tuple) else (b, a)
            if isinstance(n, int):
                return t * n
            if self.domain is not None:
                return self.domain.tuple_repeat(self, t, n)
        if isinstance(a, Lst) and isinstance(b, Lst) and op == '+' and a.tail is None:
            return Lst(a.items + b.items, b.tail)
        if isinstance(a, SetV) and isinstance(b, SetV):
            if op == '-':
                return SetV([x for x in a.s if not self.truth(self.contains(b, x))])
            if op == '|':
                out = SetV(a.s)
                for x in b.s:
                    if not self.truth(self.contains(out, x)):
                        out.s.append(x)
                return out
            if op == '&':
                return SetV([x for x in a.s if self.truth(self.contains(b, x))])
        if isinstance(a, (type, ClassVal, UnionV)) and isinstance(b, (type, ClassVal, UnionV)) and op == '|':
            return UnionV((a,)) | UnionV((b,))
        if a is None or b is None:
            raise PyRaise(TypeError, ())
        raise Untranslatable(f'{op} of {a!r}, {b!r}')

    def int_op(self, op, a, b):
        if isinstance(a, int) and isinstance(b, int):
            try:
                if op == '+':
                    return a + b
                if op == '-':
                    return a - b
                if op == '*':
                    return a * b
                if op == '//':
                    return a // b
                if op == '%':
                    return a % b
                if op == '**':
                    if b >= 0 and b * max(abs(a).bit_length(), 1) < 100000:
                        return a ** b
                    if b < 0:
                        return SF()
                if op == '/':
                    return SF(z3.RealVal(a) / z3.RealVal(b)) if b else self._zde()
                if op == '<<':
                    return a << b
                if op == '>>':
                    return a >> b
                if op == '&':
                    return a & b
                if op == '|':
                    return a | b
                if op == '^':
                    return a ^ b
            except ZeroDivisionError:
                raise PyRaise(ZeroDivisionError, ())
        x, y = zint(a), zint(b)
        if op == '+':
            return SI(x + y)
        if op == '-':
            return SI(x - y)
        if op == '*':
            return SI(x * y)
        if op in ('//', '%'):
            if self.branch(y == 0, 'div0'):
                raise PyRaise(ZeroDivisionError, ())
            return SI(self.floordiv(x, y) if op == '//' else self.floormod(x, y))
        if op == '**':
            if self.branch(y < 0, 'negexp'):
                return SF()
            return SI(self.pow(x, y))
        if op == '/':
            if self.branch(y == 0, 'div0'):
                raise PyRaise(ZeroDivisionError, ())
            return SF(z3.ToReal(x) / z3.ToReal(y))
        if op in ('&', '|', '^', '<<', '>>') and isinstance(a, (SB, bool)) and isinstance(b, (SB, bool)):
            p, q = zbool(a), zbool(b)
            return SB({'&': z3.And(p, q), '|': z3.Or(p, q), '^': z3.Xor(p, q)}[op])
        if op == '&':
            for u, v in ((x, y), (y, x)):
                d = z3.simplify(u - v)
                if z3.is_int_value(d) and d.as_long() == 1:
                    # u & (u - 1) is 0 exactly when u is a power of 2 (or 0)
                    r, k = self.fresh('and'), self.fresh('log2')
                    self.assume(z3.Implies(z3.And(u >= 1, r == 0), z3.And(k >= 0, u == prover.POW(z3.IntVal(2), k))))
                    self.assume(z3.Implies(u >= 1, z3.And(r >= 0, r < u)))
                    self.ghost.setdefault('pow2', []).append((u, k))
                    return SI(r)
        raise Untranslatable(f'{op} on symbolic integers')

    def _zde(self):
        raise PyRaise(ZeroDivisionError, ())

    def floordiv(self, x, y):
        """python // for y != 0 (fork on the sign of y unless known)"""
        if z3.is_int_value(y):
            return x / y if y.as_long() > 0 else (-x) / (-y)
        if self.branch(y > 0, 'posdiv'):
            return self.divmod_terms(x, y)[0]
        return self.divmod_terms(-x, -y)[0]

    def divmod_terms(self, x, y):
        """quotient and remainder of x by y > 0 (y not a literal)"""
        x, y = z3.simplify(x), z3.simplify(y)
        cache = self.ghost.setdefault('divmod', {})
        k = (x.get_id(), y.get_id())
        if k not in cache:
            for a, g, p in self.ghost.get('div', ()):
                if z3.eq(z3.simplify(a), x) and z3.eq(z3.simplify(g), y):
                    cache[k] = (p, z3.IntVal(0), x, y)      # x == y * p is a fact, y > 0
                    return cache[k][:2]
            q, r = self.fresh('q'), self.fresh('rem')
            self.assume(z3.And(x == y * q + r, r >= 0, r < y))
            self.assume(z3.Implies(x >= 0, z3.And(q >= 0, q <= x)))
            cache[k] = (q, r, x, y)
        h = self.hooks.get('after_divmod')
        if h:
            h(self, x, y, cache[k][0], cache[k][1])
        return cache[k][:2]

    def floormod(self, x, y):
        if z3.is_int_value(y):
            return x % y if y.as_long() > 0 else -((-x) % (-y))
        if self.branch(y > 0, 'posdiv'):
            return self.divmod_terms(x, y)[1]
        return -self.divmod_terms(-x, -y)[1]

    def pow(self, x, y):
        """x ** y for y >= 0"""
        if z3.is_int_value(y) and y.as_long() <= 4:
            n = y.as_long()
            r = z3.IntVal(1)
            for _ in range(n):
                r = r * x
            return z3.simplify(r)
        return prover.POW(x, y)

    def unary(self, op, a):
        if op == 'not':
            return not self.truth(a) if not isinstance(a, SB) else SB(z3.Not(a.e))
        if isinstance(a, Ext):
            return a.unary(self, op)
        if is_int(a):
            if op == '-':
                return -a if isinstance(a, int) else SI(-zint(a))
            if op == '+':
                return a
            if op == '~' and isinstance(a, int):
                return ~a
        if isinstance(a, SF) and op == '-':
            return SF(-a.e) if a.e is not None else SF()
        raise Untranslatable(f'unary {op} on {a!r}')

    # ---------------------------------------------------------------- indexing
    def getitem(self, o, k):
        if isinstance(o, Ext):
            return o.getitem(self, k)
        if isinstance(o, Obj):
            _, m = o.cls.lookup('__getitem__')
            if m:
                return self.call(m, [o, k], {})
        if isinstance(o, tuple):
            if isinstance(k, SliceV):
                if k.concrete():
                    return o[k.py()]
                raise Untranslatable('symbolic slice of tuple')
            if isinstance(k, (int,)):
                try:
                    return o[k]
                except IndexError:
                    raise PyRaise(IndexError, ())
            if isinstance(k, SB):
                return o[1] if self.truth(k) else o[0]
            if isinstance(k, SI):
                for i in range(len(o)):
                    if self.branch(k.e == i):
                        return o[i]
                raise PyRaise(IndexError, ())
        if isinstance(o, Lst):
            if isinstance(k, SliceV):
                return self.slice_list(o, k)
            if isinstance(k, SB):
                k = 1 if self.truth(k) else 0
            if isinstance(k, int):
                if k >= 0:
                    self.materialise(o, k + 1)
                    if k < len(o.items):
                        return o.items[k]
                    raise PyRaise(IndexError, ())
                if o.tail is None:
                    try:
                        return o.items[k]
                    except IndexError:
                        raise PyRaise(IndexError, ())
            if isinstance(k, SI) and o.tail is None:
                for i in range(len(o.items)):
                    if self.branch(k.e == i):
                        return o.items[i]
                raise PyRaise(IndexError, ())
            if isinstance(k, SI) and o.tail is not None and hasattr(o.tail, 'at'):
                return o.tail.at(self, o, k)
        if isinstance(o, Dct):
            return self.dict_get(o, k)
        if isinstance(o, str):
            if isinstance(k, SliceV) and k.concrete():
                return o[k.py()]
            if isinstance(k, int):
                try:
                    return o[k]
                except IndexError:
                    raise PyRaise(IndexError, ())
        raise Untranslatable(f'{o!r}[{k!r}]')

    def dict_get(self, o, k):
        kk = hashable(k)
        if kk is not None and kk in o.d and not any(has_sym(x) for x in o.d):
            return o.d[kk]
        keys = list(o.d)
        if len(keys) > 6 and isinstance(k, SI) and all(type(x) is int for x in keys):
            i = self.choose(len(keys) + 1, 'key')
            if i < len(keys):
                self.assume(k.e == keys[i])
                if not self.replaying() and self.solver.check() == z3.unsat:
                    raise PathEnd
                return o.d[keys[i]]
            self.assume(z3.And([k.e != x for x in keys]))
        else:
            for x in keys:
                if self.truth(self.eqb(x, k)):
                    return o.d[x]
        if o.default is not None:
            v = self.call(o.default, [], {})
            o.d[k] = v
            return v
        raise PyRaise(KeyError, (k,))

    def dict_set(self, o, k, v):
        kk = hashable(k)
        if kk is None:
            raise Untranslatable('unhashable key')
        if not has_sym(k) and not any(has_sym(x) for x in o.d):
            o.d[kk] = v
            return
        for x in list(o.d):
            if self.truth(self.eqb(x, k)):
                o.d[x] = v
                return
        o.d[k] = v

    def materialise(self, l, n):
        """make the first n items of l explicit, as far as they exist (forks)"""
        while len(l.items) < n and l.tail is not None:
            if not l.tail.nonempty(self, l):
                break

    def slice_list(self, o, s):
        if s.step is not None and s.step != 1:
            raise Untranslatable('slice step')
        lo, hi = s.lo, s.hi
        if lo is None:
            lo = 0
        if isinstance(lo, int) and lo >= 0 and hi is None:
            self.materialise(o, lo)
            if len(o.items) < lo:
                return Lst([])
            return Lst(o.items[lo:], o.tail)
        if o.tail is None and isinstance(lo, int) and (hi is None or isinstance(hi, int)):
            return Lst(o.items[lo:hi])
        if isinstance(lo, int) and isinstance(hi, int) and hi >= 0 and lo >= 0:
            self.materialise(o, hi)
            return Lst(o.items[lo:hi])
        if o.tail is not None and hasattr(o.tail, 'slice'):
            return o.tail.slice(self, o, lo, hi)
        raise Untranslatable('slice of opaque list')

    def setitem(self, o, k, v):
        if isinstance(o, Ext):
            return o.setitem(self, k, v)
        if isinstance(o, Obj):
            _, m = o.cls.lookup('__setitem__')
            if m:
                return self.call(m, [o, k, v], {})
        if isinstance(o, Dct):
            return self.dict_set(o, k, v)
        if isinstance(o, Lst):
            if isinstance(k, SB):
                k = 1 if self.truth(k) else 0
            if isinstance(k, int) and k >= 0:
                self.materialise(o, k + 1)
                if k < len(o.items):
                    o.items[k] = v
                    return
                raise PyRaise(IndexError, ())
            if isinstance(k, SI) and o.tail is None:
                for i in range(len(o.items)):
                    if self.branch(k.e == i):
                        o.items[i] = v
                        return
                raise PyRaise(IndexError, ())
        raise Untranslatable(f'{o!r}[{k!r}] = ...')

    # ---------------------------------------------------------------- iteration
    def iterate(self, v):
        """python iterator over values when the iteration is concretely bounded; None otherwise"""
        if isinstance(v, (tuple, list)):
            return iter(v)
        if isinstance(v, GenV):
            return v.it
        if isinstance(v, Lst):
            if v.tail is None:
                return iter(list(v.items))
            return None
        if isinstance(v, Dct):
            return iter(list(v.d))
        if isinstance(v, SetV):
            return iter(list(v.s))
        if isinstance(v, str):
            return iter(v)
        if isinstance(v, RangeV):
            if v.concrete():
                return iter(range(v.lo, v.hi, v.step))
            return None
        if isinstance(v, Ext):
            f = getattr(v, 'iterate', None)
            return f(self) if f else None
        return None

    def need_iter(self, v):
        it = self.iterate(v)
        if it is None:
            raise Untranslatable(f'iteration over unknown-length {v!r}')
        return it

    def to_list(self, v):
        return list(self.need_iter(v))

    # ---------------------------------------------------------------- havoc
    def havoc_like(self, v, name):
        if isinstance(v, (SB, bool)):
            return SB(self.fresh(name, 'bool'))
        if isinstance(v, (int, SI)):
            return SI(self.fresh(name))
        if isinstance(v, Ext) and hasattr(v, 'havoc'):
            return v.havoc(self, name)
        if isinstance(v, tuple):
            return tuple(self.havoc_like(x, name) for x in v)
        if v is None or isinstance(v, (str, FuncVal, ClassVal)):
            return _Havocked(name)
        if isinstance(v, (Obj, Lst, Dct)):
            return _Havocked(name)
        raise Untranslatable(f'cannot havoc {name}: {v!r}')

    # ---------------------------------------------------------------- statements
    def exec_block(self, body, fr):
        for st in body:
            self.exec(st, fr)

    def exec(self, st, fr):
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            raise Untranslatable(f'statement {type(st).__name__} at line {st.lineno}')
        return m(st, fr)

    def s_Expr(self, st, fr):
        self.eval(st.value, fr)

    def s_Pass(self, st, fr):
        pass

    def s_Return(self, st, fr):
        raise ReturnEx(self.eval(st.value, fr) if st.value is not None else None)

    def s_Break(self, st, fr):
        raise BreakEx

    def s_Continue(self, st, fr):
        raise ContinueEx

    def s_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def s_AugAssign(self, st, fr):
        t = st.target
        op = BINOPS[type(st.op)]
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            new = self.augop(op, cur, self.eval(st.value, fr))
            self.assign_name(t.id, new, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.augop(op, cur, self.eval(st.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval(t.slice, fr)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.augop(op, cur, self.eval(st.value, fr)))
        else:
            raise Untranslatable('augassign target')

    def augop(self, op, cur, v):
        if isinstance(cur, SetV) and op in ('|', '-'):
            r = self.binop(op, cur, v)
            cur.s = r.s
            return cur
        if isinstance(cur, Lst) and op == '+':
            if cur.tail is not None:
                raise Untranslatable('list += on opaque list')
            if isinstance(v, Lst) and v.tail is not None:
                cur.items += v.items
                cur.tail = v.tail
            else:
                cur.items += self.to_list(v)
            return cur
        return self.binop(op, cur, v)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.eval(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr)
        else:
            raise Untranslatable('assignment target')

    def unpack(self, elts, v, fr):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, Ext) and hasattr(v, 'unpack'):
            vals = v.unpack(self, len(elts))
        elif isinstance(v, Lst) and v.tail is not None:
            if star and star[0] == len(elts) - 1:
                n = len(elts) - 1
                self.materialise(v, n)
                if len(v.items) < n:
                    raise PyRaise(ValueError, ())
                for e, x in zip(elts[:-1], v.items):
                    self.assign(e, x, fr)
                self.assign(elts[-1].value, Lst(v.items[n:], v.tail), fr)
                return
            self.materialise(v, len(elts) + 1)
            if v.tail is not None:
                raise PyRaise(ValueError, ())
            vals = list(v.items)
        else:
            if star and isinstance(v, Ext):
                from .seq import as_seq
                q = as_seq(self, v)
                if q is not None:
                    return self.unpack_seq(elts, star[0], q, fr)
            vals = self.to_list(v)
        if star:
            i = star[0]
            after = len(elts) - i - 1
            if len(vals) < len(elts) - 1:
                raise PyRaise(ValueError, ())
            for e, x in zip(elts[:i], vals[:i]):
                self.assign(e, x, fr)
            self.assign(elts[i].value, Lst(vals[i:len(vals) - after]), fr)
            for e, x in zip(elts[i + 1:], vals[len(vals) - after:]):
                self.assign(e, x, fr)
            return
        if len(vals) != len(elts):
            raise PyRaise(ValueError, ())
        for e, x in zip(elts, vals):
            self.assign(e, x, fr)

    def unpack_seq(self, elts, i, q, fr):
        """first, *rest, last = sequence of unknown length"""
        from .seq import slice_seq
        q.plain()
        after = len(elts) - i - 1
        if not self.truth(SB(q.n >= len(elts) - 1)):
            raise PyRaise(ValueError, ())
        for k, e in enumerate(elts[:i]):
            self.assign(e, q.at(self, z3.IntVal(k)), fr)
        mid = slice_seq(self, q, SliceV(i, SI(q.n - after), None))
        self.assign(elts[i].value, mid.to_list(self), fr)
        for k, e in enumerate(elts[i + 1:]):
            self.assign(e, q.at(self, z3.simplify(q.n - after + k)), fr)

    def s_If(self, st, fr):
        if self.truth(self.eval(st.test, fr)):
            self.exec_block(st.body, fr)
        else:
            self.exec_block(st.orelse, fr)

    def s_Assert(self, st, fr):
        if not self.truth(self.eval(st.test, fr)):
            raise PyRaise(AssertionError, ())

    def s_Raise(self, st, fr):
        if st.exc is None:
            raise self.cur_exc[-1]
        v = self.eval(st.exc, fr)
        if isinstance(v, ExcVal):
            raise PyRaise(v.cls, tuple(v.args))
        if isinstance(v, (ClassVal, type)):
            raise PyRaise(v, ())
        raise Untranslatable('raise')

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                k = self.eval(t.slice, fr)
                if isinstance(o, Dct):
                    for x in list(o.d):
                        if self.truth(self.eqb(x, k)):
                            del o.d[x]
                            break
                    else:
                        raise PyRaise(KeyError, (k,))
                elif isinstance(o, Lst) and isinstance(k, int) and k >= 0:
                    METHODS['Lst', 'pop'](self, o, k)
                elif isinstance(o, Ext):
                    o.delitem(self, k)
                else:
                    raise Untranslatable('del')
            elif isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            else:
                raise Untranslatable('del')

    def s_FunctionDef(self, st, fr):
        fr.vars[st.name] = FuncVal(st, fr.module, f'{fr.qual}.<locals>.{st.name}', closure=fr)

    def s_Import(self, st, fr):
        for a in st.names:
            m = self.world.module(a.name)
            fr.vars[a.asname or a.name.split('.')[0]] = ModVal(m) if m else Extern(a.name)

    def s_ImportFrom(self, st, fr):
        for a in st.names:
            v = self.world.resolve_import(st.module, a.name)
            if isinstance(v, tuple) and v and v[0] == 'global':
                v = self.global_name(v[2], v[1])
            elif isinstance(v, Module):
                v = ModVal(v)
            fr.vars[a.asname or a.name] = v

    def s_Global(self, st, fr):
        raise Untranslatable('global statement')

    def catches(self, t, exc):
        """does handler type t catch exception class exc?"""
        if isinstance(t, tuple):
            return any(self.catches(x, exc) for x in t)
        if isinstance(exc, ClassVal):
            return exc.is_sub(t)
        if isinstance(t, type) and isinstance(exc, type):
            return issubclass(exc, t)
        return False

    def may_catch(self, exc):
        return any(self.catches(t, exc) for hs in self.try_stack for t in hs)

    def maybe_raise(self, exc, args=()):
        """the operation may raise exc: explored only where that can be observed"""
        if self.may_catch(exc) or (self.contract.total and not self.opts.get('ignore_raise')):
            if self.choose(2, f'raise {getattr(exc, "name", None) or exc.__name__}'):
                raise PyRaise(exc, args)

    cur_exc: list = []

    def s_Try(self, st, fr):
        types = []
        for h in st.handlers:
            types.append(self.eval(h.type, fr) if h.type is not None else BaseException)
        self.try_stack.append(types)
        n = len(self.try_stack)
        try:
            try:
                self.exec_block(st.body, fr)
            finally:
                del self.try_stack[n - 1:]
        except PyRaise as e:
            for h, t in zip(st.handlers, types):
                if self.catches(t, e.cls):
                    if h.name:
                        fr.vars[h.name] = ExcVal(e.cls, e.args_)
                    self.cur_exc = self.cur_exc + [e]
                    try:
                        self.exec_block(h.body, fr)
                    finally:
                        self.cur_exc = self.cur_exc[:-1]
                        if st.finalbody:
                            self.exec_block(st.finalbody, fr)
                    return
            if st.finalbody:
                self.exec_block(st.finalbody, fr)
            raise
        except (ReturnEx, BreakEx, ContinueEx):
            if st.finalbody:
                self.exec_block(st.finalbody, fr)
            raise
        self.exec_block(st.orelse, fr)
        if st.finalbody:
            self.exec_block(st.finalbody, fr)

    # ---- loops
    def s_While(self, st, fr):
        self.loop(st, fr, None)

    def s_For(self, st, fr):
        self.loop(st, fr, self.eval(st.iter, fr))

    def assigned_names(self, st):
        out = []
        for n in ast.walk(ast.Module(body=st.body + ([] if isinstance(st, ast.For) else []), type_ignores=[])):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in out:
                out.append(n.id)
            if isinstance(n, ast.NamedExpr) and n.target.id not in out:
                out.append(n.target.id)
        if isinstance(st, ast.For):
            for n in ast.walk(st.target):
                if isinstance(n, ast.Name) and n.id not in out:
                    out.append(n.id)
        else:
            for n in ast.walk(st.test):
                if isinstance(n, ast.NamedExpr) and n.target.id not in out:
                    out.append(n.target.id)
        return out

    def loop(self, st, fr, iterable):
        is_for = isinstance(st, ast.For)
        seq = self.iterate(iterable) if is_for else None
        small = seq is not None and not isinstance(iterable, GenV)
        if small:
            items = list(seq)
            if len(items) <= 8 or not self.find_specs(st, fr, iterable):
                if len(items) > 2000:
                    raise Untranslatable(f'loop of {len(items)} iterations at line {st.lineno}')
                return self.unrolled(st, fr, items)
        elif seq is not None:
            return self.unrolled(st, fr, seq)
        specs = self.find_specs(st, fr, iterable)
        if not specs:
            if not is_for:
                return self.bounded_while(st, fr)
            from .seq import as_seq
            src = as_seq(self, iterable.seq() if isinstance(iterable, RangeV) and iterable.step == 1 else iterable)
            if src is not None:
                if not st.orelse and self.fold_loop(st, fr, src):
                    return
                return self.inv_loop(st, fr, src, [(ScanSpec(), {})])
            raise Untranslatable(f'loop without invariant at line {st.lineno} of {fr.qual}')
        self.inv_loop(st, fr, iterable, specs)

    def snapshot(self, fr):
        f = Frame(fr.module, parent=fr.parent, comp=False, qual=fr.qual)
        f.vars.update(fr.vars)
        return f

    def fold_loop(self, st, fr, src):
        """a loop that only adds up, appends or stores one item per iteration is the sum, list or dict of its items"""
        from .seq import SeqV, SeqTail, SymDict, const_seq
        red = reductions(st.body)
        if not red:
            return False
        temps = [n for n in self.assigned_names(st) if n not in {r[1] for r in red}]
        accs = [r[1] for r in red if r[1]]
        if len(set(accs)) < len(accs):
            return False
        mentioned = {n.id for r in red for e in r[3] for n in ast.walk(e) if isinstance(n, ast.Name)}
        if mentioned & set(accs) or any(n in mentioned_early(red) for n in accs):
            return False
        snap = self.snapshot(fr)
        heap = self.heap_writes

        def frame(X, k):
            f = Frame(fr.module, parent=snap, comp=False, qual=fr.qual)
            for n in temps:
                f.vars[n] = _Havocked(n)
            X.assign(st.target, src.at(X, k), f)
            return f

        def guarded(X, steps, f):
            """runs the steps; the conjunction of the guards"""
            r = True
            for kind, x in steps:
                if kind == 'do':
                    if r is not True and not X.truth(r):
                        return False
                    r = True
                    X.exec(x, f)
                    continue
                v = X.eval(x, f)
                if kind == 'unless':
                    v = X.not_(v)
                r = v if r is True else X.conj([r, v])
            return r
        out = []
        for kind, name, steps, exprs, node in red:
            def fn(X, k, steps=steps, exprs=exprs):
                return X.lazily(heap, lambda: fn_(X, k, steps, exprs))

            def fn_(X, k, steps, exprs):
                f = frame(X, k)
                guarded(X, [s for s in steps if s[0] == 'do'] if not any(s[0] != 'do' for s in steps) else steps, f)
                v = tuple(X.eval(e, f) for e in exprs)
                return v if len(v) > 1 else v[0]

            def cond(X, k, steps=steps):
                if src.cond is not None and not X.truth(src.cond(X, k)):
                    return False
                return X.lazily(heap, lambda: guarded(X, steps, frame(X, k)))
            plain = src.cond is None and not any(s[0] != 'do' for s in steps)
            seq = SeqV(src.n, fn, 'gen', None if plain else cond, label='loop')
            seq.source = src
            out.append((kind, name, seq, node))
        for kind, name, seq, node in out:
            if kind == 'sum':
                cur = self.lookup(name, fr)
                if isinstance(cur, (Lst, str, tuple)):
                    return False
                self.assign_name(name, self.binop('+', cur, seq.sum(self, 0)), fr)
            elif kind == 'append':
                cur = self.lookup(name, fr)
                if not isinstance(cur, Lst) or cur.tail is not None:
                    return False
                if seq.cond is None:
                    cur.tail = SeqTail(seq)
                elif cur.items:
                    return False
                else:
                    seq.kind = 'list'
                    self.assign_name(name, seq, fr)
            else:
                cur = self.eval(node.value, fr)
                if isinstance(cur, SymDict) and not cur.over:
                    new = SymDict(cur.parts + [seq])
                elif isinstance(cur, Dct) and not cur.d:
                    new = SymDict([seq])
                else:
                    return False
                tgt = ast.copy_location(type(node.value)(**{**{f: getattr(node.value, f) for f in node.value._fields},
                                                            'ctx': ast.Store()}), node.value)
                self.assign(tgt, new, fr)
        for n in temps:
            self.assign_name(n, _Havocked(n), fr)
        return True

    def lazily(self, mark, fn):
        """evaluates an element of a collection made at time mark: what it reads must not have been written since"""
        self.lazy_since.append(mark)
        try:
            return fn()
        finally:
            self.lazy_since.pop()

    def bounded_while(self, st, fr):
        """a while loop without invariant is executed as long as its test is decided"""
        for _ in range(40):
            if not self.truth(self.eval(st.test, fr)):
                return self.exec_block(st.orelse, fr)
            try:
                self.exec_block(st.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                pass
        raise Untranslatable(f'while loop without invariant at line {st.lineno} of {fr.qual}')

    def unrolled(self, st, fr, items):
        for x in items:
            self.assign(st.target, x, fr)
            try:
                self.exec_block(st.body, fr)
            except BreakEx:
                return
            except ContinueEx:
                continue
        self.exec_block(st.orelse, fr)

    def find_specs(self, st, fr, iterable):
        out = []
        for sp in self.loops:
            try:
                if not sp.applies(self, st, fr, iterable):
                    continue
            except Untranslatable:
                continue
            for roles in self.role_maps(sp, st, fr):
                out.append((sp, roles))
        return out

    def role_maps(self, sp, st, fr):
        """assignments of the spec's role names to local variables (identity first)"""
        names = list(sp.roles)
        if all(self.has_local(n, fr) for n in names):
            return [{n: n for n in names}]
        missing = [n for n in names if not self.has_local(n, fr)]
        have = [n for n in names if n not in missing]
        mods = [n for n in self.assigned_names(st) if n in fr.vars and n not in have]
        others = [n for n in fr.vars if n not in mods and n not in have]
        maps = []
        for perm in itertools.permutations(mods + others, len(missing)):
            m = {n: n for n in have}
            m.update(dict(zip(missing, perm)))
            maps.append(m)
            if len(maps) >= 24:
                break
        return maps

    def has_local(self, n, fr):
        f = fr
        while f is not None:
            if n in f.vars:
                return True
            f = f.parent
        return False

    def heap_snapshot(self, fr):
        seen = {}
        stack = []
        f = fr
        while f is not None:
            stack += list(f.vars.values())
            f = f.parent
        ra = getattr(self, 'root_args', ())
        stack += list(ra)
        while stack:
            v = stack.pop()
            if isinstance(v, tuple):
                stack += list(v)
            elif isinstance(v, (Obj, Lst, Dct, SetV)):
                if id(v) in seen:
                    continue
                if isinstance(v, Obj):
                    seen[id(v)] = (v, dict(v.attrs))
                    stack += list(v.attrs.values())
                elif isinstance(v, Lst):
                    seen[id(v)] = (v, (list(v.items), v.tail))
                    stack += v.items
                elif isinstance(v, Dct):
                    seen[id(v)] = (v, dict(v.d))
                    stack += list(v.d.values())
                else:
                    seen[id(v)] = (v, list(v.s))
        return seen

    def heap_changed(self, snap, allowed):
        for v, s in snap.values():
            if any(v is a for a in allowed):
                continue
            if isinstance(v, Obj):
                if v.attrs.keys() != s.keys() or any(v.attrs[k] is not s[k] and not same(v.attrs[k], s[k]) for k in s):
                    return v
            elif isinstance(v, Lst):
                if v.tail is not s[1] or len(v.items) != len(s[0]) or any(a is not b for a, b in zip(v.items, s[0])):
                    if not (getattr(s[1], 'lazy', False) and same_lazy(v, s)):
                        return v
            elif isinstance(v, Dct):
                if v.d.keys() != s.keys() or any(v.d[k] is not s[k] and not same(v.d[k], s[k]) for k in s):
                    return v
            elif len(v.s) != len(s):
                return v
        return None

    def inv_loop(self, st, fr, iterable, specs):
        site = (fr.qual, st.lineno)
        self.loop_sites[site] = len(specs)
        spec, roles = specs[self.loop_variant.get(site, 0) % len(specs)]
        is_for = isinstance(st, ast.For)
        L = LoopCtx(self, fr, roles)
        L.node = st
        L.iterable = iterable
        L.idx = z3.IntVal(0)
        it = None
        if is_for:
            it = self.loop_iter(iterable)
            L.it = it
        spec.pre(self, L)
        for n, f in spec.inv(self, L):
            self.prove_inv(f'{spec.name}@init.{n}', f)
        names = self.assigned_names(st)
        targets = [n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)] if is_for else []
        roles_ = set(roles.values())
        about = [n for n in names if n in roles_ and n not in targets]
        rest = [n for n in names if n not in roles_ and n not in targets]
        lost = self.must_havoc.setdefault(site, set())
        keep = {}
        spec.havoc(self, L, about)
        for n in rest:
            if n in lost:
                self.assign_name(n, _Havocked(n), fr)
            elif self.has_local(n, fr):
                keep[n] = self.lookup(n, fr)
        for n in rest + about:
            if n in lost and hasattr(spec, 'havoc_local'):
                spec.havoc_local(self, L, n)
        L.idx = self.fresh('idx')
        self.assume(L.idx >= 0)
        for n, f in spec.inv(self, L):
            self.assume_inv(f)
        if hasattr(spec, 'inv_assume'):
            for f in spec.inv_assume(self, L):
                self.assume(f)
        if self.choose(2, f'loop@{st.lineno}') == 0:
            if is_for:
                self.assume(it.guard(L.idx))
                x = it.elem(self, L.idx)
                L.elem = x
                self.assign(st.target, x, fr)
            else:
                if not self.truth(self.eval(st.test, fr)):
                    raise PathEnd
            snap = self.heap_snapshot(fr)
            allowed = list(spec.modifies(self, L))
            depth = len(self.try_stack)
            broke = False
            try:
                self.exec_block(st.body, fr)
            except ContinueEx:
                pass
            except BreakEx:
                broke = True
            ch = self.heap_changed(snap, allowed)
            if ch is not None and not broke:
                raise Untranslatable(f'loop at line {st.lineno} of {fr.qual} modifies {ch!r} beyond its invariant')
            if broke:
                if hasattr(spec, 'on_break'):
                    spec.on_break(self, L)
                return
            for n, old in keep.items():
                new = self.lookup(n, fr)
                if new is not old and not same(new, old):
                    lost.add(n)
                    raise Restart
            L.idx = L.idx + 1
            spec.step(self, L)
            for n, f in spec.inv(self, L):
                self.prove_inv(f'{spec.name}@step.{n}', f)
            raise PathEnd
        if is_for:
            self.assume(z3.Not(it.guard(L.idx)))
            self.assume(z3.Or(L.idx == 0, it.guard(L.idx - 1)))     # the last iteration happened
            if targets and getattr(spec, 'keeps_target', False) and self.branch(L.idx >= 1):
                self.assign(st.target, it.elem(self, z3.simplify(L.idx - 1)), fr)
            else:
                for n in targets:
                    self.assign_name(n, _Havocked(n), fr)
        else:
            if self.truth(self.eval(st.test, fr)):
                raise PathEnd
        spec.on_exit(self, L)
        self.exec_block(st.orelse, fr)

    def prove_inv(self, name, f):
        if isinstance(f, Cong):
            return self.prove_congruent(name, f.s, f.r, f.m)
        return self.prove(name, f)

    def assume_inv(self, f):
        if isinstance(f, Cong):
            return self.assume(f.s == f.r + f.m * self.fresh('K'))
        return self.assume(f)

    def prove_congruent(self, name, s, r, m):
        return self.domain.prove_congruent(self, name, s, r, m)

    def loop_iter(self, v):
        if isinstance(v, CountV):
            if isinstance(v.start, int) and v.start == 0:
                return LoopIter(lambda i: z3.BoolVal(True), lambda X, i: SI(i), 'count')
            return LoopIter(lambda i: z3.BoolVal(True), lambda X, i: SI(zint(v.start) + i), 'count')
        if isinstance(v, RangeV):
            lo, hi, step = zint(v.lo), zint(v.hi), v.step
            if step != 1:
                raise Untranslatable('range step')
            return LoopIter(lambda i: lo + i < hi, lambda X, i: SI(z3.simplify(lo + i)), 'range')
        if isinstance(v, Ext):
            return v.loop_iter(self)
        if isinstance(v, Lst) and v.tail is not None and hasattr(v.tail, 'loop_iter'):
            return v.tail.loop_iter(self, v)
        seq = self.iterate(v)
        if seq is not None:
            items = list(seq)

            def elem(X, i):
                for k in range(len(items) - 1):
                    if X.branch(i == k):
                        return items[k]
                return items[-1]
            return LoopIter(lambda i: i < len(items), elem, 'items')
        raise Untranslatable(f'iteration over {v!r}')

    # ---- match
    def s_Match(self, st, fr):
        subj = self.eval(st.subject, fr)
        for case in st.cases:
            binds = {}
            if self.match(case.pattern, subj, binds, fr):
                for k, v in binds.items():
                    self.assign_name(k, v, fr)
                if case.guard is not None and not self.truth(self.eval(case.guard, fr)):
                    continue
                self.exec_block(case.body, fr)
                return

    def match(self, p, v, binds, fr):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.eqb(v, self.eval(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.is_(v, p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, binds, fr):
                return False
            if p.name is not None:
                binds[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, binds, fr) for q in p.patterns)
        if isinstance(p, ast.MatchClass):
            cls = self.eval(p.cls, fr)
            if not self.truth(self.isinstance(v, cls)):
                return False
            if p.kwd_patterns:
                for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                    if not self.match(q, self.getattr(v, n), binds, fr):
                        return False
            if p.patterns:
                if len(p.patterns) == 1 and (cls in (int, str, bool)
                                             or isinstance(cls, Builtin) and cls.name in ('int', 'str', 'bool')):
                    return self.match(p.patterns[0], v, binds, fr)
                raise Untranslatable('positional class pattern')
            return True
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, Ext) and hasattr(v, 'match_sequence'):
                r = v.match_sequence(self, p)
                if r is None:
                    return False
                vals = r
            elif isinstance(v, tuple):
                vals = list(v)
            elif isinstance(v, Lst) and v.tail is None:
                vals = list(v.items)
            elif isinstance(v, (int, str, SI, SB, Obj, Dct)) or v is None:
                return False
            else:
                raise Untranslatable(f'sequence pattern on {v!r}')
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if star:
                i = star[0]
                after = len(p.patterns) - i - 1
                if len(vals) < len(p.patterns) - 1:
                    return False
                pre, mid, post = vals[:i], vals[i:len(vals) - after], vals[len(vals) - after:]
                for q, x in zip(p.patterns[:i], pre):
                    if not self.match(q, x, binds, fr):
                        return False
                if p.patterns[i].name:
                    binds[p.patterns[i].name] = Lst(mid)
                for q, x in zip(p.patterns[i + 1:], post):
                    if not self.match(q, x, binds, fr):
                        return False
                return True
            if len(vals) != len(p.patterns):
                return False
            return all(self.match(q, x, binds, fr) for q, x in zip(p.patterns, vals))
        raise Untranslatable(f'pattern {type(p).__name__}')

    def isinstance(self, v, cls):
        if isinstance(cls, (tuple, UnionV)):
            items = cls if isinstance(cls, tuple) else cls.items
            for c in items:
                if self.truth(self.isinstance(v, c)):
                    return True
            return False
        if isinstance(cls, Builtin):
            cls = {'int': int, 'str': str, 'bool': bool, 'tuple': tuple, 'list': list, 'dict': dict, 'set': set,
                   'float': float}.get(cls.name, cls)
        if isinstance(v, Ext):
            return v.isinstance(self, cls)
        if isinstance(v, Obj):
            return isinstance(cls, ClassVal) and v.cls.is_sub(cls)
        if isinstance(v, (int, SI, SB)):
            if cls is bool:
                return isinstance(v, (bool, SB))
            return cls is int
        if isinstance(v, str):
            return cls is str
        if isinstance(v, tuple):
            return cls is tuple
        if isinstance(v, Lst):
            return cls is list
        if isinstance(v, Dct):
            return cls is dict
        if v is None:
            return False
        if isinstance(v, ExcVal):
            return self.catches(cls, v.cls)
        raise Untranslatable(f'isinstance({v!r}, {cls!r})')

    # ---------------------------------------------------------------- expressions
    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Untranslatable(f'expression {type(e).__name__} at line {e.lineno}')
        return m(e, fr)

    def e_Constant(self, e, fr):
        if isinstance(e.value, float):
            return SF(z3.RealVal(repr(e.value)))
        return e.value

    def e_Name(self, e, fr):
        v = self.lookup(e.id, fr)
        if isinstance(v, _Havocked):
            raise Untranslatable(f'{e.id} has no invariant')
        return v

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign_name(e.target.id, v, fr)
        return v

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += self.to_list(self.eval(x.value, fr))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_List(self, e, fr):
        return Lst(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        return self.mkset(self.elts(e.elts, fr))

    def mkset(self, items):
        out = SetV()
        for x in items:
            if not self.truth(self.contains(out, x)):
                out.s.append(x)
        return out

    def e_Dict(self, e, fr):
        d = Dct()
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v, fr)
                for kk, vv in src.d.items():
                    self.dict_set(d, kk, vv)
            else:
                kk = self.eval(k, fr)
                self.dict_set(d, kk, self.eval(v, fr))
        return d

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        if isinstance(o, (ClassVal, type, Builtin)):
            return o
        return self.getitem(o, self.eval(e.slice, fr))

    def e_Slice(self, e, fr):
        return SliceV(self.eval(e.lower, fr) if e.lower else None,
                      self.eval(e.upper, fr) if e.upper else None,
                      self.eval(e.step, fr) if e.step else None)

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(BINOPS[type(e.op)], a, b)

    def e_UnaryOp(self, e, fr):
        a = self.eval(e.operand, fr)
        return self.unary({ast.Not: 'not', ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}[type(e.op)], a)

    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = None
        for x in e.values[:-1]:
            v = self.eval(x, fr)
            t = self.truth(v)
            if is_and and not t:
                return v if not isinstance(v, SB) else False
            if not is_and and t:
                return v if not isinstance(v, SB) else True
        return self.eval(e.values[-1], fr)

    def e_Compare(self, e, fr):
        a = self.eval(e.left, fr)
        n = len(e.ops)
        res = True
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            b = self.eval(c, fr)
            res = self.compare(CMPOPS[type(op)], a, b)
            if i < n - 1:
                if not self.truth(res):
                    return False
            a = b
        return res

    def e_IfExp(self, e, fr):
        return self.eval(e.body if self.truth(self.eval(e.test, fr)) else e.orelse, fr)

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = fr
            while f.comp:
                f = f.parent
            owner = self.owner_of(f)
            first = next(iter(f.vars))
            return SuperV(f.vars[first], owner)
        if isinstance(e.func, ast.Name) and e.func.id == 'locals':
            raise Untranslatable('locals()')
        f = self.eval(e.func, fr)
        args = self.elts(e.args, fr)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                src = self.eval(k.value, fr)
                kw.update(src.d)
            else:
                kw[k.arg] = self.eval(k.value, fr)
        return self.call(f, args, kw)

    def owner_of(self, f):
        path, dotted = f.qual.split(':')
        m = self.world.by_path(path)
        return self.world.class_val(m, dotted.split('.')[0])

    def e_Lambda(self, e, fr):
        return FuncVal(e, fr.module, f'{fr.qual}.<lambda>', closure=fr)

    def e_JoinedStr(self, e, fr):
        out = ''
        for v in e.values:
            if isinstance(v, ast.Constant):
                out = out + v.value if isinstance(out, str) else out
            else:
                try:
                    x = self.eval(v.value, fr)
                except Untranslatable:
                    x = Opaque('fmt')
                if isinstance(x, (str, int)) and not isinstance(x, bool) and isinstance(out, str) \
                        and v.format_spec is None and v.conversion == -1:
                    out += str(x)
                else:
                    out = Opaque('str')
        return out

    def comp(self, gens, fr, leaf):
        """python generator over the values of a comprehension"""
        inner = Frame(fr.module, parent=fr, comp=True, qual=fr.qual)
        first = self.eval(gens[0].iter, fr)

        def rec(k, src):
            if k == len(gens) - 1 and k > 0 and self.iterate_unknown(src):
                snap = Frame(fr.module, parent=fr, comp=False, qual=fr.qual)
                snap.vars.update(inner.vars)
                yield Piece(gens[k:], src, snap)
                return
            for x in self.need_iter(src):
                self.assign_comp(gens[k].target, x, inner)
                if all(self.truth(self.eval(c, inner)) for c in gens[k].ifs):
                    if k + 1 < len(gens):
                        yield from rec(k + 1, self.eval(gens[k + 1].iter, inner))
                    else:
                        yield leaf(inner)
        return first, inner, rec

    def assign_comp(self, t, v, inner):
        inner.comp = False
        try:
            self.assign(t, v, inner)
        finally:
            inner.comp = True

    def e_GeneratorExp(self, e, fr):
        first, inner, rec = self.comp(e.generators, fr, lambda f: self.eval(e.elt, f))
        if self.iterate_unknown(first):
            return self.opaque_comp(e, e.generators, fr, first, inner, 'gen')
        if len(e.generators) > 1:
            return self.pieces(e, fr, rec(0, first), 'gen', lambda it: GenV(iter(it)))
        return GenV(rec(0, first))

    def pieces(self, e, fr, it, kind, make):
        """result of nested generators, some of whose inner collections have unknown length"""
        it = list(it)
        if not any(isinstance(p, Piece) for p in it):
            return make(it)
        return self.domain.concat(self, [self.domain.opaque_comp(self, e, p.gens, fr, p.src, p.frame, kind + '*')
                                         if isinstance(p, Piece) else p for p in it], kind)

    def iterate_unknown(self, v):
        if isinstance(v, GenV):
            return False
        return self.iterate(v) is None

    def opaque_comp(self, e, gens, fr, first, inner, kind):
        if self.domain is None:
            raise Untranslatable('comprehension over an opaque collection')
        return self.domain.opaque_comp(self, e, gens, fr, first, inner, kind)

    def e_ListComp(self, e, fr):
        first, inner, rec = self.comp(e.generators, fr, lambda f: self.eval(e.elt, f))
        if self.iterate_unknown(first):
            return self.opaque_comp(e, e.generators, fr, first, inner, 'list')
        return self.pieces(e, fr, rec(0, first), 'list', Lst)

    def e_SetComp(self, e, fr):
        first, inner, rec = self.comp(e.generators, fr, lambda f: self.eval(e.elt, f))
        if self.iterate_unknown(first):
            return self.opaque_comp(e, e.generators, fr, first, inner, 'set')
        return self.pieces(e, fr, rec(0, first), 'set', self.mkset)

    def e_DictComp(self, e, fr):
        first, inner, rec = self.comp(
            e.generators, fr, lambda f: (self.eval(e.key, f), self.eval(e.value, f)))
        if self.iterate_unknown(first):
            return self.opaque_comp(e, e.generators, fr, first, inner, 'dict')
        def make(it):
            d = Dct()
            for k, v in it:
                self.dict_set(d, k, v)
            return d
        return self.pieces(e, fr, rec(0, first), 'dict', make)

    def e_Starred(self, e, fr):
        raise Untranslatable('starred')


# -------------------------------------------------------------------- helpers
class Piece:
    """part of a comprehension: the last generator ranges over a collection of unknown length"""
    def __init__(self, gens, src, frame):
        self.gens, self.src, self.frame = gens, src, frame


_MISSING = object()


def reductions(body):
    """[(kind, accumulator, steps, exprs, node)] of a loop body that only accumulates; None otherwise"""
    out = []

    def walk(stmts, steps):
        steps = list(steps)
        for i, st in enumerate(stmts):
            if isinstance(st, ast.Pass) or isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                continue
            if isinstance(st, ast.If):
                if len(st.body) == 1 and isinstance(st.body[0], ast.Continue) and not st.orelse:
                    steps.append(('unless', st.test))
                    continue
                if any(isinstance(n, ast.NamedExpr) for n in ast.walk(st.test)):
                    return False
                if not walk(st.body, steps + [('if', st.test)]):
                    return False
                if st.orelse and not walk(st.orelse, steps + [('unless', st.test)]):
                    return False
                continue
            if isinstance(st, ast.AugAssign) and isinstance(st.op, ast.Add) and isinstance(st.target, ast.Name):
                out.append(('sum', st.target.id, list(steps), [st.value], st))
                continue
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) \
                    and st.value.func.attr in ('append', 'push', 'push_back') and isinstance(st.value.func.value, ast.Name) and len(st.value.args) == 1:
                out.append(('append', st.value.func.value.id, list(steps), [st.value.args[0]], st))
                continue
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) \
                    and st.value.func.attr == 'insert' and isinstance(st.value.func.value, ast.Name) and len(st.value.args) == 2:
                k, v = st.value.args
                out.append(('item', st.value.func.value.id, list(steps), [k, v],
                            ast.copy_location(ast.Subscript(st.value.func.value, k, ast.Store()), st)))
                continue
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Subscript) \
                    and isinstance(st.targets[0].value, (ast.Name, ast.Attribute)):
                t = st.targets[0]
                out.append(('item', t.value.id if isinstance(t.value, ast.Name) else ast.unparse(t.value),
                            list(steps), [t.slice, st.value], t))
                continue
            if isinstance(st, ast.Assign) and all(isinstance(t, (ast.Name, ast.Tuple)) for t in st.targets):
                steps.append(('do', st))
                continue
            if isinstance(st, ast.For) and fills_own(st, body):
                steps.append(('do', st))
                continue
            return False
        return True

    def fills_own(st, body):
        """the loop within changes nothing but collections made in the round"""
        own = {t.id for s in body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name) and
               (isinstance(s.value, ast.List) and not s.value.elts or isinstance(s.value, ast.Call) and not s.value.args and not s.value.keywords
                and isinstance(s.value.func, ast.Name) and s.value.func.id in ('list', '__r_Vec_new'))}
        return all(isinstance(s, (ast.If, ast.Pass, ast.Continue, ast.For)) or
                   isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) and t.id not in own for t in s.targets) or
                   isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ('append', 'push')
                   and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id in own for s in ast.walk(st) if isinstance(s, ast.stmt))
    return out if walk(body, []) else None


def mentioned_early(red):
    return {n.id for r in red for _, s in r[2] for n in ast.walk(s) if isinstance(n, ast.Name)}


class _Havocked(Val):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class ExcVal(Val):
    __slots__ = ('cls', 'args')

    def __init__(self, cls, args):
        self.cls = cls
        self.args = args


class SuperV(Val):
    __slots__ = ('self_', 'owner')

    def __init__(self, self_, owner):
        self.self_ = self_
        self.owner = owner

    def lookup(self, name):
        for b in self.owner.mro()[1:]:
            if isinstance(b, ClassVal) and name in b.members:
                return b, b.members[name]
        return None, None


class UnionV(Val):
    __slots__ = ('items',)

    def __init__(self, items):
        out = []
        for i in items:
            if isinstance(i, UnionV):
                out += i.items
            else:
                out.append(i)
        self.items = tuple(out)

    def __or__(self, o):
        return UnionV(self.items + o.items)


class SliceV(Val):
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def concrete(self):
        return all(x is None or isinstance(x, int) for x in (self.lo, self.hi, self.step))

    def py(self):
        return slice(self.lo, self.hi, self.step)


class RangeV(Val):
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step

    def concrete(self):
        return all(isinstance(x, int) for x in (self.lo, self.hi, self.step))

    def seq(self):
        from .seq import SeqV
        lo, hi = zint(self.lo), zint(self.hi)
        return SeqV(z3.If(hi >= lo, hi - lo, 0), lambda X, k: SI(z3.simplify(lo + k)), 'gen', label='range')


class CountV(Val):
    __slots__ = ('start',)

    def __init__(self, start=0):
        self.start = start


def zbool(b):
    if isinstance(b, bool):
        return z3.BoolVal(b)
    if isinstance(b, SB):
        return b.e
    if isinstance(b, SI):
        return b.e != 0
    raise Untranslatable(f'not a boolean: {b!r}')


def zreal(v):
    if isinstance(v, bool):
        return z3.RealVal(int(v))
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, SI):
        return z3.ToReal(v.e)
    if isinstance(v, SF):
        if v.e is None:
            v.e = z3.Real(f'float!{next(values_ids)}')
        return v.e
    raise Untranslatable(f'not a number: {v!r}')


values_ids = itertools.count()


def has_sym(v):
    if isinstance(v, tuple):
        return any(has_sym(x) for x in v)
    return isinstance(v, (SI, SB, Ext))


def hashable(v):
    if isinstance(v, (int, str, bool, SI, SB, Obj, Ext, ClassVal)) or v is None:
        return v
    if isinstance(v, tuple):
        return v if all(hashable(x) is not None or x is None for x in v) else None
    return None


def same(a, b):
    if a is b:
        return True
    if isinstance(a, SI) and isinstance(b, SI):
        return z3.eq(a.e, b.e)
    if isinstance(a, (int, str, bool)) and isinstance(b, (int, str, bool)):
        return type(a) is type(b) and a == b
    return False


def same_lazy(v, s):
    """v differs from its snapshot only by lazily materialised elements of the same tail"""
    items, tail = s
    seq = list(items)
    t = tail
    while t is not v.tail:
        st = getattr(t, 'state', None)
        if st is None:
            return False
        if st == 'empty':
            t = None
            if v.tail is not None:
                return False
        else:
            seq.append(st[0])
            t = st[1]
    return len(seq) == len(v.items) and all(a is b for a, b in zip(seq, v.items))


def walk_own(fn):
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp, ast.ListComp)):
            continue
        stack.extend(ast.iter_child_nodes(n))


BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
          ast.Div: '/', ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}
CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
          ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}


# -------------------------------------------------------------------- builtins
def b_len(X, a, k):
    v = a[0]
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, Lst):
        if v.tail is None:
            return len(v.items)
        return v.tail.length(X, v)
    if isinstance(v, Dct):
        return len(v.d)
    if isinstance(v, SetV):
        return len(v.s)
    if isinstance(v, Ext):
        return v.length(X)
    if isinstance(v, Obj):
        _, m = v.cls.lookup('__len__')
        if m:
            return X.call(m, [v], {})
    raise Untranslatable(f'len of {v!r}')


def b_abs(X, a, k):
    v = a[0]
    if isinstance(v, int):
        return abs(v)
    if isinstance(v, SI):
        return SI(z3.If(v.e >= 0, v.e, -v.e))
    if isinstance(v, Ext) and hasattr(v, 'abs'):
        return v.abs(X)
    raise Untranslatable('abs')


def b_all(X, a, k):
    v = a[0]
    if isinstance(v, Ext) and hasattr(v, 'all'):
        return v.all(X)
    for x in X.need_iter(v):
        if not X.truth(x):
            return False
    return True


def b_any(X, a, k):
    v = a[0]
    if isinstance(v, Ext) and hasattr(v, 'any'):
        return v.any(X)
    for x in X.need_iter(v):
        if X.truth(x):
            return True
    return False


def b_sum(X, a, k):
    v = a[0]
    if isinstance(v, Ext) and hasattr(v, 'sum'):
        return v.sum(X, a[1] if len(a) > 1 else 0)
    r = a[1] if len(a) > 1 else k.get('start', 0)
    for x in X.need_iter(v):
        r = X.binop('+', r, x)
    return r


def b_minmax(op):
    def f(X, a, k):
        if set(k) - {'default'}:
            raise Untranslatable('min/max with key')
        if len(a) == 1 and isinstance(a[0], Ext) and hasattr(a[0], 'extreme'):
            return a[0].extreme(X, op, **k)
        items = X.to_list(a[0]) if len(a) == 1 else list(a)
        if not items:
            if 'default' in k:
                return k['default']
            raise PyRaise(ValueError, ())
        best = items[0]
        for x in items[1:]:
            if is_int(best) and is_int(x):
                if isinstance(best, int) and isinstance(x, int):
                    best = min(best, x) if op == '<' else max(best, x)
                else:
                    p, q = zint(x), zint(best)
                    best = SI(z3.If(p < q if op == '<' else p > q, p, q))
            elif X.truth(X.compare(op, x, best)):
                best = x
        return best
    return f


def b_isinstance(X, a, k):
    return X.isinstance(a[0], a[1])


def b_tuple(X, a, k):
    if not a:
        return ()
    v = a[0]
    if isinstance(v, Ext) and hasattr(v, 'to_tuple'):
        return v.to_tuple(X)
    if isinstance(v, tuple):
        return v
    if isinstance(v, Lst) and v.tail is not None and hasattr(v.tail, 'to_tuple'):
        return v.tail.to_tuple(X, v)
    return tuple(X.need_iter(v))


def b_list(X, a, k):
    if not a:
        return Lst()
    v = a[0]
    if isinstance(v, Ext) and hasattr(v, 'to_list'):
        return v.to_list(X)
    if isinstance(v, Lst):
        return Lst(v.items, v.tail)
    return Lst(X.need_iter(v))


def b_dict(X, a, k):
    d = Dct()
    if a:
        if isinstance(a[0], Dct):
            d.d = dict(a[0].d)
        else:
            for kv in X.need_iter(a[0]):
                kk, vv = X.to_list(kv)
                X.dict_set(d, kk, vv)
    for n, v in k.items():
        d.d[n] = v
    return d


def b_set(X, a, k):
    if not a:
        return SetV()
    if isinstance(a[0], Ext) and hasattr(a[0], 'to_set'):
        return a[0].to_set(X)
    return X.mkset(X.need_iter(a[0]))


def b_range(X, a, k):
    if len(a) == 1:
        return RangeV(0, a[0])
    return RangeV(*a)


def b_enumerate(X, a, k):
    start = a[1] if len(a) > 1 else k.get('start', 0)
    v = a[0]
    if X.iterate_unknown(v):
        if X.domain is not None:
            return X.domain.enumerate(X, v, start)
        raise Untranslatable('enumerate of opaque')
    if isinstance(start, int):
        return GenV((i, x) for i, x in enumerate(X.need_iter(v), start))
    return GenV((SI(zint(start) + i), x) for i, x in enumerate(X.need_iter(v)))


def b_zip(X, a, k):
    if any(X.iterate_unknown(v) for v in a):
        if X.domain is not None:
            return X.domain.zip(X, a)
        raise Untranslatable('zip of opaque')
    return GenV(zip(*[X.need_iter(v) for v in a]))


def b_reversed(X, a, k):
    v = a[0]
    if isinstance(v, Ext) and hasattr(v, 'reversed'):
        return v.reversed(X)
    if isinstance(v, Lst) and v.tail is not None:
        raise Untranslatable('reversed opaque list')
    return GenV(iter(list(reversed(X.to_list(v)))))


def b_map(X, a, k):
    f = a[0]
    if len(a) == 2 and X.iterate_unknown(a[1]):
        from .seq import SeqV, as_seq
        src = as_seq(X, a[1])
        if src is None:
            raise Untranslatable('map over opaque')
        heap = X.heap_writes

        def at(X, i):
            return X.lazily(heap, lambda: X.call(f, [src.at(X, i)], {}))
        r = SeqV(src.n, at, 'gen', src.cond, label='map')
        r.source = src
        return r
    return GenV(X.call(f, list(xs), {}) for xs in zip(*[X.need_iter(v) for v in a[1:]]))


def b_sorted(X, a, k):
    items = X.to_list(a[0])
    if all(not has_sym(x) and isinstance(x, (int, str, tuple)) for x in items) and 'key' not in k:
        return Lst(sorted(items, reverse=bool(k.get('reverse', False))))
    raise Untranslatable('sorted of symbolic values')


def b_int(X, a, k):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, SI)):
        return v
    if isinstance(v, SB):
        return SI(z3.If(v.e, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(v, SF):
        if v.e is None:
            return SI(X.fresh('trunc'))
        fl = z3.ToInt(v.e)
        return SI(z3.simplify(z3.If(v.e >= 0, fl, -z3.ToInt(-v.e))))
    if isinstance(v, Ext) and hasattr(v, 'to_int'):
        return v.to_int(X)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise PyRaise(ValueError, ())
    if isinstance(v, Obj):
        _, m = v.cls.lookup('__int__')
        if m:
            return X.call(m, [v], {})
    raise Untranslatable(f'int of {v!r}')


def b_bool(X, a, k):
    if not a:
        return False
    if isinstance(a[0], (bool, SB)):
        return a[0]
    return X.truth(a[0])


def b_divmod(X, a, k):
    p, q = a
    if isinstance(p, Ext) and hasattr(p, 'divmod'):
        return p.divmod(X, q, False)
    if isinstance(q, Ext) and hasattr(q, 'divmod'):
        return q.divmod(X, p, True)
    return X.binop('//', p, q), X.binop('%', p, q)


def b_pow(X, a, k):
    if len(a) == 2:
        return X.binop('**', a[0], a[1])
    b, e, m = a
    if all(isinstance(x, int) for x in a):
        return pow(b, e, m)
    return X.binop('%', X.binop('**', b, e), m)


def b_round(X, a, k):
    if len(a) == 1 and isinstance(a[0], int):
        return a[0]
    return SI(X.fresh('round'))


def b_id(X, a, k):
    v = a[0]
    f = getattr(X.domain, 'identity', None)
    if f is not None:
        r = f(X, v)
        if r is not None:
            return r
    if isinstance(v, (Obj, Lst, Dct)):
        return 10 ** 6 + v.id
    if isinstance(v, Ext) and hasattr(v, 'identity'):
        return v.identity(X)
    raise Untranslatable('id')


def b_getattr(X, a, k):
    if isinstance(a[1], str):
        try:
            return X.getattr(a[0], a[1])
        except PyRaise as e:
            if len(a) > 2 and e.cls is AttributeError:
                return a[2]
            raise
    raise Untranslatable('getattr with symbolic name')


def b_setattr(X, a, k):
    if isinstance(a[1], str):
        X.setattr(a[0], a[1], a[2])
        return None
    raise Untranslatable('setattr')


def b_hasattr(X, a, k):
    try:
        X.getattr(a[0], a[1])
        return True
    except PyRaise:
        return False


def b_str(X, a, k):
    if a and isinstance(a[0], (str, int)) and not isinstance(a[0], bool):
        return str(a[0])
    return Opaque('str')


def b_next(X, a, k):
    v = a[0]
    if isinstance(v, GenV):
        try:
            return next(v.it)
        except StopIteration:
            if len(a) > 1:
                return a[1]
            raise PyRaise(StopIteration, ())
    if isinstance(v, Ext) and hasattr(v, 'next'):
        return v.next(X, a[1:])
    raise Untranslatable('next')


def b_iter(X, a, k):
    if isinstance(a[0], GenV):
        return a[0]
    return GenV(iter(X.to_list(a[0])))


def b_type(X, a, k):
    if isinstance(a[0], Obj):
        return a[0].cls
    if isinstance(a[0], Ext) and hasattr(a[0], 'type'):
        return a[0].type(X)
    raise Untranslatable('type()')


def b_callable(X, a, k):
    return isinstance(a[0], (FuncVal, BoundMethod, ClassVal, Builtin))


BUILTINS = {
    'len': b_len, 'abs': b_abs, 'all': b_all, 'any': b_any, 'sum': b_sum,
    'min': b_minmax('<'), 'max': b_minmax('>'), 'isinstance': b_isinstance,
    'tuple': b_tuple, 'list': b_list, 'dict': b_dict, 'set': b_set, 'frozenset': b_set, 'range': b_range,
    'enumerate': b_enumerate, 'zip': b_zip, 'reversed': b_reversed, 'map': b_map,
    'sorted': b_sorted, 'int': b_int, 'bool': b_bool, 'divmod': b_divmod, 'pow': b_pow,
    'round': b_round, 'id': b_id, 'getattr': b_getattr, 'setattr': b_setattr, 'hasattr': b_hasattr,
    'str': b_str, 'repr': lambda X, a, k: Opaque('repr'), 'next': b_next, 'iter': b_iter,
    'print': lambda X, a, k: None, 'type': b_type, 'callable': b_callable,
    'float': lambda X, a, k: SF(zreal(a[0])),
}


def x_gcd(X, a, k):
    if all(isinstance(v, int) for v in a):
        import math
        return math.gcd(*a)
    a = [v.to_int(X) if isinstance(v, Ext) and hasattr(v, 'is_int') and v.is_int(X) else v for v in a]
    if len(a) != 2 or not all(is_int(v) for v in a):
        if any(isinstance(v, Ext) for v in a):
            raise PyRaise(TypeError, ())
        raise Untranslatable('math.gcd')
    x, y = zint(a[0]), zint(a[1])
    g = X.fresh('gcd')
    p, q = X.fresh('gq'), X.fresh('gq')
    X.assume(z3.And(x == g * p, y == g * q, g >= 0, z3.Implies(z3.Or(x != 0, y != 0), g >= 1)))
    X.assume(z3.Implies(x != 0, g <= z3.If(x >= 0, x, -x)))
    X.assume(z3.Implies(y != 0, g <= z3.If(y >= 0, y, -y)))
    X.ghost.setdefault('div', []).append((x, g, p))
    X.ghost['div'].append((y, g, q))
    return SI(g)


def x_pairwise(X, a, k):
    return GenV(itertools.pairwise(X.need_iter(a[0])))


def x_floor(X, a, k):
    v = a[0]
    if is_int(v):
        return v
    return SI(z3.ToInt(zreal(v)))


def x_ceil(X, a, k):
    v = a[0]
    if is_int(v):
        return v
    return SI(-z3.ToInt(-zreal(v)))


def x_isqrt(X, a, k):
    v = a[0]
    if isinstance(v, int):
        import math
        if v < 0:
            raise PyRaise(ValueError, ())
        return math.isqrt(v)
    x = zint(v)
    if X.branch(x < 0):
        raise PyRaise(ValueError, ())
    s = X.fresh('isqrt')
    X.assume(z3.And(s >= 0, s * s <= x, x < (s + 1) * (s + 1), z3.Implies(x >= 2, z3.And(s >= 1, s < x))))
    return SI(s)


def x_log(X, a, k):
    """assumed of the float library: logarithms of numbers >= 1 (to bases > 1) are >= 0"""
    r = X.fresh('log', 'real')
    if all(is_int(v) for v in a):
        X.assume(z3.Implies(z3.And(zint(a[0]) >= 1, zint(a[1]) > 1 if len(a) > 1 else True), r >= 0))
    return SF(r)


def x_float(X, a, k):
    return SF()


def x_count(X, a, k):
    return CountV(a[0] if a else 0)


def x_defaultdict(X, a, k):
    return Dct({}, default=a[0] if a else None)


EXTERNS = {
    'math.gcd': x_gcd, 'itertools.pairwise': x_pairwise, 'math.floor': x_floor, 'math.ceil': x_ceil,
    'math.isqrt': x_isqrt, 'math.sqrt': x_float, 'math.log': x_log, 'math.log2': x_log,
    'math.log10': x_log, 'itertools.count': x_count, 'collections.defaultdict': x_defaultdict,
    'itertools.chain': lambda X, a, k: GenV(itertools.chain(*[X.need_iter(v) for v in a])),
}


# ---- methods of builtin containers
def l_append(X, o, v):
    if o.tail is not None:
        if hasattr(o.tail, 'append'):
            return o.tail.append(X, o, v)
        raise Untranslatable('append to opaque list')
    o.items.append(v)


def l_pop(X, o, k=-1):
    if k == -1 and o.tail is None:
        if not o.items:
            raise PyRaise(IndexError, ())
        return o.items.pop()
    if isinstance(k, int) and k >= 0:
        X.materialise(o, k + 1)
        if k < len(o.items):
            return o.items.pop(k)
        raise PyRaise(IndexError, ())
    raise Untranslatable('pop')


def l_insert(X, o, k, v):
    if isinstance(k, int) and k >= 0:
        X.materialise(o, k)
        o.items.insert(k, v)
        return
    raise Untranslatable('insert')


def l_extend(X, o, v):
    if o.tail is not None:
        raise Untranslatable('extend opaque')
    o.items += X.to_list(v)


def l_clear(X, o):
    o.items.clear()
    o.tail = None


def l_reverse(X, o):
    if o.tail is not None:
        raise Untranslatable('reverse opaque')
    o.items.reverse()


def l_copy(X, o):
    return Lst(o.items, o.tail)


def d_get(X, o, k, default=None):
    for x in list(o.d):
        if X.truth(X.eqb(x, k)):
            return o.d[x]
    return default


def d_items(X, o):
    return GenV(iter([(k, v) for k, v in o.d.items()]))


def d_setdefault(X, o, k, default=None):
    for x in list(o.d):
        if X.truth(X.eqb(x, k)):
            return o.d[x]
    X.dict_set(o, k, default)
    return default


def d_pop(X, o, k, *default):
    for x in list(o.d):
        if X.truth(X.eqb(x, k)):
            return o.d.pop(x)
    if default:
        return default[0]
    raise PyRaise(KeyError, (k,))


def set_add(X, o, v):
    if not X.truth(X.contains(o, v)):
        o.s.append(v)


def set_discard(X, o, v):
    for i, x in enumerate(o.s):
        if X.truth(X.eqb(x, v)):
            del o.s[i]
            return


def set_remove(X, o, v):
    for i, x in enumerate(o.s):
        if X.truth(X.eqb(x, v)):
            del o.s[i]
            return
    raise PyRaise(KeyError, ())


def set_pop(X, o):
    if not o.s:
        raise PyRaise(KeyError, ())
    i = X.choose(len(o.s), 'set.pop')
    return o.s.pop(i)


def s_join(X, o, it):
    items = X.to_list(it)
    if all(isinstance(i, str) for i in items):
        return o.join(items)
    return Opaque('str')


def s_method(name):
    def f(X, o, *a):
        if all(isinstance(x, (str, int)) for x in a):
            r = getattr(o, name)(*a)
            return Lst(r) if isinstance(r, list) else r
        return Opaque('str')
    return f


METHODS = {
    ('Lst', 'append'): l_append, ('Lst', 'pop'): l_pop, ('Lst', 'insert'): l_insert, ('Lst', 'extend'): l_extend,
    ('Lst', 'clear'): l_clear, ('Lst', 'reverse'): l_reverse, ('Lst', 'copy'): l_copy,
    ('Dct', 'get'): d_get, ('Dct', 'items'): d_items, ('Dct', 'keys'): lambda X, o: GenV(iter(list(o.d))),
    ('Dct', 'values'): lambda X, o: GenV(iter(list(o.d.values()))), ('Dct', 'setdefault'): d_setdefault,
    ('Dct', 'pop'): d_pop, ('Dct', 'copy'): lambda X, o: Dct(o.d, o.default),
    ('SetV', 'add'): set_add, ('SetV', 'discard'): set_discard, ('SetV', 'remove'): set_remove,
    ('SetV', 'pop'): set_pop, ('SetV', 'copy'): lambda X, o: SetV(o.s),
    ('str', 'join'): s_join, ('str', 'format'): lambda X, o, *a, **k: Opaque('str'),
}
for _n in ('split', 'strip', 'find', 'replace', 'startswith', 'endswith', 'lower', 'upper', 'rstrip', 'lstrip', 'count'):
    METHODS['str', _n] = s_method(_n)
