"""Which functions each property puts under contract (per family: contracts, value domain, loop invariants)."""
from __future__ import annotations
from . import numspec, tapespec, rulespec, macrospec, runspec, rtapespec, rrulespec, rbackspec, rreasonspec, rquickspec, rsegspec, rtreespec, rinstrspec, rgraphspec, rrunspec
from .numdom import NumDomain, NUM


class Family:
    name = ''
    files = ()
    loops = ()
    assumptions = ()

    def contracts(self, world):
        return {}

    def domain(self):
        return None

    def world(self):
        from .source import World
        return World()

    def interp(self, w, cs, opts=None):
        from .engine import Interp
        return Interp(w, cs, self.domain(), self.loops, opts or {})

    trusted = ('pyvc: the verification-condition generator in /verif/pyvc (symbolic execution of the Python AST)',
               'z3 4.x (python3-vt), the polynomial normaliser in pyvc/prover.py',
               'the matching of power-lemma instances in pyvc/prover.py (the lemmas themselves are proved by induction in '
               'pyvc/lemmas.py on every run)', 'the congruence procedure pyvc/congr.py',
               'CPython\'s ast module')

    def falsifier(self, pid):
        return True

    def lemmas(self):
        return []

    def falsify(self, pid, secs, seed, problems):
        return dict(evaluations=0), None


class NumFamily(Family):
    name = 'num'
    files = (NUM,)
    loops = numspec.LOOPS
    assumptions = (
        'CPython evaluates the translated subset of Python as the interpreter in pyvc/engine.py does (cross-checked '
        'concretely by the falsifier on every run)',
        'a raised exception is not an answer: the postconditions constrain returned values only (partial correctness; '
        'termination is not shown)',
        'hash/equality of dict keys: the interning tables are only written by make_add/make_mul/make_div/make_exp (N06)',
        'a quotient object is only built when its denominator divides its numerator (precondition of make_div)',
        'a non-negative symbolic exponent is at least 1 and exceeds the logarithm of every plain int divisor',
        'comparisons between counts answer arbitrarily here (their correctness is N05)',
        'math.log/round return some float; only the use made of it is verified',
    )

    def contracts(self, world):
        return numspec.op_contracts(world)

    def domain(self):
        return NumDomain()

    def lemmas(self):
        from . import lemmas
        return lemmas.prove_all()

    def falsify(self, pid, secs, seed, problems):
        from fz import common, num_fz
        hints = {}
        cl = {m for p in problems for m in self.CLASSES if f':{m}.' in p['name'] or f':make_{m.lower()}' in p['name']}
        if problems and cl:
            hints['classes'] = sorted(cl)
        n, info, st = common.search(num_fz.run(pid), seed, secs, hints)
        st.pop('errors', None) if not st.get('errors') else None
        return dict(evaluations=n, answers=st.get('answers', 0), samples=st.get('samples', [])[:4],
                    errors=st.get('errors', []), seconds=secs), info

    CLASSES = ('Add', 'Mul', 'Div', 'Exp')

    def required(self, world, pid):
        """(class, method) pairs that must resolve to a function under contract"""
        out = []
        skip = {('Add', '__pow__'), ('Mul', '__pow__'), ('Div', '__pow__')}
        for c in self.CLASSES:
            for m in numspec.GROUPS[pid]:
                if (c, m) in skip or m == '__ne__':
                    continue
                out.append(f'{NUM}:{c}.{m}')
        return out

    def roots(self, world, cs, pid):
        keys, missing = [], []
        for r in self.required(world, pid):
            fv = world.func(r)
            if fv is None or fv.qual not in cs:
                missing.append(r)
            elif fv.qual not in keys:
                keys.append(fv.qual)
        if pid in ('N02', 'N06'):
            keys += [k for k in cs if ':make_' in k]
        if pid == 'N02':
            keys += [f'{NUM}:add_exponents']
        if pid == 'N03':
            keys += [f'{NUM}:gcd']
        if pid == 'N04':
            keys += [f'{NUM}:find_period']
        return [k for k in keys if world.func(k) is not None], missing

    OPS = {'op:+': numspec.EXACT, 'op:-': numspec.EXACT, 'op:*': numspec.MULS, 'op://': numspec.DIVS,
           'op:%': numspec.MODS, 'op:**': ('__pow__', '__rpow__'), 'op:neg': ('__neg__',), 'op:divmod': ('__divmod__',)}

    def callees(self, world, cs, used, pid):
        """contracts relied on: verified too, except the remainder (N04) and comparisons (N05)"""
        out = []
        for u in used:
            if u in cs:
                out.append(u)
            elif u in self.OPS:
                if u == 'op:%' and pid != 'N04':
                    continue
                for c in self.CLASSES:
                    for m in self.OPS[u]:
                        fv = world.func(f'{NUM}:{c}.{m}')
                        if fv is not None and fv.qual in cs:
                            out.append(fv.qual)
        if pid != 'N05':
            out = [k for k in out if k.rsplit('.', 1)[-1] not in numspec.CMPS]
        if pid != 'N04':
            out = [k for k in out if not k.endswith('.__mod__') and not k.endswith(':find_period')]
        return out


TITLES = {}


class RootFamily(Family):
    """roots listed per property; optional ones may be refactored away"""
    ROOTS = {}
    OPTIONAL = {}
    FZ = None

    def roots(self, world, cs, pid):
        keys, missing = [], []
        for k in self.ROOTS[pid]:
            k = self.full(k)
            fv = world.func(k)
            if fv is None or fv.qual not in cs:
                missing.append(k)
            else:
                keys.append(fv.qual)
        for k in self.OPTIONAL.get(pid, ()):
            fv = world.func(self.full(k))
            if fv is not None and fv.qual in cs:
                keys.append(fv.qual)
        return keys, missing

    def full(self, k):
        return k if ':' in k else f'{self.files[0]}:{k}'

    def callees(self, world, cs, used, pid):
        return [u for u in used if u in cs and cs[u].verify]

    def falsify(self, pid, secs, seed, problems):
        import importlib
        from fz import common
        m = importlib.import_module(f'fz.{self.FZ}')
        n, info, st = common.search(m.run(pid), seed, secs, {})
        return dict(evaluations=n, samples=st.get('samples', [])[:4], errors=st.get('errors', []), seconds=secs,
                    **{k: v for k, v in st.items() if isinstance(v, int)}), info


class TapeFamily(RootFamily):
    name = 'tape'
    files = (tapespec.TAPE,)
    FZ = 'tape_fz'
    ROOTS = {
        'T01': ('Tape.step',),
        'T02': ('Tape.blank', 'Tape.marks', 'Tape.at_edge', 'Tape.span_lens', 'Tape.counts', 'Tape.signature', 'Tape.get_count',
                'Tape.set_count', 'Tape.sig_compatible', 'Tape.clone'),
        'T03': ('Tape.to_enum', 'EnumTape.__init__', 'EnumTape.step', 'EnumTape.get_count', 'EnumTape.set_count', 'EnumTape.scan',
                'EnumTape.offsets', 'EnumTape.edges', 'EnumTape.signature'),
    }
    OPTIONAL = {'T02': ('Block.clone',), 'T03': ('EnumTape.check_offsets',)}
    assumptions = (
        'CPython evaluates the translated subset of Python as the interpreter in pyvc/engine.py does (cross-checked '
        'concretely by the falsifier on every run)',
        'counts are mathematical integers: a symbolic count answers +, -, == exactly (properties N01, N06)',
        'precondition: counts are at least 1, neighbouring blocks differ in colour, the outermost block of a span is not blank, '
        'no block object occurs twice; re-proved by step for the tape it leaves',
        'id() tells live objects apart; the address of a destroyed block may be used again',
    )

    def contracts(self, world):
        return tapespec.tape_contracts(world)

    def domain(self):
        return tapespec.TapeDomain()


class RuleFamily(RootFamily):
    name = 'rules'
    files = (rulespec.RULES,)
    loops = rulespec.LOOPS
    FZ = 'rules_fz'
    ROOTS = {
        'R01': ('calculate_diff',),
        'R02': ('apply_rule', 'count_apps'),
        'R03': ('make_rule',),
    }
    OPTIONAL = {'R01': ('calculate_op_seq',), 'R02': ('apply_mult', 'apply_ops')}
    assumptions = (
        'CPython evaluates the translated subset of Python as the interpreter in pyvc/engine.py does (cross-checked '
        'concretely by the falsifier on every run)',
        'a raised exception is no answer (RuleLimit ends the run); termination is not shown',
        'arithmetic of symbolic counts is exact (N01-N04), comparisons between counts are right when they answer (N05: not shown)',
        'counts are at least 1 (T01); a symbolic count exceeds what a rule subtracts at a time',
        'quotients inside rules are exact and exponents positive',
        'the op ~ takes the exponent of a power, whatever its base',
        'get_count and set_count of a tape read and write the count of one position only (T02, T03)',
    )

    def lemmas(self):
        from . import lemmas
        return lemmas.prove_all() + lemmas.prove_rules()

    def contracts(self, world):
        return rulespec.rule_contracts(world)

    def domain(self):
        return rulespec.RuleDomain()


class MacroFamily(RootFamily):
    name = 'macro'
    files = (macrospec.MACRO,)
    loops = macrospec.LOOPS
    FZ = 'macro_fz'
    ROOTS = {
        'M01': ('MacroProg.run_simulator', 'MacroProg.calculate_instr', 'MacroProg.__getitem__'),
        'M02': ('TapeColorConverter.__init__', 'TapeColorConverter.tape_to_color', 'TapeColorConverter.color_to_tape',
                'make_macro', 'prog_params', 'MacroProg.__init__'),
        'M03': ('MacroProg.run_simulator', 'BlockLogic.sim_lim', 'BacksymbolLogic.sim_lim', 'MacroProg.__init__'),
    }
    OPTIONAL = {'M01': tuple(f'{c}.{m}' for c in ('BlockLogic', 'BacksymbolLogic')
                             for m in ('deconstruct_inputs', 'reconstruct_outputs')),
                'M02': ('make_converter', 'make_block', 'make_backsym', 'make_block_macro', 'make_backsymbol_macro') + tuple(
                    f'{c}.{m}' for c in ('BlockLogic', 'BacksymbolLogic') for m in ('__init__', 'macro_states', 'macro_colors',
                                                                                 'deconstruct_inputs', 'reconstruct_outputs'))}
    assumptions = (
        'CPython evaluates the translated subset of Python as the interpreter in pyvc/engine.py does (cross-checked '
        'concretely by the falsifier on every run)',
        'the compiled library answers for parsing (tcompile) and for the choice of a block size (opt_block); the concrete '
        'search replaces both by Python',
        'a window visits finitely many configurations: a run longer than their number repeats one (pigeonhole)',
        'positional notation: tapes of one width over digits below the base have distinct values (lemma, by induction)',
        'a block macro has at least one cell; program tables name states and colours by natural numbers',
    )

    def contracts(self, world):
        return macrospec.macro_contracts(world)

    def domain(self):
        return macrospec.MacroDomain()

    def lemmas(self):
        from . import lemmas
        return lemmas.prove_positional()


class RunFamily(RootFamily):
    name = 'run'
    files = (runspec.MACHINE, runspec.PROVER)
    loops = runspec.LOOPS
    FZ = 'run_fz'
    ROOTS = {
        'X01': ('Machine.run', 'Machine.__init__', 'Machine.simple_termination', 'Machine.marks'),
        'P01': ('tm/prover.py:Prover.get_rule',),
        'P02': ('tm/prover.py:Prover.try_rule', 'tm/prover.py:Prover.run_simulator'),
    }
    OPTIONAL = {'P01': ('tm/prover.py:Prover.get_min_sig', 'tm/prover.py:Prover.set_rule')}
    OWN = {'X01': ('tm/machine.py',), 'P01': (), 'P02': ('tm/prover.py',)}
    assumptions = (
        'CPython evaluates the translated subset of Python as the interpreter in pyvc/engine.py does (cross-checked '
        'concretely by the falsifier on every run)',
        'tape operations are those proved under T01-T03, rule inference and application those of R01-R03, the program (macro or '
        'table) one of M01-M03; here they are uninterpreted functions of the tape, the state and the program',
        'a machine object runs once; sim_lim is at least 1',
        'a rule inferred from four observations holds for every repetition (the inference is a conjecture; only its evidence is '
        'verified)',
        'an infinite-rule claim (no count decreases) and the repeat of a blank tape are taken as meaning "never halts"',
        'a raised exception other than those the run handles ends it without a verdict',
    )

    def contracts(self, world):
        return runspec.run_contracts(world)

    def domain(self):
        return runspec.RunDomain()

    def callees(self, world, cs, used, pid):
        return [u for u in used if u in cs and cs[u].verify and u.startswith(self.OWN[pid])]


class RustFamily(RootFamily):
    """functions of the crate: lowered from /repo/src on every run (rparse, rlower), interpreted by rengine"""
    MODULES = ('instrs', 'tape')
    trusted = tuple(t for t in Family.trusted if 'CPython' not in t and 'symbolic execution' not in t) + (
        'pyvc: the verification-condition generator in /verif/pyvc, its Rust parser and lowering (rparse, rlower) and its reading of '
        'the standard library used (rengine)',)
    RUST = (
        'the lowering and the interpreter read Rust as rustc does (checked concretely: the falsifier compiles /repo/src and compares)',
        'machine integers are mathematical: no wrapping, no lossy cast, no unsigned underflow',
        'a panic is no answer; termination is not shown',
    )

    def world(self):
        from .rengine import RWorld
        w = RWorld()
        for m in self.MODULES:
            w.module(f'src.{m}')
        return w

    def interp(self, w, cs, opts=None):
        from .rengine import RInterp
        return RInterp(w, cs, self.domain(), self.loops, opts or {})

    def falsify(self, pid, secs, seed, problems):
        import importlib
        from fz import common, rust
        m = importlib.import_module(f'fz.{self.FZ}')
        try:
            exe = rust.build(m.MAIN, m.PROBES, fallback=getattr(m, 'FALLBACK', None))
        except rust.BuildError as e:
            return dict(evaluations=0, errors=[str(e)[-1500:]]), None
        n, info, st = common.search(m.run(pid, exe), seed, secs, {})
        return dict(evaluations=n, samples=st.get('samples', [])[:4], errors=st.get('errors', []), seconds=secs,
                    **{k: v for k, v in st.items() if isinstance(v, int)}), info


class RTapeFamily(RustFamily):
    name = 'rtape'
    files = (rtapespec.RT,)
    FZ = 'rtape_fz'
    ROOTS = {
        'T04': tuple(f'Tape.{n}' for n in ('step', 'blank', 'at_edge', 'marks', 'blocks', 'span_lens', 'counts', 'signature', 'get_count',
                                           'set_count', 'sig_compatible', 'init', 'init_stepped')) +
               tuple(f'HeadTape.{n}' for n in ('step', 'at_edge', 'init_stepped')),
        'T05': tuple(f'EnumTape.{n}' for n in ('from', 'step', 'get_count', 'set_count', 'scan', 'offsets', 'edges', 'signature')),
    }
    assumptions = RustFamily.RUST + (
        'precondition: counts are at least 1, neighbouring blocks differ in colour, the outermost block of a span is not blank; '
        're-proved by step for the tape it leaves',
    )

    def contracts(self, world):
        return rtapespec.contracts(world)

    def domain(self):
        return rtapespec.RTapeDomain()


class RRuleFamily(RustFamily):
    name = 'rrules'
    files = (rrulespec.RR,)
    loops = rrulespec.LOOPS
    MODULES = ('instrs', 'tape', 'rules')
    FZ = 'rrules_fz'
    ROOTS = {'R04': ('make_rule', 'apply_rule')}
    OPTIONAL = {'R04': ('calculate_diff', 'count_apps')}
    assumptions = RustFamily.RUST + (
        'counts are at least 1 (T04) and below 2**31 where a rule is made; get_count and set_count of a tape read and write one count (T04, T05)',
        'a rule with a multiplying operation is never applied: the code panics',
    )

    def contracts(self, world):
        return rrulespec.contracts(world)

    def domain(self):
        return rrulespec.RRuleDomain()


class RBackFamily(RustFamily):
    name = 'rback'
    files = (rbackspec.RB,)
    loops = rreasonspec.LOOPS
    MODULES = ('instrs', 'tape', 'reason')
    FZ = 'rreason_fz'
    ROOTS = {'B01': tuple(f'Backstepper.{n}' for n in ('check_step', 'backstep', 'blank', 'init_halt', 'init_blank', 'init_spinout'))}
    ROOTS['B02'] = ('cant_halt', 'cant_blank', 'cant_spin_out')
    OPTIONAL = {'B02': ('get_valid_steps', 'step_configs', 'halt_configs', 'erase_configs', 'zero_reflexive_configs', 'get_entrypoints')}
    assumptions = RustFamily.RUST + (
        'precondition: counts of blocks are at least 1; re-proved by backstep',
        'B02: the start configuration is not itself the target; configurations are what runs from the blank tape reach',
        'B02: Config::lin_rec is taken to give any answer (it only reads, and a true answer only leads to None)',
    )

    def contracts(self, world):
        return rreasonspec.contracts(world)

    def domain(self):
        return rreasonspec.ReasonDomain()

    def lemmas(self):
        from . import lemmas
        return lemmas.prove_reason()


class RRunFamily(RustFamily):
    name = 'rrun'
    files = (rrunspec.RM, rrunspec.RP)
    loops = rrunspec.LOOPS
    MODULES = ('instrs', 'tape', 'rules', 'prover', 'machine')
    FZ = 'rrun_fz'
    ROOTS = {'X02': ('run_quick_machine', 'run_prover') + tuple(f'MachineResult.{n}' for n in (*rrunspec.GETTERS, 'steps', 'cycles', 'marks',
                                                                                             'rulapp')),
             'P03': ('src/prover.rs:Prover.try_rule', 'src/prover.rs:Prover.get_rule', 'src/prover.rs:Prover.new')}
    OPTIONAL = {'P03': tuple(f'src/prover.rs:{n}' for n in ('Prover.run_simulator', 'Prover.get_min_sig', 'Prover.set_rule', 'PastConfigs.new',
                                                            'PastConfigs.next_deltas', 'PastConfigs.delete_configs'))}
    OWN = {'X02': (rrunspec.RM,), 'P03': (rrunspec.RP,)}
    assumptions = RustFamily.RUST + (
        'tape operations are those proved under T04 and T05, rule inference and application that of R04; here they are uninterpreted '
        'functions of the tape, the state and the program',
        'a rule inferred from four observations holds for every repetition (the inference is a conjecture; only its evidence is verified)',
        'an infinite-rule claim (no count decreases) and the repeat of a blank tape are taken as meaning "never halts"',
    )

    def contracts(self, world):
        return rrunspec.contracts(world)

    def domain(self):
        return rrunspec.RunDomain()

    def callees(self, world, cs, used, pid):
        return [u for u in used if u in cs and cs[u].verify and u.startswith(self.OWN[pid])]


class RQuickFamily(RustFamily):
    name = 'rquick'
    files = (rquickspec.RM, rquickspec.RT)
    loops = rquickspec.LOOPS
    MODULES = ('instrs', 'tape', 'rules', 'prover', 'machine')
    FZ = 'rquick_fz'
    ROOTS = {'Q01': ('src/machine.rs:quick_term_or_rec', 'src/tape.rs:Alignment.aligns_with')}
    OPTIONAL = {'Q01': ('src/tape.rs:HeadTape.get_slice',)}
    assumptions = RustFamily.RUST + (
        'HeadTape.step, at_edge and init_stepped are those of T04; in the search they are uninterpreted functions of the tape',
        'the first instruction of the program is 1RB (the search starts after it)',
        'blocks tell the cells: equal lists of blocks are equal cells (derived equality of Span)',
    )

    def contracts(self, world):
        return rquickspec.contracts(world)

    def domain(self):
        return rquickspec.QuickDomain()

    def lemmas(self):
        from . import lemmas
        return lemmas.prove_quick()


class RSegFamily(RustFamily):
    name = 'rseg'
    files = (rsegspec.RS,)
    loops = rsegspec.LOOPS
    MODULES = ('instrs', 'segment')
    FZ = 'rseg_fz'
    ROOTS = {'S01': ('segment_cant_halt', 'all_segments_reached') + tuple(
        f'Tape.{n}' for n in ('init', 'blank', 'at_edge', 'pos', 'side', 'step_in', 'step'))}
    OPTIONAL = {'S01': ('Config.run_to_edge', 'Configs.new', 'Configs.next', 'Configs.branch_in', 'Configs.branch_out', 'AnalyzedProg.new')}
    assumptions = RustFamily.RUST + (
        'precondition: every state and colour of the program is below the given numbers of states and colours, and segs >= 2',
        'Configs::check_depth is taken to give any answer (it only reads, and a true answer only leads to None)',
    )

    def contracts(self, world):
        return rsegspec.contracts(world)

    def domain(self):
        return rsegspec.SegDomain()

    def lemmas(self):
        from . import lemmas
        return lemmas.prove_segment()


class RTreeFamily(RustFamily):
    name = 'rtree'
    files = (rtreespec.TREE,)
    loops = rtreespec.LOOPS
    MODULES = ('instrs', 'tape', 'tree')
    FZ = 'rtree_fz'
    ROOTS = {'E01': ('tree_progs', 'build_tree', 'branch', 'leaf', 'run_for_undefined', 'make_instrs')}
    assumptions = RustFamily.RUST + (
        'precondition: at least two states and two colours, so that at least three slots besides the halt slot are there',
        'rayon for_each calls its closure once for each element; std BTreeMap get/insert/remove/values',
        'the harvester is any function that leaves the program as it is',
    )

    def contracts(self, world):
        return rtreespec.contracts(world)

    def domain(self):
        return rtreespec.TreeDomain()

    def lemmas(self):
        from . import lemmas
        return lemmas.prove_tree()


class RInstrFamily(RustFamily):
    name = 'rinstr'
    files = (rinstrspec.INSTRS,)
    loops = rinstrspec.LOOPS
    MODULES = ('instrs',)
    FZ = 'rinstr_fz'
    ROOTS = {'L01': ('show_state', 'show_slot', 'read_slot', 'show_instr', 'read_instr', 'CompProg.from_str', 'CompProg.show')}
    LIB = False
    assumptions = RustFamily.RUST + (
        'precondition: colours are at most 9 and states at most 190; every cell of a text is "..." or a digit, L or R and a letter; '
        'cells are apart by one space, rows by two',
        'std: str split/trim/chars/contains, char::to_digit, format!, join, BTreeMap collect/insert/get',
    )

    def contracts(self, world):
        return rinstrspec.contracts(world, self.LIB)

    def domain(self):
        return rinstrspec.InstrDomain()

    def roots(self, world, cs, pid):
        """methods of CompProg are those of the traits on it"""
        own = [f.rsplit('.', 1)[1] for f in self.ROOTS[pid] if '.' in f]
        keys = [rinstrspec.ext_key(world, f) for f in own]
        names = [f'{self.files[0]}:{f}' for f in self.ROOTS[pid] if '.' not in f]
        good = [k for k in keys + names if world.func(k) is not None and k in cs]
        return good, [k for k in keys + names if k not in good]


class RLibFamily(RInstrFamily):
    name = 'rlib'
    files = (rinstrspec.LIB,)
    MODULES = ('instrs', 'lib')
    LIB = True
    FZ = 'rlib_fz'
    ROOTS = {'L02': ('tcompile', 'py_show_comp') + tuple(n for n, *_ in rinstrspec.WRAPPED) + ('py_segment_cant_halt',)}
    assumptions = RustFamily.RUST + (
        'CompProg::from_str and show are those of L01; the functions called are those of B02, Q01, S01, G01 (opt_block is not '
        'under contract: only that the right program and argument reach it)',
    )


class RGraphFamily(RustFamily):
    name = 'rgraph'
    files = (rgraphspec.RG,)
    loops = rgraphspec.LOOPS
    MODULES = ('instrs', 'graph')
    FZ = 'rgraph_fz'
    ROOTS = {'G01': ('is_connected', 'get_exitpoints')}
    assumptions = RustFamily.RUST + (
        'precondition: at least one state, and no instruction is of or enters a state beyond them',
        'a set of different numbers of 1 .. n-1 has at most n-1 members; a set of states as large as that of all states has them all',
        'std: BTreeMap entry/values_mut/len, Vec push/pop/contains/sort/dedup, BTreeSet insert/contains',
    )

    def contracts(self, world):
        return rgraphspec.contracts(world)

    def domain(self):
        return rgraphspec.GraphDomain()

    def lemmas(self):
        from . import lemmas
        return lemmas.prove_graph()


FAMILIES = {'rgraph': RGraphFamily(), 'rinstr': RInstrFamily(), 'rlib': RLibFamily(), 'rtree': RTreeFamily(), 'rseg': RSegFamily(), 'rquick': RQuickFamily(), 'rrun': RRunFamily(), 'rback': RBackFamily(), 'rrules': RRuleFamily(), 'rtape': RTapeFamily(), 'run': RunFamily(), 'macro': MacroFamily(), 'num': NumFamily(), 'tape': TapeFamily(), 'rules': RuleFamily()}

# property -> family
PROPS = {p: 'num' for p in ('N01', 'N02', 'N03', 'N04', 'N06')}
PROPS.update({p: 'tape' for p in ('T01', 'T02', 'T03')})
PROPS.update({p: 'rules' for p in ('R01', 'R02', 'R03')})
PROPS.update({p: 'macro' for p in ('M01', 'M02', 'M03')})
PROPS.update({'R04': 'rrules', 'B01': 'rback', 'B02': 'rback'})
PROPS.update({p: 'rtape' for p in ('T04', 'T05')})
PROPS.update({p: 'run' for p in ('X01', 'P01', 'P02')})
PROPS.update({p: 'rrun' for p in ('X02', 'P03')})
PROPS['Q01'] = 'rquick'
PROPS['S01'] = 'rseg'
PROPS['E01'] = 'rtree'
PROPS['L01'], PROPS['L02'] = 'rinstr', 'rlib'
PROPS['G01'] = 'rgraph'

# properties whose statement speaks of what functions do that other properties specify: their concrete search is run as well
# ('T04t': without the tape with a head position, which the prover and the machine do not use)
DEPS = {'P01': ('T03',), 'P02': ('R01', 'R03'), 'P03': ('T05', 'R04'), 'X01': ('R01', 'R02', 'R03'), 'X02': ('T04t', 'R04')}
