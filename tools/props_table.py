SETUP = 'python3-vt -m pyvc.setup'
NOTES = ('No hooks: /repo is verified as it is. Functions are extracted mechanically (Python ast) from /repo on every run. '
         'known_findings.txt lists the genuine defects found.')
NUMNOTE = ('Every path of every operator function under contract is proved for all operands (no bound) from the AST of /repo\'s '
           'current tm/num.py, callers against callee contracts; partial correctness (an exception is no answer). Trusted: pyvc, '
           'z3, CPython\'s ast. Assumes comparisons answer anything, quotients are built exact, symbolic exponents are >= 1 and '
           'exceed the logarithm of any plain divisor. A concrete search on the real code cross-checks every run.')
NUMTESTS = ('The unit tests compare a few hundred hand-picked expressions; the operators branch on the shape of both operands '
            '(sums, products, quotients, towers) and every combination of shapes and sizes must be right.')
prop('N01', 'Adding, subtracting and negating symbolic counts is exact',
     'Whenever the sum, difference or negation of two counts (plain integers or symbolic sums, products, quotients and powers) is '
     'returned, its value is exactly the mathematical sum, difference or negation of the values of the operands. No operation '
     'silently loses a term, a sign or a factor.',
     ['inputs'], 'all pairs of well-formed counts of every shape and size, including plain integers on either side', NUMTESTS,
     ['tm/num.py'], [('sums merge like terms', 'tm/num.py: the add, radd, sub, rsub and neg operators of Add, Mul, Div, Exp'),
                     ('powers of one base are merged', 'tm/num.py: add_exponents')],
     ['the integer value of the result'], note=NUMNOTE)
prop('N02', 'Multiplying and raising symbolic counts is exact',
     'Whenever a product or a power involving a symbolic count is returned, its value is exactly the mathematical product or power '
     'of the operands. Building a power in a normalized base does not change its value.',
     ['inputs'], 'all well-formed operands of every shape, positive and negative integer factors, all bases of at least 2', NUMTESTS,
     ['tm/num.py'], [('products absorb factors of the base', 'tm/num.py: the mul, rmul, pow, rpow operators'),
                     ('normalization of square bases', 'tm/num.py: make_exp')],
     ['the integer value of the result'], note=NUMNOTE)
prop('N03', 'Exact division of symbolic counts and their common divisors are right',
     'When a count is divided by an integer or power that divides it, the returned quotient times the divisor is exactly the count; '
     'quotient and remainder by a positive integer satisfy the division law with the remainder in range. The common divisor '
     'computed for an integer and a count divides both.',
     ['inputs'], 'all well-formed counts and all positive divisors (for the quotient: those that divide)', NUMTESTS,
     ['tm/num.py'], [('factors are cancelled part by part', 'tm/num.py: the floordiv operators, gcd'),
                     ('division with remainder', 'tm/num.py: divmod of counts')],
     ['the integer value of quotient and remainder'], note=NUMNOTE + ' One defect of the common divisor of a sum is recorded.')
prop('N04', 'The remainder of a symbolic count modulo an integer is right',
     'Whenever the remainder of a count by a positive integer is returned, it lies between 0 and the modulus minus 1 and differs '
     'from the value of the count by a multiple of the modulus. This includes powers with astronomically large exponents, where '
     'periods and tables of special cases are used.',
     ['inputs'], 'all well-formed counts and all positive moduli, all rows of the special-case tables', NUMTESTS +
     ' The tables for huge moduli have hundreds of rows of which the tests reach a few.',
     ['tm/num.py'], [('period of a base modulo an integer', 'tm/num.py: find_period'), ('square and multiply', 'tm/num.py: Exp mod'),
                     ('tables for moduli 2 * 3**k', 'tm/num.py: exp_mod_special_cases')],
     ['the remainder'], note=NUMNOTE)
prop('N06', 'Structurally equal counts are one object and equality is structural',
     'Building a sum, product, quotient or power twice from the same parts gives the same object with exactly these parts, and two '
     'counts are equal exactly if they are the same object. Hashing and equality of counts therefore agree wherever counts are '
     'used as keys.',
     ['inputs', 'histories'], 'all constructions in any order, any earlier history of constructed counts',
     'Tests look at a few equalities; a constructor that forgets to intern one shape only shows in long runs.',
     ['tm/num.py'], [('interning tables', 'tm/num.py: make_add, make_mul, make_div, make_exp'), ('identity equality', 'tm/num.py: Num eq')],
     ['identity of counts'], note=NUMNOTE)
prop('N05', 'Comparisons between symbolic counts agree with their values',
     'Whenever a comparison between two counts is answered, the answer is that of the mathematical values.',
     ['inputs'], 'all pairs of well-formed counts', NUMTESTS, ['tm/num.py'], [('order by shape', 'tm/num.py: lt of Num, Add, Mul, Div, Exp')],
     ['the answer'],
     na='The code orders counts by heuristics (a sum is compared by its larger-looking part) that are only right for the counts that '
        'arise in practice; no precondition under which they are right can be stated as a contract on the operands, and without one '
        'the postcondition is false (2**3 + 2**4 style operands).')
TAPENOTE = ('Every path of the functions under contract is proved for all tapes (any number of blocks, any counts) from the AST of /repo\'s '
            'current tm/tape.py. Trusted: pyvc, z3, CPython\'s ast. Counts are mathematical integers here (symbolic counts: N properties). '
            'A concrete search on the real code against a cell-by-cell tape cross-checks every run.')
prop('T01', 'A tape step rewrites exactly the cells the head passes, in canonical form',
     'A step writes the given colour into the scanned cell, or, for a repeated step, into the scanned cell and the whole run of the same '
     'colour ahead of it, moves the head past these cells and returns how many there were; every other cell keeps its colour. The tape '
     'stays canonical: positive counts, neighbouring blocks of different colours, no blank block at either end.',
     ['inputs', 'histories'], 'all canonical tapes (any number of blocks, any counts, any colours), directions, colours and both kinds of step',
     'Tests run a few machines; the block surgery has dozens of cases (edge, run of one, merge, reuse of a block) that must all keep the tape.',
     ['tm/tape.py'], [('run-length encoded step with block reuse', 'tm/tape.py: Tape.step')],
     ['colour of every cell', 'the returned number of steps'], note=TAPENOTE)
prop('T02', 'What a tape reports is what is written on it, and copies are independent',
     'Blankness, number of marks, being at an edge, block counts, lengths, signature and signature compatibility of a tape agree with its '
     'blocks and do not change it. Setting one count changes that count only. A copy has the same content and shares no block with the '
     'original, so changing one never changes the other. A signature lists the scanned colour and the colours of the blocks, '
     'those of one-cell blocks marked, and a tape is compatible with a signature exactly if the colours of the signature are the '
     'colours of its scanned cell and nearest blocks.',
     ['inputs'], 'all canonical tapes, all indices, all signatures (any length)',
     'Tests look at a few tapes; the reports are used for every halting, recurrence and rule decision.',
     ['tm/tape.py'], [('observers of Tape', 'tm/tape.py: blank, marks, at_edge, span_lens, counts, signature, sig_compatible, get_count, set_count'),
                      ('copies', 'tm/tape.py: Tape.clone, Block.clone')], ['answers of the observers'], note=TAPENOTE)
prop('T03', 'An enumerated tape records every original block a run depends on',
     'An enumerated copy of a tape runs exactly like the tape itself. It records for each side the number of the farthest original block '
     'that was consumed, reached, extended or whose count was read, neither less nor more, and that an edge was touched exactly if '
     'the run went beyond the last block of that side.',
     ['inputs', 'histories'], 'all canonical tapes, any state of the record, all steps and count reads in any order',
     'The record decides to which tapes a learned rule applies; a block forgotten in one case makes rules apply where they do not hold.',
     ['tm/tape.py'], [('block numbers by identity', 'tm/tape.py: EnumTape.__init__, check_offsets'), ('what a step looks at', 'tm/tape.py: EnumTape.step')],
     ['offsets, edges'], note=TAPENOTE)
RUSTNOTE = ('Every path of the functions under contract is proved for all inputs from the Rust source in /repo/src: a parser and a '
            'mechanical lowering (pyvc/rparse.py, rlower.py) rerun on every check feed the same verification-condition generator; dropped: '
            'test modules, Display and debug printing. Assumes integers without wrapping or lossy casts; a panic is no answer. Trusted: pyvc, '
            'z3, its reading of the std library. The concrete search compiles /repo/src with rustc and compares.')
prop('T04', 'Tape operations of the compiled library mean what they do cell by cell',
     'Stepping a tape of the compiled crate writes the colour, moves the head by one cell or over the whole run of the scanned '
     'colour, answers the number of cells moved, keeps all other cells and leaves every count positive, neighbouring blocks different and '
     'nothing blank at the ends. Blank, marks, edge, counts, signature, reading and setting a count and signature matching answer what the '
     'cells say. A tape with a head position moves it by the cells stepped.',
     ['inputs'], 'all canonical tapes of any length, all colours, directions and skips',
     'The crate is behind every fast filter of programs; its few unit tests step short tapes, errors need a certain neighbourhood.',
     ['src/tape.rs'], [('step, push and pull', 'src/tape.rs: Tape::step, Span::push, Span::pull'), ('observers', 'src/tape.rs: blank, marks, at_edge, counts, signature, sig_compatible'),
                       ('head position', 'src/tape.rs: HeadTape')], ['tapes and answers of the observers'], note=RUSTNOTE)
prop('T05', 'The compiled enumerated tape records every block a run depends on',
     'An enumerated copy of a tape of the compiled crate runs like the tape itself. It records for each side the number of the farthest '
     'original block that was consumed, reached or extended, neither less nor more, and that an edge was touched exactly if the run went '
     'beyond the last block of that side. Block numbers survive steps as long as the block does.',
     ['inputs', 'histories'], 'all canonical tapes, any state of the record, all steps in any order',
     'The record decides to which tapes a learned rule applies; a block forgotten in one case makes rules apply where they do not hold.',
     ['src/tape.rs'], [('block numbers', 'src/tape.rs: EnumTape::from, check_offsets'), ('what a step looks at', 'src/tape.rs: EnumTape::step, check_step')],
     ['offsets, edges'], note=RUSTNOTE)
RULENOTE = ('Every path of the functions under contract is proved for all counts, rules and tapes from the AST of /repo\'s current '
            'tm/rules.py; loops by invariants, callers against callee contracts; partial correctness (RuleLimit is no answer). Trusted: '
            'pyvc, z3, CPython\'s ast. Assumes exact count arithmetic (N01-N04), right comparisons (N05), exact quotients in rules.')
prop('R01', 'A learned operation explains every one of the four counts',
     'The operation learned from four successive counts (add a constant, multiply and add, or a sequence of operations on symbolic '
     'counts) leads from each of them to the next, from the first to the last, with no exception; no operation is learned exactly if '
     'all four are equal. A multiplying operation multiplies by at least 2.',
     ['inputs'], 'all quadruples of positive counts, plain or symbolic, of every shape',
     'Tests see the counts of some machines; a quadruple whose first three counts fit a pattern and whose last does not is rare there.',
     ['tm/rules.py'], [('four counts to one op', 'tm/rules.py: calculate_diff'), ('walk down and up the shape', 'tm/rules.py: calculate_op_seq')],
     ['the learned operation'], note=RULENOTE)
prop('R02', 'Applying a rule many times at once equals applying it one at a time',
     'A rule is applied to a tape exactly as often as possible: all decreasing counts stay at least 1, and afterwards some decreasing '
     'count is too small for one more application. Every count of the rule then is what that many single applications give, other '
     'counts are unchanged. A rule that cannot be applied once (or has no decreasing count) is refused and changes nothing.',
     ['inputs'], 'all rules (any number of positions, adding, multiplying and sequence operations) and all positive counts',
     'Tests run rules of some machines; which position limits a rule, exact multiples and mixed operations have too many combinations.',
     ['tm/rules.py'], [('number of applications', 'tm/rules.py: count_apps'), ('new counts', 'tm/rules.py: apply_rule'),
                       ('closed form of repeated multiplication', 'tm/rules.py: apply_mult'), ('sequences', 'tm/rules.py: apply_ops')],
     ['counts after the application', 'the returned number of applications'], note=RULENOTE)
prop('R03', 'A rule covers every changing count, and infinite means nothing decreases',
     'A rule made from four tapes of the same shape has an operation that explains the four counts at every position, and none exactly '
     'where the counts are equal. Such a rule has a decreasing position; the tapes are declared to repeat forever only if '
     'every position is explained and none of the adding operations is negative.',
     ['inputs'], 'all quadruples of tapes of any length on both sides, all positive counts, plain or symbolic',
     'A position that is dropped or a decreasing one that is overlooked yields wrong results (infinite instead of halting) on rare tapes only.',
     ['tm/rules.py'], [('all positions of both sides', 'tm/rules.py: make_rule')], ['the rule, or the announcement of an infinite one'], note=RULENOTE)
prop('R04', 'Rules of the compiled library are learned and applied exactly',
     'A rule the compiled crate makes from four lists of counts explains, at every position, each count from the one before, and has no entry '
     'exactly where the counts are equal. Applying a rule of additions is done as often as every decreasing count stays positive, '
     'changes each count by its amount times that number and no other count, and is refused, with the tape untouched, when not even one '
     'application is possible or nothing decreases.',
     ['inputs'], 'all lists of positive counts of any length, all rules of additions, all tapes',
     'There are no tests of these functions; rules with two decreasing counts are rare among the programs the crate is run on.',
     ['src/rules.rs'], [('learning', 'src/rules.rs: calculate_diff, make_rule'), ('number of applications', 'src/rules.rs: count_apps'), ('application', 'src/rules.rs: apply_rule, apply_plus')],
     ['rules, counts of the tape, number of applications'],
     note=RUSTNOTE + ' Rules with a multiplication are only made; applying them panics.')
REASONNOTE = ('Every path of the functions under contract is proved for all programs, depths, tapes and levels from the lowered source of '
              'src/reason.rs; loops by invariants, callers against callee contracts; the facts about partly known tapes the argument uses are '
              'lemmas proved from the cell-level contracts on every run. Trusted: pyvc with its Rust front end, z3. Integers mathematical. ')
prop('B01', 'A step back leads to exactly the tapes a step could have come from',
     'The backward reasoner works on partly known tapes: some cells known, each side blank or unknown beyond them. A step back is '
     'possible exactly if the cell the head would have come from can hold the printed colour; it leaves the tapes that step to the tape '
     'before it, every other cell, known or not, as it was. Blank means every known cell is; the initial tapes know what they say.',
     ['inputs'], 'all partly known tapes of any number of blocks, both directions, all colours',
     'Tests take a dozen steps back on three tapes; one cell too many or too few on a rare shape makes the reasoner refute what happens.',
     ['src/reason.rs'], [('possible step', 'src/reason.rs: Backstepper::check_step'), ('step', 'src/reason.rs: Backstepper::backstep'),
                         ('initial tapes', 'src/reason.rs: init_halt, init_blank, init_spinout')], ['partly known tapes'], note=REASONNOTE)
prop('B02', 'What the backward reasoner rules out never happens',
     'If cant_halt, cant_blank or cant_spin_out answer a number for a program, its run from the blank tape never halts at an undefined '
     'slot, never erases its tape, or never spins out. (The start state must be entered again from states that can recur, and every state '
     'entered and colour printed must have an instruction; the other programs are recorded findings.) Every level holds all '
     'configurations that lead into the level before.',
     ['inputs', 'histories'], 'all programs, all search depths, all numbers of configurations',
     'Tests compare counts of refuted programs; an unsound refutation of a single program deep in a search is invisible in them.',
     ['src/reason.rs'], [('search', 'src/reason.rs: cant_reach'), ('levels', 'src/reason.rs: get_valid_steps, step_configs'),
                         ('targets', 'src/reason.rs: halt_configs, erase_configs, zero_reflexive_configs'), ('entries', 'src/reason.rs: get_entrypoints')],
     ['the answers Some(_)'], note=REASONNOTE + 'Configurations in the run are assumed not to start at the target.')
MACRONOTE = ('Every path of the functions under contract is proved for all programs, cell counts, windows and histories of the caches from '
             'the AST of /repo\'s current tm/macro.py; callers against callee contracts. Trusted: pyvc, z3, CPython\'s ast; programs are '
             'maps (state, colour) -> instruction. A concrete comparison of every macro level with the level below cross-checks every run.')
prop('M01', 'A macro instruction is what the base machine does on the window',
     'Looking up a macro slot runs the level below on the window that the macro state and colour stand for, and answers the encoding of '
     'what it leaves there: the contents of the window when the head leaves it, the side it leaves by and the state it is in. If the run '
     'meets an undefined slot of the level below, that slot is reported. The answer is the same at every later lookup.',
     ['inputs', 'histories'], 'all programs, all numbers of cells, all macro states and colours, any earlier lookups',
     'Tests run a few machines with a few macro sizes; an error in one window (a slot that is undefined half way, leaving by one side from inside a run) is rare there.',
     ['tm/macro.py'], [('simulation inside the window', 'tm/macro.py: run_simulator'), ('decode, simulate, encode, cache', 'tm/macro.py: calculate_instr, __getitem__')],
     ['macro instructions'], note=MACRONOTE)
prop('M02', 'Macro states and colours encode windows uniquely at every level',
     'Every macro state stands for one side, base state (and backsymbol), every macro colour for one window of colours, blank for the '
     'blank window; decoding what was encoded gives it back, in each of the directions and at any later time. Macro levels '
     'are built in the order asked for, each over the level below with the states and colours that level has.',
     ['inputs', 'histories'], 'all numbers of cells, states and colours; all windows; all histories of the converters\' caches',
     'Tests exercise the encodings that a few machines visit.',
     ['tm/macro.py'], [('window <-> colour', 'tm/macro.py: TapeColorConverter, make_converter'), ('window <-> (state, colour)', 'tm/macro.py: BlockLogic, BacksymbolLogic'),
                       ('levels', 'tm/macro.py: make_macro, prog_params')], ['macro states, colours, tapes'], note=MACRONOTE)
prop('M03', 'A loop in a macro cell is declared only if the head never leaves it',
     'The simulation inside a window is declared to be a loop only after more steps than the window has configurations (of state, head '
     'position and contents), so only if the base machine never leaves that window.',
     ['inputs'], 'all programs and windows of blocks, and of backsymbols of one cell',
     'Whether a window takes long to leave depends on the machine; tests contain no counter that needs nearly all configurations.',
     ['tm/macro.py'], [('limit of the simulation', 'tm/macro.py: run_simulator, sim_lim')], ['InfLoop instead of an instruction'],
     note=MACRONOTE + ' For backsymbols of two and more cells the limit of the code is smaller than the number of configurations: there '
     'the contract only states the limit itself.')
RUNNOTE = ('Every path of Machine.run and of the prover is proved with loop invariants over all programs, tapes and numbers of cycles; '
           'tape operations, rule inference and rule application appear through the contracts proved under T01-T03 and R01-R03. '
           'Assumes those, a fresh machine object, sim_lim >= 1. That a rule inferred from four observations holds forever is a '
           'conjecture of the method, not proved. The concrete search compares real runs with a cell-by-cell simulation and with the '
           'executable contracts on 1100 known and many random programs.')
prop('X01', 'The verdict of a run is true of the program that was run',
     'A run gives exactly one verdict. An undefined slot, a spin-out, a repeated blank tape (or one in the start state), an endless '
     'rule, a rule or configuration limit or the cycle limit is reported only if the configuration the program really stands in after '
     'the steps and rule applications made is of that kind; reported steps, cycles, rule applications, blank tapes and undefined slots '
     'are those of that run, and the final tape is the tape of that configuration. A rule is applied only to the configuration it was '
     'found for.',
     ['inputs', 'histories'], 'all programs (plain and macro), all cycle limits, every sequence of prover answers',
     'The machine tests compare results of known machines and do not run here at all; a verdict can be wrong for programs outside the '
     'list only, after a particular sequence of rule applications, blank tapes and plain steps.',
     ['tm/machine.py'], [('the run loop and its verdicts', 'tm/machine.py: Machine.run'), ('program from arguments', 'Machine.__init__'),
                         ('reported steps and marks', 'Machine.simple_termination, Machine.marks')],
     ['undfnd, spnout, infrul, cfglim, limrul, xlimit, steps, cycles, blanks, rulapp, tape'], note=RUNNOTE)
prop('P01', 'A proved rule is applied exactly where its minimal signature fits',
     'The prover answers a state and tape with the first rule recorded for that state and scanned colour whose recorded signature fits: '
     'equal to the whole span on a side where the proof ran over the edge, a beginning of it elsewhere; no rule exactly when none fits. The '
     'recorded signature is that of the tape the rule was proved on, cut on each side to what one round of the rule reads, with the edges '
     'that round ran over.',
     ['inputs', 'histories'], 'all rule lists, tapes and states; all rounds of all programs',
     'Rules of one slot that differ in a single edge flag or block, and tapes that fit one and not another, do not occur in the tests.',
     ['tm/prover.py'], [('matching', 'Prover.get_rule'), ('minimal signature', 'Prover.get_min_sig'), ('recording', 'Prover.set_rule')],
     ['the rule returned for a tape'], note=RUNNOTE)
prop('P02', 'A rule is accepted only on four observations of the same configuration',
     'A new rule is returned only if the signature of the tape and the state were seen before at cycles from which three next distances '
     'follow, the machine simulated from the present tape for these distances is each time back in the same state with a compatible '
     'signature, and the rule is the one that follows from exactly these four lists of counts, in order. It is then recorded, and the history '
     'of the configuration dropped. Rules that merely move a count across a two-block tape are rejected. An unseen configuration is '
     'recorded with its state and cycle. The tape handed to the prover is never changed.',
     ['inputs', 'histories'], 'all programs, tapes, states, cycles and histories of the prover',
     'Wrong evidence (a simulation a cycle short, a signature not compared) still gives right rules on nearly every machine.',
     ['tm/prover.py'], [('proof attempt', 'Prover.try_rule'), ('simulation with known rules', 'Prover.run_simulator')],
     ['rules returned and recorded, past configurations'], note=RUNNOTE)
RRUNNOTE = ('Every path of the Rust functions is proved with loop invariants over all programs, tapes and numbers of cycles, from the '
            'source of /repo/src lowered on every run; callers against callee contracts. Tape operations, rule inference and rule application '
            'appear through the contracts of T04, T05, R04. Trusted: pyvc, its Rust reading, z3; integers mathematical; a panic (overflow) '
            'is no answer. That a rule inferred from four observations holds forever is a conjecture of the method, not proved. A concrete '
            'search on the compiled functions cross-checks every run.')
prop('X02', 'The verdict of a compiled run is true of the program that was run',
     'run_quick_machine and run_prover answer exactly one verdict: an undefined slot, a spin-out, a repeated blank tape (or one in the '
     'start state), a rule verdict or the cycle limit, and only if the configuration the program stands in after the steps and rule '
     'applications made is of that kind. Reported steps, blank tapes, marks, rule applications and undefined slot are those of that '
     'run. A rule is applied only to the configuration it was found for. The getters report them for the verdict they are named after.',
     ['inputs', 'histories'], 'all programs, all cycle limits, every sequence of prover answers',
     'The Rust tests, three runs, do not even run here; a wrong verdict needs a particular sequence of blank tapes, rules and steps.',
     ['src/machine.rs'], [('runs', 'src/machine.rs: run_quick_machine, run_prover'), ('what is reported', 'src/machine.rs: MachineResult')],
     ['the MachineResult: result, steps, cycles, marks, rulapp, blanks, last_slot'],
     note=RRUNNOTE + ' Cycles are specified only where the code sets them.')
prop('P03', 'The compiled prover makes and matches rules only on the evidence it claims',
     'try_rule answers a known rule exactly if one recorded for that state and scanned colour fits the tape (the first that does); a '
     'new one only if this signature and state was seen at cycles from which three next distances follow, the machine simulated for '
     'these is each time back in this state with a compatible signature, and the rule is the one following from exactly these four lists '
     'of counts. It is recorded under the signature cut to what one round reads, and that history dropped. The tape stays unchanged.',
     ['inputs', 'histories'], 'all programs, tapes, states, cycles and histories of the prover',
     'Evidence a simulation short, or a signature cut too short, still gives right rules on nearly every machine.',
     ['src/prover.rs'], [('proof attempt', 'src/prover.rs: Prover::try_rule, run_simulator'), ('matching', 'src/prover.rs: Prover::get_rule'),
                         ('minimal signature', 'src/prover.rs: Prover::get_min_sig, set_rule'), ('distances', 'src/prover.rs: PastConfig, PastConfigs')],
     ['rules returned and recorded, next distances'], note=RRUNNOTE)
prop('Q01', 'A program said to run for ever or spin out never meets an undefined slot',
     'For programs that begin with 1RB: quick_term_or_rec with drop_halt unset answers true only if the run from the blank tape never '
     'meets an undefined slot: it spins out, or comes back to a state with a tape that is the earlier one moved, cell for cell as far as '
     'the head went in between. An undefined slot met within the limit is answered by drop_halt; false otherwise means that the limit was '
     'reached. Two tapes are aligned only if the cells agree on every position up to the leftmost or rightmost reached.',
     ['inputs'], 'all programs, limits and tapes of any number of blocks',
     'An alignment one cell short or one span not compared is right on nearly every program; the tree search drops what is answered true.',
     ['src/machine.rs', 'src/tape.rs'], [('search', 'src/machine.rs: quick_term_or_rec'), ('alignment', 'src/tape.rs: Alignment::aligns_with'),
                                          ('cells compared', 'src/tape.rs: HeadTape::get_slice')], ['the answer'],
     note='Every path is proved for all programs, tapes and cycles from the Rust source lowered on every run; cells are followed through one '
          'arbitrary distance from the head. That an aligned return repeats for ever is proved in pyvc/lemmas.py (prove_quick) from base steps. '
          'HeadTape.step and at_edge are those of T04. Trusted: pyvc, its Rust reading, z3; integers mathematical; a panic is no answer. '
          'A concrete search on the compiled functions cross-checks every run.')
prop('S01', 'A program said never to halt by its segments never meets an undefined slot',
     'For programs whose states and colours are below the given numbers: segment_cant_halt answers Some(seg) only if the run from the '
     'blank tape meets no undefined slot, ever. The tape of a window of seg - 2 cells moves, prints and reports blank, edge, position and '
     'side as its cells say; a run inside is reported out, halted, repeating or spinning only where it is; every state that can be '
     'entered from beyond an edge, moving on outside or coming back in, is searched from there; a search without answer leaves nothing out.',
     ['inputs'], 'all programs within their parameters, all window sizes, all searches',
     'One configuration not listed, or a tape compared without a cell, is still right on nearly every program; the tree search drops what is answered.',
     ['src/segment.rs'], [('search', 'src/segment.rs: segment_cant_halt, all_segments_reached, Configs'), ('run', 'src/segment.rs: Config::run_to_edge'),
                          ('window tape', 'src/segment.rs: Tape, Span'), ('successors', 'src/segment.rs: AnalyzedProg::new')], ['the answer'],
     note='Every path is proved for all programs and windows from the Rust source lowered on every run; one arbitrary configuration, one cell, one '
          'start and one scanned colour beyond the edge stand for all. That a search that leaves nothing out settles every run is '
          'proved in pyvc/lemmas.py (prove_segment). Configs::check_depth may answer anything. Termination is not claimed. Trusted: pyvc, its Rust reading, z3; std '
          'Vec, BTreeMap and HashSet as lists, maps and sets; integers mathematical; a panic is no answer. A concrete search on the compiled functions cross-checks every run.')

prop('E01', 'The tree of programs lists every program in order once, and nothing else',
     'For at least two states and two colours, any limit, with and without a slot left to halt in: take any full table that starts with '
     '1RB and whose run from the blank tape meets its slots in order (each instruction met goes to a state and prints a colour used '
     'already or the next new one; the second instruction has three states and colours to choose from, as far as there are so many). '
     'tree_progs lists exactly one program that the table extends: the slots met '
     'before the run goes the given number of moves without meeting a new one, spins out, or blanks the tape, or until only the slots to be '
     'left are left. It lists it if it uses the last state and the last colour, and else none; every program listed is one of these. make_instrs gives every '
     'instruction once; run_for_undefined answers the slot met undefined and leaves the tape there; leaf passes a program on once if it uses all.',
     ['inputs'], 'all parameters, all limits, all full tables',
     'Counts of small trees are tested (not in the stable tests) and not what is in them; a choice left out below one node is one program in millions.',
     ['src/tree.rs'], [('enumeration', 'src/tree.rs: build_tree, branch'), ('run', 'src/tree.rs: run_for_undefined'), ('leaves', 'src/tree.rs: leaf'),
                       ('instructions', 'src/tree.rs: make_instrs'), ('list', 'src/tree.rs: tree_progs')], ['the list of programs'],
     note='Every path is proved for all parameters from the Rust source lowered on every run; one arbitrary full table G stands for all, and the harvest '
          'below each node that G extends is counted by induction on the slots left. Tables as arrays; their last state and colour, size, and runs by facts '
          'proved in pyvc/lemmas.py (prove_tree). BasicTape is that of T04; CompProg::show is the text of a table by assumption. Termination is not claimed. Trusted: pyvc, its Rust reading, '
          'z3; rayon for_each runs its closure once for each element; std BTreeMap, Arc and Mutex; integers mathematical. A concrete search on the compiled functions cross-checks every run.')

prop('L01', 'The text of a program says the program, and reading it back gives the same one',
     'For programs of states up to 190 and colours up to 9: from_str of a text (rows two spaces apart, cells one space apart, whitespace around '
     'ignored, rows of any length) gives the table with exactly one entry for each cell that is not "...": at (row, column), with the '
     'colour, direction and state the cell spells. show writes a row for each state and a cell for each colour, as many as asked for or, if '
     'not asked, up to the greatest state and colour named anywhere in the table (slots, printed, entered; at least two of each), and in each cell what the table has '
     'there. show_instr, show_slot and show_state write what read_instr and read_slot read back unchanged; an instruction with a "." is none.',
     ['inputs'], 'all texts of programs, all tables, all numbers of rows and columns asked for',
     'A dozen programs are read and written in tests that are not among the stable ones; an error past a given row, in ragged rows, or for states only entered shows in none of them.',
     ['src/instrs.rs'], [('reading', 'src/instrs.rs: Parse::from_str, read_instr, read_slot'), ('writing', 'src/instrs.rs: Parse::show, show_instr, show_slot, show_state')],
     ['tables and texts'],
     note='Every path is proved from the Rust source lowered on every run: one arbitrary slot and one arbitrary row and cell stand for all, characters are code points. '
          'Trusted: pyvc, its Rust reading, z3; std str split, trim and chars, format!, join and BTreeMap collect and insert. A concrete search on the '
          'compiled functions cross-checks every run.')
prop('L02', 'What Python calls in the crate answers for the program and arguments given',
     'py_cant_halt, py_cant_blank, py_cant_spin_out, py_is_connected, py_opt_block and py_quick_term_or_rec answer what cant_halt, cant_blank, cant_spin_out, '
     'is_connected, opt_block and quick_term_or_rec (without its random part) answer for the program the text says and the number given. py_segment_cant_halt answers what '
     'segment_cant_halt answers for numbers of states and colours above every one named anywhere in the program (of a slot, printed, entered), and no more. tcompile '
     'gives the program of the text, py_show_comp its text with the numbers given.',
     ['inputs'], 'all texts of programs, all arguments',
     'The crate is not built for the stable tests; numbers too small for a program that only enters or prints its last state or colour give false answers on just those programs.',
     ['src/lib.rs'], [('wrappers', 'src/lib.rs: mod wrappers')], ['the answers'],
     note='Every path is proved from the Rust source lowered on every run, with the reader and writer of L01 and the functions called as contracts. What '
          'is_connected answers is G01; what opt_block answers is not shown. Trusted: pyvc, its Rust reading, z3; pyo3 conversions. A concrete search on the compiled functions cross-checks every run.')
prop('G01', 'A program is called connected exactly if its last state leads back to the start',
     'For a program whose instructions are all of and into its states (numbered from 0, at least one): is_connected answers true exactly if every state has an '
     'instruction into another state, and the start state is entered from the last one by one or more instructions that each change '
     'state. get_exitpoints gives each state that has an instruction into another state, and with it just the states '
     'so entered, each once.',
     ['inputs'], 'all programs, any number of states and colours',
     'Five programs are tested (not in the stable tests); a state left out or counted twice matters only for graphs with the one way back through it.',
     ['src/graph.rs'], [('search', 'src/graph.rs: is_connected'), ('edges', 'src/graph.rs: get_exitpoints')], ['the answer'],
     note='Every path is proved for all programs from the Rust source lowered on every run: the states listed and handled are sets, two arbitrary states stand '
          'for all, the bound on the rounds is met because every round handles another state. prove_graph in pyvc/lemmas.py: a set closed under edges holds all that is reached. '
          'Trusted: pyvc, its Rust reading, z3; counting facts of finite sets; std BTreeMap, BTreeSet and Vec. A concrete search on the compiled functions cross-checks every run.')
