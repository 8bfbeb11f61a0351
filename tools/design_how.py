HOW.update({
'N01': 'Contracts on the add, radd, sub, rsub, neg operators of every class of tm/num.py and on add_exponents: the postcondition is '
       'val(result) = val(a) + val(b) over the mathematical integers, val being defined by structural recursion on the shape; '
       'recursive calls and calls to other operators use their contracts. Obligations with powers are discharged by polynomial normal '
       'forms over power atoms plus the power laws (proved by induction in pyvc/lemmas.py).',
'N02': 'As N01 for mul, rmul, pow, rpow and make_exp.',
'N03': 'As N01 for floordiv, divmod and gcd: q*d = n under "d divides n"; both divisibilities for gcd. The case gcd(int, sum) is '
       'recorded as a finding.',
'N04': 'Contracts on all mod operators, find_period and the special-case tables: 0 <= r < m and m | val - r. Exponentiation by squaring '
       'is cut by the invariant res * base**exp = const (mod m); every table row is an obligation (congr.py decides the congruences of '
       'powers; period arguments by the lemma a**p = 1 => a**(kp+r) = a**r).',
'N06': 'Contracts on make_add, make_mul, make_div, make_exp: the interning table maps the key of the parts to the one object with these '
       'parts (data-structure invariant), equality is identity.',
'T01': 'Tape.step on a tape of arbitrarily many blocks: cell-wise ghost view (count per run); postcondition: cells behind/ahead after '
       'the step, canonical form (neighbours differ, counts positive, outermost not blank), steps counted, no block shared.',
'T02': 'blank, counts, signature, marks, edge queries: the postcondition is the value of the cell-wise view, loops over the unknown '
       'number of blocks by generic search/sum/append invariants.',
'T03': 'Tape.to_enum and EnumTape: the tape below is stepped once; the offsets are the maximum of what they were and the numbers of the '
       'blocks read, consumed or extended; the edge flags are set exactly when the pull ran past the last block.',
'R01': 'calculate_diff, calculate_op_seq: the op answered reproduces every one of the three observed transitions (ops evaluated symbolically), '
       'None only for equal counts.',
'R02': 'count_apps, apply_rule, apply_mult, apply_ops: for a generic entry of a rule of unknown size: every application finds a positive count, one '
       'more would not for the limiting entry; each count becomes the op applied that often (closed form of the recurrence by an induction '
       'lemma), others unchanged; nothing written when no application happens.',
'R03': 'make_rule: for a generic position of spans of unknown length: the entry (or its absence) explains the four counts; the infinite verdict only '
       'if no entry decreases.',
'T04': 'src/tape.rs, lowered from the Rust source: same contracts as T01/T02 (ghost cells; canonical form re-proved), HeadTape.head moves by the '
       'steps answered.',
'T05': 'src/tape.rs EnumTape: same contracts as T03, block numbers in the blocks (index is kept, given to new blocks as None).',
'R04': 'src/rules.rs: same contracts as R01-R03, an op being Plus or Mult; apply_rule for rules of Plus.',
'B01': 'src/reason.rs Backstepper: a tape means a map from cells to a colour or "unknown"; check_step, backstep, blank and the constructors are specified '
       'by that map for arbitrarily many blocks (the step back drops the nearest cell of one side, puts the scanned one on the other).',
'B02': 'Ghost run C(0), C(1), ... of the program that hits the target first at C(N), N >= 1 and depth arbitrary. Contract of the constructors of the first level: '
       'it holds C(N), each of its members is a target, none twice. Invariant of the search: level k holds C(N-k), so it is never empty, N > k, and '
       'no Some is returned; pruning a blank tape of a state seen before is harmless because members of levels are the configurations exactly k steps '
       'before the first hit, each in one place (determinism backwards along a known slot). get_valid_steps, step_configs, get_entrypoints are '
       'verified against contracts over abstract tapes whose axioms are 20 lemmas proved from the cell-level contracts (pyvc/lemmas.py).',
'M01': 'MacroProg.run_simulator, calculate_instr, __getitem__: loop invariant "the window, position and state are what the base '
       'program reaches"; the cache holds only such instructions.',
'M02': 'TapeColorConverter and the macro-building functions: positional notation is injective, decoding inverts encoding, distinct '
       'converters for distinct encodings.',
'M03': 'sim_lim is at least the number of window configurations; a run longer than that yields the loop verdict (pigeonhole).',
'X01': 'Machine.run with an invariant over the state/tape history: each verdict field is set only when the corresponding event '
       'happened, the step count is the sum of steps of the cycles.',
'P01': 'Prover.get_rule: the first rule whose state, scan and signature match (and none else) is answered.',
'P02': 'Prover.try_rule, run_simulator: a rule is recorded only from matching re-simulation evidence.',
'X02': 'src/machine.rs run_quick_machine and run_prover, lowered from the Rust source: same run relation and invariant as X01; the blank tapes '
       'seen are a ghost set, rule applications a ghost sum; the MachineResult and its getters are read field by field.',
'P03': 'src/prover.rs: try_rule over every answer of its callees, get_rule as a first-match search in a list of unknown length, run_simulator and '
       'get_min_sig by the invariant "after k rounds", next_deltas for arbitrary five cycles: the distances continue the recurrence '
       'x -> i*x + p + k*g of the last five observations.',
'Q01': 'src/tape.rs aligns_with and get_slice on two tapes of arbitrarily many blocks, for one arbitrary distance k0 from the head: the colour there is a '
       'ghost of the span (prefix sums of the counts), the vector built is followed by its length and its entry k0. src/machine.rs '
       'quick_term_or_rec: invariant "the reference is a configuration of the run, and all since happened between leftmost and rightmost"; '
       'that an aligned return means for ever is 11 lemmas over base steps.',

'S01': 'src/segment.rs in two layers. Tape and Span over vectors of any length, for one arbitrary cell k0: init, blank, at_edge, pos, side, step_in, step. '
       'The search over window tapes of an uninterpreted sort with those operations: INF, ENDQ, ENDT (the run inside goes on for ever, or where it stops) unfolded '
       'one step at a time. run_to_edge: invariant "the end is that of the configuration given, the second pointer is strictly behind, init only at a blank start". '
       'all_segments_reached: invariant "the tracked configuration, if seen, is listed or handled" (its end noted as reached, what follows beyond the edge seen), with '
       'one tracked start and colour beyond. The 24 lemmas of prove_segment lay a halting run over the window in every way: it would have been reached everywhere.',
'E01': 'src/tree.rs. G: any full table; W(p, q, t, rem) unfolded by one level of the definition: how many programs below table p in configuration (q, t) that G extends are '
       'harvested; branch: post "the harvest grew by W, the table is as before", pre "q, t is on the run of p, the states and colours available are the next new ones, '
       'the slots left add up". The loop over instructions: invariant on the harvest with the one place where G(slot) is; make_instrs: the count of one tracked instruction under '
       'nested loops; run_for_undefined: KIND, slot and tape of a run of so many moves, unfolded one at a time; leaf: all() over the values with witnesses for the last state and '
       'colour. Every call of the harvester must prove the table closed, starting 1RB, within the parameters, all used. build_tree: the arbitrary element of the parallel loop. tree_progs: its closure adds '
       'the text of any table once. 26 lemma queries (prove_tree).',
'L01': 'src/instrs.rs. A text is R rows of N(r) cells, cell (r, j) saying INSTR(r, j), all uninterpreted; characters are code points. read_*/show_*: the codes, both '
       'ways. from_str: for an arbitrary row and cell, the pair made is there iff INSTR(r, j) is, at slot (r, j), with that instruction (iterator chains), or by '
       'invariants on one watched slot (loops). show: number of rows and cells, separators, and the three codes in an arbitrary cell; the fold over the entries by one step on '
       'an arbitrary accumulator and entry: each part is the maximum of itself and what the entry names.',
'L02': 'src/lib.rs. from_str yields the table of the text; each function called yields a token of its name and arguments, which the wrapper must return with the right ones; '
       'the numbers given to segment_cant_halt must be above QMAX and CMAX (the fold as in L01) and at most one above the greater of them and 1.',
'G01': 'src/graph.rs. EDGE(a, b) by a witness instruction; get_exitpoints for one arbitrary edge (filed, once, and no state without edges). is_connected: the list and the '
       'handled states are z3 sets; pushing proves the state reached from the last one, on neither set; invariant "what the tracked x is entered from is handled => x is on one of '
       'them", and the number handled is that of rounds, so the rounds cannot run out. At an empty list the handled states are closed (prove_graph).',
})
