"""behaviour-preserving edits: dict(id, props, edits=[(file, old, new)])"""
R = 'tm/rules.py'
N = 'tm/num.py'
X = 'tm/macro.py'
T = 'tm/tape.py'
EDITS = [
dict(id='r-helper-times', props=['R02'], edits=[(R, """        times, min_res = (
            (div, rem)
            if rem > 0 else
            (div - 1, absdiff)
        )
""", """        times, min_res = applications(div, rem, absdiff)
"""), (R, "def count_apps(", '''def applications(div, rem, absdiff):
    if rem > 0:
        return div, rem

    return div - 1, absdiff


def count_apps(''')]),
dict(id='r-apps-loop', props=['R02'], edits=[(R, """        # pylint: disable = unsubscriptable-object
        if apps is None or times < apps[0]:
            apps = times, pos, min_res
""", """        if apps is not None and apps[0] <= times:
            continue

        apps = (times, pos, min_res)
""")]),
dict(id='r-apps-three-vars', props=['R02'], edits=[(R, "    apps: Apps | None = None\n", "    best, best_pos, best_res = None, None, None\n"),
 (R, """        # pylint: disable = unsubscriptable-object
        if apps is None or times < apps[0]:
            apps = times, pos, min_res

    return apps
""", """        if best is None or times < best:
            best, best_pos, best_res = times, pos, min_res

    if best is None:
        return None

    return best, best_pos, best_res
""")]),
dict(id='r-apps-neg', props=['R02'], edits=[(R, "        count, absdiff = tape.get_count(pos), abs(diff)\n", "        absdiff = -diff\n        count = tape.get_count(pos)\n"),
 (R, "        if isinstance(count, int) and absdiff >= count:\n", "        if isinstance(count, int) and count <= absdiff:\n")]),
dict(id='r-apply-if', props=['R02'], edits=[(R, """        match diff:
            case (int(mul), int(add)):
                result = apply_mult(count, times, mul, add)
            case Plus():
                if pos != min_pos:
                    result = count + diff * times
                else:
                    assert diff < 0
                    result = min_res
            case ops:
                result = apply_ops(count, times, ops) # type: ignore

        tape.set_count(pos, result)
""", """        if isinstance(diff, int):
            if pos == min_pos:
                assert diff < 0
                new = min_res
            else:
                new = count + times * diff
        elif len(diff) == 2 and isinstance(diff[0], int):
            new = apply_mult(count, times, diff[0], diff[1])
        else:
            new = apply_ops(count, times, diff)

        tape.set_count(pos, new)
""")]),
dict(id='r-apply-helper', props=['R02'], edits=[(R, """        match diff:
            case (int(mul), int(add)):
                result = apply_mult(count, times, mul, add)
            case Plus():
                if pos != min_pos:
                    result = count + diff * times
                else:
                    assert diff < 0
                    result = min_res
            case ops:
                result = apply_ops(count, times, ops) # type: ignore

        tape.set_count(pos, result)
""", """        tape.set_count(
            pos,
            min_res
            if pos == min_pos else
            next_count(tape.get_count(pos), diff, times))
"""), (R, "        count = tape.get_count(pos)\n\n", ""), (R, "def apply_mult(", '''def next_count(count, diff, times):
    match diff:
        case (int(mul), int(add)):
            return apply_mult(count, times, mul, add)
        case Plus():
            return count + diff * times

    return apply_ops(count, times, diff)


def apply_mult(''')]),
dict(id='r-mult-geo', props=['R02'], edits=[(R, """    return (
        count * exp
        + add * (1 + ((exp - mul) // (mul - 1)))
    )
""", """    series = 1 + ((exp - mul) // (mul - 1))

    grown = count * exp

    return grown + add * series
""")]),
dict(id='r-mult-branch', props=['R02'], edits=[(R, """    exp: int | Exp = (
        mul
        if times == 1 else
        make_exp(mul, times)
    )
""", """    exp: int | Exp

    if times == 1:
        exp = mul
    else:
        exp = make_exp(mul, times)
""")]),
dict(id='r-ops-if', props=['R02', 'R01'], edits=[(R, """            match op:
                case '+':
                    result += val

                case '*':
                    result *= val

                case '//':
                    result //= val

                case '**':
                    result = (
                        make_exp(val, result)
                        if isinstance(result, int) else
                        val ** result
                    )

                case '~':  # no-branch
                    if not isinstance(result, Exp):
                        raise RuleLimit('inapplicable_op')

                    result = result.exp

    return result""", """            result = apply_op(result, op, val)

    return result


def apply_op(count: Count, op: str, val: int) -> Count:
    if op == '+':
        return count + val

    if op == '*':
        return count * val

    if op == '//':
        return count // val

    if op == '**':
        if isinstance(count, int):
            return make_exp(val, count)
        return val ** count

    if op == '~':
        if not isinstance(count, Exp):
            raise RuleLimit('inapplicable_op')

        return count.exp

    return count""")]),
dict(id='r-diff-names', props=['R01', 'R03'], edits=[(R, """    if all(count == count_1 for count in rest):
        return None

    count_2, *_ = rest

    plus = count_2 - count_1

    if all(aft - bef == plus for bef, aft in pairwise(rest)):
        assert isinstance(plus, int)
        return plus
""", """    if not any(count != count_1 for count in rest):
        return None

    count_2 = rest[0]

    delta = count_2 - count_1

    for bef, aft in pairwise(rest):
        if aft - bef != delta:
            break
    else:
        assert isinstance(delta, int)
        return delta
""")]),
dict(id='r-diff-unpack', props=['R01'], edits=[(R, """    count_1, *rest = counts

""", """    count_1, rest = counts[0], counts[1:]

"""), (R, "    _, cnt3, cnt4 = rest\n", "    cnt3, cnt4 = rest[1], rest[2]\n")]),
dict(id='r-diff-affine', props=['R01'], edits=[(R, """    for _, _, div_next, mod_next in divmods:
        if div_next != div:
            raise UnknownRule(
                'different divs')

        if mod_next != mod:
            break

    else:
        return div, mod
""", """    if any(div_next != div for _, _, div_next, _ in divmods):
        raise UnknownRule(
            'different divs')

    if all(mod_next == mod for _, _, _, mod_next in divmods):
        return div, mod
""")]),
dict(id='r-diff-helper', props=['R01', 'R03'], edits=[(R, """    for add, sub in POSSIBLE_RULE_PAIRS:
        if ((count_2 - count_1 * add // sub)
                == (cnt3 - count_2 * add // sub)
                == (cnt4 - cnt3 * add // sub)):
            raise SuspectedRule(add, sub)

    raise UnknownRule


def calculate_op_seq""", """    check_suspected(count_1, count_2, cnt3, cnt4)

    raise UnknownRule


def check_suspected(*counts: int) -> None:
    for add, sub in POSSIBLE_RULE_PAIRS:
        rests = [
            aft - bef * add // sub
            for bef, aft in pairwise(counts)
        ]

        if rests[0] == rests[1] == rests[2]:
            raise SuspectedRule(add, sub)


def calculate_op_seq""")]),
dict(id='r-make-dict', props=['R03'], edits=[(R, """            try:
                diff = calculate_diff(*counts)
            except UnknownRule:
                return None

            if diff is None:
                continue

            rule[s, i] = diff
""", """            try:
                diff = calculate_diff(*counts)
            except UnknownRule:
                return None
            else:
                if diff is not None:
                    rule[(s, i)] = diff
"""), (R, """    if all(diff >= 0
           for diff in rule.values()
           if isinstance(diff, Plus)):

        # print(f'inf: {rule}')

        raise InfiniteRule()

    return rule
""", """    if any(isinstance(diff, Plus) and diff < 0 for diff in rule.values()):
        return rule

    raise InfiniteRule()
""")]),
dict(id='r-make-helper', props=['R03'], edits=[(R, """    if all(diff >= 0
           for diff in rule.values()
           if isinstance(diff, Plus)):

        # print(f'inf: {rule}')

        raise InfiniteRule()

    return rule
""", """    if not has_decrease(rule):
        raise InfiniteRule()

    return rule


def has_decrease(rule: Rule) -> bool:
    for diff in rule.values():
        if isinstance(diff, Plus) and diff < 0:
            return True

    return False
""")]),
dict(id='r-make-items', props=['R03'], edits=[(R, """    if all(diff >= 0
           for diff in rule.values()
           if isinstance(diff, Plus)):
""", """    plusses = [diff for _, diff in rule.items() if isinstance(diff, int)]

    if all(diff >= 0 for diff in plusses):
""")]),
dict(id='r-make-sides', props=['R03'], edits=[(R, """    rule = {}

    for s, spans in enumerate(zip(*countses)):
        for i, counts in enumerate(zip(*spans)):
            try:
                diff = calculate_diff(*counts)
            except UnknownRule:
                return None

            if diff is None:
                continue

            rule[s, i] = diff
""", """    rule = {}

    try:
        for side, spans in enumerate(zip(*countses)):
            for pos, counts in enumerate(zip(*spans)):
                if (diff := calculate_diff(*counts)) is not None:
                    rule[side, pos] = diff
    except UnknownRule:
        return None
""")]),
dict(id='r-noop', props=['R01', 'R02', 'R03'], edits=[(R, "    apps: Apps | None = None\n", "    apps: Apps | None = None\n    _ = 0\n"),
  (R, "    div, mod = divmod(count_2, count_1)\n", "    pass\n    div, mod = divmod(count_2, count_1)\n"),
  (R, "    rule = {}\n", "    rule = {}\n    _unused = len(countses)\n"), (R, "    result = count\n", "    result = count\n    assert True\n")]),
dict(id='r-opseq', props=['R01'], edits=[(R, """    if any(apply_ops(bef, 1, ops) != aft
           for bef, aft in pairwise(counts[1:])):  # no-cover
        raise UnknownRule

    return ops
""", """    for bef, aft in pairwise(counts[1:]):
        if apply_ops(bef, 1, ops) != aft:
            raise UnknownRule

    return ops
"""), (R, "    ops = tuple(descent) + tuple(reversed(ascent))\n", "    ascent.reverse()\n\n    ops = tuple(descent + ascent)\n")]),
dict(id='r-opseq-while', props=['R01'], edits=[(R, """            case Div():
                descent.append(
                    ('*', sub.den))

                sub = sub.num
""", """            case Div():
                num, den = sub.num, sub.den
                descent.append(('*', den))
                sub = num
""")]),
# ---------------------------------------------------------------- tape
dict(id='t-step-names', props=['T01', 'T03'], edits=[(T, """        pull, push = (
            (self.rspan, self.lspan)
            if shift else
            (self.lspan, self.rspan)
        )

        push_block = (
            pull.pop(0)
            if skip and pull and pull[0].color == self.scan else
            None
        )

        stepped = 1 if push_block is None else 1 + push_block.count
""", """        if shift:
            pull, push = self.rspan, self.lspan
        else:
            pull, push = self.lspan, self.rspan

        push_block = None
        stepped = 1

        if skip and pull and pull[0].color == self.scan:
            push_block = pull.pop(0)
            stepped += push_block.count
""")]),
dict(id='t-step-helper', props=['T01', 'T03'], edits=[(T, """        if push and (top_block := push[0]).color == color:
            top_block.count += stepped
        elif push or color != 0:
            if push_block is None:
                push_block = Block(color, 1)
            else:
                push_block.color = color
                push_block.count += 1

            push.insert(0, push_block)

        self.scan = next_scan

        return stepped
""", """        self.scan = next_scan

        self.push_onto(push, push_block, color, stepped)

        return stepped

    @staticmethod
    def push_onto(push, push_block, color, stepped) -> None:
        if push and push[0].color == color:
            push[0].count += stepped
            return

        if not push and color == 0:
            return

        if push_block is None:
            push_block = Block(color, 1)
        else:
            push_block.color = color
            push_block.count += 1

        push.insert(0, push_block)
""")]),
dict(id='t-step-else', props=['T01'], edits=[(T, """            if next_pull.count != 1:
                next_pull.count -= 1
            else:
                popped = pull.pop(0)

                if push_block is None:
                    push_block = popped
                    push_block.count = 0
""", """            if next_pull.count == 1:
                popped = pull.pop(0)

                if push_block is None:
                    popped.count = 0
                    push_block = popped
            else:
                next_pull.count = next_pull.count - 1
""")]),
dict(id='t-marks', props=['T02'], edits=[(T, """        scan: int = 1 if self.scan != 0 else 0

        lspan: Count = sum(
            blk.count for blk in self.lspan if blk.color != 0)
        rspan: Count = sum(
            blk.count for blk in self.rspan if blk.color != 0)

        return scan + lspan + rspan
""", """        total: Count = int(self.scan != 0)

        for span in (self.lspan, self.rspan):
            total += sum(block.count for block in span if block.color)

        return total
""")]),
dict(id='t-marks-loop', props=['T02'], edits=[(T, """        scan: int = 1 if self.scan != 0 else 0

        lspan: Count = sum(
            blk.count for blk in self.lspan if blk.color != 0)
        rspan: Count = sum(
            blk.count for blk in self.rspan if blk.color != 0)

        return scan + lspan + rspan
""", """        total: Count = 1 if self.scan != 0 else 0

        for span in (self.lspan, self.rspan):
            for block in span:
                if block.color != 0:
                    total += block.count

        return total
""")]),
dict(id='t-sig-helper', props=['T02', 'T03'], edits=[(T, """        return (
            self.scan,
            tuple(
                block.color if block.count != 1 else (block.color,)
                for block in self.lspan),
            tuple(
                block.color if block.count != 1 else (block.color,)
                for block in self.rspan),
        )
""", """        return self.scan, span_sig(self.lspan), span_sig(self.rspan)
"""), (T, "@dataclass(slots = True)\nclass Tape:", '''def span_sig(span: list[Block]):
    return tuple(
        (block.color,) if block.count == 1 else block.color
        for block in span)

@dataclass(slots = True)
class Tape:''')]),
dict(id='t-compat-helper', props=['T02'], edits=[(T, """            and all(
                block.color == (
                    color[0]
                    if isinstance(color, tuple) else
                    color
                ) for block, color in zip(
                    self.lspan[:len(lspan)], lspan))
            and all(
                block.color == (
                    color[0]
                    if isinstance(color, tuple) else
                    color
                ) for block, color in zip(
                    self.rspan[:len(rspan)], rspan))
        )
""", """            and span_compatible(self.lspan, lspan)
            and span_compatible(self.rspan, rspan)
        )
"""), (T, "@dataclass(slots = True)\nclass Tape:", '''def span_compatible(span, sig) -> bool:
    return all(
        block.color == (
            color[0]
            if isinstance(color, tuple) else
            color
        ) for block, color in zip(span, sig))

@dataclass(slots = True)
class Tape:''')]),
dict(id='t-count-helper', props=['T02', 'T03'], edits=[(T, """    def get_count(self, index: Index) -> Count:
        side, pos = index

        span = self.rspan if side else self.lspan

        return span[pos].count

    def set_count(self, index: Index, val: Count) -> None:
        side, pos = index

        span = self.rspan if side else self.lspan

        span[pos].count = val
""", """    def block_at(self, index: Index) -> Block:
        side, pos = index

        return (self.rspan if side else self.lspan)[pos]

    def get_count(self, index: Index) -> Count:
        return self.block_at(index).count

    def set_count(self, index: Index, val: Count) -> None:
        block = self.block_at(index)

        block.count = val
""")]),
dict(id='t-enum-init', props=['T03'], edits=[(T, """        self.l_offset = 0
        self.r_offset = 0

        self.l_edge = False
        self.r_edge = False

        self.enums = {
            id(block): (side, num)
            for side, span in enumerate((tape.lspan, tape.rspan))
            for num, block in enumerate(span, start = 1)
        }
""", """        self.l_edge, self.r_edge = False, False
        self.l_offset, self.r_offset = 0, 0

        self.enums = {
            id(block): (side, num + 1)
            for side, span in ((0, tape.lspan), (1, tape.rspan))
            for num, block in enumerate(span)
        }
""")]),
dict(id='t-enum-loops', props=['T03'], edits=[(T, """        self.enums = {
            id(block): (side, num)
            for side, span in enumerate((tape.lspan, tape.rspan))
            for num, block in enumerate(span, start = 1)
        }
""", """        self.enums = {}

        for side, span in enumerate((tape.lspan, tape.rspan)):
            for num, block in enumerate(span, start = 1):
                self.enums[id(block)] = side, num
""")]),
dict(id='t-enum-check', props=['T03'], edits=[(T, """        if (enums := self.enums.get(id(block))) is None:
            return

        side, offset = enums

        s_offset = ('r' if side else 'l') + '_offset'

        # pylint: disable = bad-builtin
        if offset > getattr(self, s_offset):
            setattr(self, s_offset, offset)
""", """        enums = self.enums.get(id(block))

        if enums is not None:
            side, offset = enums

            if side:
                self.r_offset = max(self.r_offset, offset)
            else:
                self.l_offset = max(self.l_offset, offset)
""")]),
dict(id='t-enum-step', props=['T03'], edits=[(T, """        if not pull:
            self.touch_edge(shift)
        else:
            self.check_offsets(near_block := pull[0])

            if skip and near_block.color == self.tape.scan:
                if not pull[1:]:
                    self.touch_edge(shift)
                else:
                    self.check_offsets(pull[1])

        if push and color == (opp := push[0]).color:
            self.check_offsets(opp)
""", """        if push and color == push[0].color:
            self.check_offsets(push[0])

        if not pull:
            self.touch_edge(shift)
        else:
            near_block = pull[0]
            self.check_offsets(near_block)

            if skip and near_block.color == self.tape.scan:
                if len(pull) > 1:
                    self.check_offsets(pull[1])
                else:
                    self.touch_edge(shift)
""")]),
dict(id='t-clone', props=['T02', 'T03'], edits=[(T, """        return Tape(
            lspan = [block.clone() for block in self.lspan],
            scan = self.scan,
            rspan = [block.clone() for block in self.rspan],
        )
""", """        return Tape(
            [Block(block.color, block.count) for block in self.lspan],
            self.scan,
            list(map(Block.clone, self.rspan)),
        )
""")]),

# ---- macros
dict(id='m-getitem-in', props=['M01'], edits=[(X, """        try:
            instr = self.instrs[slot]
        except KeyError:
            instr = self.calculate_instr(slot)

            self.instrs[slot] = instr

        return instr
""", """        if slot in self.instrs:
            return self.instrs[slot]

        self.instrs[slot] = instr = self.calculate_instr(slot)

        return instr
""")]),
dict(id='m-getitem-get', props=['M01'], edits=[(X, """        try:
            instr = self.instrs[slot]
        except KeyError:
            instr = self.calculate_instr(slot)

            self.instrs[slot] = instr

        return instr
""", """        instr = self.instrs.get(slot)

        if instr is None:
            instr = self.calculate_instr(slot)
            self.instrs[slot] = instr

        return instr
""")]),
dict(id='m-calc-steps', props=['M01'], edits=[(X, """        return self.logic.reconstruct_outputs(
            self.run_simulator(
                self.logic.deconstruct_inputs(
                    slot)))
""", """        logic = self.logic

        start = logic.deconstruct_inputs(slot)
        final = self.run_simulator(start)

        return logic.reconstruct_outputs(final)
""")]),
dict(id='m-sim-single', props=['M01', 'M03'], edits=[(X, """            if next_state != state:
                state = next_state

                tape[pos] = color

                if shift:
                    pos += 1
                    if cells <= pos:
                        break
                else:
                    if pos == 0:
                        break
                    pos -= 1
""", """            if state != next_state:
                tape[pos] = color
                state = next_state

                if not shift:
                    if pos == 0:
                        break

                    pos = pos - 1
                    continue

                pos = pos + 1

                if pos >= cells:
                    break
""")]),
dict(id='m-sim-plain', props=['M01', 'M03'], edits=[(X, """            if next_state != state:
                state = next_state

                tape[pos] = color

                if shift:
                    pos += 1
                    if cells <= pos:
                        break
                else:
                    if pos == 0:
                        break
                    pos -= 1

            else:
                if shift:
                    while tape[pos] == scan:  # pylint: disable = while-used
                        tape[pos] = color
                        pos += 1
                        if cells <= pos:
                            break
                    else:
                        continue

                else:
                    while tape[pos] == scan:  # pylint: disable = while-used
                        tape[pos] = color
                        if pos == 0:
                            break
                        pos -= 1
                    else:
                        continue

                break

        else:
            raise MacroInfLoop

        return state, (cells <= pos, tuple(tape))
""", """            tape[pos] = color
            state = next_state

            if shift:
                pos += 1
                if pos == cells:
                    break
            else:
                if pos == 0:
                    break
                pos -= 1

        else:
            raise MacroInfLoop

        return state, (pos == cells, tuple(tape))
""")]),
dict(id='m-sim-return', props=['M01', 'M03'], edits=[(X, """                if shift:
                    pos += 1
                    if cells <= pos:
                        break
                else:
                    if pos == 0:
                        break
                    pos -= 1

            else:
""", """                if shift:
                    pos += 1
                    if cells <= pos:
                        return state, (True, tuple(tape))
                else:
                    if pos == 0:
                        return state, (False, tuple(tape))
                    pos -= 1

            else:
"""), (X, "        return state, (cells <= pos, tuple(tape))", """        return state, (pos >= cells, tuple(tape))""")]),
dict(id='m-sim-rename', props=['M01', 'M03'], edits=[(X, """        state, (right_edge, in_tape) = config

        tape = list(in_tape)

        cells = len(tape)

        pos = cells - 1 if right_edge else 0
""", """        state, (right_edge, in_tape) = config

        cells = len(in_tape)

        tape = list(in_tape)

        if right_edge:
            pos = cells - 1
        else:
            pos = 0
""")]),
dict(id='m-sim-limit-var', props=['M01', 'M03'], edits=[(X, """        for _ in range(self.sim_lim):  # no-branch
""", """        limit = self.sim_lim

        for _ in range(limit):  # no-branch
""")]),
dict(id='m-sim-bigger-limit', props=['M01', 'M03'], edits=[(X, """            self.base_states
            * self.cells
            * self.macro_colors
""", """            1 + (self.base_states * self.cells) * self.macro_colors
""")]),
dict(id='m-sim-helper', props=['M01', 'M03'], edits=[(X, """            if next_state != state:
                state = next_state

                tape[pos] = color

                if shift:
                    pos += 1
                    if cells <= pos:
                        break
                else:
                    if pos == 0:
                        break
                    pos -= 1
""", """            if next_state != state:
                state = next_state

                tape[pos] = color

                if at_end(pos, shift, cells):
                    pos += 1 if shift else 0
                    break

                pos += 1 if shift else -1
"""), (X, "class MacroProg:\n", """def at_end(pos: int, shift: bool, cells: int) -> bool:
    return (pos + 1 == cells) if shift else (pos == 0)


class MacroProg:
""")]),
dict(id='m-colour-loop', props=['M02'], edits=[(X, """        color: Color = sum(
            value * self.base_colors ** place
            for place, value in enumerate(reversed(tape))
        )
""", """        color: Color = 0

        for value in tape:
            color = color * self.base_colors + value
""")]),
dict(id='m-colour-weights', props=['M02'], edits=[(X, """        color: Color = sum(
            value * self.base_colors ** place
            for place, value in enumerate(reversed(tape))
        )
""", """        color: Color = 0
        place = 1

        for value in reversed(tuple_tape):
            color += value * place
            place *= self.base_colors
""")]),
dict(id='m-colour-get', props=['M02'], edits=[(X, """        assert (prev := self.color_to_tape_cache.get(color)) is not None

        return prev
""", """        return self.color_to_tape_cache[color]
"""), (X, """        if (cached := self.tape_to_color_cache.get(
                tuple_tape := tuple(tape))) is not None:
            return cached
""", """        tuple_tape = tuple(tape)

        cached = self.tape_to_color_cache.get(tuple_tape)

        if cached is not None:
            return cached
""")]),
dict(id='m-block-arith', props=['M02', 'M01'], edits=[(X, """        state, right_edge = divmod(macro_state, 2)

        return state, (
            right_edge == 1,
            self.converter.color_to_tape(macro_color),
        )
""", """        tape = self.converter.color_to_tape(macro_color)

        return macro_state // 2, (macro_state % 2 == 1, tape)
"""), (X, """        return (
            self.converter.tape_to_color(tape),
            right_edge,
            (2 * state) + int(not right_edge),
        )
""", """        color = self.converter.tape_to_color(tape)

        macro_state = 2 * state if right_edge else 2 * state + 1

        return color, right_edge, macro_state
""")]),
dict(id='m-backsym-if', props=['M02'], edits=[(X, """        out_color, backsymbol = (
            (tape[-1], tape[:-1])
            if (shift := not at_right) else
            (tape[0], tape[1:])
        )

        return (
            out_color,
            shift,
            int(shift)
            + (2
               * (self.converter.tape_to_color(backsymbol)
                  + (state
                     * self.backsymbols)))
            ,
        )
""", """        shift = not at_right

        if at_right:
            out_color, *rest = tape
            backsymbol = tuple(rest)
        else:
            *rest, out_color = tape
            backsymbol = tuple(rest)

        backspan = self.converter.tape_to_color(backsymbol)

        base = (state * self.backsymbols) + backspan

        return out_color, shift, (2 * base) + int(shift)
""")]),
dict(id='m-backsym-if2', props=['M02'], edits=[(X, """        out_color, backsymbol = (
            (tape[-1], tape[:-1])
            if (shift := not at_right) else
            (tape[0], tape[1:])
        )
""", """        shift = not at_right

        if at_right:
            out_color = tape[0]
            backsymbol = tape[1:]
        else:
            out_color = tape[-1]
            backsymbol = tape[:-1]
""")]),
dict(id='m-caches', props=['M02'], edits=[(X, """    if (cached := BLOCKS[params].get(blocks)) is not None:
        return cached

    block = BlockLogic(blocks, *params)
    BLOCKS[params][blocks] = block
    return block
""", """    known = BLOCKS[params]

    if blocks not in known:
        states, colors = params
        known[blocks] = BlockLogic(blocks, states, colors)

    return known[blocks]
"""), (X, """    if (cached := CONVERTERS[base_colors].get(cells)) is not None:
        return cached

    converter = TapeColorConverter(base_colors, cells)
    CONVERTERS[base_colors][cells] = converter
    return converter
""", """    try:
        return CONVERTERS[base_colors][cells]
    except KeyError:
        pass

    CONVERTERS[base_colors][cells] = converter = TapeColorConverter(base_colors, cells)
    return converter
""")]),
dict(id='m-nocache', props=['M02'], edits=[(X, """    if (cached := BACKSYMS[params].get(backsyms)) is not None:
        return cached

    backsym = BacksymbolLogic(backsyms, *params)
    BACKSYMS[params][backsyms] = backsym
    return backsym
""", """    return BacksymbolLogic(backsyms, *params)
""")]),
dict(id='m-make-macro', props=['M02'], edits=[(X, """    if blocks is not None and blocks > 1:
        if params is None:
            params = prog_params(comp)

        comp = make_block_macro(comp, blocks, params)

    if backsym is not None:
        if params is None or blocks is not None:
            params = prog_params(comp)

        comp = make_backsymbol_macro(comp, backsym, params)

    return comp
""", """    if blocks is not None and blocks > 1:
        comp = make_block_macro(
            comp,
            blocks,
            prog_params(comp) if params is None else params)

    if backsym is None:
        return comp

    if blocks is not None or params is None:
        params = prog_params(comp)

    return make_backsymbol_macro(comp, backsym, params)
""")]),
dict(id='m-props', props=['M02', 'M03'], edits=[(X, """        macro_colors: int = self.base_colors ** self.cells

        return macro_colors
""", """        return self.base_colors ** self.cells # type: ignore
"""), (X, "        return self.macro_states * self.macro_colors\n", "        return self.base_colors * self.macro_states\n")]),
dict(id='m-noop', props=['M01', 'M02', 'M03'], edits=[(X, """        tape = list(in_tape)
""", """        _ = None
        tape = list(in_tape)
        assert True
"""), (X, "        macro_state, macro_color = slot\n\n        state, right_edge", "        pass\n        macro_state, macro_color = slot\n\n        state, right_edge")]),

# ---- numbers
dict(id='n-make-add', props=['N06', 'N01'], edits=[(N, """    adds = ADDS[l]

    try:
        return adds[r]
    except KeyError:
        adds[r] = (add := Add(l, r))
        return add
""", """    adds = ADDS[l]

    if (cached := adds.get(r)) is not None:
        return cached

    add = Add(l, r)
    adds[r] = add
    return add
"""), (N, """    muls = MULS[l]

    try:
        return muls[r]
    except KeyError:
        muls[r] = (mul := Mul(l, r))
        return mul
""", """    muls = MULS[l]

    if r not in muls:
        muls[r] = Mul(l, r)

    return muls[r]
""")]),
dict(id='n-make-exp', props=['N06', 'N02'], edits=[(N, """    for _ in itertools.count():
        if not isinstance(base, int) or base <= 1:
            break

        if base == 8:
            base = 2
            exp *= 3
            break

        if (root := isqrt(base)) ** 2 != base:
            break

        exp *= 2
        base = root
""", """    while isinstance(base, int) and base > 1:
        if base == 8:
            base, exp = 2, exp * 3
            break

        root = isqrt(base)

        if root * root != base:
            break

        base, exp = root, exp * 2
""")]),
dict(id='n-add-add', props=['N01'], edits=[(N, """            lo, ro = other.l, other.r

            if isinstance(lo, int):
                return (lo + l) + (r + ro)

            if self == lo:  # no-cover
                return (2 * self) + ro

        if isinstance(l, int):
            return l + (other + r)

        if other.depth < l.depth <= 8:
            return (other + l) + r

        return make_add(self, other)
""", """            left, right = other.l, other.r

            if isinstance(left, int):
                const = left + l
                rest = r + right
                return const + rest

            if self == left:  # no-cover
                return right + (2 * self)

        if not isinstance(l, int):
            if l.depth <= 8 and other.depth < l.depth:
                return (other + l) + r

            return make_add(self, other)

        return l + (other + r)
""")]),
dict(id='n-add-int-helper', props=['N01'], edits=[(N, """        if isinstance(other, int):
            if other == 0:
                return self

            if not isinstance(l, int):  # no-cover
                return make_add(other, self)

            return (l + other) + r

        if isinstance(other, Add):
            lo, ro""", """        if isinstance(other, int):
            return self.plus_int(other)

        if isinstance(other, Add):
            lo, ro"""), (N, """    def __sub__(self, other: Count) -> Count:
        if other == 0:
            return self

        if self == other:
            return 0

        if isinstance(other, Add):
            l, lo = self.l, other.l
""", """    def plus_int(self, other: int) -> Count:
        if other == 0:
            return self

        l = self.l

        return (
            (l + other) + self.r
            if isinstance(l, int) else
            make_add(other, self)
        )

    def __sub__(self, other: Count) -> Count:
        if self == other:
            return 0

        if other == 0:
            return self

        if isinstance(other, Add):
            l, lo = self.l, other.l
""")]),
dict(id='n-rmul-if', props=['N02'], edits=[(N, """        match other:
            case 0:  # no-cover
                return 0

            case 1:
                return self

            case -1:
                return -self

            case _:
                return (other * self.l) + (other * self.r)
""", """        if other == 0:  # no-cover
            return 0

        if other == 1:
            return self

        if other == -1:
            return -self

        l, r = other * self.l, other * self.r

        return l + r
""")]),
dict(id='n-mul-radd-helper', props=['N01'], edits=[(N, """            if isinstance(r, Exp):
                if isinstance(ro, Exp):
                    assert r.base == ro.base

                    try:
                        return add_exponents((r, l), (ro, lo))
                    except NotImplementedError:
                        pass

                if isinstance(lo, Exp):
                    assert r.base == lo.base

                    try:
                        return add_exponents((r, l), (lo, ro))
                    except NotImplementedError:  # no-cover
                        pass
""", """            if isinstance(r, Exp):
                for o_exp, o_co in ((ro, lo), (lo, ro)):
                    if not isinstance(o_exp, Exp):
                        continue

                    assert r.base == o_exp.base

                    try:
                        return add_exponents((r, l), (o_exp, o_co))
                    except NotImplementedError:
                        pass
""")]),
dict(id='n-mul-sub', props=['N01'], edits=[(N, """            lo, ro = other.l, other.r

            if self == other:
                return 0

            if l == lo:
                return l * (r - ro)

            if r == ro:
                return (l - lo) * r
""", """            if other == self:
                return 0

            if other.l == l:
                return l * (r - other.r)

            if other.r == r:
                diff = l - other.l
                return diff * r
""")]),
dict(id='n-div-add', props=['N01'], edits=[(N, """        num, den = self.num, self.den

        if not isinstance(other, Div):
            return (num + (other * den)) // den

        if den == (oden := other.den):
            return (num + other.num) // den

        if den < oden:
            return other + self
""", """        num = self.num
        den = self.den

        if not isinstance(other, Div):
            scaled = other * den
            return (num + scaled) // den

        oden = other.den

        if oden > den:
            return other + self

        if oden == den:
            return (num + other.num) // den
""")]),
dict(id='n-div-mul', props=['N02'], edits=[(N, """            if other == den:
                return num

            if (cden := pgcd(den, other)) > 1:
                return ((other // cden) * num) // (den // cden)
""", """            if den == other:
                return num

            cden = pgcd(other, den)

            if cden != 1:
                factor, over = other // cden, den // cden
                return (factor * num) // over
""")]),
dict(id='n-div-mod', props=['N04'], edits=[(N, """        div, rem = divmod(
            self.num % (mod * self.den),
            self.den)

        assert rem == 0

        return div % mod
""", """        den = self.den

        part = self.num % (den * mod)

        assert part % den == 0

        return (part // den) % mod
""")]),
dict(id='n-mod-mul', props=['N04'], edits=[(N, """        if (l_mod := self.l % mod) == 0:
            return 0

        if (r_mod := self.r % mod) == 0:
            return 0

        return (l_mod * r_mod) % mod
""", """        l_mod = self.l % mod

        return (l_mod * (self.r % mod)) % mod if l_mod != 0 else 0
""")]),
dict(id='n-exp-mod-loop', props=['N04'], edits=[(N, """        for _ in itertools.count():
            if exp <= 0 or res <= 0:
                break

            if (exp % 2) == 1:
                res = (res * base) % mod

            exp //= 2

            base = (base ** 2) % mod

        return res
""", """        while exp > 0 and res > 0:
            exp, bit = divmod(exp, 2)

            if bit:
                res = (res * base) % mod

            base = (base * base) % mod

        return res
""")]),
dict(id='n-exp-mod-30', props=['N04'], edits=[(N, """                        match exp % 4:
                            case 3:
                                return 8
                            case 0:  # no-cover
                                return 16
                            case 1:  # no-cover
                                return 2
                            case 2:  # no-cover
                                return 4
""", """                        return {0: 16, 1: 2, 2: 4, 3: 8}[exp % 4]
""")]),
dict(id='n-exp-mod-pow', props=['N04'], edits=[(N, """        res = 1

        for _ in itertools.count():
            if exp <= 0 or res <= 0:
                break

            if (exp % 2) == 1:
                res = (res * base) % mod

            exp //= 2

            base = (base ** 2) % mod

        return res
""", """        return pow(base, exp, mod)
""")]),
dict(id='n-exp-add-order', props=['N01'], edits=[(N, """        elif isinstance(other, Exp):
            assert (base := self.base) == other.base

            if base == 2:
                sexp, oexp = self.exp, other.exp

                if sexp == oexp:
                    return make_exp(2, 1 + sexp)

            try:
                return add_exponents((self, 1), (other, 1))
            except NotImplementedError:
                pass

        elif isinstance(other, Div):
            return other + self
""", """        elif isinstance(other, Div):
            return other + self

        elif isinstance(other, Exp):
            base = self.base

            assert base == other.base

            if base == 2 and self.exp == other.exp:
                return make_exp(2, 1 + self.exp)

            try:
                total = add_exponents((self, 1), (other, 1))
            except NotImplementedError:
                pass
            else:
                return total
""")]),
dict(id='n-exp-rmul-loop', props=['N02'], edits=[(N, """        exp = self.exp

        for i in itertools.count():
            if other % base != 0:
                exp += i
                break

            other //= base

        return other * make_exp(base, exp)
""", """        exp = self.exp

        while other % base == 0:
            other //= base
            exp += 1

        return other * make_exp(base, exp)
""")]),
dict(id='n-exp-div-loop', props=['N03'], edits=[(N, """        for i in itertools.count():
            if other % base != 0:
                exp -= i
                break

            other //= base

        if other > 1:
            assert base > other
            assert base % other == 0
""", """        while other % base == 0:
            other //= base
            exp -= 1

        if other > 1:
            assert other < base
            assert base % other == 0
""")]),
dict(id='n-exp-div-if', props=['N03'], edits=[(N, """            match (diff := exp - other.exp):
                case 0:
                    return 1
                case 1:
                    return base
                case _:
                    return make_exp(base, diff)
""", """            diff = exp - other.exp

            if diff == 0:
                return 1

            if diff == 1:
                return base

            return make_exp(base, diff)
""")]),
dict(id='n-add-exponents', props=['N01'], edits=[(N, """    if l_exp.exp > r_exp.exp:
        (l_exp, l_co), (r_exp, r_co) = (r_exp, r_co), (l_exp, l_co)

    if not (l_pow := l_exp.exp) <= (r_pow := r_exp.exp):
        raise NotImplementedError(l_pow, r_pow)

    diff_exp = (
        base ** diff
        if (diff := r_pow - l_pow) < 1_000 else
        make_exp(base, diff)
    )

    return (l_co + (r_co * diff_exp)) * l_exp
""", """    if l_exp.exp > r_exp.exp:
        return add_exponents(r, l)

    l_pow, r_pow = l_exp.exp, r_exp.exp

    if not l_pow <= r_pow:
        raise NotImplementedError(l_pow, r_pow)

    diff = r_pow - l_pow

    if diff < 1_000:
        diff_exp = base ** diff
    else:
        diff_exp = make_exp(base, diff)

    coef = l_co + (r_co * diff_exp)

    return coef * l_exp
""")]),
dict(id='n-gcd-loop', props=['N03'], edits=[(N, """    over = base ** blog

    for _ in itertools.count():
        if l % over == 0 :
            break

        blog -= 1
        over //= base

    return base ** blog  # type: ignore[no-any-return]
""", """    while l % (base ** blog) != 0:
        blog -= 1

    return base ** blog  # type: ignore[no-any-return]
""")]),
dict(id='n-gcd-add', props=['N03'], edits=[(N, """        if (lgcd := gcd(l, r.l)) == 1:
            return 1

        if (rgcd := gcd(l, r.r)) == 1:
            return 1

        return min(lgcd, rgcd)
""", """        lgcd = gcd(l, r.l)

        if lgcd == 1:
            return 1

        rgcd = gcd(l, r.r)

        return 1 if rgcd == 1 else min(rgcd, lgcd)
""")]),
dict(id='n-period-loop', props=['N04'], edits=[(N, """    val = 1
    for period in range(1, mod):
        val *= base
        val %= mod

        if val == 1:
            return period

    return 0
""", """    power = base % mod

    for period in range(1, mod):
        if power == 1:
            return period

        power = (power * base) % mod

    return 0
""")]),
dict(id='n-floordiv-mul', props=['N03'], edits=[(N, """        if (lgcd := gcd(other, l)) > 1:
            return ((l // lgcd) * r) // (other // lgcd)

        if (rgcd := gcd(other, r)) > 1:
            return (l * (r // rgcd)) // (other // rgcd)

        return make_div(self, other)
""", """        lgcd = gcd(other, l)

        if lgcd > 1:
            left = l // lgcd
            return (left * r) // (other // lgcd)

        rgcd = gcd(other, r)

        if rgcd == 1:
            return make_div(self, other)

        return (l * (r // rgcd)) // (other // rgcd)
""")]),
dict(id='n-floordiv-add', props=['N03'], edits=[(N, """        if (((lgcd := gcd(other, l := self.l)) == 1
                or (rgcd := gcd(other, r := self.r))) == 1
                or (div := gcd(lgcd, rgcd)) == 1):
            return make_div(self, other)

        return ((l // div) + (r // div)) // (other // div)
""", """        l, r = self.l, self.r

        lgcd = gcd(other, l)

        if lgcd == 1:
            return make_div(self, other)

        div = gcd(lgcd, gcd(other, r))

        if div == 1:
            return make_div(self, other)

        return ((l // div) + (r // div)) // (other // div)
""")]),
dict(id='n-noop', props=['N01', 'N02', 'N03', 'N04', 'N06'], edits=[(N, """        r_dig = self.r.digits()

        return (
            r_dig
""", """        r_dig = self.r.digits()
        _ = r_dig

        return (
            r_dig
"""), (N, "    adds = ADDS[l]\n", "    pass\n    adds = ADDS[l]\n"), (N, """        num, den = self.num, self.den

        if isinstance(other, int):
            if other == den:
""", """        num, den = self.num, self.den
        unused = 0

        if isinstance(other, int):
            if other == den:
"""), (N, """    blog = int(log(l, base))
""", """    0
    blog = int(log(l, base))
"""), (N, """        base, exp = self.base, self.exp

        if not isinstance(other, int):
            assert isinstance(other, Exp)
""", """        base, exp = self.base, self.exp

        if True:
            pass

        if not isinstance(other, int):
            assert isinstance(other, Exp)
"""), (N, """    val = 1
    for period""", """    val = 1
    assert val
    for period""")]),
]
W, P = 'tm/machine.py', 'tm/prover.py'
STEPOLD = """            try:
                instr = comp[state, tape.scan]
            except KeyError as slot:
                self.undfnd = step, slot.args[0]
                break
            except MacroInfLoop:
                self.infrul = step
                break

            color, shift, next_state = instr

            if (same := state == next_state) and tape.at_edge(shift):
                self.spnout = step
                break

            stepped = tape.step(shift, color, same)

            if step != -1:
                assert isinstance(stepped, int)
                step += stepped

            state = next_state
"""
BLANKOLD = """            if not color and tape.blank:
                if state in self.blanks:
                    self.infrul = step
                    break

                self.blanks[state] = step

                if state == 0:
                    self.infrul = step
                    break
"""
GETOLD = """        for ((scan, lspan, rspan), (lex, rex)), rule in temp:
            if (scan == sig[0]
                and lspan == (sig[1] if lex else sig[1][:len(lspan)])
                and rspan == (sig[2] if rex else sig[2][:len(rspan)])):
                return rule

        return None
"""
EDITS += [
dict(id='x-spin-same', props=['X01'], edits=[(W, STEPOLD, STEPOLD.replace("""            if (same := state == next_state) and tape.at_edge(shift):
                self.spnout = step
                break

            stepped = tape.step(shift, color, same)
""", """            same = next_state == state

            if same:
                if tape.at_edge(shift):
                    self.spnout = step
                    break

            stepped = tape.step(shift, color, skip = same)
"""))]),
dict(id='x-blank-merge', props=['X01'], edits=[(W, BLANKOLD, """            if color or not tape.blank:
                continue

            if (blanks := self.blanks).get(state) is not None:
                self.infrul = step
                break

            blanks[state] = step

            if not state:
                self.infrul = step
                break
""")]),
dict(id='x-blank-merge2', props=['X01'], edits=[(W, BLANKOLD, """            if color == 0 and tape.blank:
                seen = state in self.blanks

                if not seen:
                    self.blanks[state] = step

                if seen or state == 0:
                    self.infrul = step
                    break
""")]),
dict(id='x-local-prover', props=['X01'], edits=[(W, "        self.prover = Prover(comp)\n", "        self.prover = prover = Prover(comp)\n"), (W, "self.prover.try_rule(cycle, state, tape)", "prover.try_rule(cycle, state, tape)")]),
dict(id='x-helper-apply', props=['X01'], edits=[(W, """            if rule is not None:
                try:
                    times = apply_rule(rule, tape)
                except RuleLimit as lim:
                    self.limrul = str(lim)
                    break

                if times is not None:
                    # print(f'--> applied rule: {rule}')
                    step = -1
                    self.rulapp += times
                    continue
""", """            try:
                applied = self.try_apply(rule, tape)
            except RuleLimit as lim:
                self.limrul = str(lim)
                break

            if applied:
                step = -1
                continue
"""), (W, """    def run(
        self,
""", """    def try_apply(self, rule, tape: Tape) -> bool:
        if rule is None:
            return False

        if (times := apply_rule(rule, tape)) is None:
            return False

        self.rulapp += times

        return True

    def run(
        self,
""")]),
dict(id='x-helper-record', props=['X01'], edits=[(W, BLANKOLD, """            if not color and tape.blank and self.record_blank(state, step):
                self.infrul = step
                break
"""), (W, """    def run(
        self,
""", """    def record_blank(self, state: State, step: int) -> bool:
        if state in self.blanks:
            return True

        self.blanks[state] = step

        return state == 0

    def run(
        self,
""")]),
dict(id='x-while', props=['X01'], edits=[(W, """        for cycle in range(sim_lim):

            if watch""", """        cycle = -1

        while cycle + 1 < sim_lim:
            cycle += 1

            if watch""")]),
dict(id='x-flag', props=['X01'], edits=[(W, """            if step != -1:
                assert isinstance(stepped, int)
                step += stepped
""", """            if step == -1:
                pass
            else:
                assert isinstance(stepped, int)
                step = step + stepped
""")]),
dict(id='x-reorder-init', props=['X01'], edits=[(W, """        self.tape = tape = Tape()

        self.prover = Prover(comp)

        self.blanks = {}

        step: int = 0

        state: State = 0
""", """        state: State = 0

        step: int = 0

        self.blanks = {}

        self.prover = Prover(self.program)

        tape = Tape()

        self.tape = tape
""")]),
dict(id='x-slot', props=['X01'], edits=[(W, """                instr = comp[state, tape.scan]
            except KeyError as slot:
                self.undfnd = step, slot.args[0]
                break
""", """                color, shift, next_state = comp[(state, tape.scan)]
            except KeyError as err:
                self.undfnd = (step, err.args[0])
                break
"""), (W, """            color, shift, next_state = instr

            if (same""", """            if (same""")]),
dict(id='x-tryelse', props=['X01'], edits=[(W, """            except SuspectedRule as sus:
                self.susrul = sus.args
                rule = None
            except MacroInfLoop:
                rule = None

""", """            except MacroInfLoop:
                rule = None
            except SuspectedRule as sus:
                rule = None
                self.susrul = sus.args

""")]),
dict(id='x-simple', props=['X01'], edits=[(W, """        return (
            self.spnout
            if (undfnd := self.undfnd) is None else
            undfnd[0]
        )
""", """        if self.undfnd is not None:
            return self.undfnd[0]

        return self.spnout
""")]),
dict(id='p-get-slices', props=['P01', 'P02'], edits=[(P, GETOLD, """        scan, left, right = sig

        for (color, lspan, rspan), (lex, rex) in []:
            pass

        for min_sig, rule in temp:
            (color, lspan, rspan), (lex, rex) = min_sig

            if color != scan:
                continue

            if lex:
                if left != lspan:
                    continue
            elif left[:len(lspan)] != lspan:
                continue

            if rex:
                if right != rspan:
                    continue
            elif right[:len(rspan)] != rspan:
                continue

            return rule

        return None
""".replace("""        for (color, lspan, rspan), (lex, rex) in []:
            pass

""", ""))]),
dict(id='p-get-helper', props=['P01', 'P02'], edits=[(P, GETOLD, """        for (mins, (lex, rex)), rule in temp:
            if (mins[0] == sig[0]
                    and self.fits(mins[1], sig[1], lex)
                    and self.fits(mins[2], sig[2], rex)):
                return rule

        return None

    @staticmethod
    def fits(small, big, exact: bool) -> bool:
        if exact:
            return small == big

        return big[:len(small)] == small
""")]),
dict(id='p-get-next', props=['P01', 'P02'], edits=[(P, GETOLD, """        return next(
            (
                rule
                for ((scan, lspan, rspan), (lex, rex)), rule in temp
                if scan == sig[0]
                and lspan == (sig[1] if lex else sig[1][:len(lspan)])
                and rspan == (sig[2] if rex else sig[2][:len(rspan)])
            ),
            None,
        )
""")]),
dict(id='p-get-in', props=['P01', 'P02'], edits=[(P, """        if (temp := self.rules.get((state, tape.scan))) is None:
            return None
""", """        slot = state, tape.scan

        if slot not in self.rules:
            return None

        temp = self.rules[slot]
""")]),
dict(id='p-get-empty', props=['P01', 'P02'], edits=[(P, """        if (temp := self.rules.get((state, tape.scan))) is None:
            return None
""", """        temp = self.rules.get((state, tape.scan), [])
""")]),
dict(id='p-get-try', props=['P01', 'P02'], edits=[(P, """        if (temp := self.rules.get((state, tape.scan))) is None:
            return None
""", """        try:
            temp = self.rules[state, tape.scan]
        except KeyError:
            return None
""")]),
dict(id='p-set-default', props=['P01', 'P02'], edits=[(P, """        if (slot := (state, sig[0][0])) not in self.rules:
            self.rules[slot] = []

        self.rules[slot].append((sig, rule))
""", """        self.rules.setdefault((state, sig[0][0]), []).append((sig, rule))
""")]),
dict(id='p-set-try', props=['P01', 'P02'], edits=[(P, """        if (slot := (state, sig[0][0])) not in self.rules:
            self.rules[slot] = []

        self.rules[slot].append((sig, rule))
""", """        color = sig[0][0]
        entry = (sig, rule)

        try:
            self.rules[(state, color)].append(entry)
        except KeyError:
            self.rules[(state, color)] = [entry]
""")]),
dict(id='p-sim-while', props=['P01', 'P02'], edits=[(P, """        for _ in range(steps):
            if (rule""", """        left = steps

        while left > 0:
            left -= 1

            if (rule""")]),
dict(id='p-sim-flat', props=['P01', 'P02'], edits=[(P, """            if (rule := self.get_rule(state, tape)) is not None:
                if apply_rule(rule, tape) is not None:
                    continue

            try:
                instr = self.prog[state, tape.scan]
            except KeyError:
                return None

            color, shift, next_state = instr

            tape.step(shift, color, state == next_state)

            state = next_state
""", """            rule = self.get_rule(state, tape)

            if (rule is not None and apply_rule(rule, tape) is not None):
                continue

            try:
                color, shift, new_state = self.prog[state, tape.scan]
            except KeyError:
                return None

            same = new_state == state

            tape.step(shift, color, same)

            state = new_state
""")]),
dict(id='p-sim-helper', props=['P01', 'P02'], edits=[(P, """            try:
                instr = self.prog[state, tape.scan]
            except KeyError:
                return None

            color, shift, next_state = instr

            tape.step(shift, color, state == next_state)

            state = next_state

        return state
""", """            if (next_state := self.one_step(state, tape)) is None:
                return None

            state = next_state

        return state

    def one_step(self, state: State, tape: Tape | EnumTape) -> State | None:
        try:
            instr = self.prog[state, tape.scan]
        except KeyError:
            return None

        color, shift, next_state = instr

        tape.step(shift, color, state == next_state)

        return next_state
""")]),
dict(id='p-min-inline', props=['P01', 'P02'], edits=[(P, """        self.set_rule(
            rule,
            state,
            self.get_min_sig(
                deltas[0],
                state,
                tape.to_enum(),
                sig,
            ),
        )
""", """        enum = tape.to_enum()

        min_sig = self.get_min_sig(deltas[0], state, enum, sig)

        self.set_rule(rule, state, min_sig)
""")]),
dict(id='p-min-names', props=['P01', 'P02'], edits=[(P, """        _ = self.run_simulator(steps, state, tape)

        lmax, rmax = tape.offsets

        return (sig[0], sig[1][:lmax], sig[2][:rmax]), tape.edges
""", """        self.run_simulator(steps, state, tape)

        scan, lspan, rspan = sig

        return (
            (
                scan,
                lspan[:tape.offsets[0]],
                rspan[:tape.offsets[1]],
            ),
            tape.edges,
        )
""")]),
dict(id='p-try-split', props=['P01', 'P02'], edits=[(P, """            if (
                self.run_simulator(delta, state, tags) != state
                or not tags.sig_compatible(sig)
            ):
                return None

            counts.append(tags.counts)

        assert len(counts) == 3

        if (rule := make_rule(tape.counts, *counts)) is None:
            return None
""", """            end = self.run_simulator(delta, state, tags)

            if end is None or end != state:
                return None

            if not tags.sig_compatible(sig):
                return None

            counts += [tags.counts]

        rule = make_rule(tape.counts, counts[0], counts[1], counts[2])

        if rule is None:
            return None
""")]),
dict(id='p-try-helper', props=['P01', 'P02'], edits=[(P, """        tags = tape.clone()

        counts = []

        for delta in deltas:
            if (
                self.run_simulator(delta, state, tags) != state
                or not tags.sig_compatible(sig)
            ):
                return None

            counts.append(tags.counts)

        assert len(counts) == 3
""", """        if (counts := self.sample(deltas, state, tape, sig)) is None:
            return None
"""), (P, """    def try_rule(
            self,
""", """    def sample(self, deltas, state, tape, sig):
        tags = tape.clone()

        counts = []

        for delta in deltas:
            if self.run_simulator(delta, state, tags) != state:
                return None

            if not tags.sig_compatible(sig):
                return None

            counts.append(tags.counts)

        return counts

    def try_rule(
            self,
""")]),
dict(id='p-try-trivial', props=['P01', 'P02'], edits=[(P, """        if (len(rule) == 2
                and tape.span_lens == (1, 1)
                and all(isinstance(val, int) for val in rule.values())
                and len(set(
                    abs(val) for val in rule.values()
                    if isinstance(val, int))) == 1):
            return None

        past_configs""", """        if tape.span_lens == (1, 1) and len(rule) == 2:
            vals = list(rule.values())

            if all(isinstance(val, int) for val in vals):
                if abs(vals[0]) == abs(vals[1]):
                    return None

        past_configs""")]),
dict(id='p-try-past', props=['P01', 'P02'], edits=[(P, """        if (past_configs := self.configs.get(sig)) is None:
            if self.config_count > 100_000:  # no-cover
                raise ConfigLimit

            self.configs[sig] = PastConfigs(state, cycle)
            return None
""", """        if sig not in self.configs:
            if len(self.configs) > 100_000:  # no-cover
                raise ConfigLimit

            self.configs[sig] = PastConfigs(state, cycle)
            return None

        past_configs = self.configs[sig]
""")]),
dict(id='p-try-order', props=['P01', 'P02'], edits=[(P, """        past_configs.delete_configs(state)

        self.set_rule(
            rule,
            state,
            self.get_min_sig(
                deltas[0],
                state,
                tape.to_enum(),
                sig,
            ),
        )
""", """        self.set_rule(
            rule,
            state,
            self.get_min_sig(
                deltas[0],
                state,
                tape.to_enum(),
                sig,
            ),
        )

        past_configs.delete_configs(state)
""")]),
dict(id='p-noop', props=['P01', 'P02', 'X01'], edits=[(P, "        tags = tape.clone()\n", "        tags = tape.clone()\n        pass\n"), (P, "        lmax, rmax = tape.offsets\n", "        lmax, rmax = tape.offsets\n        _ = lmax\n"), (W, "            stepped = tape.step(", "            unused = 0\n            stepped = tape.step("), (P, "        if sig is None:\n", "        assert True\n\n        if sig is None:\n"), (P, "            self.rules[slot] = []\n", "            self.rules[slot] = []\n            0\n")]),
]
EDITS += [
dict(id='p-sim-up', props=['P02'], edits=[(P, """        for _ in range(steps):
            if (rule""", """        done = 0

        while done < steps:
            done = done + 1

            if (rule""")]),
dict(id='x-kw', props=['X01'], edits=[(W, "self.prover.try_rule(cycle, state, tape)", "self.prover.try_rule(cycle, tape = tape, state = state)"), (W, "apply_rule(rule, tape)\n                except", "apply_rule(rule, tape = tape)\n                except"), (W, "tape.step(shift, color, same)", "tape.step(shift, color = color, skip = same)")]),
dict(id='p-kw', props=['P02'], edits=[(P, "self.get_rule(state, tape, sig)", "self.get_rule(state, tape, sig = sig)"), (P, "self.run_simulator(delta, state, tags) != state", "self.run_simulator(tape = tags, state = state, steps = delta) != state"), (P, "not tags.sig_compatible(sig)", "not tags.sig_compatible(sig = sig)"), (P, "PastConfigs(state, cycle)\n", "PastConfigs(state, cycle = cycle)\n"), (P, "tape.step(shift, color, state == next_state)", "tape.step(\n                shift = shift,\n                color = color,\n                skip = next_state == state)")]),
dict(id='p-sim-eq', props=['P02'], edits=[(P, """            color, shift, next_state = instr

            tape.step(shift, color, state == next_state)

            state = next_state
""", """            tape.step(instr[1], instr[0], instr[2] == state)

            state = instr[2]
""")]),
dict(id='p-set-get', props=['P01', 'P02'], edits=[(P, """        if (slot := (state, sig[0][0])) not in self.rules:
            self.rules[slot] = []

        self.rules[slot].append((sig, rule))
""", """        slot = (state, sig[0][0])

        if (rules := self.rules.get(slot)) is None:
            rules = self.rules[slot] = []

        rules.append((sig, rule))
""")]),
]
RT = 'src/tape.rs'
RR = 'src/rules.rs'
RB = 'src/reason.rs'
EDITS += [
dict(id='rt-pull-if', props=['T04', 'T05'], edits=[(RT, """        let stepped =
            (skip && !self.blank() && self.0[0].get_color() == scan)
                .then(|| self.0.remove(0))
                .as_ref()
                .map_or_else(|| 1, |block| 1 + block.get_count());
""", """        let mut stepped = 1;

        if skip && !self.blank() && self.0[0].get_color() == scan {
            let block = self.0.remove(0);
            stepped += block.get_count();
        }
""")]),
dict(id='rt-pull-match', props=['T04', 'T05'], edits=[(RT, """        let next_scan = if self.blank() {
            0
        } else {
            let next_pull = &mut self.0[0];

            let pull_color = next_pull.get_color();

            if next_pull.get_count() > 1 {
                next_pull.decrement();
            } else {
                self.0.remove(0);
            }

            pull_color
        };

        (next_scan, stepped)
""", """        match self.0.first_mut() {
            None => (0, stepped),
            Some(next_pull) => {
                let pull_color = next_pull.get_color();

                if next_pull.get_count() == 1 {
                    self.0.remove(0);
                } else {
                    next_pull.decrement();
                }

                (pull_color, stepped)
            },
        }
""")]),
dict(id='rt-push-match', props=['T04', 'T05'], edits=[(RT, """        let Some(block) = self.0.first_mut() else {
            if print != 0 {
                self.0.insert(0, Block::new(print, stepped));
            }

            return;
        };

        if block.get_color() == print {
            block.add_count(stepped);
        } else {
            self.0.insert(0, Block::new(print, stepped));
        }
""", """        match self.0.first_mut() {
            Some(block) if block.get_color() == print => {
                block.add_count(stepped);
            },
            None if print == 0 => {},
            _ => self.0.insert(0, B::new(print, stepped)),
        }
""")]),
dict(id='rt-push-if', props=['T04', 'T05'], edits=[(RT, """        let Some(block) = self.0.first_mut() else {
            if print != 0 {
                self.0.insert(0, Block::new(print, stepped));
            }

            return;
        };

        if block.get_color() == print {
            block.add_count(stepped);
        } else {
            self.0.insert(0, Block::new(print, stepped));
        }
""", """        if let Some(block) = self.0.first_mut() {
            if block.get_color() == print {
                block.set_count(block.get_count() + stepped);
                return;
            }
        } else if print == 0 {
            return;
        }

        self.0.insert(0, Block::new(print, stepped));
""")]),
dict(id='rt-marks-loop', props=['T04'], edits=[(RT, """        self.0
            .iter()
            .filter(|block| block.get_color() != 0)
            .map(Block::get_count)
            .sum::<Count>()
""", """        let mut total = 0;

        for block in &self.0 {
            if block.get_color() == 0 {
                continue;
            }

            total += block.get_count();
        }

        total
""")]),
dict(id='rt-marks-fm', props=['T04'], edits=[(RT, """            .filter(|block| block.get_color() != 0)
            .map(Block::get_count)
            .sum::<Count>()
""", """            .map(|b| if b.get_color() == 0 { 0 } else { b.get_count() })
            .sum()
""")]),
dict(id='rt-compat-loop', props=['T04'], edits=[(RT, """        self.0
            .iter()
            .take(span.len())
            .zip(span.iter())
            .all(|(bk, cc)| bk.get_color() == cc.get_color())
""", """        for (bk, cc) in self.0.iter().zip(span) {
            if bk.get_color() != cc.get_color() {
                return false;
            }
        }

        true
""")]),
dict(id='rt-compat-any', props=['T04'], edits=[(RT, """        self.0
            .iter()
            .take(span.len())
            .zip(span.iter())
            .all(|(bk, cc)| bk.get_color() == cc.get_color())
""", """        !span
            .iter()
            .zip(self.0.iter())
            .any(|(cc, bk)| cc.get_color() != bk.get_color())
"""), (RT, """        self.scan == *scan
            && self.lspan.len() >= lspan.len()
            && self.rspan.len() >= rspan.len()
            && self.lspan.sig_compatible(lspan)
            && self.rspan.sig_compatible(rspan)
""", """        if *scan != self.scan {
            return false;
        }

        if self.lspan.len() < lspan.len() || self.rspan.len() < rspan.len() {
            return false;
        }

        self.rspan.sig_compatible(rspan) && self.lspan.sig_compatible(lspan)
""")]),
dict(id='rt-compat-len', props=['T04'], edits=[(RT, """    fn sig_compatible(&self, span: &SigSpan) -> bool {
        self.0
""", """    fn sig_compatible(&self, span: &SigSpan) -> bool {
        if self.len() < span.len() {
            return false;
        }

        self.0
"""), (RT, """            && self.lspan.len() >= lspan.len()
            && self.rspan.len() >= rspan.len()
""", "")]),
dict(id='rt-from-match', props=['T04'], edits=[(RT, """        (if block.get_count() == 1 {
            Self::Just
        } else {
            Self::Mult
        })(block.get_color())
""", """        let color = block.get_color();

        match block.get_count() {
            1 => Self::Just(color),
            _ => Self::Mult(color),
        }
""")]),
dict(id='rt-step-mem', props=['T04', 'T05'], edits=[(RT, """        let (next_scan, stepped) = pull.pull(self.scan, skip);

        push.push(color, stepped);

        self.scan = next_scan;

        stepped
    }
}

/**************************************/

pub type Index""", """        let moved = pull.pull(self.scan, skip);

        self.scan = moved.0;

        push.push(color, moved.1);

        moved.1
    }
}

/**************************************/

pub type Index""")]),
dict(id='rt-step-helper', props=['T04', 'T05'], edits=[(RT, """        let (pull, push) = if shift {
            (&mut self.rspan, &mut self.lspan)
        } else {
            (&mut self.lspan, &mut self.rspan)
        };

        let (next_scan""", """        let (pull, push) = self.spans_mut(shift);
        let _ = &push;
        let (pull, push) = if shift {
            (&mut self.rspan, &mut self.lspan)
        } else {
            (&mut self.lspan, &mut self.rspan)
        };

        let (next_scan"""), (RT, """    pub fn unroll(&self) -> Vec<Color> {
""", """    fn spans_mut(&mut self, shift: Shift) -> (&mut Span<B>, &mut Span<B>) {
        if shift {
            (&mut self.rspan, &mut self.lspan)
        } else {
            (&mut self.lspan, &mut self.rspan)
        }
    }

    pub fn unroll(&self) -> Vec<Color> {
""")]),
dict(id='rt-edge-match', props=['T04'], edits=[(RT, """        self.scan == 0
            && (if edge { &self.rspan } else { &self.lspan }).blank()
""", """        let span = match edge {
            true => &self.rspan,
            false => &self.lspan,
        };

        span.blank() && self.scan == 0
"""), (RT, """        self.scan == 0 && self.lspan.blank() && self.rspan.blank()
""", """        self.at_edge(false) && self.at_edge(true)
""")]),
dict(id='rt-head', props=['T04'], edits=[(RT, """        #[expect(clippy::cast_possible_wrap)]
        if shift {
            self.head += stepped as Pos;
        } else {
            self.head -= stepped as Pos;
        };

        stepped
""", """        #[expect(clippy::cast_possible_wrap)]
        let delta = stepped as Pos;

        self.head += if shift { delta } else { -delta };

        stepped
""")]),
dict(id='rt-offs-max', props=['T05'], edits=[(RT, """            if offset > s_offset.get() {
                s_offset.set(offset);
            }
""", """            s_offset.set(s_offset.get().max(offset));
""")]),
dict(id='rt-offs-else', props=['T05'], edits=[(RT, """        if let Some((side, offset)) = block.index {
            let s_offset =
                if side { &self.r_offset } else { &self.l_offset };
""", """        let Some((side, offset)) = block.index else {
            return;
        };

        {
            let s_offset = match side {
                true => &self.r_offset,
                false => &self.l_offset,
            };
""")]),
dict(id='rt-check-opp', props=['T05'], edits=[(RT, """        if !push.blank() {
            let opp = &push.0[0];

            if color == opp.color {
                self.check_offsets(opp);
            }
        }
""", """        if let Some(opp) = push.0.first() {
            if opp.color == color {
                self.check_offsets(opp);
            }
        }
"""), (RT, """        if pull.blank() {
            self.touch_edge(shift);
        } else {
            let near_block = &pull.0[0];
            self.check_offsets(near_block);

            if skip && near_block.color == self.tape.scan {
                if pull.len() == 1 {
                    self.touch_edge(shift);
                } else {
                    self.check_offsets(&pull.0[1]);
                }
            }
        }
""", """        match pull.0.first() {
            None => self.touch_edge(shift),
            Some(near) => {
                self.check_offsets(near);

                if skip && near.color == self.tape.scan {
                    match pull.0.get(1) {
                        None => self.touch_edge(shift),
                        Some(next) => self.check_offsets(next),
                    }
                }
            },
        }
""")]),
dict(id='rt-from-enum', props=['T05'], edits=[(RT, """                    tape.lspan
                        .0
                        .iter()
                        .enumerate()
                        .map(|(i, block)| EnumBlock {
                            color: block.get_color(),
                            count: block.get_count(),
                            index: Some((false, 1 + i)),
                        })
                        .collect(),
""", """                    tape.lspan
                        .0
                        .iter()
                        .zip(1..)
                        .map(|(block, i)| EnumBlock {
                            color: block.color,
                            count: block.count,
                            index: Some((false, i)),
                        })
                        .collect(),
""")]),
dict(id='rt-from-fn', props=['T05'], edits=[(RT, """                    tape.lspan
                        .0
                        .iter()
                        .enumerate()
                        .map(|(i, block)| EnumBlock {
                            color: block.get_color(),
                            count: block.get_count(),
                            index: Some((false, 1 + i)),
                        })
                        .collect(),
""", """                    number(&tape.lspan, false)
"""), (RT, """                    tape.rspan
                        .0
                        .iter()
                        .enumerate()
                        .map(|(i, block)| EnumBlock {
                            color: block.get_color(),
                            count: block.get_count(),
                            index: Some((true, 1 + i)),
                        })
                        .collect(),
""", """                    number(&tape.rspan, true)
"""), (RT, """pub struct EnumTape {
""", """fn number(span: &Span<BasicBlock>, side: Shift) -> Vec<EnumBlock> {
    let mut blocks = vec![];

    for (i, block) in span.0.iter().enumerate() {
        blocks.push(EnumBlock {
            color: block.color,
            count: block.count,
            index: Some((side, i + 1)),
        });
    }

    blocks
}

pub struct EnumTape {
""")]),
dict(id='rt-noop', props=['T04', 'T05', 'R04'], edits=[(RT, """        push.push(color, stepped);

        self.scan = next_scan;
""", """        push.push(color, stepped);

        let _unused = 0;

        self.scan = next_scan;
"""), (RT, """        self.check_step(shift, color, skip);
""", """        let _ = ();
        self.check_step(shift, color, skip);
"""), (RR, """        let count = tape.get_count(pos);
        let absdiff""", """        let count = tape.get_count(pos);
        let _ = count;
        let absdiff"""), (RR, "    let mut rule = Rule::new();\n", "    let mut rule = Rule::new();\n    ();\n    let _x = 1;\n")]),
dict(id='rr-diff-flow', props=['R04'], edits=[(RR, """    let Some(diff_1) = b.checked_sub(a) else {
        return Some(DiffResult::Unknown);
    };

    let Some(diff_2) = c.checked_sub(b) else {
        return Some(DiffResult::Unknown);
    };

    if diff_1 == diff_2 && diff_2 == (d - c) {
        return Some(DiffResult::Got(Op::Plus(diff_1)));
    }
""", """    let (Some(diff_1), Some(diff_2)) =
        (b.checked_sub(a), c.checked_sub(b))
    else {
        return Some(DiffResult::Unknown);
    };

    let diff_3 = d - c;

    if (diff_1, diff_2) == (diff_2, diff_3) {
        return Some(DiffResult::Got(Op::Plus(diff_3)));
    }
""")]),
dict(id='rr-diff-arr', props=['R04'], edits=[(RR, """    let divmod1 = (b / a, b % a);
    let divmod2 = (c / b, c % b);

    if divmod1 == divmod2 && divmod2 == (d / c, d % c) {
        return Some(DiffResult::Got(Op::Mult(divmod1)));
    }

    Some(DiffResult::Unknown)
""", """    let mul = b / a;
    let add = b - mul * a;

    Some(if c == b * mul + add && c / b == mul && d == c * mul + add && d / c == mul {
        DiffResult::Got(Op::Mult((mul, add)))
    } else {
        DiffResult::Unknown
    })
""")]),
dict(id='rr-make-loops', props=['R04'], edits=[(RR, """            match calculate_diff(
                a as Diff, b as Diff, c as Diff, d as Diff,
            ) {
                None => continue,
                Some(DiffResult::Unknown) => {
                    return None;
                },
                Some(DiffResult::Got(op)) => {
                    rule.insert((s == 1, i), op);
                },
            }
""", """            let Some(diff) = calculate_diff(
                a as Diff, b as Diff, c as Diff, d as Diff,
            ) else {
                continue;
            };

            let DiffResult::Got(op) = diff else {
                return None;
            };

            rule.insert((s != 0, i), op);
""")]),
dict(id='rr-make-helper', props=['R04'], edits=[(RR, """    let countses: Vec<Vec<_>> = vec![
        l1.iter()
            .zip(l2.iter())
            .zip(l3.iter())
            .zip(l4.iter())
            .map(|(((a, b), c), d)| (*a, *b, *c, *d))
            .collect(),
        r1.iter()
            .zip(r2.iter())
            .zip(r3.iter())
            .zip(r4.iter())
            .map(|(((a, b), c), d)| (*a, *b, *c, *d))
            .collect(),
    ];
""", """    let countses: Vec<Vec<_>> =
        vec![zip4(l1, l2, l3, l4), zip4(r1, r2, r3, r4)];
"""), (RR, """pub fn make_rule(
""", """fn zip4(
    w: &[Count],
    x: &[Count],
    y: &[Count],
    z: &[Count],
) -> Vec<(Count, Count, Count, Count)> {
    w.iter()
        .zip(x)
        .zip(y)
        .zip(z)
        .map(|(((&a, &b), &c), &d)| (a, b, c, d))
        .collect()
}

pub fn make_rule(
""")]),
dict(id='rr-apps-match', props=['R04'], edits=[(RR, """        let div = count / absdiff;
        let rem = count % absdiff;

        let (times, min_res) = if rem > 0 {
            (div, rem)
        } else {
            (div - 1, absdiff)
        };

        if let Some((curr, _, _)) = apps {
            if times < curr {
                apps = Some((times, *pos, min_res));
            }
        } else {
            apps = Some((times, *pos, min_res));
        }
""", """        let times = (count - 1) / absdiff;
        let min_res = count - times * absdiff;

        match apps {
            Some((curr, _, _)) if curr <= times => {},
            _ => apps = Some((times, *pos, min_res)),
        }
""")]),
dict(id='rr-apps-isnone', props=['R04'], edits=[(RR, """        if let Some((curr, _, _)) = apps {
            if times < curr {
                apps = Some((times, *pos, min_res));
            }
        } else {
            apps = Some((times, *pos, min_res));
        }
""", """        if apps.is_none_or(|(curr, _, _)| times < curr) {
            apps = Some((times, *pos, min_res));
        }
""")]),
dict(id='rr-apps-le', props=['R04'], edits=[(RR, "            if times < curr {", "            if times <= curr {"), (RR, """        let Op::Plus(diff) = *diff else {
            unimplemented!()
        };

        if diff >= 0 {
            continue;
        }
""", """        let diff = match diff {
            Op::Plus(diff) if *diff >= 0 => continue,
            Op::Plus(diff) => *diff,
            Op::Mult(_) => unimplemented!(),
        };
""")]),
dict(id='rr-apply-iflet', props=['R04'], edits=[(RR, """        let result = match *diff {
            Op::Plus(plus) => {
                if *pos == min_pos {
                    assert!(plus < 0);
                    min_res
                } else {
                    apply_plus(tape.get_count(pos), plus, times)?
                }
            },
            Op::Mult(_) => unimplemented!(),
        };

        tape.set_count(pos, result);
""", """        let Op::Plus(plus) = *diff else { unimplemented!() };

        if *pos == min_pos {
            tape.set_count(pos, min_res);
            continue;
        }

        let count = tape.get_count(pos);

        tape.set_count(pos, apply_plus(count, plus, times)?);
""")]),
dict(id='rr-apply-all', props=['R04'], edits=[(RR, """                if *pos == min_pos {
                    assert!(plus < 0);
                    min_res
                } else {
                    apply_plus(tape.get_count(pos), plus, times)?
                }
""", """                apply_plus(tape.get_count(pos), plus, times)?
"""), (RR, "    let (times, min_pos, min_res) = count_apps(rule, tape)?;", "    let (times, _, _) = match count_apps(rule, tape) {\n        Some(found) => found,\n        None => return None,\n    };")]),
# ------------------------------------------------------------------ src/reason.rs
dict(id='rb-noop', props=['B01', 'B02'], edits=[(RB, """        self.scan = read;

        self.head += stepped;""", """        let _ = &read;

        self.scan = read;

        self.head += stepped;"""), (RB, "    let mut checked = ValidatedSteps::new();\n", "    let mut checked = ValidatedSteps::new();\n    let _ = configs.len();\n"),
 (RB, "    let mut stepped = Configs::new();\n", "    let mut stepped = Configs::new();\n    let _ = &stepped;\n"), (RB, "    let mut entrypoints = Entrypoints::new();\n", "    let mut entrypoints = Entrypoints::new();\n    let _ = comp.len();\n")]),
dict(id='rb-check-match', props=['B01', 'B02'], edits=[(RB, """        let (required, at_edge) = if let Some(block) = pull.first() {
            (block.color, false)
        } else if pull_end == TapeEnd::Blanks {
            (0, true)
        } else {
            return Some(!push.is_empty());
        };

        (print == required).then_some(at_edge)
""", """        match (pull.first(), pull_end) {
            (Some(block), _) if block.color != print => None,
            (Some(_), _) => Some(false),
            (None, TapeEnd::Blanks) => {
                if print == 0 {
                    Some(true)
                } else {
                    None
                }
            },
            (None, TapeEnd::Unknown) => Some(!push.is_empty()),
        }
""")]),
dict(id='rb-check-ret', props=['B01', 'B02'], edits=[(RB, """        let (required, at_edge) = if let Some(block) = pull.first() {
            (block.color, false)
        } else if pull_end == TapeEnd::Blanks {
            (0, true)
        } else {
            return Some(!push.is_empty());
        };

        (print == required).then_some(at_edge)
""", """        if pull.is_empty() && pull_end == TapeEnd::Unknown {
            return Some(!push.is_empty());
        }

        let (required, at_edge) = match pull.first() {
            Some(block) => (block.color, false),
            None => (0, true),
        };

        if print != required {
            return None;
        }

        Some(at_edge)
""")]),
dict(id='rb-back-helper', props=['B01', 'B02'], edits=[(RB, """        if let Some(block) = pull.first_mut() {
            if block.count == 1 {
                pull.remove(0);
            } else {
                block.decrement();
            }
        }
""", """        drop_cell(pull);
"""), (RB, "impl Alignment for Backstepper {", """fn drop_cell(span: &mut Vec<Block>) {
    if let Some(block) = span.first_mut() {
        if block.count == 1 {
            span.remove(0);
        } else {
            block.decrement();
        }
    }
}

impl Alignment for Backstepper {""")]),
dict(id='rb-back-order', props=['B01', 'B02'], edits=[(RB, """        if let Some(block) = pull.first_mut() {
            if block.count == 1 {
                pull.remove(0);
            } else {
                block.decrement();
            }
        }

        if self.scan""", """        if self.scan"""), (RB, """                push.insert(0, Block::new(color, 1));
            };
        }

        self.scan = read;
""", """                push.insert(0, Block::new(color, 1));
            };
        }

        match pull.first_mut() {
            None => {},
            Some(block) if block.count > 1 => block.decrement(),
            Some(_) => {
                pull.remove(0);
            },
        }

        self.scan = read;
""")]),
dict(id='rb-back-first', props=['B01', 'B02'], edits=[(RB, """            if !push.is_empty() && push[0].color == color {
                push[0].increment();
            } else {
                push.insert(0, Block::new(color, 1));
            };
""", """            match push.first_mut() {
                Some(block) if block.color == color => {
                    block.increment();
                },
                _ => push.insert(0, Block::new(color, 1)),
            }
""")]),
dict(id='rb-back-blank-end', props=['B01', 'B02'], edits=[(RB, """        if self.scan != 0
            || !push.is_empty()
            || push_end == TapeEnd::Unknown
        {
            let color""", """        let vanishes = self.scan == 0
            && push.is_empty()
            && push_end == TapeEnd::Blanks;

        if !vanishes {
            let color""")]),
dict(id='rb-blank-two', props=['B01', 'B02'], edits=[(RB, """        self.scan == 0
            && self
                .lspan
                .iter()
                .chain(self.rspan.iter())
                .all(|block| block.color == 0)
""", """        if self.scan != 0 {
            return false;
        }

        self.lspan.iter().all(|block| block.color == 0)
            && !self.rspan.iter().any(|block| block.color != 0)
""")]),
dict(id='rb-init-match', props=['B01', 'B02'], edits=[(RB, """        let (l_end, r_end) = if dir {
            (TapeEnd::Unknown, TapeEnd::Blanks)
        } else {
            (TapeEnd::Blanks, TapeEnd::Unknown)
        };

        Self {
            scan: 0,
            lspan: vec![],
            rspan: vec![],
            head: 0,
            l_end,
            r_end,
        }
""", """        let mut tape = Self::init_halt(0);

        if dir {
            tape.r_end = TapeEnd::Blanks;
        } else {
            tape.l_end = TapeEnd::Blanks;
        }

        tape
"""), (RB, "    const fn init_spinout", "    fn init_spinout")]),
dict(id='rb-reach-if', props=['B02'], edits=[(RB, """        match valid_steps.len() {
            0 => return Some(step),
            n if MAX_STACK_DEPTH < n => return None,
            _ => {},
        }
""", """        if valid_steps.is_empty() {
            return Some(step);
        }

        if valid_steps.len() > MAX_STACK_DEPTH {
            return None;
        }
""")]),
dict(id='rb-reach-while', props=['B02'], edits=[(RB, "    for step in 0..depth {\n", "    let mut step = 0;\n\n    while step < depth {\n"), (RB, """        configs = step_configs(valid_steps, &mut blanks)?;
    }
""", """        configs = step_configs(valid_steps, &mut blanks)?;

        step += 1;
    }
""")]),
dict(id='rb-reach-letelse', props=['B02'], edits=[(RB, """        let valid_steps = get_valid_steps(&mut configs, &entrypoints)?;
""", """        let Some(valid_steps) =
            get_valid_steps(&mut configs, &entrypoints)
        else {
            return None;
        };
"""), (RB, """        configs = step_configs(valid_steps, &mut blanks)?;
""", """        match step_configs(valid_steps, &mut blanks) {
            Some(stepped) => configs = stepped,
            None => return None,
        }
""")]),
dict(id='rb-reach-blanks-loop', props=['B02'], edits=[(RB, """    let mut blanks: Blanks = configs
        .iter()
        .filter(|config| config.tape.blank())
        .map(|config| config.state)
        .collect();
""", """    let mut blanks = Blanks::new();

    for config in &configs {
        if config.tape.blank() {
            blanks.insert(config.state);
        }
    }
""")]),
dict(id='rb-reach-scan', props=['B02'], edits=[(RB, ".filter(|config| config.tape.blank())", ".filter(|config| config.tape.scan == 0 && config.tape.blank())")]),
dict(id='rb-valid-into', props=['B02'], edits=[(RB, """            let Some(at_edge) = tape.check_step(shift, print) else {
                continue;
            };

            if at_edge && tape.scan == next_color && state == next_state
            {
                return None;
            }

            good_steps.push((next_color, shift, next_state));
""", """            if let Some(at_edge) = tape.check_step(shift, print) {
                let stuck =
                    tape.scan == next_color && state == next_state;

                if at_edge && stuck {
                    return None;
                }

                good_steps.push((next_color, shift, next_state));
            }
""")]),
dict(id='rb-valid-not-empty', props=['B02'], edits=[(RB, """        if good_steps.is_empty() {
            continue;
        }

        checked.push((good_steps, config));
""", """        if !good_steps.is_empty() {
            checked.push((good_steps, config));
        }
""")]),
dict(id='rb-valid-get', props=['B02'], edits=[(RB, """        for &((next_state, next_color), (print, shift, _)) in
            &entrypoints[&state]
        {
""", """        let Some(entries) = entrypoints.get(&state) else {
            continue;
        };

        for &((next_state, next_color), (print, shift, _)) in entries {
""")]),
dict(id='rb-valid-fields', props=['B02'], edits=[(RB, """        let Config {
            state, ref tape, ..
        } = config;
""", """        let state = config.state;
        let tape = &config.tape;
""")]),
dict(id='rb-step-insert', props=['B02'], edits=[(RB, """                if blanks.contains(&state) {
                    continue;
                }

                blanks.insert(state);
""", """                if !blanks.insert(state) {
                    continue;
                }
""")]),
dict(id='rb-step-order', props=['B02'], edits=[(RB, """            let mut next_config = Config {
                state,
                tape,
                prev: Some(Rc::clone(&config)),
                recs: config.recs,
            };
""", """            let mut next_config = Config::new(state, tape);

            next_config.prev = Some(Rc::clone(&config));
            next_config.recs = config.recs;
""")]),
dict(id='rb-step-helper', props=['B02'], edits=[(RB, """            let mut tape = config.tape.clone();

            tape.backstep(shift, color);
""", """            let tape = stepped_back(&config.tape, shift, color);
"""), (RB, "fn halt_configs(", """fn stepped_back(
    tape: &Backstepper,
    shift: Shift,
    color: Color,
) -> Backstepper {
    let mut tape = tape.clone();

    tape.backstep(shift, color);

    tape
}

fn halt_configs(""")]),
dict(id='rb-halt-loops', props=['B02'], edits=[(RB, """            if !comp.contains_key(&(state, color)) {
                configs.push(Config::new(
                    state,
                    Backstepper::init_halt(color),
                ));
            }
""", """            if comp.get(&(state, color)).is_some() {
                continue;
            }

            let tape = Backstepper::init_halt(color);

            configs.push(Config::new(state, tape));
""")]),
dict(id='rb-halt-swap', props=['B02'], edits=[(RB, """    for state in 0..=max_state {
        for color in 0..=max_color {
            if !comp""", """    for color in 0..=max_color {
        for state in 0..=max_state {
            if !comp""")]),
dict(id='rb-halt-max', props=['B02'], edits=[(RB, """    let (max_state, max_color) = comp
        .keys()
        .fold((0, 0), |acc, &(a, b)| (acc.0.max(a), acc.1.max(b)));
""", """    let mut max_state = 0;
    let mut max_color = 0;

    for &(state, color) in comp.keys() {
        max_state = max_state.max(state);
        max_color = max_color.max(color);
    }
""")]),
dict(id='rb-halt-max2', props=['B02'], edits=[(RB, """    let (max_state, max_color) = comp
        .keys()
        .fold((0, 0), |acc, &(a, b)| (acc.0.max(a), acc.1.max(b)));
""", """    let max_state = comp.keys().map(|&(state, _)| state).max().unwrap_or(0);
    let max_color = comp.keys().map(|&(_, color)| color).max().unwrap_or(0);
""")]),
dict(id='rb-erase-loop', props=['B02'], edits=[(RB, """    comp.iter()
        .filter_map(|(&(state, color), &instr)| match instr {
            (0, _, _) if color != 0 => {
                Some(Config::new(state, Backstepper::init_blank(color)))
            },
            _ => None,
        })
        .collect()
""", """    let mut configs = Configs::new();

    for (&(state, color), &(print, _, _)) in comp {
        if print == 0 && color != 0 {
            configs
                .push(Config::new(state, Backstepper::init_blank(color)));
        }
    }

    configs
""")]),
dict(id='rb-erase-filter', props=['B02'], edits=[(RB, """        .filter_map(|(&(state, color), &instr)| match instr {
            (0, _, _) if color != 0 => {
                Some(Config::new(state, Backstepper::init_blank(color)))
            },
            _ => None,
        })
        .collect()
""", """        .filter(|&(&(_, color), &(print, _, _))| color != 0 && print == 0)
        .map(|(&(state, color), _)| {
            Config::new(state, Backstepper::init_blank(color))
        })
        .collect()
""")]),
dict(id='rb-spin-if', props=['B02'], edits=[(RB, """        .filter_map(|(&slot, &(_, shift, trans))| match slot {
            (state, 0) if trans == state => Some(Config::new(
                state,
                Backstepper::init_spinout(shift),
            )),
            _ => None,
        })
""", """        .filter_map(|(&(state, color), &(_, shift, trans))| {
            (color == 0 && state == trans).then(|| {
                Config::new(state, Backstepper::init_spinout(shift))
            })
        })
""")]),
dict(id='rb-entry-loops', props=['B02'], edits=[(RB, """    for (&slot, &instr) in comp {
        let (_, _, state) = instr;
        entrypoints.entry(state).or_default().push((slot, instr));
    }
""", """    for (&slot, &instr) in comp {
        entrypoints.entry(instr.2).or_default().push((slot, instr));
    }
"""), (RB, """        if entrypoints.len() == reached.len() {
            break;
        }
    }

    entrypoints
""", """        if reached.len() == entrypoints.len() {
            return entrypoints;
        }
    }

    entrypoints
""")]),
dict(id='rb-entry-orinsert', props=['B02'], edits=[(RB, """        entrypoints.entry(state).or_default().push((slot, instr));
""", """        entrypoints
            .entry(state)
            .or_insert_with(Vec::new)
            .push((slot, instr));
""")]),
dict(id='rb-entry-set', props=['B02'], edits=[(RB, """        let reached: Vec<State> = entrypoints.keys().copied().collect();
""", """        let reached: HashSet<State> =
            entrypoints.keys().copied().collect();
""")]),
dict(id='rb-entry-iter', props=['B02'], edits=[(RB, """        for instrs in entrypoints.values_mut() {
            instrs.retain""", """        for (_, instrs) in &mut entrypoints {
            instrs.retain""")]),
dict(id='rb-entry-loop', props=['B02'], edits=[(RB, """    for _ in 0..entrypoints.len() {
        let reached""", """    loop {
        let reached""")]),
]
RMA, RPV = 'src/machine.rs', 'src/prover.rs'
_ma = open('/repo/src/machine.rs').read()
_quick = _ma[_ma.index('pub fn run_quick_machine'):_ma.index('pub fn quick_term_or_rec')]
_prove = _ma[_ma.index('pub fn run_prover'):_ma.index('pub fn run_quick_machine')]


def _in(text, *subs):
    new = text
    for a, b in subs:
        assert new.count(a) == 1, (new.count(a), a)
        new = new.replace(a, b)
    return (RMA, text, new)


EDITS = [*EDITS,
dict(id='rm-insert', props=['X02'], edits=[_in(_quick, ('''            if blanks.contains_key(&state) {
                result = Some(TermRes::infrul);
                break;
            }

            blanks.insert(state, steps);

            if state == 0 {
                result = Some(TermRes::infrul);
                break;
            }
''', '''            let seen = blanks.contains_key(&state);

            if !seen {
                blanks.insert(state, steps);
            }

            if seen || state == 0 {
                result = Some(TermRes::infrul);
                break;
            }
'''))]),
dict(id='rm-match', props=['X02'], edits=[_in(_quick, ('''        let Some(&(color, shift, next_state)) = comp.get(&slot) else {
            cycles = cycle;
            result = Some(TermRes::undfnd);
            last_slot = Some(slot);
            break;
        };

        let same = state == next_state;
''', '''        let (color, shift, next_state) = match comp.get(&slot) {
            Some(&instr) => instr,
            None => {
                cycles = cycle;
                last_slot = Some(slot);
                result = Some(TermRes::undfnd);
                break;
            },
        };

        let same = next_state == state;
'''))]),
dict(id='rm-helper', props=['X02'], edits=[_in(_quick, ('''            if blanks.contains_key(&state) {
                result = Some(TermRes::infrul);
                break;
            }

            blanks.insert(state, steps);

            if state == 0 {
                result = Some(TermRes::infrul);
                break;
            }
''', '''            if note_blank(&mut blanks, state, steps) {
                result = Some(TermRes::infrul);
                break;
            }
'''), ('pub fn run_quick_machine', '''pub fn run_quick_machine''')), (RMA, 'type Blanks = Dict<State, Step>;\n', '''type Blanks = Dict<State, Step>;

fn note_blank(blanks: &mut Blanks, state: State, steps: Step) -> bool {
    if blanks.contains_key(&state) {
        return true;
    }

    blanks.insert(state, steps);

    state == 0
}
''')]),
dict(id='rm-while', props=['X02'], edits=[_in(_quick, ('    for cycle in 0..sim_lim {\n', '    let mut cycle = 0;\n\n    while cycle < sim_lim {\n'), ('''            if state == 0 {
                result = Some(TermRes::infrul);
                break;
            }
        }
''', '''            if state == 0 {
                result = Some(TermRes::infrul);
                break;
            }
        }

        cycle += 1;
'''))]),
dict(id='rm-init', props=['X02'], edits=[_in(_prove, ('''    MachineResult {
        result: result.unwrap_or(TermRes::xlimit),
        steps,
        cycles,
        marks: tape.marks(),
        rulapp,
        last_slot,
        blanks,
    }
''', '''    let marks = tape.marks();

    MachineResult::new(
        result.unwrap_or(TermRes::xlimit),
        steps,
        cycles,
        marks,
        rulapp,
        blanks,
        last_slot,
    )
'''))]),
dict(id='rm-iflet', props=['X02'], edits=[_in(_prove, ('''        match prover.try_rule(cycle as i32, state, &tape) {
            None => {},
            Some(ProverResult::ConfigLimit) => {
                cycles = cycle;
                result = Some(TermRes::cfglim);
                break;
            },
            Some(ProverResult::InfiniteRule) => {
                cycles = cycle;
                result = Some(TermRes::infrul);
                break;
            },
            Some(ProverResult::MultRule) => {
                cycles = cycle;
                result = Some(TermRes::mulrul);
                break;
            },
            Some(ProverResult::Got(rule)) => {
                if let Some(times) = apply_rule(&rule, &mut tape) {
                    // println!("--> applying rule: {:?}", rule);
                    rulapp += times;
                    continue;
                }
            },
        }
''', '''        if let Some(answer) =
            prover.try_rule(cycle as i32, state, &tape)
        {
            let verdict = match answer {
                ProverResult::Got(rule) => {
                    match apply_rule(&rule, &mut tape) {
                        Some(times) => {
                            rulapp += times;
                            continue;
                        },
                        None => None,
                    }
                },
                ProverResult::ConfigLimit => Some(TermRes::cfglim),
                ProverResult::InfiniteRule => Some(TermRes::infrul),
                ProverResult::MultRule => Some(TermRes::mulrul),
            };

            if verdict.is_some() {
                cycles = cycle;
                result = verdict;
                break;
            }
        }
'''))]),
dict(id='rm-getter', props=['X02'], edits=[(RMA, '''        match self.result {
            TermRes::undfnd | TermRes::spnout => Some(self.steps),
            _ => None,
        }
''', '''        if matches!(self.result, TermRes::undfnd | TermRes::spnout) {
            Some(self.steps)
        } else {
            None
        }
''')]),
dict(id='rm-undfnd', props=['X02'], edits=[(RMA, '''                if let Some(slot) = self.last_slot {
                    Some((self.steps, slot))
                } else {
                    panic!()
                }
''', '''                let Some(slot) = self.last_slot else { panic!() };

                Some((self.steps, slot))
''')]),
dict(id='rp-find', props=['P03'], edits=[(RPV, '''        for ((Signature { scan, lspan, rspan }, (lex, rex)), rule) in
            rules
        {
            if *scan == sig.scan
                && (if *lex {
                    lspan == &sig.lspan
                } else {
                    sig.lspan.starts_with(lspan)
                })
                && (if *rex {
                    rspan == &sig.rspan
                } else {
                    sig.rspan.starts_with(rspan)
                })
            {
                return Some(rule);
            }
        }

        None
''', '''        for ((minimal, (lex, rex)), rule) in rules {
            if minimal.scan != sig.scan {
                continue;
            }

            let left = if *lex {
                sig.lspan == minimal.lspan
            } else {
                sig.lspan.starts_with(&minimal.lspan)
            };

            let right = if *rex {
                sig.rspan == minimal.rspan
            } else {
                sig.rspan.starts_with(&minimal.rspan)
            };

            if left && right {
                return Some(rule);
            }
        }

        None
''')]),
dict(id='rp-helper', props=['P03'], edits=[(RPV, '''                && (if *lex {
                    lspan == &sig.lspan
                } else {
                    sig.lspan.starts_with(lspan)
                })
                && (if *rex {
                    rspan == &sig.rspan
                } else {
                    sig.rspan.starts_with(rspan)
                })
''', '''                && fits(lspan, &sig.lspan, *lex)
                && fits(rspan, &sig.rspan, *rex)
'''), (RPV, '''pub enum ProverResult {''', '''fn fits(
    known: &Vec<crate::tape::ColorCount>,
    seen: &Vec<crate::tape::ColorCount>,
    whole: bool,
) -> bool {
    if whole {
        known == seen
    } else {
        seen.starts_with(known)
    }
}

pub enum ProverResult {''')]),
dict(id='rp-entry', props=['P03'], edits=[(RPV, '''        self.rules
            .entry((state, sig.0.scan))
            .or_default()
            .push((sig, rule));
''', '''        let slot = (state, sig.0.scan);

        self.rules.entry(slot).or_insert_with(Vec::new).push((sig, rule));
''')]),
dict(id='rp-any', props=['P03'], edits=[(RPV, '''        if !rule.values().any(|diff| match diff {
            Op::Plus(plus) => *plus < 0,
            Op::Mult(_) => false,
        }) {
''', '''        if rule.values().all(|diff| match diff {
            Op::Plus(plus) => *plus >= 0,
            Op::Mult(_) => true,
        }) {
''')]),
dict(id='rp-mult-all', props=['P03'], edits=[(RPV, '''        if rule.values().any(|diff| matches!(diff, Op::Mult(_))) {
''', '''        if !rule.values().all(|diff| matches!(diff, Op::Plus(_))) {
''')]),
dict(id='rp-matchsim', props=['P03'], edits=[(RPV, '''            let (color, shift, next_state) =
                self.prog.get_instr(&(state, tape.scan))?;

            tape.step(shift, color, state == next_state);

            state = next_state;
        }

        Some(state)
''', '''            let Some((color, shift, next)) =
                self.prog.get_instr(&(state, tape.scan))
            else {
                return None;
            };

            let same = next == state;

            state = next;

            tape.step(shift, color, same);
        }

        Some(state)
''')]),
dict(id='rp-loop', props=['P03'], edits=[(RPV, '''        for delta in &deltas {
            if self.run_simulator(*delta, state, &mut tags)? != state
                || !tags.sig_compatible(&sig)
            {
                return None;
            }

            counts.push(tags.counts());
        }
''', '''        for &delta in &deltas {
            let Some(end) = self.run_simulator(delta, state, &mut tags)
            else {
                return None;
            };

            if end != state {
                return None;
            }

            if !tags.sig_compatible(&sig) {
                return None;
            }

            counts.push(tags.counts());
        }
''')]),
dict(id='rp-deltas', props=['P03'], edits=[(RPV, '''            let nxt1 = a * i + p1 + diff;
            let nxt2 = nxt1 * i + p1 + 2 * diff;
            let nxt3 = nxt2 * i + p1 + 3 * diff;
''', '''            let rest1 = p1 + diff;
            let nxt1 = a * i + rest1;
            let rest2 = rest1 + diff;
            let nxt2 = nxt1 * i + rest2;
            let nxt3 = nxt2 * i + rest2 + diff;
''')]),
dict(id='rp-swapguards', props=['P03'], edits=[(RPV, '''        if rule.len() == 2
            && tape.span_lens() == (1, 1)
''', '''        if tape.span_lens() == (1, 1)
            && rule.len() == 2
''')]),
]
RSG = 'src/segment.rs'
RTR = 'src/tree.rs'
RIN, RLB, RGR = 'src/instrs.rs', 'src/lib.rs', 'src/graph.rs'
RTP = 'src/tape.rs'
_rec = _ma[_ma.index('pub fn quick_term_or_rec'):_ma.index('#[cfg(test)]\nuse crate::macros')]
EDITS = [*EDITS,
dict(id='rq-minmax', props=['Q01'], edits=[(RMA, '''        if curr < leftmost {
            leftmost = curr;
        } else if rightmost < curr {
            rightmost = curr;
        }
''', '''        leftmost = leftmost.min(curr);
        rightmost = rightmost.max(curr);
''')]),
dict(id='rq-order', props=['Q01'], edits=[(RMA, '''        let curr_state = state;

        state = next_state;

        let same = curr_state == next_state;

        if same && tape.at_edge(shift) {
            return true;
        }

        if reset == 0 {
            ref_state = curr_state;
            ref_tape''', '''        let same = state == next_state;

        if same && tape.at_edge(shift) {
            return true;
        }

        if reset == 0 {
            ref_state = state;
            ref_tape'''), (RMA, '''        tape.step(shift, color, same);

        let curr = tape.head();
''', '''        tape.step(shift, color, same);

        state = next_state;

        let curr = tape.head();
''')]),
dict(id='rq-match', props=['Q01'], edits=[(RMA, '''        let Some(&(color, shift, next_state)) =
            comp.get(&(state, tape.scan()))
        else {
            return drop_halt;
        };

        let curr_state''', '''        let slot = (state, tape.scan());

        let (color, shift, next_state) = match comp.get(&slot) {
            None => return drop_halt,
            Some(&instr) => instr,
        };

        let curr_state''')]),
dict(id='rq-nested', props=['Q01'], edits=[(RMA, '''        if state == ref_state
            && tape.aligns_with(&ref_tape, leftmost, rightmost)
        {
            return true;
        }
''', '''        if state != ref_state {
            continue;
        }

        if tape.aligns_with(&ref_tape, leftmost, rightmost) {
            return true;
        }
''')]),
dict(id='rq-countdown', props=['Q01'], edits=[(RMA, '''            rightmost = head;
            reset = cycle;
        }

        reset -= 1;
''', '''            rightmost = head;
            reset = cycle - 1;
        } else {
            reset -= 1;
        }
''')]),
dict(id='rq-align-match', props=['Q01'], edits=[(RTP, '''        #[expect(clippy::comparison_chain)]
        if 0 < diff {
            self.r_len() == prev.r_len()
                && self.l_len() >= prev.l_len()
                && self.r_eq(prev)
                && prev.get_ltr(leftmost)
                    == self.get_ltr(leftmost + diff)
        } else if diff < 0 {
            self.l_len() == prev.l_len()
                && self.r_len() >= prev.r_len()
                && self.l_eq(prev)
                && prev.get_rtl(rightmost)
                    == self.get_rtl(rightmost + diff)
        } else {
            self.l_len() == prev.l_len()
                && self.r_len() == prev.r_len()
                && self.l_eq(prev)
                && self.r_eq(prev)
        }
''', '''        if diff == 0 {
            return self.l_eq(prev) && self.r_eq(prev);
        }

        if diff > 0 {
            if !self.r_eq(prev) || self.l_len() < prev.l_len() {
                return false;
            }

            return prev.get_slice(leftmost, true)
                == self.get_slice(leftmost + diff, true);
        }

        self.l_eq(prev)
            && self.r_len() >= prev.r_len()
            && prev.get_slice(rightmost, false)
                == self.get_slice(rightmost + diff, false)
''')]),
dict(id='rq-slice-break', props=['Q01'], edits=[(RTP, '''            for block in &lspan.0 {
                let count = block.count.min(remaining);
                tape.extend(vec![block.color; count as usize]);
                remaining -= count;
            }
''', '''            for block in &lspan.0 {
                if remaining == 0 {
                    break;
                }

                let count = remaining.min(block.count);
                remaining -= count;
                tape.extend(vec![block.color; count as usize]);
            }
''')]),
dict(id='rq-slice-helper', props=['Q01'], edits=[(RTP, '''        for block in &rspan.0 {
            tape.extend(vec![block.color; block.count as usize]);
        }

        tape
''', '''        rspan.append_to(&mut tape);

        tape
'''), (RTP, '''    fn blank(&self) -> bool {
        self.0.is_empty()
    }

    fn signature''', '''    fn blank(&self) -> bool {
        self.0.is_empty()
    }

    fn append_to(&self, tape: &mut TapeSlice) {
        for block in &self.0 {
            tape.extend(vec![
                block.get_color();
                block.get_count() as usize
            ]);
        }
    }

    fn signature''')]),
dict(id='rq-slice-unroll', props=['Q01'], edits=[(RTP, '''        for block in &rspan.0 {
            tape.extend(vec![block.color; block.count as usize]);
        }

        tape
''', '''        tape.extend(rspan.unroll());

        tape
''')]),
dict(id='rq-slice-resize', props=['Q01'], edits=[(RTP, '''                tape.extend(vec![0; remaining as usize]);
''', '''                tape.resize(tape.len() + remaining as usize, 0);
''')]),
dict(id='rq-slice-repeat', props=['Q01'], edits=[(RTP, '''                tape.extend(vec![block.color; count as usize]);
''', '''                tape.extend(repeat(block.color).take(count as usize));
''')]),
dict(id='rs-run-loop', props=['S01'], edits=[(RSG, '''        while let Some(slot) = self.slot() {
            let Some(instr) = prog.get(&slot) else {
                return Some(Halted);
            };

            if self.init''', '''        loop {
            let slot = self.slot()?;

            let Some(instr) = prog.get(&slot) else {
                return Some(Halted);
            };

            if self.init'''), (RSG, '''            step = false;
        }

        None
    }
}

impl Display for Config {''', '''            step = false;
        }
    }
}

impl Display for Config {''')]),
dict(id='rs-slow-helper', props=['S01'], edits=[(RSG, '''            let instr = prog.get(&copy.slot().unwrap()).unwrap();

            copy.step(instr);

            if copy.state == self.state && copy.tape == self.tape {
                return Some(Repeat);
            }
''', '''            copy.advance(prog);

            if copy.same_as(self) {
                return Some(Repeat);
            }
'''), (RSG, '''    fn spinout(&self, &(_, shift, state): &Instr) -> bool {''', '''    fn advance(&mut self, prog: &CompProg) {
        let slot = self.slot().unwrap();

        self.step(&prog[&slot]);
    }

    fn same_as(&self, other: &Self) -> bool {
        self.state == other.state && self.tape == other.tape
    }

    fn spinout(&self, &(_, shift, state): &Instr) -> bool {''')]),
dict(id='rs-note-blank', props=['S01'], edits=[(RSG, '''                configs
                    .blanks
                    .entry(state)
                    .or_default()
                    .insert(self.tape.pos());
''', '''                configs.note_blank(state, self.tape.pos());
'''), (RSG, '''    fn check_depth(&self) -> bool {''', '''    fn note_blank(&mut self, state: State, pos: Pos) -> bool {
        self.blanks.entry(state).or_default().insert(pos)
    }

    fn check_depth(&self) -> bool {''')]),
dict(id='rs-seen-insert', props=['S01'], edits=[(RSG, '''            let seen = self.seen.entry(state).or_default();

            if seen.contains(tape) {
                return None;
            }

            seen.insert(tape.clone());
''', '''            let seen = self.seen.entry(state).or_default();

            if !seen.insert(tape.clone()) {
                return None;
            }
''')]),
dict(id='rs-match-else', props=['S01'], edits=[(RSG, '''        if let Some(result) = config.run_to_edge(prog, &mut configs) {
            match result {
                Halted => {
                    if config.init {
                        return Some(Halted);
                    }

                    if configs.check_reached(&config) {
                        return Some(Reached);
                    }

                    continue;
                },

                Repeat if config.init => {
                    return Some(Repeat);
                },

                Spinout => {
                    return Some(Spinout);
                },

                _ => {
                    continue;
                },
            }
        }
''', '''        match config.run_to_edge(prog, &mut configs) {
            None => {},

            Some(Halted) if config.init => {
                return Some(Halted);
            },

            Some(Halted) => {
                if configs.check_reached(&config) {
                    return Some(Reached);
                }

                continue;
            },

            Some(Repeat) => {
                if config.init {
                    return Some(Repeat);
                }

                continue;
            },

            Some(Spinout) => {
                return Some(Spinout);
            },

            Some(_) => {
                continue;
            },
        }
''')]),
dict(id='rs-branch-out-all', props=['S01'], edits=[(RSG, '''    fn branch_out(&mut self, mut config: Config, diffs: &Diffs) {
        let tape = &config.tape;

        let Some((last_next, diffs)) = diffs.split_last() else {
            return;
        };

        for &state in diffs {
            let Some(init) = self.check_seen(state, tape) else {
                continue;
            };

            let next_tape = tape.clone();

            let config = Config::new(state, next_tape, init);

            self.add_todo(config);
        }

        if let Some(init) = self.check_seen(*last_next, tape) {
            config.state = *last_next;

            config.init = init;

            self.add_todo(config);
        }
    }''', '''    fn branch_out(&mut self, config: Config, diffs: &Diffs) {
        for &state in diffs {
            if let Some(init) = self.check_seen(state, &config.tape) {
                self.add_todo(Config::new(
                    state,
                    config.tape.clone(),
                    init,
                ));
            }
        }
    }''')]),
dict(id='rs-stale-init', props=['S01'], edits=[(RSG, '''            config.init = init;

''', '''            config.init |= init;

''')]),
dict(id='rs-new-loop', props=['S01'], edits=[(RSG, '''        Self {
            seg,
            todo: vec![],
            seen: Dict::new(),
            blanks: Dict::new(),
            reached: halts
                .iter()
                .map(|&state| (state, Set::new()))
                .collect(),
        }
''', '''        let mut reached = Dict::new();

        for &state in halts {
            reached.insert(state, Set::new());
        }

        Self {
            seg,
            todo: vec![],
            seen: Dict::new(),
            blanks: Dict::new(),
            reached,
        }
''')]),
dict(id='rs-init-loop', props=['S01'], edits=[(RSG, '''        let pos = (0..self.seg).find(|pos| !blanks.contains(pos))?;

        blanks.insert(pos);

        Some(Config::init(self.seg, pos))
''', '''        for pos in 0..self.seg {
            if blanks.insert(pos) {
                return Some(Config::init(self.seg, pos));
            }
        }

        None
''')]),
dict(id='rs-next-match', props=['S01'], edits=[(RSG, '''        self.next_init().or_else(|| self.todo.pop())
''', '''        if let Some(config) = self.next_init() {
            return Some(config);
        }

        self.todo.pop()
''')]),
dict(id='rs-segs-while', props=['S01'], edits=[(RSG, '''    for seg in 2..=segs {
        let Some(result) = all_segments_reached(&prog, 2 + seg) else {
            return Some(seg);
        };

        match result {
            Reached => continue,
            Limit | Halted => return None,
            Spinout | Repeat => return Some(seg),
        }
    }

    None
''', '''    let mut seg = 2;

    while seg <= segs {
        match all_segments_reached(&prog, 2 + seg) {
            Some(Reached) => {},
            Some(Limit | Halted) => return None,
            None | Some(Spinout | Repeat) => return Some(seg),
        }

        seg += 1;
    }

    None
''')]),
dict(id='rs-tape-match', props=['S01'], edits=[(RSG, '''        let (pull, push) = if shift {
            (&mut self.rspan, &mut self.lspan)
        } else {
            (&mut self.lspan, &mut self.rspan)
        };

        push.push(print);

        self.scan = pull.pull();
''', '''        if shift {
            self.scan = self.rspan.pull();
            self.lspan.push(print);
        } else {
            self.scan = self.lspan.pull();
            self.rspan.push(print);
        }
'''), (RSG, '''        let l_len = self.lspan.len();

        l_len + Pos::from(self.scan.is_some() || 0 < l_len)
''', '''        let left = self.lspan.len();

        if self.scan.is_none() && left == 0 {
            0
        } else {
            1 + left
        }
'''), (RSG, '''        if self.is_empty() {
            None
        } else {
            Some(self.0.remove(0))
        }
''', '''        (!self.is_empty()).then(|| self.0.remove(0))
''')]),
dict(id='rs-analyzed-else', props=['S01'], edits=[(RSG, '''                let Some(&(_, shift, next)) = prog.get(&(state, color))
                else {
                    halts.insert(state);
                    continue;
                };

                if next != state {
                    diff.insert(next);
                }

                (if shift { &mut rights } else { &mut lefts })
                    .insert(next);
''', '''                match prog.get(&(state, color)) {
                    None => {
                        halts.insert(state);
                    },
                    Some(&(_, shift, next)) => {
                        if shift {
                            rights.insert(next);
                        } else {
                            lefts.insert(next);
                        }

                        if state != next {
                            diff.insert(next);
                        }
                    },
                }
''')]),
dict(id='rs-reached-match', props=['S01'], edits=[(RSG, '''        let Some(reached) = self.reached.get_mut(&config.state) else {
            return false;
        };

        reached.insert(config.tape.pos());

        reached.len() == self.seg
''', '''        match self.reached.get_mut(&config.state) {
            None => false,
            Some(reached) => {
                reached.insert(config.tape.pos());

                self.seg == reached.len()
            },
        }
''')]),
dict(id='rs-blank-order', props=['S01'], edits=[(RSG, '''        matches!(self.scan, Some(0) | None)
            && self.lspan.blank()
            && self.rspan.blank()
''', '''        if !self.lspan.blank() || !self.rspan.blank() {
            return false;
        }

        self.scan.is_none_or(|scan| scan == 0)
'''), (RSG, '''        self.0.iter().all(|&c| c == 0)
''', '''        !self.0.iter().any(|c| *c != 0)
''')]),
dict(id='te-make-order', props=['E01'], edits=[(RTR, '''    for color in 0..colors {
        for shift in shifts {
            for state in 0..states {
                instrs.push((color, shift, state));
            }
        }
    }
''', '''    for state in 0..states {
        for color in 0..colors {
            for shift in shifts {
                instrs.push((color, shift, state));
            }
        }
    }
''')]),
dict(id='te-make-two', props=['E01'], edits=[(RTR, '''    let shifts = [false, true];

    for color in 0..colors {
        for shift in shifts {
            for state in 0..states {
                instrs.push((color, shift, state));
            }
        }
    }
''', '''    for color in 0..colors {
        for state in 0..states {
            instrs.push((color, false, state));
            instrs.push((color, true, state));
        }
    }
''')]),
dict(id='te-make-iter', props=['E01'], edits=[(RTR, '''    let mut instrs = vec![];

    let shifts = [false, true];

    for color in 0..colors {
        for shift in shifts {
            for state in 0..states {
                instrs.push((color, shift, state));
            }
        }
    }

    instrs
''', '''    (0..colors)
        .flat_map(|color| {
            [false, true].into_iter().flat_map(move |shift| {
                (0..states).map(move |state| (color, shift, state))
            })
        })
        .collect()
''')]),
dict(id='te-make-cap', props=['E01'], edits=[(RTR, '''    let mut instrs = vec![];

    let shifts = [false, true];
''', '''    let shifts = [false, true];

    let mut instrs: Vec<Instr> =
        Vec::with_capacity((2 * states * colors) as usize);
''')]),
dict(id='te-make-while', props=['E01'], edits=[(RTR, '''    for color in 0..colors {
        for shift in shifts {
            for state in 0..states {
                instrs.push((color, shift, state));
            }
        }
    }
''', '''    let mut color = 0;

    while color < colors {
        for shift in shifts {
            for state in 0..states {
                instrs.push((color, shift, state));
            }
        }

        color += 1;
    }
''')]),
dict(id='te-run-match', props=['E01'], edits=[(RTR, '''        let Some(&(color, shift, next_state)) = comp.get(&slot) else {
            return Ok(Some(slot));
        };

        let same = state == next_state;

        if same && tape.at_edge(shift) {
            return Err(());
        }

        tape.step(shift, color, same);
''', '''        let (color, shift, next_state) = match comp.get(&slot) {
            None => return Ok(Some(slot)),
            Some(instr) => *instr,
        };

        let same = next_state == state;

        if tape.at_edge(shift) && same {
            return Err(());
        }

        tape.step(shift, color, same);
''')]),
dict(id='te-run-while', props=['E01'], edits=[(RTR, '''    for _ in 0..sim_lim {
        let slot = (state, tape.scan);
''', '''    let mut steps = 0;

    while steps < sim_lim {
        steps += 1;

        let slot = (state, tape.scan);
''')]),
dict(id='te-run-getinstr', props=['E01'], edits=[(RTR, '''        let Some(&(color, shift, next_state)) = comp.get(&slot) else {
            return Ok(Some(slot));
        };
''', '''        let Some((color, shift, next_state)) = comp.get_instr(&slot)
        else {
            return Ok(Some(slot));
        };
'''), (RTR, '''    instrs::{Color, CompProg, Instr,''', '''    instrs::{Color, CompProg, GetInstr as _, Instr,''')]),
dict(id='te-leaf-any', props=['E01'], edits=[(RTR, '''    if prog.values().all(|(_, _, state)| 1 + state < max_state)
        || prog.values().all(|(color, _, _)| 1 + color < max_color)
    {
        return;
    }

    harvester(prog);
''', '''    if prog.values().any(|(_, _, state)| 1 + state >= max_state)
        && prog.values().any(|&(color, _, _)| color + 1 >= max_color)
    {
        harvester(prog);
    }
''')]),
dict(id='te-leaf-fn', props=['E01'], edits=[(RTR, '''fn leaf(
''', '''fn uses_all(prog: &CompProg, max_state: State, max_color: Color) -> bool {
    !(prog.values().all(|&(_, _, state)| state < max_state - 1)
        || prog.iter().all(|(_, &(color, _, _))| color < max_color - 1))
}

fn leaf(
'''), (RTR, '''    if prog.values().all(|(_, _, state)| 1 + state < max_state)
        || prog.values().all(|(color, _, _)| 1 + color < max_color)
    {
        return;
    }

    harvester(prog);
''', '''    if uses_all(prog, max_state, max_color) {
        harvester(prog);
    }
''')]),
dict(id='te-leaf-loop', props=['E01'], edits=[(RTR, '''    if prog.values().all(|(_, _, state)| 1 + state < max_state)
        || prog.values().all(|(color, _, _)| 1 + color < max_color)
    {
        return;
    }
''', '''    let (mut last_state, mut last_color) = (false, false);

    for &(color, _, state) in prog.values() {
        if state + 1 >= max_state {
            last_state = true;
        }

        if color + 1 >= max_color {
            last_color = true;
        }
    }

    if !last_state || !last_color {
        return;
    }
''')]),
dict(id='te-branch-match', props=['E01'], edits=[(RTR, '''    let Ok(Some(slot)) =
        run_for_undefined(prog, state, &mut tape, sim_lim)
    else {
        leaf(prog, params, harvester);
        return;
    };

    let (slot_state, slot_color) = slot;
''', '''    let (slot_state, slot_color) =
        match run_for_undefined(prog, state, &mut tape, sim_lim) {
            Ok(Some(slot)) => slot,
            Ok(None) | Err(()) => {
                leaf(prog, params, harvester);
                return;
            },
        };

    let slot = (slot_state, slot_color);
''')]),
dict(id='te-branch-all', props=['E01'], edits=[(RTR, '''    let (last_instr, instrs) = instrs.split_last().unwrap();

    for &next_instr in instrs {''', '''    for next_instr in instrs {'''), (RTR, '''
    {
        prog.insert(slot, *last_instr);

        branch(
            *last_instr,
            prog,
            (slot_state, tape),
            sim_lim,
            avail_params,
            params,
            next_remaining_slots,
            harvester,
        );

        prog.remove(&slot);
    }
''', '''''')]),
dict(id='te-branch-avail-fn', props=['E01'], edits=[(RTR, '''    if avail_states < max_states
        && 1 + max(slot_state, instr_state) == avail_states
    {
        avail_states += 1;
    }

    if avail_colors < max_colors
        && 1 + max(slot_color, instr_color) == avail_colors
    {
        avail_colors += 1;
    }
''', '''    avail_states = next_avail(
        avail_states,
        max_states,
        max(instr_state, slot_state),
    );

    avail_colors = next_avail(
        avail_colors,
        max_colors,
        max(instr_color, slot_color),
    );
'''), (RTR, '''fn branch(
''', '''fn next_avail(avail: u64, limit: u64, used: u64) -> u64 {
    if used + 1 == avail && avail < limit {
        avail + 1
    } else {
        avail
    }
}

fn branch(
''')]),
dict(id='te-branch-min', props=['E01'], edits=[(RTR, '''    if avail_states < max_states
        && 1 + max(slot_state, instr_state) == avail_states
    {
        avail_states += 1;
    }
''', '''    if 1 + max(slot_state, instr_state) == avail_states {
        avail_states = min(max_states, avail_states + 1);
    }
''')]),
dict(id='te-branch-last-loop', props=['E01'], edits=[(RTR, '''    if next_remaining_slots == 0 {
        for next_instr in instrs {
            prog.insert(slot, next_instr);
            leaf(prog, params, harvester);
            prog.remove(&slot);
        }

        return;
    }

    let avail_params = (avail_states, avail_colors);

    let (last_instr, instrs) = instrs.split_last().unwrap();

    for &next_instr in instrs {
        prog.insert(slot, next_instr);

        branch(
''', '''    let last = remaining_slots == 1;

    let avail_params = (avail_states, avail_colors);

    let (last_instr, instrs) = instrs.split_last().unwrap();

    for &next_instr in instrs {
        prog.insert(slot, next_instr);

        if last {
            leaf(prog, params, harvester);
            prog.remove(&slot);
            continue;
        }

        branch(
'''), (RTR, '''        prog.insert(slot, *last_instr);

        branch(
            *last_instr,
            prog,
            (slot_state, tape),
            sim_lim,
            avail_params,
            params,
            next_remaining_slots,
            harvester,
        );

        prog.remove(&slot);
''', '''        prog.insert(slot, *last_instr);

        if last {
            leaf(prog, params, harvester);
        } else {
            branch(
                *last_instr,
                prog,
                (slot_state, tape),
                sim_lim,
                avail_params,
                params,
                next_remaining_slots,
                harvester,
            );
        }

        prog.remove(&slot);
''')]),
dict(id='te-build-insert', props=['E01'], edits=[(RTR, '''        |&next_instr| {
            branch(
                next_instr,
                &mut CompProg::from([
                    ((0, 0), (1, true, 1)),
                    ((1, 0), next_instr),
                ]),
''', '''        |&next_instr| {
            let mut prog = CompProg::new();

            prog.insert((1, 0), next_instr);
            prog.insert((0, 0), (1, true, 1));

            branch(
                next_instr,
                &mut prog,
''')]),
dict(id='te-build-seq', props=['E01'], edits=[(RTR, '''    make_instrs(init_states, init_colors).par_iter().for_each(
        |&next_instr| {
            branch(
''', '''    let slots = states * colors - 2 - u64::from(halt);

    make_instrs(init_states, init_colors).into_par_iter().for_each(
        |next_instr| {
            branch(
'''), (RTR, '''                (states * colors) - 1 - (1 + Slots::from(halt)),
''', '''                slots,
''')]),
dict(id='te-build-remaining', props=['E01'], edits=[(RTR, '''                (states * colors) - 1 - (1 + Slots::from(halt)),
''', '''                (states * colors) - if halt { 3 } else { 2 },
''')]),
dict(id='te-tree-let', props=['E01'], edits=[(RTR, '''    build_tree(params, halt, sim_lim, &|comp| {
        access(&progs).push(comp.show(Some(params)));
    });

    get_val(progs)
''', '''    let harvester = |comp: &CompProg| {
        let prog = comp.show(Some(params));

        access(&progs).push(prog);
    };

    build_tree(params, halt, sim_lim, &harvester);

    get_val(progs)
''')]),

dict(id='tx-color-sub', props=['L01'], edits=[(RIN, '''    color.to_digit(10).unwrap().into()
''', '''    let digit = color.to_digit(10).unwrap();

    Color::from(digit)
''')]),
dict(id='tx-shift-match', props=['L01'], edits=[(RIN, '''    shift == RIGHT
''', '''    match shift {
        RIGHT => true,
        _ => false,
    }
''')]),
dict(id='tx-state-if', props=['L01'], edits=[(RIN, '''    match state {
        None => UNDF,
        Some(s) => (s as u8 + 65) as char,
    }
''', '''    if let Some(s) = state {
        (s as u8 + b'A') as char
    } else {
        UNDF
    }
''')]),
dict(id='tx-state-letter', props=['L01'], edits=[(RIN, '''    State::from(state as u8 - 65)
''', '''    State::from(state as u8 - b'A')
''')]),
dict(id='tx-slot-let', props=['L01'], edits=[(RIN, '''    let (state, color) = slot;
    format!("{}{}", show_state(Some(state)), color)
''', '''    let state = show_state(Some(slot.0));
    let color = slot.1;

    format!("{state}{color}")
''')]),
dict(id='tx-instr-iflet', props=['L01'], edits=[(RIN, '''    match instr {
        None => "...".to_owned(),
        Some((color, shift, trans)) => format!(
            "{}{}{}",
            color,
            if shift { RIGHT } else { LEFT },
            show_state(Some(trans))
        ),
    }
''', '''    let Some((color, shift, trans)) = instr else {
        return "...".to_owned();
    };

    let shift = show_shift(shift);
    let trans = show_state(Some(trans));

    format!("{color}{shift}{trans}")
}

const fn show_shift(shift: Shift) -> char {
    if shift { RIGHT } else { LEFT }
''')]),
dict(id='tx-read-order', props=['L01'], edits=[(RIN, '''    let mut chars = instr.chars();
    let color = chars.next().unwrap();
    let shift = chars.next().unwrap();
    let state = chars.next().unwrap();

    Some((read_color(color), read_shift(shift), read_state(state)))
''', '''    let mut chars = instr.chars();

    let color = read_color(chars.next().unwrap());
    let shift = read_shift(chars.next().unwrap());
    let state = read_state(chars.next().unwrap());

    Some((color, shift, state))
''')]),
dict(id='tx-read-any', props=['L01'], edits=[(RIN, '''    if instr.contains(UNDF) {
        return None;
    }
''', '''    if instr.chars().any(|c| c == UNDF) {
        return None;
    }
''')]),
dict(id='tx-parse-loop', props=['L01'], edits=[(RIN, '''        prog.trim()
            .split("  ")
            .map(|instrs| instrs.split(' ').map(read_instr))
            .enumerate()
            .flat_map(|(state, instrs)| {
                instrs.enumerate().filter_map(move |(color, instr)| {
                    instr.map(|instr| {
                        ((state as State, color as Color), instr)
                    })
                })
            })
            .collect()
''', '''        let mut comp = Self::new();

        for (state, instrs) in prog.trim().split("  ").enumerate() {
            for (color, instr) in instrs.split(' ').enumerate() {
                let Some(instr) = read_instr(instr) else {
                    continue;
                };

                comp.insert((state as State, color as Color), instr);
            }
        }

        comp
''')]),
dict(id='tx-parse-iflet', props=['L01'], edits=[(RIN, '''        prog.trim()
            .split("  ")
            .map(|instrs| instrs.split(' ').map(read_instr))
            .enumerate()
            .flat_map(|(state, instrs)| {
                instrs.enumerate().filter_map(move |(color, instr)| {
                    instr.map(|instr| {
                        ((state as State, color as Color), instr)
                    })
                })
            })
            .collect()
''', '''        let mut comp = Self::new();

        for (state, row) in prog.trim().split("  ").enumerate() {
            let instrs = row.split(' ').map(read_instr);

            for (color, instr) in instrs.enumerate() {
                let slot = (state as State, color as Color);

                if let Some(instr) = instr {
                    comp.insert(slot, instr);
                }
            }
        }

        comp
''')]),
dict(id='tx-parse-chain', props=['L01'], edits=[(RIN, '''            .map(|instrs| instrs.split(' ').map(read_instr))
            .enumerate()
            .flat_map(|(state, instrs)| {
                instrs.enumerate().filter_map(move |(color, instr)| {
                    instr.map(|instr| {
                        ((state as State, color as Color), instr)
                    })
                })
            })
''', '''            .enumerate()
            .flat_map(|(state, instrs)| {
                instrs.split(' ').enumerate().filter_map(
                    move |(color, instr)| {
                        let slot = (state as State, color as Color);

                        Some((slot, read_instr(instr)?))
                    },
                )
            })
''')]),
dict(id='tx-show-helper', props=['L01'], edits=[(RIN, '''        let (max_state, max_color) = params.unwrap_or_else(|| {
            let (ms, mx) = self.iter().fold(
                (1, 1),
                |(ms, mc), (&(ss, sc), &(ic, _, is))| {
                    (ms.max(ss).max(is), mc.max(sc).max(ic))
                },
            );

            (1 + ms, 1 + mx)
        });
''', '''        let (max_state, max_color) =
            params.unwrap_or_else(|| get_params(self));
'''), (RIN, '''fn read_color(''', '''fn get_params(comp: &CompProg) -> Params {
    let (ms, mc) = comp.iter().fold(
        (1, 1),
        |(ms, mc), (&(ss, sc), &(ic, _, is))| {
            (is.max(ss).max(ms), ic.max(sc).max(mc))
        },
    );

    (1 + ms, 1 + mc)
}

fn read_color(''')]),
dict(id='tx-show-loop', props=['L01'], edits=[(RIN, '''            let (ms, mx) = self.iter().fold(
                (1, 1),
                |(ms, mc), (&(ss, sc), &(ic, _, is))| {
                    (ms.max(ss).max(is), mc.max(sc).max(ic))
                },
            );

            (1 + ms, 1 + mx)
''', '''            let (mut ms, mut mx) = (1, 1);

            for (&(ss, sc), &(ic, _, is)) in self {
                ms = ms.max(ss).max(is);
                mx = mx.max(sc).max(ic);
            }

            (1 + ms, 1 + mx)
''')]),
dict(id='tx-show-if', props=['L01'], edits=[(RIN, '''            let (ms, mx) = self.iter().fold(
                (1, 1),
                |(ms, mc), (&(ss, sc), &(ic, _, is))| {
                    (ms.max(ss).max(is), mc.max(sc).max(ic))
                },
            );

            (1 + ms, 1 + mx)
''', '''            let mut states = 2;
            let mut colors = 2;

            for (&(ss, sc), &(ic, _, is)) in self.iter() {
                for state in [ss, is] {
                    if state >= states {
                        states = 1 + state;
                    }
                }

                colors = colors.max(1 + sc).max(1 + ic);
            }

            (states, colors)
''')]),
dict(id='tx-show-get', props=['L01'], edits=[(RIN, '''                    .map(|color| {
                        show_instr(self.get(&(state, color)).copied())
                    })
                    .collect::<Vec<_>>()
                    .join(" ")
            })
            .collect::<Vec<_>>()
            .join("  ")
''', '''                    .map(|color| show_instr(self.get_instr(&(state, color))))
                    .collect::<Vec<String>>()
                    .join(" ")
            })
            .collect::<Vec<String>>()
            .join("  ")
''')]),
dict(id='tx-show-rows', props=['L01'], edits=[(RIN, '''        (0..max_state)
            .map(|state| {
                (0..max_color)
                    .map(|color| {
                        show_instr(self.get(&(state, color)).copied())
                    })
                    .collect::<Vec<_>>()
                    .join(" ")
            })
            .collect::<Vec<_>>()
            .join("  ")
''', '''        let show_row = |state| {
            let instrs: Vec<String> = (0..max_color)
                .map(|color| {
                    let slot = (state, color);

                    show_instr(self.get(&slot).copied())
                })
                .collect();

            instrs.join(" ")
        };

        let rows: Vec<String> = (0..max_state).map(show_row).collect();

        rows.join("  ")
''')]),
dict(id='tx-show-push', props=['L01'], edits=[(RIN, '''        (0..max_state)
            .map(|state| {
                (0..max_color)
                    .map(|color| {
                        show_instr(self.get(&(state, color)).copied())
                    })
                    .collect::<Vec<_>>()
                    .join(" ")
            })
            .collect::<Vec<_>>()
            .join("  ")
''', '''        let mut rows = vec![];

        for state in 0..max_state {
            let mut row = vec![];

            for color in 0..max_color {
                row.push(show_instr(self.get(&(state, color)).copied()));
            }

            rows.push(row.join(" "));
        }

        rows.join("  ")
''')]),
dict(id='tl-let', props=['L02'], edits=[(RLB, '''        quick_term_or_rec(&CompProg::from_str(prog), sim_lim, false)
''', '''        let comp = CompProg::from_str(prog);

        quick_term_or_rec(&comp, sim_lim, false)
'''), (RLB, '''        cant_halt(&CompProg::from_str(prog), depth)
''', '''        let comp = tcompile(prog);

        cant_halt(&comp, depth)
''')]),
dict(id='tl-show', props=['L02'], edits=[(RLB, '''        show_comp(&comp, params)
    }
''', '''        comp.show(params)
    }
'''), (RLB, '''    pub fn show_comp(
        comp: &CompProg,
        params: Option<Params>,
    ) -> String {
        comp.show(params)
    }
''', '')]),
dict(id='tl-segment-loop', props=['L02'], edits=[(RLB, '''        let (states, colors) = prog.iter().fold(
            (0, 0),
            |(ms, mc), (&(ss, sc), &(ic, _, is))| {
                (ms.max(ss).max(is), mc.max(sc).max(ic))
            },
        );

        let params = (1 + states, 1 + colors);

        segment_cant_halt(prog, params, segs)
''', '''        segment_cant_halt(prog, get_params(prog), segs)
    }

    fn get_params(prog: &CompProg) -> Params {
        let (mut states, mut colors) = (0, 0);

        for (&(state, color), &(print, _, trans)) in prog {
            states = states.max(state).max(trans);
            colors = colors.max(color).max(print);
        }

        (1 + states, 1 + colors)
''')]),
dict(id='tg-while', props=['G01'], edits=[(RGR, '    for _ in 0..states {\n        let Some(state) = todo.pop() else {\n            break;\n        };\n\n', '    while let Some(state) = todo.pop() {\n')]),
dict(id='tg-noreached', props=['G01'], edits=[(RGR, '        if reached.contains(&state) {\n            continue;\n        }\n\n        reached.insert(state);\n', '        reached.insert(state);\n')]),
dict(id='tg-insif', props=['G01'], edits=[(RGR, '        if reached.contains(&state) {\n            continue;\n        }\n\n        reached.insert(state);\n', '        if !reached.insert(state) {\n            continue;\n        }\n')]),
dict(id='tg-match', props=['G01'], edits=[(RGR, '        let Some(state) = todo.pop() else {\n            break;\n        };\n', '        let state = match todo.pop() {\n            Some(state) => state,\n            None => break,\n        };\n')]),
dict(id='tg-late', props=['G01'], edits=[(RGR, '        reached.insert(state);\n\n        for &exit in &exitpoints[&state] {\n            if !reached.contains(&exit) && !todo.contains(&exit) {\n                todo.push(exit);\n            }\n        }\n', '        for &exit in &exitpoints[&state] {\n            if !reached.contains(&exit) && !todo.contains(&exit) {\n                todo.push(exit);\n            }\n        }\n\n        reached.insert(state);\n')]),
dict(id='tg-cont', props=['G01'], edits=[(RGR, '            if !reached.contains(&exit) && !todo.contains(&exit) {\n                todo.push(exit);\n            }\n', '            if reached.contains(&exit) || todo.contains(&exit) {\n                continue;\n            }\n\n            todo.push(exit);\n')]),
dict(id='tg-if', props=['G01'], edits=[(RGR, '        if src == dst {\n            continue;\n        }\n\n        exitpoints.entry(src).or_default().push(dst);', '        if src != dst {\n            exitpoints.entry(src).or_default().push(dst);\n        }')]),
dict(id='tg-orins', props=['G01'], edits=[(RGR, 'entry(src).or_default().push(dst)', 'entry(src).or_insert_with(Vec::new).push(dst)')]),
dict(id='tg-let', props=['G01'], edits=[(RGR, 'exitpoints.entry(src).or_default().push(dst);', 'let conns = exitpoints.entry(src).or_default();\n\n        conns.push(dst);')]),
dict(id='tg-iter', props=['G01'], edits=[(RGR, 'for &exit in &exitpoints[&state] {', 'for exit in exitpoints[&state].iter().copied() {')]),
dict(id='tg-vals', props=['G01'], edits=[(RGR, 'for conns in exitpoints.values_mut() {', 'for (_, conns) in &mut exitpoints {')]),
dict(id='tg-last', props=['G01'], edits=[(RGR, '    let mut todo: Vec<State> = exitpoints[&(states - 1)].clone();', '    let last = states - 1;\n\n    let mut todo = exitpoints[&last].clone();')]),
dict(id='tg-fn', props=['G01'], edits=[(RGR, '        for &exit in &exitpoints[&state] {\n            if !reached.contains(&exit) && !todo.contains(&exit) {\n                todo.push(exit);\n            }\n        }\n    }\n\n    false\n}\n', '        add_exits(&exitpoints[&state], &reached, &mut todo);\n    }\n\n    false\n}\n\nfn add_exits(exits: &[State], reached: &Set<State>, todo: &mut Vec<State>) {\n    for &exit in exits {\n        if !reached.contains(&exit) && !todo.contains(&exit) {\n            todo.push(exit);\n        }\n    }\n}\n')]),
dict(id='tg-ifcontains', props=['G01'], edits=[(RGR, '            if !reached.contains(&exit) && !todo.contains(&exit) {', '            let known = reached.contains(&exit) || todo.contains(&exit);\n\n            if !known {')]),
dict(id='tg-iter2', props=['G01'], edits=[(RGR, 'for (&(src, _), &(_, _, dst)) in prog {', 'for (&(src, _), &(_, _, dst)) in prog.iter() {')]),
dict(id='tg-edge', props=['G01'], edits=[(RGR, '    for (&(src, _), &(_, _, dst)) in prog {\n', '    for (slot, instr) in prog {\n        let src = slot.0;\n        let dst = instr.2;\n\n')]),
dict(id='tg-newcheck', props=['G01'], edits=[(RGR, '        exitpoints.entry(src).or_default().push(dst);', '        let conns = exitpoints.entry(src).or_default();\n\n        if !conns.contains(&dst) {\n            conns.push(dst);\n        }')]),
dict(id='tg-ne', props=['G01'], edits=[(RGR, '        if state == 0 {\n            return true;\n        }\n\n        if reached.contains(&state) {\n            continue;\n        }\n\n        reached.insert(state);\n\n        for', '        if state == 0 {\n            return true;\n        }\n\n        if reached.contains(&state) {\n            continue;\n        }\n\n        let _ = reached.insert(state);\n\n        for')]),
]
