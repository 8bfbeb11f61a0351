"""Concrete search for a program whose block or back-symbol macro does not do what the program itself does."""
from __future__ import annotations
import os
import sys
from .common import REPO, Found
from . import stubs

sys.path.insert(0, REPO)
stubs.install()
import tm.macro as M      # noqa: E402

PRE = (f'sys.path.insert(0, {os.path.dirname(os.path.dirname(os.path.abspath(__file__)))!r})\n'
       'from fz import stubs; stubs.install()\n')


def gen_prog(rng, smax=4, cmax=4):
    S, C = rng.choice((1, 2, 2, 2, 3, 3, smax)), rng.choice((2, 2, 2, 3, 3, cmax))
    hole = rng.choice((0, 0, .1, .1, .3))
    self_ = rng.choice((0, .2, .4))
    rows = []
    for s in range(S):
        row = []
        for c in range(C):
            if (s, c) != (0, 0) and rng.random() < hole:
                row.append(None)
            else:
                row.append((rng.randrange(C), rng.random() < .5, s if rng.random() < self_ else rng.randrange(S)))
        rows.append(row)
    return rows


def show(rows):
    return '  '.join(' '.join(stubs.show_instr(i) for i in r) for r in rows)


class Undefined(Exception):
    pass


class Looping(Exception):
    pass


class Base:
    """the program itself, one step at a time, on a tape kept cell by cell"""
    def __init__(self, rows):
        self.rows = rows
        self.S, self.C = len(rows), len(rows[0])
        self.states, self.colors = self.S, self.C

    def instr(self, slot):
        i = self.rows[slot[0]][slot[1]]
        if i is None:
            raise Undefined(slot)
        return i


class OnTop:
    """one macro level of the code under test as the machine below the next level"""
    def __init__(self, prog, below):
        self.prog, self.below = prog, below

    def instr(self, slot):
        try:
            return self.prog[slot]
        except KeyError as e:
            raise Undefined(e.args[0])
        except M.MacroInfLoop:
            raise Looping


def level(what, prog, lower, text, steps, rng, pid, stats):
    """runs one macro level against the machine below it, from the blank tape"""
    tape, pos, q = {}, 0, 0
    mtape, mpos, mq = {}, 0, 0
    logic = prog.logic
    for n in range(steps):
        slot = mq, mtape.get(mpos, 0)
        state, (right, cells) = logic.deconstruct_inputs(slot)
        lo = pos - len(cells) + 1 if right else pos
        real = tuple(tape.get(lo + i, 0) for i in range(len(cells)))
        if state != q or real != tuple(cells):
            raise Found(what=f'{what}: macro configuration {n} of {text} is not one the program reaches',
                        input=f'{text} {what} macro step {n} slot {slot}', got=f'state {state} cells {tuple(cells)}',
                        want=f'state {q} cells {real}', code=replay(text, what, n))
        # the program itself, until it leaves the window
        seen = set()
        out = None
        k = 0
        while out is None:
            try:
                w, sh, nq = lower.instr((q, tape.get(pos, 0)))
            except Undefined as e:
                out = 'undefined', e.args[0]
                break
            except Looping:
                out = 'below'
                break
            tape[pos] = w
            pos += 1 if sh else -1
            q = nq
            if not lo <= pos < lo + len(cells):
                out = 'left'
                break
            k += 1
            if k % 16 == 0 or k < 16:
                c = q, pos, tuple(tape.get(lo + i, 0) for i in range(len(cells)))
                if c in seen:
                    out = 'loop'
                elif len(seen) > 300:
                    return
                seen.add(c)
        try:
            color, shift, mq = prog[slot]
            got = 'left'
        except KeyError as e:
            got = 'undefined', e.args[0]
        except M.MacroInfLoop:
            got = 'loop'
        if out == 'below':
            out = 'loop'
        if got == 'loop' and out != 'loop':
            if logic.name == 'backsymbol' and logic.cells > 1 and (
                    k >= 2 * logic.base_states * logic.base_colors ** (logic.cells + 1)):
                return      # the limit of larger backsymbols is what it is (M03)
            raise Found(what=f'{what}: {text} called a loop inside the macro cell', input=f'{text} {what} slot {slot}',
                        got='MacroInfLoop', want=str(out), code=replay(text, what, n))
        if got != out:
            raise Found(what=f'{what}: macro step of {text}', input=f'{text} {what} slot {slot}', got=str(got), want=str(out),
                        code=replay(text, what, n))
        if got != 'left':
            return
        mtape[mpos] = color
        mpos += 1 if shift else -1
        stats['macro_steps'] = stats.get('macro_steps', 0) + 1


def stay(rows, q, right, cells):
    """how many steps (a run of equal steps is one) the program makes in the window; None: for ever or into an undefined slot"""
    tape = list(cells)
    pos = len(tape) - 1 if right else 0
    n, seen, last = 0, set(), None
    while 0 <= pos < len(tape):
        i = rows[q][tape[pos]]
        if i is None:
            return None
        w, sh, nq = i
        if nq != q or (q, tape[pos]) != last:
            n += 1
            c = q, pos, tuple(tape)
            if c in seen:
                return None
            seen.add(c)
        elif n > 2000:
            return None
        last = (q, tape[pos]) if nq == q else None
        if nq == q and 0 <= pos + (1 if sh else -1) < len(tape) and n > 2000:
            return None
        tape[pos] = w
        pos += 1 if sh else -1
        q = nq
        if len(seen) > 3000:
            return None
    return n, q, pos >= len(tape), tuple(tape)


def long_stay(rng, stats):
    """climbs to a program that stays long in a window, and asks for its macro instruction there"""
    S, C, k = rng.choice(((2, 2, 2), (3, 2, 2), (2, 2, 3), (2, 3, 2), (4, 2, 2), (3, 2, 3), (3, 3, 2), (2, 2, 4), (3, 2, 4)))
    back = k == 2 and rng.random() < .5
    rows = [[(rng.randrange(C), rng.random() < .5, rng.randrange(S)) for _ in range(C)] for _ in range(S)]
    best, at = 0, None
    starts = [(rng.randrange(S), rng.random() < .5, tuple(rng.randrange(C) for _ in range(k))) for _ in range(4)]
    for _ in range(rng.choice((60, 200, 500))):
        s, c = rng.randrange(S), rng.randrange(C)
        old = rows[s][c]
        rows[s][c] = rng.randrange(C), rng.random() < .5, rng.randrange(S)
        top, where = -1, None
        for st in starts:
            r = stay(rows, *st)
            if r is not None and r[0] > top:
                top, where = r[0], st
        if top >= best:
            best, at = top, where
        else:
            rows[s][c] = old
    if at is None:
        return
    r = stay(rows, *at)
    if r is None:
        return
    stats['window_runs'] = stats.get('window_runs', 0) + 1
    text = show(rows)
    kw = {'backsym': 1} if back else {'blocks': k}
    prog = M.make_macro(text, params = (S, C), **kw)
    q, right, cells = at
    conv = prog.logic.converter
    state, (right2, out) = r[1], (r[2], r[3])
    try:
        if back:
            # window of two cells: the head's cell and the backsymbol
            b = conv.tape_to_color(cells[:-1] if right else cells[1:])
            slot = 2 * (q * C + b) + (not right), cells[-1] if right else cells[0]
            want = prog.logic.reconstruct_outputs((state, (right2, out)))
        else:
            slot = 2 * q + right, conv.tape_to_color(cells)
            want = conv.tape_to_color(out), right2, 2 * state + (not right2)
    except Exception as e:      # the encoding itself is not what is looked at here
        return
    code = (PRE + f'from tm.macro import make_macro\np = make_macro({text!r}, params = {(S, C)}, '
            f'{", ".join(f"{a} = {b}" for a, b in kw.items())})\nc = p.logic.converter\n'
            f'c.tape_to_color({cells if not back else (cells[:-1] if right else cells[1:])})\nprint(p[{slot}])\n')
    try:
        got = tuple(prog[slot])
    except M.MacroInfLoop:
        raise Found(what=f'{kw}: {text} called a loop inside the macro cell', input=f'{text} {kw} state {q} window {cells} from the '
                    f'{"right" if right else "left"}', got='MacroInfLoop', want=f'{want} after {r[0]} steps', code=code)
    if tuple(map(int, got)) != tuple(map(int, want)):
        raise Found(what=f'{kw}: macro step of {text}', input=f'{text} {kw} state {q} window {cells} from the '
                    f'{"right" if right else "left"}', got=str(got), want=str(want), code=code)


def replay(text, what, n):
    kw = ', '.join(f'{k} = {v}' for k, v in what.items())
    return PRE + (f'from tm.machine import Machine\nm = Machine({text!r}, {kw})\nm.run(sim_lim = {n + 3}, watch_tape = True)\n'
                  f'print(m)\nprint(Machine({text!r}).run(sim_lim = 200000))\n')


def run(pid):
    def go(rng, hints, stats):
        while True:
            if rng.random() < (.5 if pid == 'M03' else .1):
                long_stay(rng, stats)
                yield
                continue
            rows = gen_prog(rng)
            text = show(rows)
            C = len(rows[0])
            kw = {}
            if rng.random() < .6:
                kw['blocks'] = rng.choice((2, 2, 2, 2, 3, 3, 4, 4, 5, 6) if C == 2 else (2, 2, 3, 4, 5) if C == 3 else (2, 2, 2, 3, 4))
            if not kw or rng.random() < .4:
                kw['backsym'] = rng.choice((1, 1, 1, 2, 2, 3, 4, 5)) if not kw else 1
            given = {}
            if rng.random() < .3:
                given['params'] = len(rows), C
            if rng.random() < .15:
                for c in (M.CONVERTERS, M.BLOCKS, M.BACKSYMS):
                    c.clear()
            prog = M.make_macro(text, **kw, **given)
            chain = []
            p = prog
            while isinstance(p, M.MacroProg):
                chain.append(p)
                p = p.comp
            want = [n for n, k in (('backsymbol', 'backsym'), ('block', 'blocks')) if kw.get(k)]
            got = [(c.logic.name, c.logic.cells) for c in chain]
            if got != [(n, kw['backsym' if n == 'backsymbol' else 'blocks']) for n in want]:
                raise Found(what='macro levels', input=f'{text} {kw}', got=str(got), want=str(want),
                            code=PRE + f'from tm.macro import make_macro\nprint(make_macro({text!r}, **{kw}))\n')
            lower = Base(rows)
            for c in reversed(chain):
                level({**kw, **given}, c, lower, text, rng.choice((40, 120, 400)), rng, pid, stats)
                lower = OnTop(c, lower)
            yield
    return go
