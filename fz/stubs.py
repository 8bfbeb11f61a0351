"""Python stand-ins for the names tm.rust_stuff exports (the compiled Rust library is not built here).

Parsing and showing follow src/instrs.rs; PastConfigs follows src/prover.rs line by line."""
from __future__ import annotations
import sys
import types


def read_instr(s):
    if '.' in s:
        return None
    return int(s[0]), s[1] == 'R', ord(s[2]) - 65


def tcompile(prog):
    return {(st, co): i
            for st, row in enumerate(prog.strip().split('  '))
            for co, s in enumerate(row.split(' '))
            if (i := read_instr(s)) is not None}


def show_state(s):
    return '.' if s is None else chr(s + 65)


def show_slot(slot):
    return f'{show_state(slot[0])}{slot[1]}'


def read_slot(s):
    return ord(s[0]) - 65, int(s[1])


def show_instr(i):
    return '...' if i is None else f'{i[0]}{"R" if i[1] else "L"}{show_state(i[2])}'


def show_comp(comp, params=None):
    if params is None:
        ms = mc = 1
        for (s, c), (w, _, n) in comp.items():
            ms, mc = max(ms, s, n), max(mc, c, w)
        params = ms + 1, mc + 1
    return '  '.join(' '.join(show_instr(comp.get((s, c))) for c in range(params[1])) for s in range(params[0]))


class PastConfigs:
    def __init__(self, state, cycle):
        self.configs = {state: [cycle]}

    def next_deltas(self, state, cycle):
        cs = self.configs.setdefault(state, [cycle])
        cs.append(cycle)
        if len(cs) < 5:
            return None
        e, d, c, b, a = cs
        del cs[0]
        for i in range(1, 5):
            p1, p2, p3, p4 = a - b * i, b - c * i, c - d * i, d - e * i
            diff = p1 - p2
            if p2 - p3 != diff or p3 - p4 != diff:
                continue
            n1 = a * i + p1 + diff
            n2 = n1 * i + p1 + 2 * diff
            n3 = n2 * i + p1 + 3 * diff
            if a > n1 or n1 > n2 or n2 > n3:
                return None
            return n1 - a, n2 - n1, n3 - n2
        return None

    def delete_configs(self, state):
        self.configs.pop(state, None)


def opt_block(prog, steps):
    return 1


def install():
    m = types.ModuleType('tm.rust_stuff')
    for k, v in dict(read_instr=read_instr, tcompile=tcompile, show_state=show_state, show_slot=show_slot, read_slot=read_slot,
                     show_instr=show_instr, py_show_comp=show_comp, PastConfigs=PastConfigs, py_opt_block=opt_block,
                     run_prover=None, py_quick_term_or_rec=None, py_cant_halt=None, py_cant_blank=None, py_cant_spin_out=None,
                     py_segment_cant_halt=None).items():
        setattr(m, k, v)
    sys.modules['tm.rust_stuff'] = m
