"""Concrete search for src/reason.rs: the compiled backward reasoner against runs simulated here, level by level and answer by answer."""
from __future__ import annotations
from . import rust
from .common import Found
from .rtape_fz import code as _code

ANSWERS = '''
pub mod vanswer {
    use super::*;
    use crate::instrs::Parse as _;
    pub fn ask(w: &[&str]) -> String {
        let c = CompProg::from_str(w[1]);
        let d: Depth = w[2].parse().unwrap();
        match w[0] {
            "halt" => format!("{:?}", cant_halt(&c, d)),
            "blank" => format!("{:?}", cant_blank(&c, d)),
            "spin" => format!("{:?}", cant_spin_out(&c, d)),
            _ => "?".to_owned(),
        }
    }
}
'''
INSIDE = '''
pub mod vprobe {
    use super::*;
    use crate::instrs::Parse as _;
    fn sp(s: &str) -> Vec<Block> {
        s.split(',').filter(|x| !x.is_empty()).map(|x| { let v: Vec<u64> = x.split(':').map(|y| y.parse().unwrap()).collect(); Block::new(v[0], v[1]) }).collect()
    }
    fn end(s: &str) -> TapeEnd { if s == "0" { TapeEnd::Blanks } else { TapeEnd::Unknown } }
    fn mk(w: &[&str]) -> Backstepper {
        Backstepper { scan: w[0].parse().unwrap(), lspan: sp(w[1]), rspan: sp(w[2]), l_end: end(w[3]), r_end: end(w[4]), head: 0 }
    }
    fn show(t: &Backstepper) -> String {
        let f = |s: &Vec<Block>| s.iter().map(|b| format!("{}:{}", b.color, b.count)).collect::<Vec<_>>().join(",");
        let e = |e: TapeEnd| if e == TapeEnd::Blanks { "0" } else { "?" };
        format!("{} {} {} {} {}", t.scan, f(&t.lspan), f(&t.rspan), e(t.l_end), e(t.r_end))
    }
    fn level(c: &Configs) -> String { c.iter().map(|c| format!("{} {}", c.state, show(&c.tape))).collect::<Vec<_>>().join(";") }
    pub fn ask(w: &[&str]) -> String {
        match w[0] {
            "back" => {
                let mut t = mk(&w[1..]);
                let s = w[6] == "1";
                let ok = t.check_step(s, w[7].parse().unwrap()).is_some();
                let b = t.blank();
                t.backstep(s, w[8].parse().unwrap());
                format!("{} {}|{}|{}", ok as u8, b as u8, show(&t), t.head)
            },
            "init" => { let c = w[1].parse().unwrap();
                format!("{}|{}|{}|{}", show(&Backstepper::init_halt(c)), show(&Backstepper::init_blank(c)), show(&Backstepper::init_spinout(false)), show(&Backstepper::init_spinout(true))) },
            "levels" => {
                let c = CompProg::from_str(w[2]);
                let first = match w[1] { "halt" => halt_configs(&c), "blank" => erase_configs(&c), _ => zero_reflexive_configs(&c) };
                let entry = get_entrypoints(&c);
                let mut out = vec![level(&first), entry.iter().map(|(s, v)| v.iter().map(|((a, b), _)| format!("{s}:{a}:{b}")).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join(",")];
                let mut configs = first;
                configs.retain(|c| entry.contains_key(&c.state));
                out.push(level(&configs));
                let mut blanks: Blanks = configs.iter().filter(|c| c.tape.blank()).map(|c| c.state).collect();
                for _ in 0..w[3].parse::<usize>().unwrap() {
                    let Some(v) = get_valid_steps(&mut configs, &entry) else { break };
                    if v.is_empty() || v.len() > 40 { break }
                    match step_configs(v, &mut blanks) { None => break, Some(n) => { out.push(level(&n)); configs = n } }
                }
                out.join("|")
            },
            _ => vanswer_ask(w),
        }
    }
    fn vanswer_ask(w: &[&str]) -> String { super::vanswer::ask(w) }
}
'''
PROBES = {'reason': ANSWERS + INSIDE}
# when the inner functions have other names or shapes: the answers only
FALLBACK = {'reason': ANSWERS + 'pub mod vprobe { pub fn ask(w: &[&str]) -> String { super::vanswer::ask(w) } }\n'}
MAIN = '''
use std::io::BufRead;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let w: Vec<&str> = l.split('\\t').collect();
        match std::panic::catch_unwind(|| reason::vprobe::ask(&w)) { Ok(s) => println!("{s}"), Err(_) => println!("PANIC") }
    }
}
'''


def code(words, got, want):
    return _code(words, got, want, 'rreason_fz')


# ------------------------------------------------------------------ programs
class Prog:
    def __init__(self, table):
        """table: state -> list of (color, shift, state) or None"""
        self.table = table
        self.d = {(s, c): i for s, row in enumerate(table) for c, i in enumerate(row) if i is not None}
        self.text = '  '.join(' '.join('...' if i is None else f'{i[0]}{"LR"[i[1]]}{chr(65 + i[2])}' for i in row) for row in table)

    def core(self):
        """states that are entered from states that are entered from ... without end"""
        core = {i[2] for i in self.d.values()}
        while True:
            new = {i[2] for (s, _), i in self.d.items() if s in core}
            if new == core:
                return core
            core = new

    def regular(self):
        """within what the reasoner answers for: see known_findings.txt"""
        if (0, 0) not in self.d or 0 not in self.core() or self.d[0, 0][2] == 0:
            return False
        ms, mc = max(s for s, _ in self.d), max(c for _, c in self.d)
        return all(i[0] <= mc and i[2] <= ms for i in self.d.values())


def prog(rng):
    s, c = rng.choice(((2, 2), (2, 2), (3, 2), (3, 2), (3, 2), (4, 2), (2, 3), (2, 3), (3, 3), (2, 4), (5, 2))
                      if rng.random() < .75 else ((5, 3), (4, 4), (6, 3), (8, 2), (6, 5), (9, 3)))
    undef = rng.choice((0, 0, 1, 1, 2, 3))
    table = [[(rng.randrange(c) if rng.random() < .7 else 0, rng.random() < .5, rng.randrange(s)) for _ in range(c)] for _ in range(s)]
    if rng.random() < .8:
        table[0][0] = (1, True, 1)
    for _ in range(undef):
        a, b = rng.randrange(s), rng.randrange(c)
        if (a, b) != (0, 0):
            table[a][b] = None
    return Prog(table)


def simulate(p, steps):
    """what the run from the blank tape reaches: name -> step"""
    tape, pos, st, seen, nz = {}, 0, 0, {}, 0
    lo = hi = 0                       # every nonblank cell lies in [lo, hi]
    for n in range(steps):
        c = tape.get(pos, 0)
        i = p.d.get((st, c))
        if i is None:
            seen['halt'] = n
            break
        pr, sh, to = i
        if c == 0 and to == st and not any(v and ((k > pos) if sh else (k < pos)) for k, v in tape.items()):
            seen['spin'] = n
            break
        if pr != c:
            nz += (pr != 0) - (c != 0)
            tape[pos] = pr
            if pr == 0 and nz == 0 and 'blank' not in seen:
                seen['blank'] = n
        pos += 1 if sh else -1
        st = to
    return seen


# ------------------------------------------------------------------ partly known tapes
def blocks(s):
    return [tuple(map(int, b.split(':'))) for b in s.split(',') if b]


def cells(bl, end):
    out = []
    for c, n in bl:
        out += [c] * n
    if end == '0':
        while out and out[-1] == 0:
            out.pop()
    return tuple(out)


def canon(scan, l, r, le, re):
    return int(scan), cells(blocks(l), le), cells(blocks(r), re), le, re


def nearest(span, end):
    return span[0] if span else 0 if end == '0' else None


def back(t, shift, read):
    """the cells before the step that left the tape"""
    scan, l, r, le, re = t
    if shift:
        l, r = l[1:], (scan, *r)
        if re == '0':
            r = cells([(c, 1) for c in r], '0')
    else:
        l, r = (scan, *l), r[1:]
        if le == '0':
            l = cells([(c, 1) for c in l], '0')
    return read, l, r, le, re


def ok(t, shift, pr):
    c = nearest(t[1], t[3]) if shift else nearest(t[2], t[4])
    return c is None or c == pr


def blank(t):
    return t[0] == 0 and not any(t[1]) and not any(t[2])


def parse_level(s):
    out = []
    for e in s.split(';'):
        if e:
            w = e.split(' ')
            out.append((int(w[0]), canon(*w[1:])))
    return out


def targets(p, mode):
    out = []
    if mode == 'halt':
        ms, mc = max(s for s, _ in p.d), max(c for _, c in p.d)
        for s in range(ms + 1):
            for c in range(mc + 1):
                if (s, c) not in p.d:
                    out.append((s, (c, (), (), '?', '?')))
    for (s, c), (pr, sh, to) in sorted(p.d.items()):
        if mode == 'blank' and pr == 0 and c != 0:
            out.append((s, (c, (), (), '0', '0')))
        if mode == 'spin' and c == 0 and to == s:
            out.append((s, (0, (), (), *('?0' if sh else '0?'))))
    return out


def levels(p, mode, got, fail):
    lv = got.split('|')
    want, have = targets(p, mode), parse_level(lv[0])
    if sorted(want) != sorted(have):
        fail('the target configurations', want)
    entry = {}
    for e in lv[1].split(','):
        if e:
            t, s, c = map(int, e.split(':'))
            if p.d.get((s, c), (0, 0, None))[2] != t:
                fail('entry points', f'{e} is no instruction')
            entry.setdefault(t, []).append((s, c))
    core = p.core()
    for (s, c), i in p.d.items():
        if s in core and (s, c) not in entry.get(i[2], ()):
            fail('entry points', f'state {i[2]} is entered from {(s, c)}')
    held = parse_level(lv[2])
    seen = {s for s, t in held if blank(t)}
    for k, now in enumerate(lv[3:]):
        now = parse_level(now)
        want = [(s, back(t, p.d[s, c][1], c)) for st, t in held for s, c in entry.get(st, ()) if ok(t, p.d[s, c][1], p.d[s, c][0])]
        left = list(now)
        seen |= {s for s, t in now if blank(t)}
        for w in want:
            if w in left:
                left.remove(w)
            elif not (blank(w[1]) and w[0] in seen):
                fail(f'level {k + 1}: a configuration that leads to one of the level before is missing', w)
        if left:
            fail(f'level {k + 1}: configurations that lead to none of the level before', left[0])
        held = now


def rspan(rng):
    return ','.join(f'{rng.randrange(3)}:{rng.choice((1, 1, 1, 2, 3, 7))}' for _ in range(rng.choice((0, 0, 1, 1, 2, 3))))


STEPS = 600


def run(pid, exe):
    def gen(rng, hints, stats):
        q = rust.Probe(exe)
        inner = 'inside' if not getattr(exe, 'fallback', False) else ''

        def fail(what, words, got, want):
            raise Found(what=what, input=' '.join(map(str, words)), got=str(got), want=str(want), code=code(words, got, want))
        while True:
            kind = rng.random()
            if inner and kind < (.7 if pid == 'B01' else .12):
                t = (rng.randrange(3), rspan(rng), rspan(rng), rng.choice('0?'), rng.choice('0?'))
                sh, pr, rd = rng.random() < .5, rng.randrange(3), rng.randrange(3)
                w = ('back', *t, int(sh), pr, rd)
                got = q.ask(*w)
                c = canon(*t)
                if got == 'PANIC':
                    fail('Backstepper panics', w, got, 'no panic')
                a, b, h = got.split('|')
                want = f'{int(ok(c, sh, pr))} {int(blank(c))}'
                if a != want:
                    fail('check_step, blank', w, a, want)
                new = canon(*b.split(' '))
                if any(n < 1 for s in b.split(' ')[1:3] for _, n in blocks(s)):
                    fail('backstep: a block without cells', w, b, 'counts of at least 1')
                if new != back(c, sh, rd):
                    fail('backstep', w, b, back(c, sh, rd))
                if int(h) != (-1 if sh else 1):
                    fail('backstep: head', w, h, -1 if sh else 1)
            elif inner and kind < (.75 if pid == 'B01' else .13):
                c = rng.randrange(4)
                w = ('init', c)
                got = q.ask(*w)
                want = [(c, (), (), '?', '?'), (c, (), (), '0', '0'), (0, (), (), '0', '?'), (0, (), (), '?', '0')]
                if got == 'PANIC' or [canon(*x.split(' ')) for x in got.split('|')] != want:
                    fail('the initial tapes', w, got, want)
            else:
                p = prog(rng)
                if not p.d:
                    continue
                mode = rng.choice(('halt', 'blank', 'spin'))
                if inner and rng.random() < .4:
                    w = ('levels', mode, p.text, rng.choice((1, 2, 3, 5, 8)))
                    got = q.ask(*w)
                    if got == 'PANIC':
                        fail('the reasoner panics', w, got, 'no panic')
                    if p.regular():
                        levels(p, mode, got, lambda what, want: fail(f'{mode} {what}', w, got, want))
                elif p.regular():
                    seen = simulate(p, STEPS)
                    for m in ('halt', 'blank', 'spin'):
                        if m not in seen:
                            continue
                        for depth in (rng.choice((1, 2, 3, 5)), 12, 90):
                            w = (m, p.text, depth)
                            got = q.ask(*w)
                            if got.startswith('Some') or got == 'PANIC':
                                fail({'halt': 'cant_halt', 'blank': 'cant_blank', 'spin': 'cant_spin_out'}[m], w, got,
                                     f'None: the run gets there after {seen[m]} steps')
                            stats['answers'] = stats.get('answers', 0) + 1
            yield
    return gen
