"""Concrete search for src/instrs.rs: what the compiled reader and writer of programs answer, against Python's own."""
from __future__ import annotations
from . import rust
from .common import Found
from .rtape_fz import code as _code

PROBE = '''
pub mod vprobe {
    use super::*;
    fn opt(w: &[&str]) -> Option<Params> { if w.len() < 2 { None } else { Some((w[0].parse().unwrap(), w[1].parse().unwrap())) } }
    pub fn table(s: &str) -> CompProg {
        let mut p = CompProg::new();
        for e in s.split(';').filter(|e| !e.is_empty()) {
            let v: Vec<u64> = e.split(',').map(|x| x.parse().unwrap()).collect();
            p.insert((v[0], v[1]), (v[2], v[3] == 1, v[4]));
        }
        p
    }
    pub fn shown(p: &CompProg) -> String {
        p.iter().map(|((q, c), (pr, sh, to))| format!("{q},{c},{pr},{},{to}", u8::from(*sh))).collect::<Vec<_>>().join(";")
    }
    fn one(i: Option<Instr>) -> String { i.map_or_else(|| "None".to_owned(), |(c, s, q)| format!("{c},{},{q}", u8::from(s))) }
    pub fn ask(w: &[&str]) -> String {
        match w[0] {
            "parse" => shown(&CompProg::from_str(w[1])),
            "show" => table(w[1]).show(opt(&w[2..])),
            "again" => { let p = table(w[1]); if CompProg::from_str(&p.show(opt(&w[2..]))) == p { "same".to_owned() } else { "other".to_owned() } },
            "get" => one(table(w[1]).get_instr(&(w[2].parse().unwrap(), w[3].parse().unwrap()))),
            "state" => show_state(if w[1] == "None" { None } else { Some(w[1].parse().unwrap()) }).to_string(),
            "slot" => show_slot((w[1].parse().unwrap(), w[2].parse().unwrap())),
            "instr" => show_instr(if w[1] == "None" { None } else { Some((w[1].parse().unwrap(), w[2] == "1", w[3].parse().unwrap())) }),
            "rslot" => { let (q, c) = read_slot(w[1]); format!("{q},{c}") },
            "rinstr" => one(read_instr(w[1])),
            _ => "?".to_owned(),
        }
    }
}
'''
PROBES = {'instrs': PROBE}
MAIN = '''
use std::io::BufRead;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let w: Vec<&str> = l.split('\\t').collect();
        match std::panic::catch_unwind(|| instrs::vprobe::ask(&w)) { Ok(s) => println!("{s}"), Err(_) => println!("PANIC") }
    }
}
'''


def code(w, got, want):
    return _code(w, got, want, 'rinstr_fz')


def cell(i):
    return '...' if i is None else f'{i[0]}{"LR"[i[1]]}{chr(65 + i[2])}'


def entries(t):
    return ';'.join(f'{q},{c},{i[0]},{int(i[1])},{i[2]}' for q, r in enumerate(t) for c, i in enumerate(r) if i)


def text(t):
    return '  '.join(' '.join(map(cell, r)) for r in t)


def table(rng, ragged=False):
    s, c = rng.choice(((1, 1), (2, 2), (3, 2), (2, 3), (4, 2), (2, 5), (5, 3), (9, 2), (2, 10), (26, 4), (60, 2)))
    few, big = rng.random(), rng.random() < .5
    t = []
    for _ in range(s):
        n = rng.randrange(1, c + 1) if ragged else c
        t.append([None if rng.random() < few else (rng.randrange(10 if big else c), rng.random() < .5, rng.randrange(190 if rng.random() < .02 else 26 if big else s)) for _ in range(n)])
    return t


def grid(t, s, c):
    """the table's rows and columns cut or filled to so many"""
    return [[t[q][k] if q < len(t) and k < len(t[q]) else None for k in range(c)] for q in range(s)]


def instr(rng):
    return None if rng.random() < .2 else (rng.randrange(10), rng.random() < .5, rng.randrange(26 if rng.random() < .9 else 191))


def run(pid, exe):
    def gen(rng, hints, stats):
        q = rust.Probe(exe)

        def check(w, want):
            if any('\x0a' in str(x) or '\x0d' in str(x) or ord(c) in (0x85,) for x in w for c in str(x)):
                return
            got = q.ask(*w)
            stats[w[0]] = stats.get(w[0], 0) + 1
            if got != want:
                raise Found(what=f'{w[0]} of instrs.rs', input=' '.join(map(str, w)), got=got, want=want, code=code(w, got, want))
        while True:
            for _ in range(40):
                kind = rng.choice(('parse', 'parse', 'show', 'shown', 'again', 'get', 'state', 'slot', 'instr', 'rslot', 'rinstr'))
                if kind == 'parse':
                    t = table(rng, rng.random() < .3)
                    if any(i and i[2] > 60 for r in t for i in r):
                        continue
                    a, b = (rng.choice(('', '', ' ', '  ', '   ')) for _ in range(2))
                    check(('parse', a + text(t) + b), entries(t))
                elif kind in ('show', 'shown', 'again', 'get'):
                    t = table(rng, rng.random() < .3)
                    if any(i and i[2] > 60 for r in t for i in r):
                        continue
                    e = entries(t)
                    flat = [(a, b, i) for a, r in enumerate(t) for b, i in enumerate(r) if i]
                    if kind == 'get':
                        a, b = rng.randrange(len(t)), rng.randrange(12)
                        i = t[a][b] if b < len(t[a]) else None
                        check(('get', e, a, b), 'None' if i is None else f'{i[0]},{int(i[1])},{i[2]}')
                        continue
                    s = 1 + max([1] + [a for a, _, i in flat] + [i[2] for a, _, i in flat])
                    c = 1 + max([1] + [b for _, b, i in flat] + [i[0] for _, b, i in flat])
                    if kind == 'shown':
                        check(('show', e), text(grid(t, s, c)))
                    elif kind == 'again':
                        if rng.random() < .5:
                            check(('again', e), 'same')
                        else:
                            check(('again', e, max(len(t), s - rng.randrange(2)), max(c - rng.randrange(2), max(map(len, t)))), 'same')
                    else:
                        s, c = rng.randrange(0, s + 3), rng.randrange(0, c + 3)
                        check(('show', e, s, c), text(grid(t, s, c)))
                elif kind == 'state':
                    s = rng.randrange(26 if rng.random() < .8 else 60)
                    check(('state', s), chr(65 + s))
                    check(('state', 'None'), '.')
                elif kind == 'slot':
                    s, c = rng.randrange(26 if rng.random() < .8 else 60), rng.randrange(10)
                    check(('slot', s, c), f'{chr(65 + s)}{c}')
                elif kind == 'rslot':
                    s, c = rng.randrange(26 if rng.random() < .8 else 60), rng.randrange(10)
                    check(('rslot', f'{chr(65 + s)}{c}'), f'{s},{c}')
                else:
                    i = instr(rng)
                    if i and i[2] > 60 and rng.random() < .9:
                        continue
                    if kind == 'instr':
                        check(('instr', 'None') if i is None else ('instr', i[0], int(i[1]), i[2]), cell(i))
                    else:
                        x = cell(i)
                        want = 'None' if i is None else f'{i[0]},{int(i[1])},{i[2]}'
                        if i and rng.random() < .1:
                            k = rng.randrange(3)
                            x, want = x[:k] + '.' + x[k + 1:], 'None'
                        check(('rinstr', x), want)
            yield
    return gen
