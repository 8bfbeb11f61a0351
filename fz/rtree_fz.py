"""Concrete search for src/tree.rs: the programs the compiled enumeration lists against an enumeration written from the definition (own
tape, own tables), as multisets; and its parts on tables drawn at random."""
from __future__ import annotations
from . import rust
from .common import Found
from .rtape_fz import code as _code

CORE = '''
    type T = Vec<Vec<Option<(u64, bool, u64)>>>;
    fn text(t: &T) -> String {
        t.iter().map(|r| r.iter().map(|i| match i { None => "...".to_owned(),
            Some((c, s, q)) => format!("{}{}{}", c, if *s { 'R' } else { 'L' }, (b'A' + *q as u8) as char) }).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join("  ")
    }
    // the slot the run meets undefined within the limit
    fn meets(t: &T, q: &mut u64, tape: &mut std::collections::HashMap<i64, u64>, p: &mut i64, lim: u64) -> Option<(usize, usize)> {
        for _ in 0..lim {
            let c = tape.get(p).copied().unwrap_or(0);
            let Some((pr, sh, to)) = t[*q as usize][c as usize] else { return Some((*q as usize, c as usize)) };
            if to == *q && c == 0 && tape.iter().all(|(i, c)| *c == 0 || (if sh { i < p } else { i > p })) { return None }
            // a state that stays sweeps the block of the scanned colour
            loop {
                tape.insert(*p, pr);
                *p += if sh { 1 } else { -1 };
                if to != *q || tape.get(p).copied().unwrap_or(0) != c { break }
            }
            *q = to;
            if tape.values().all(|c| *c == 0) { return None }
        }
        None
    }
    fn count(t: &T, w: (u64, u64), out: &mut std::collections::HashMap<String, i64>) {
        let all: Vec<_> = t.iter().flatten().flatten().collect();
        if all.iter().any(|i| i.2 == w.0 - 1) && all.iter().any(|i| i.0 == w.1 - 1) { *out.entry(text(t)).or_insert(0) += 1; }
    }
    fn refer(t: &mut T, mut q: u64, mut tape: std::collections::HashMap<i64, u64>, mut p: i64, lim: u64, w: (u64, u64), left: u64, out: &mut std::collections::HashMap<String, i64>) {
        let Some((s, c)) = meets(t, &mut q, &mut tape, &mut p, lim) else { count(t, w, out); return };
        let ms = t.iter().flatten().flatten().map(|i| i.2).max().unwrap();
        let mc = t.iter().flatten().flatten().map(|i| i.0).max().unwrap();
        for pr in 0..w.1.min(mc + 2) { for sh in [true, false] { for to in 0..w.0.min(ms + 2) {
            t[s][c] = Some((pr, sh, to));
            if left == 1 { count(t, w, out) } else { refer(t, q, tape.clone(), p, lim, w, left - 1, out) }
        } } }
        t[s][c] = None;
    }
    fn tree(w: (u64, u64), halt: bool, lim: u64) -> String {
        let mut out = std::collections::HashMap::new();
        for p in tree_progs(w, halt, lim) { *out.entry(p).or_insert(0) -= 1; }
        let mut t: T = vec![vec![None; w.1 as usize]; w.0 as usize];
        t[0][0] = Some((1, true, 1));
        for pr in 0..w.1.min(3) { for sh in [true, false] { for to in 0..w.0.min(3) {
            t[1][0] = Some((pr, sh, to));
            let left = w.0 * w.1 - 2 - u64::from(halt);
            refer(&mut t, 1, [(0, 1)].into_iter().collect(), 1, lim, w, left, &mut out);
        } } }
        let n = out.len();
        match out.iter().filter(|(_, v)| **v != 0).min() { None => format!("ok\\t{n}"), Some((p, v)) => format!("bad\\t{p}\\t{v}") }
    }
    fn answers(w: &[&str]) -> String {
        match w[0] {
            "tree" => tree((w[1].parse().unwrap(), w[2].parse().unwrap()), w[3] == "1", w[4].parse().unwrap()),
            "prog" => { let want = w[5]; tree_progs((w[1].parse().unwrap(), w[2].parse().unwrap()), w[3] == "1", w[4].parse().unwrap()).iter().filter(|p| *p == want).count().to_string() },
            _ => "?".to_owned(),
        }
    }
'''
PARTS = '''
    // below a table reached by a random walk down the tree, a few slots before its end
    fn node(seed: u64, w: (u64, u64), halt: bool, lim: u64) -> String {
        let mut s = seed | 1;
        let mut rnd = || { s ^= s << 13; s ^= s >> 7; s ^= s << 17; s >> 11 };
        for _ in 0..9 { rnd(); }
        'walk: for _ in 0..4000 {
            let mut t: T = vec![vec![None; w.1 as usize]; w.0 as usize];
            t[0][0] = Some((1, true, 1));
            let (mut av, mut at) = ((w.0.min(3), w.1.min(3)), (1_usize, 0_usize));
            let mut left = w.0 * w.1 - 1 - u64::from(halt);
            let (mut tape, mut p) = (std::collections::HashMap::from([(0_i64, 1_u64)]), 1_i64);
            loop {
                let i = (if rnd() % 3 == 0 { av.1 - 1 } else { rnd() % av.1 }, rnd() % 2 == 0, if rnd() % 3 == 0 { av.0 - 1 } else { rnd() % av.0 });
                let q0 = at.0 as u64;
                t[at.0][at.1] = Some(i);
                left -= 1;
                let (mut q2, mut tape2, mut p2) = (q0, tape.clone(), p);
                // at times as if only so many slots were left
                if rnd() % 9 == 0 { left = left.min(1 + rnd() % 2) }
                if left <= 2 && (left == 1 || rnd() % 2 == 0 || w.0 * w.1 < 10) {
                    let mut prog = CompProg::new();
                    for (a, r) in t.iter().enumerate() { for (b, i) in r.iter().enumerate() { if let Some(i) = i { prog.insert((a as u64, b as u64), *i); } } }
                    let before = prog.clone();
                    // the tape: blocks from the head outwards
                    let real: Tape = {
                        let mut r = Tape::init_stepped();
                        let mut q = 1_u64;
                        // again from the start, over the table as it was before
                        let mut old = t.clone();
                        old[at.0][at.1] = None;
                        while let Some((pr, sh, to)) = old[q as usize][r.scan as usize] { r.step(sh, pr, q == to); q = to; }
                        r
                    };
                    let out = std::cell::RefCell::new(std::collections::HashMap::new());
                    branch(i, &mut prog, (q0, real), lim, av, w, left, &|q: &CompProg| { *out.borrow_mut().entry(q.show(Some(w))).or_insert(0_i64) -= 1; });
                    let mut out = out.into_inner();
                    if prog != before { return format!("bad\\t{}\\tprogram not restored", text(&t)) }
                    let n = out.len();
                    let x = text(&t);
                    refer(&mut t, q0, tape, p, lim, w, left, &mut out);
                    return match out.iter().filter(|(_, v)| **v != 0).min() { None => format!("ok\\t{n}"), Some((g, v)) => format!("bad\\t{x}\\t{g}\\t{v}") };
                }
                if left <= 1 { continue 'walk }
                let Some(slot) = meets(&t, &mut q2, &mut tape2, &mut p2, lim) else { continue 'walk };
                let ms = t.iter().flatten().flatten().map(|i| i.2).max().unwrap();
                let mc = t.iter().flatten().flatten().map(|i| i.0).max().unwrap();
                av = (w.0.min(ms + 2), w.1.min(mc + 2));
                (at, tape, p) = (slot, tape2, p2);
            }
        }
        "ok\\t0".to_owned()
    }
    fn sorted(mut v: Vec<Instr>) -> String { v.sort_unstable(); v.into_iter().map(|i| format!("{},{},{}", i.0, u8::from(i.1), i.2)).collect::<Vec<_>>().join(" ") }
    fn parts(w: &[&str]) -> Option<String> {
        Some(match w[0] {
            "node" => node(w[1].parse().unwrap(), (w[2].parse().unwrap(), w[3].parse().unwrap()), w[4] == "1", w[5].parse().unwrap()),
            "make" => sorted(make_instrs(w[1].parse().unwrap(), w[2].parse().unwrap())),
            "run" => {
                // from the blank tape in state A
                let p = CompProg::from_str(w[1]);
                let mut t = Tape::init(0);
                match run_for_undefined(&p, 0, &mut t, w[2].parse().unwrap()) { Err(()) => "Err".to_owned(), Ok(None) => "None".to_owned(),
                    Ok(Some(s)) => format!("{} {} {t}", s.0, s.1) }
            },
            "leaf" => {
                let p = CompProg::from_str(w[1]);
                let n = std::cell::Cell::new(0);
                leaf(&p, (w[2].parse().unwrap(), w[3].parse().unwrap()), &|q: &CompProg| { n.set(n.get() + if *q == p { 1 } else { 100 }); });
                n.get().to_string()
            },
            _ => return None,
        })
    }
'''


def probe(*texts, extra=()):
    ask = ''.join(f'if let Some(s) = {n}(w) {{ return s }}\n' for n in extra)
    return 'pub mod vprobe {\n    use super::*;\n    use crate::instrs::Parse as _;\n' + ''.join(texts) + '    pub fn ask(w: &[&str]) -> String {\n' + ask + '    answers(w)\n    }\n}\n'


PROBES = {'tree': probe(CORE, PARTS, extra=('parts',))}
FALLBACK = {'tree': probe(CORE)}
MAIN = '''
use std::io::BufRead;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let w: Vec<&str> = l.split('\\t').collect();
        match std::panic::catch_unwind(|| tree::vprobe::ask(&w)) { Ok(s) => println!("{s}"), Err(_) => println!("PANIC") }
    }
}
'''


def code(w, got, want):
    return _code(w, got, want, 'rtree_fz')


def table(rng):
    s, c = rng.choice(((2, 2), (3, 2), (4, 2), (2, 3), (3, 3)))
    t = [[(rng.randrange(c) if rng.random() < .6 else 0, rng.random() < .5, rng.randrange(s)) for _ in range(c)] for _ in range(s)]
    for _ in range(rng.choice((1, 1, 2, 3))):
        t[rng.randrange(s)][rng.randrange(c)] = None
    return t, '  '.join(' '.join('...' if i is None else f'{i[0]}{"LR"[i[1]]}{chr(65 + i[2])}' for i in row) for row in t)


def meets(t, lim):
    cells, p, q = {}, 0, 0
    for _ in range(lim):
        c = cells.get(p, 0)
        i = t[q][c]
        if i is None:
            return q, c, cells, p
        d = 1 if i[1] else -1
        if i[2] == q and c == 0 and not any(v and (k - p) * d > 0 for k, v in cells.items()):
            return 'Err'
        while True:
            cells[p] = i[0]
            p += d
            if i[2] != q or cells.get(p, 0) != c:
                break
        q = i[2]
        if not any(cells.values()):
            return 'Err'
    return 'None'


def shown(cells, p):
    """the tape as runs of blocks, the head in brackets"""
    ks = [k for k, v in cells.items() if v]
    lo, hi = min(ks + [p]), max(ks + [p])

    def blocks(r):
        out = []
        for k in r:
            v = cells.get(k, 0)
            if out and out[-1][0] == v:
                out[-1][1] += 1
            else:
                out.append([v, 1])
        return [str(v) if n == 1 else f'{v}^{n}' for v, n in out]
    return ' '.join(blocks(range(lo, p)) + [f'[{cells.get(p, 0)}]'] + blocks(range(p + 1, hi + 1)))


TREES = [(w, h, lim) for lim in (0, 1, 2, 3, 4, 5, 7, 10, 20, 60) for w in ((2, 2), (3, 2), (2, 3)) for h in (1, 0)]
TREES += [((3, 3), h, 1) for h in (1, 0)]
BIG = [((3, 3), 1, 2)] + [(w, 1, lim) for lim in (3, 9, 40) for w in ((4, 2), (2, 4))]


def run(pid, exe):
    def gen(rng, hints, stats):
        q = rust.Probe(exe)
        inner = not getattr(exe, 'fallback', False)
        todo = TREES + BIG

        def fail(what, w, got, want):
            raise Found(what=what, input=' '.join(map(str, w)), got=str(got), want=str(want), code=code(w, got, want))
        while True:
            if todo:
                w, h, lim = todo.pop(0)
                got = q.ask('tree', *w, h, lim).split('\t')
                if got[0] == 'bad':
                    n = q.ask('prog', *w, h, lim, got[1])
                    fail('tree_progs', ('prog', *w, h, lim, got[1]), n, int(n) + int(got[2]))
                elif got[0] != 'ok':
                    fail('tree_progs', ('tree', *w, h, lim), got[0], 'ok')
                else:
                    stats['programs'] = stats.get('programs', 0) + int(got[1])
            for _ in range(60 if inner else 0):
                if rng.random() < .3:
                    w = ('node', rng.randrange(1 << 62), *rng.choice(((2, 2), (3, 2), (2, 3), (4, 2), (3, 3), (5, 2), (2, 5), (4, 3), (4, 4), (4, 4), (5, 4))), rng.randrange(2), rng.choice((2, 5, 20, 60, 200)))
                    got = q.ask(*w).split('\t')
                    if got[0] != 'ok':
                        fail('branch' + ': ' + ' '.join(got[1:]), w, ' '.join(got), 'ok: every program as often as it is below')
                    stats['below'] = stats.get('below', 0) + int(got[1])
                    continue
                kind = rng.choice(('make', 'run', 'run', 'run', 'leaf', 'leaf'))
                t, p = table(rng)
                if kind == 'make':
                    a, b = rng.randrange(1, 7), rng.randrange(1, 7)
                    w = ('make', a, b)
                    want = ' '.join(f'{c},{s},{x}' for c in range(b) for s in (0, 1) for x in range(a))
                elif kind == 'run':
                    if rng.random() < .8:
                        t[0][0] = (1, True, 1)
                        p = '  '.join(' '.join('...' if i is None else f'{i[0]}{"LR"[i[1]]}{chr(65 + i[2])}' for i in row) for row in t)
                    lim = rng.choice((0, 1, 2, 3, 5, 8, 30, 100))
                    w, r = ('run', p, lim), meets(t, lim)
                    want = r if isinstance(r, str) else f'{r[0]} {r[1]} {shown(r[2], r[3])}'
                else:
                    s, c = len(t), len(t[0])
                    flat = [i for r in t for i in r if i]
                    w = ('leaf', p, s, c)
                    want = str(int(any(i[2] == s - 1 for i in flat) and any(i[0] == c - 1 for i in flat)))
                got = q.ask(*w)
                if got != want:
                    fail(kind, w, got, want)
            yield
    return gen
