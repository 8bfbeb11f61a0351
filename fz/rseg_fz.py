"""Concrete search for src/segment.rs: the compiled reasoner on programs that halt, its runs inside a window against a list of cells, and
the window tape against cells."""
from __future__ import annotations
import sys
from . import rust
from .common import Found
from .rtape_fz import code as _code

CORE = '''
    fn rnd(s: &mut u64) -> u64 { *s ^= *s << 13; *s ^= *s >> 7; *s ^= *s << 17; *s >> 11 }
    fn halts(t: &[Vec<Option<(u64, bool, u64)>>], lim: usize) -> Option<usize> {
        let mut tape = vec![0_u64; 2 * lim + 3];
        let (mut p, mut q) = (lim + 1, 0_usize);
        for n in 0..lim {
            let Some((c, s, to)) = t[q][tape[p] as usize] else { return Some(n) };
            tape[p] = c;
            if s { p += 1 } else { p -= 1 }
            q = to as usize;
        }
        None
    }
    fn text(t: &[Vec<Option<(u64, bool, u64)>>]) -> String {
        t.iter().map(|r| r.iter().map(|i| match i { None => "...".to_owned(),
            Some((c, s, q)) => format!("{}{}{}", c, if *s { 'R' } else { 'L' }, (b'A' + *q as u8) as char) }).collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join("  ")
    }
    const BASES: [&str; 8] = ["1RB 1LB  1LA ...", "1RB ...  1LB 0RC  1LC 1LA", "1RB 1LB  1LA 0LC  ... 1LD  1RD 0RA", "1RB 1LC  1RC 1RB  1RD 0LE  1LA 1LD  ... 0LA",
        "1RB 2LB ...  2LA 2RB 1LB", "1RB 2LA 1RA 1RA  1LB 1LA 3RB ...", "1RB ... ...  2LB 1RC 0RB  1LA 2RA 1RC", "1RB ...  0LC 1RD  1LC 1LA  0RA 0RD"];
    fn base(s: &str) -> Vec<Vec<Option<(u64, bool, u64)>>> {
        s.split("  ").map(|r| r.split(' ').map(|i| { let b = i.as_bytes();
            if b[0] == b'.' { None } else { Some(((b[0] - b'0') as u64, b[1] == b'R', (b[2] - b'A') as u64)) } }).collect()).collect()
    }
    fn sweep(seed: u64, n: usize) -> String {
        let mut s = seed | 1;
        for _ in 0..9 { rnd(&mut s); }
        let (mut tried, mut done) = (0_usize, 0_usize);
        while tried < n {
            tried += 1;
            let r = &mut s;
            let mut t;
            if rnd(r) % 5 == 0 {
                t = base(BASES[(rnd(r) % 8) as usize]);
                let (ns, nc) = (t.len() as u64, t[0].len() as u64);
                for _ in 0..rnd(r) % 4 {
                    let (q, c) = ((rnd(r) % ns) as usize, (rnd(r) % nc) as usize);
                    t[q][c] = if rnd(r) % 6 == 0 { None } else { Some((rnd(r) % nc, rnd(r) % 2 == 0, rnd(r) % ns)) };
                }
            } else {
                let (ns, nc) = [(2, 2), (3, 2), (3, 2), (4, 2), (2, 3), (2, 3), (3, 3), (2, 4), (5, 2), (6, 2)][(rnd(r) % 10) as usize];
                let z = rnd(r) % 10;
                t = (0..ns).map(|_| (0..nc).map(|_| Some((if rnd(r) % 10 < z { 0 } else { rnd(r) % nc }, rnd(r) % 2 == 0, rnd(r) % ns))).collect::<Vec<_>>()).collect::<Vec<_>>();
                if rnd(r) % 4 != 0 { t[0][0] = Some((if rnd(r) % 3 == 0 { 0 } else { 1 }, rnd(r) % 2 == 0, 1)); }
                for _ in 0..1 + rnd(r) % 2 { let (q, c) = ((rnd(r) % ns) as usize, (rnd(r) % nc) as usize); t[q][c] = None; }
            }
            let Some(k) = halts(&t, 300) else { continue };
            if k < 6 && rnd(r) % 8 != 0 { continue }
            done += 1;
            let segs = 2 + (rnd(r) % 9) as usize;
            let p = text(&t);
            let w = (t.len() as u64, t[0].len() as u64);
            let got = std::panic::catch_unwind(|| format!("{:?}", segment_cant_halt(&CompProg::from_str(&p), w, segs))).unwrap_or("PANIC".to_owned());
            if got != "None" { return format!("bad\\t{p}\\t{}\\t{}\\t{segs}\\t{got}\\t{k}", w.0, w.1) }
        }
        format!("ok\\t{done}")
    }
    fn answers(w: &[&str]) -> String {
        match w[0] {
            "sweep" => sweep(w[1].parse().unwrap(), w[2].parse().unwrap()),
            "seg" => format!("{:?}", segment_cant_halt(&CompProg::from_str(w[1]), (w[2].parse().unwrap(), w[3].parse().unwrap()), w[4].parse().unwrap())),
            _ => "?".to_owned(),
        }
    }
'''
TAPE = '''
    fn sp(s: &str) -> Vec<Color> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() }
    fn mk(w: &[&str]) -> Tape { Tape { scan: w[0].parse().ok(), lspan: Span(sp(w[1])), rspan: Span(sp(w[2])) } }
    fn show(t: &Tape) -> String {
        let f = |s: &Span| s.0.iter().map(ToString::to_string).collect::<Vec<_>>().join(",");
        format!("{} {} {}", t.scan.map_or("-".to_owned(), |c| c.to_string()), f(&t.lspan), f(&t.rspan))
    }
    fn tapes(w: &[&str]) -> Option<String> {
        Some(match w[0] {
            "init" => show(&Tape::init(w[1].parse().unwrap(), w[2].parse().unwrap())),
            "ask" => { let t = mk(&w[1..]); format!("{} {} {} {} {}", t.blank(), t.at_edge(true), t.at_edge(false), t.pos(), if t.scan.is_none() { t.side().to_string() } else { "-".to_owned() }) },
            "in" => { let mut t = mk(&w[1..]); t.step_in(w[4] == "1"); show(&t) },
            "step" => { let mut t = mk(&w[1..]); t.step(w[4] == "1", w[5].parse().unwrap()); show(&t) },
            _ => return None,
        })
    }
'''
RUNS = '''
    fn runs(w: &[&str]) -> Option<String> {
        if w[0] != "edge" { return None }
        let p = CompProg::from_str(w[1]);
        let a = AnalyzedProg::new(&p, (w[2].parse().unwrap(), w[3].parse().unwrap()));
        let mut c = Config { state: w[4].parse().unwrap(), tape: mk(&w[5..]), init: w[8] == "1" };
        let n = c.tape.lspan.0.len() + c.tape.rspan.0.len() + usize::from(c.tape.scan.is_some());
        let mut k = Configs::new(n + 2, &a.halts);
        let r = match c.run_to_edge(&p, &mut k) { None => "Out", Some(Halted) => "Halted", Some(Repeat) => "Repeat", Some(Spinout) => "Spinout", Some(_) => "Other" };
        Some(format!("{r} {} {}", c.state, show(&c.tape)))
    }
'''


def probe(*texts, extra=()):
    ask = ''.join(f'if let Some(s) = {n}(w) {{ return s }}\n' for n in extra)
    return 'pub mod vprobe {\n    use super::*;\n    use crate::instrs::Parse as _;\n' + ''.join(texts) + '    pub fn ask(w: &[&str]) -> String {\n' + ask + '    answers(w)\n    }\n}\n'


PROBES = {'segment': probe(CORE, TAPE, RUNS, extra=('tapes', 'runs'))}
FALLBACK = {'segment': probe(CORE)}
MAIN = '''
use std::io::BufRead;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let w: Vec<&str> = l.split('\\t').collect();
        match std::panic::catch_unwind(|| segment::vprobe::ask(&w)) { Ok(s) => println!("{s}"), Err(_) => println!("PANIC") }
    }
}
'''


def code(w, got, want):
    return _code(w, got, want, 'rseg_fz')


def words(cells, pos):
    """cells 1 .. n of the window, the position -> scan, left, right"""
    n = len(cells)
    s = lambda v: ','.join(map(str, v))
    return (cells[pos - 1] if 1 <= pos <= n else '-', s(cells[:max(pos - 1, 0)][::-1]), s(cells[pos:]) if pos else s(cells))


def text(cells, pos):
    return ' '.join(str(x) for x in words(cells, pos))


def table(rng):
    s, c = rng.choice(((2, 2), (3, 2), (3, 2), (4, 2), (2, 3), (3, 3)))
    t = [[(rng.randrange(c) if rng.random() < .6 else 0, rng.random() < .5, rng.randrange(s)) for _ in range(c)] for _ in range(s)]
    for _ in range(rng.choice((1, 1, 2, 3))):
        t[rng.randrange(s)][rng.randrange(c)] = None
    return t, '  '.join(' '.join('...' if i is None else f'{i[0]}{"LR"[i[1]]}{chr(65 + i[2])}' for i in row) for row in t)


def never(t, lim):
    """whether the run from the blank tape is not seen to halt"""
    cells, p, q = {}, 0, 0
    for _ in range(lim):
        i = t[q][cells.get(p, 0)]
        if i is None:
            return False
        cells[p] = i[0]
        p += 1 if i[1] else -1
        q = i[2]
    return True


def inside(t, q, cells, pos):
    """the run inside the window: how it ends, state, cells, position"""
    cells, seen = list(cells), set()
    while 1 <= pos <= len(cells):
        i = t[q][cells[pos - 1]]
        if i is None:
            return 'Halted', q, cells, pos
        key = (q, pos, tuple(cells))
        if key in seen:
            return 'Repeat', None, None, None
        seen.add(key)
        cells[pos - 1] = i[0]
        pos += 1 if i[1] else -1
        q = i[2]
    return 'Out', q, cells, pos


def run(pid, exe):
    def gen(rng, hints, stats):
        q = rust.Probe(exe)
        inner = not getattr(exe, 'fallback', False)

        def fail(what, w, got, want):
            raise Found(what=what, input=' '.join(map(str, w)), got=str(got), want=str(want), code=code(w, got, want))
        while True:
            got = q.ask('sweep', rng.randrange(1 << 62), 4000).split('\t')
            if got[0] == 'bad':
                _, p, s, c, segs, ans, k = got
                fail('segment_cant_halt', ('seg', p, s, c, segs), ans, f'None: the program halts after {k} steps')
            elif got[0] == 'ok':
                stats['halting'] = stats.get('halting', 0) + int(got[1])
            for _ in range(150 if inner else 0):
                if rng.random() < .5:
                    few = rng.choice((1, 2, 3))
                    cells = [rng.randrange(few) for _ in range(rng.randrange(2, 8))]
                    for i in range(len(cells)):
                        if rng.random() < .5:
                            cells[i] = 0
                    n, pos = len(cells), rng.randrange(0, len(cells) + 2)
                    ins = 1 <= pos <= n
                    kind = rng.choice(('init', 'ask', 'step' if ins else 'in'))
                    sh, pr = rng.random() < .5, rng.randrange(3)
                    if kind == 'init':
                        w, want = ('init', n + 2, pos), text([0] * n, pos)
                    elif kind == 'ask':
                        w = ('ask', *words(cells, pos))
                        edge = lambda r: ins and cells[pos - 1] == 0 and not any(cells[pos:] if r else cells[:pos - 1])
                        want = ' '.join(str(x) for x in (not any(cells), edge(True), edge(False), pos, '-' if ins else pos > 0)).lower()
                    elif kind == 'in':
                        w, want = ('in', *words(cells, pos), int(pos == 0)), text(cells, 1 if pos == 0 else n)
                    else:
                        new = cells[:pos - 1] + [pr] + cells[pos:]
                        w, want = ('step', *words(cells, pos), int(sh), pr), text(new, pos + (1 if sh else -1))
                    got = q.ask(*w)
                    if got != want:
                        fail(f'window tape: {kind}', w, got, want)
                else:
                    t, p = table(rng)
                    init = rng.random() < .4
                    n = rng.randrange(2, 6)
                    cells = [0] * n if init else [rng.randrange(len(t[0])) for _ in range(n)]
                    pos, st = rng.randrange(1, n + 1), 0 if init else rng.randrange(len(t))
                    w = ('edge', p, len(t), len(t[0]), st, *words(cells, pos), int(init))
                    got = q.ask(*w)
                    how, st2, cells2, pos2 = inside(t, st, cells, pos)
                    if got == 'PANIC':
                        fail('run_to_edge panics', w, got, how)
                    kind, *rest = got.split(' ', 1)
                    if kind in ('Out', 'Halted') and (kind != how or rest[0] != f'{st2} {text(cells2, pos2)}'):
                        fail('run_to_edge', w, got, how if st2 is None else f'{how} {st2} {text(cells2, pos2)}')
                    if (kind == 'Spinout' or kind == 'Repeat' and how != 'Repeat') and not never(t, 400):
                        fail('run_to_edge: the run from the blank tape halts', w, got, how)
            yield
    return gen
