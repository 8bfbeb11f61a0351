"""Concrete search for quick_term_or_rec and the alignment of tapes: the compiled functions against plain runs and cells."""
from __future__ import annotations
from . import rust
from .common import Found
from .rrun_fz import prog, plain_run
from .rtape_fz import code as _code, enc, span, step

TAPE = '''
pub mod vprobe {
    use super::*;
    fn sp(s: &str) -> Vec<(u64, u64)> {
        s.split(',').filter(|x| !x.is_empty()).map(|x| { let v: Vec<u64> = x.split(':').map(|y| y.parse().unwrap()).collect(); (v[0], v[1]) }).collect()
    }
    fn mk(w: &[&str]) -> HeadTape {
        let s = |t: &str| Span(sp(t).iter().map(|&(c, n)| BasicBlock::new(c, n)).collect());
        HeadTape { head: w[0].parse().unwrap(), tape: Tape { scan: w[1].parse().unwrap(), lspan: s(w[2]), rspan: s(w[3]) } }
    }
    pub fn ask(w: &[&str]) -> String {
        match w[0] {
            "align" => format!("{}", mk(&w[1..]).aligns_with(&mk(&w[5..]), w[9].parse().unwrap(), w[10].parse().unwrap())),
            "head" => {
                let mut t = mk(&w[1..]);
                w[5].split(';').filter(|x| !x.is_empty()).map(|st| {
                    let v: Vec<u64> = st.split(',').map(|x| x.parse().unwrap()).collect();
                    let n = t.step(v[0] == 1, v[1], v[2] == 1);
                    let u: Vec<String> = [&t.tape.lspan, &t.tape.rspan].iter().map(|s| s.0.iter().map(|b| format!("{}:{}", b.color, b.count)).collect::<Vec<_>>().join(",")).collect();
                    format!("{n} {} {} {} {}", t.head, t.tape.scan, u[0], u[1])
                }).collect::<Vec<_>>().join(";")
            },
            "slice" => format!("{:?}", mk(&w[1..]).get_slice(w[5].parse().unwrap(), w[6] == "1")),
            _ => crate::machine::vprobe::ask(w),
        }
    }
}
'''
MACHINE = '''
pub mod vprobe {
    use super::*;
    pub fn ask(w: &[&str]) -> String {
        match w[0] {
            "rec" => format!("{}", quick_term_or_rec(&CompProg::from_str(w[1]), w[2].parse().unwrap(), w[3] == "1")),
            _ => "?".to_owned(),
        }
    }
}
'''
PROBES = {'tape': TAPE, 'machine': MACHINE}
FALLBACK = {'machine': MACHINE, 'tape': 'pub mod vprobe { pub fn ask(w: &[&str]) -> String { crate::machine::vprobe::ask(w) } }\n'}
MAIN = '''
use std::io::BufRead;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let w: Vec<&str> = l.split('\\t').collect();
        match std::panic::catch_unwind(|| tape::vprobe::ask(&w)) { Ok(s) => println!("{s}"), Err(_) => println!("PANIC") }
    }
}
'''


def blocks(cells):
    """cells from the head outwards -> blocks, canonical"""
    out = []
    for c in cells:
        if out and out[-1][0] == c:
            out[-1][1] += 1
        else:
            out.append([c, 1])
    while out and out[-1][0] == 0:
        out.pop()
    return ','.join(f'{c}:{n}' for c, n in out)


def words(head, tape):
    """tape: position -> colour"""
    lo, hi = min([head, *tape]), max([head, *tape])
    return head, tape.get(head, 0), blocks([tape.get(i, 0) for i in range(head - 1, lo - 1, -1)]), blocks([tape.get(i, 0) for i in range(head + 1, hi + 1)])


def cells(rng, n, few):
    out = []
    while len(out) < n:
        out += [rng.randrange(few)] * rng.choice((1, 1, 2, 3))
    return out[:n]


def align(rng):
    """two tapes that nearly fit, the window, and whether they do"""
    few = rng.choice((2, 2, 3))
    n = rng.choice((3, 5, 8, 12))
    at = rng.randrange(-3, 4)
    prev = dict(zip(range(at, at + n), cells(rng, n, few)))
    head = at + rng.randrange(-1, n + 1)
    d = rng.choice((0, 1, 1, 2, 3, -1, -1, -2, -3))
    lo, hi = head - rng.randrange(0, 4), head + rng.randrange(0, 4)
    curr = {i + d: c for i, c in prev.items() if d == 0 or (i >= lo if d > 0 else i <= hi)}
    if d:
        for i, c in zip(range(lo + d - 1, lo - 6, -1) if d > 0 else range(hi + d + 1, hi + 6), cells(rng, 12, few)):
            if rng.random() < .8:
                curr[i] = c
    for t in (prev, curr):
        if rng.random() < .35:
            i = head + rng.randrange(-4, 5)
            t[i] = rng.randrange(few)
    fits = all(prev.get(i, 0) == curr.get(i + d, 0) for i in range(-40, 40) if d == 0 or (i >= lo if d > 0 else i <= hi))
    return words(head + d, curr), words(head, prev), lo, hi, fits


def stepped(p):
    i = p.d.get((0, 0))
    return i is not None and tuple(i) == (1, True, 1)


def code(w, got, want):
    return _code(w, got, want, 'rquick_fz')


def run(pid, exe):
    def gen(rng, hints, stats):
        q = rust.Probe(exe)
        inner = not getattr(exe, 'fallback', False)

        def fail(what, w, got, want):
            raise Found(what=what, input=' '.join(map(str, w)), got=str(got), want=str(want), code=code(w, got, want))
        while True:
            if inner and rng.random() < .1:
                s, l, r = rng.randrange(3), span(rng), span(rng)
                head = rng.randrange(-5, 6)
                moves = [(rng.randrange(2), rng.randrange(3), rng.randrange(2)) for _ in range(rng.randrange(1, 9))]
                w = ('head', head, s, enc(l), enc(r), ';'.join(','.join(map(str, x)) for x in moves))
                got = q.ask(*w)
                want = []
                for d, c, k in moves:
                    s, l, r, n = step(s, l, r, d, c, k)
                    head += n if d else -n
                    want.append(f'{n} {head} {s} {enc(l)} {enc(r)}')
                if got != ';'.join(want):
                    fail('HeadTape.step', w, got, ';'.join(want))
            elif inner and rng.random() < .5:
                a, b, lo, hi, fits = align(rng)
                w = ('align', *a, *b, lo, hi)
                got = q.ask(*w)
                stats['aligned'] = stats.get('aligned', 0) + (got == 'true')
                if got == 'true' and not fits:
                    fail('aligns_with', w, got, 'the cells differ')
                if got == 'PANIC':
                    fail('aligns_with panics', w, got, fits)
                if rng.random() < .3:
                    h, s, l, r = a
                    ltr = rng.random() < .5
                    k = rng.randrange(-2, 9)
                    w = ('slice', *a, h - k if ltr else h + k, int(ltr))
                    got = q.ask(*w)
                    side = [int(x.split(':')[0]) for x in (l if ltr else r).split(',') if x for _ in range(int(x.split(':')[1]))]
                    want = (side + [0] * 10)[:max(k, 0)]
                    if got == 'PANIC' or [int(x) for x in got[1:-1].split(',') if x][:max(k, 0)] != want:
                        fail('get_slice', w, got, f'{want} first')
            else:
                p = prog(rng)
                if not stepped(p):
                    p.d[0, 0] = (1, True, 1)
                    p = type(p)([[p.d.get((s, c)) for c in range(1 + max(c for _, c in p.d))] for s in range(1 + max(s for s, _ in p.d))])
                lim = rng.choice((0, 1, 2, 3, 10, 40, 200, 1000))
                drop = rng.random() < .3
                w = ('rec', p.text, lim, int(drop))
                got = q.ask(*w)
                r, n, _, _ = plain_run(p, 6000 if got == 'true' and lim > 5 else lim + 300)
                if got == 'PANIC':
                    fail('quick_term_or_rec panics', w, got, '')
                if r == 'undfnd':
                    if got == 'true' and not drop:
                        fail('quick_term_or_rec', w, got, f'undefined slot after {n} steps')
                    if n < lim and got != ('true' if drop else 'false'):
                        fail('quick_term_or_rec: undefined slot', w, got, f'drop_halt, undefined slot after {n} steps')
                if r == 'spnout' and n < lim and got != 'true':
                    fail('quick_term_or_rec: spin-out', w, got, f'spin-out after {n} steps')
            yield
    return gen
