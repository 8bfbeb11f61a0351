"""Concrete search for src/tape.rs: the compiled tapes against cell-by-cell arithmetic done here."""
from __future__ import annotations
import os
from . import rust
from .common import Found

PROBES = {'tape': '''
pub mod vprobe {
    use super::*;
    fn sp(s: &str) -> Vec<(u64, u64)> {
        s.split(',').filter(|x| !x.is_empty()).map(|x| { let v: Vec<u64> = x.split(':').map(|y| y.parse().unwrap()).collect(); (v[0], v[1]) }).collect()
    }
    fn mk<B: Block>(w: &[&str]) -> Tape<B> {
        Tape { scan: w[0].parse().unwrap(), lspan: Span(sp(w[1]).iter().map(|&(c, n)| B::new(c, n)).collect()),
               rspan: Span(sp(w[2]).iter().map(|&(c, n)| B::new(c, n)).collect()) }
    }
    fn show<B: Block>(t: &Tape<B>) -> String {
        let f = |s: &Span<B>| s.0.iter().map(|b| format!("{}:{}", b.get_color(), b.get_count())).collect::<Vec<_>>().join(",");
        format!("{} {} {}", t.scan, f(&t.lspan), f(&t.rspan))
    }
    fn sig(w: &[&str]) -> Signature {
        let f = |s: &str| sp(s).iter().map(|&(c, n)| if n == 1 { ColorCount::Just(c) } else { ColorCount::Mult(c) }).collect();
        Signature { scan: w[0].parse().unwrap(), lspan: f(w[1]), rspan: f(w[2]) }
    }
    fn shsig(s: &Signature) -> String {
        let f = |s: &SigSpan| s.iter().map(|c| match c { ColorCount::Just(c) => format!("{c}:1"), ColorCount::Mult(c) => format!("{c}:2") }).collect::<Vec<_>>().join(",");
        format!("{} {} {}", s.scan, f(&s.lspan), f(&s.rspan))
    }
    pub fn ask(w: &[&str]) -> String {
        match w[0] {
            "steps" => {
                let mut out = vec![];
                let b: BasicTape = mk(&w[1..]);
                let mut e = EnumTape::from(&b);
                let mut t: BasicTape = mk(&w[1..]);
                let mut h = HeadTape { head: 0, tape: mk(&w[1..]) };
                for st in w[4].split(';').filter(|x| !x.is_empty()) {
                    let v: Vec<u64> = st.split(',').map(|x| x.parse().unwrap()).collect();
                    let n = t.step(v[0] == 1, v[1], v[2] == 1);
                    let m = e.step(v[0] == 1, v[1], v[2] == 1);
                    let k = h.step(v[0] == 1, v[1], v[2] == 1);
                    let ix = |s: &Span<EnumBlock>| s.0.iter().map(|b| match b.index { None => "-".to_owned(), Some((d, i)) => format!("{}{}", d as u8, i) }).collect::<Vec<_>>().join(",");
                    out.push(format!("{n} {m} {k}|{}|{}|{}|{}|{:?} {:?}|{} {}", show(&t), show(&e.tape), show(&h.tape), h.head, e.offsets(), e.edges(),
                                     ix(&e.tape.lspan), ix(&e.tape.rspan)));
                }
                out.join(" ; ")
            },
            "look" => {
                let t: BasicTape = mk(&w[1..]);
                let h = HeadTape { head: 0, tape: mk(&w[1..]) };
                let e = EnumTape::from(&t);
                format!("{}|{}|{:?}|{:?}|{}|{}|{} {}|{} {}|{}|{}|{}", t.marks(), t.blocks(), t.counts(), t.span_lens(), t.blank(), shsig(&t.signature()),
                        t.at_edge(false), t.at_edge(true), h.at_edge(false), h.at_edge(true), shsig(&e.signature()), GetSig::scan(&e), GetSig::scan(&t))
            },
            "sig" => { let t: BasicTape = mk(&w[1..]); format!("{}", t.sig_compatible(&sig(&w[4..]))) },
            "count" => {
                let mut t: BasicTape = mk(&w[1..]);
                let mut e = EnumTape::from(&t);
                let i: Index = (w[4] == "1", w[5].parse().unwrap());
                let (g, eg) = (t.get_count(&i), e.get_count(&i));
                t.set_count(&i, w[6].parse().unwrap());
                e.set_count(&i, w[6].parse().unwrap());
                format!("{g} {eg}|{}|{}|{:?} {:?}", show(&t), show(&e.tape), e.offsets(), e.edges())
            },
            "init" => { let a: BasicTape = Tape::init(w[1].parse().unwrap()); let b: BasicTape = Tape::init_stepped(); let h = HeadTape::init_stepped();
                        format!("{}|{}|{} {}", show(&a), show(&b), h.head, show(&h.tape)) },
            _ => "?".to_owned(),
        }
    }
}
'''}
MAIN = '''
use std::io::BufRead;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let w: Vec<&str> = l.split('\\t').collect();
        match std::panic::catch_unwind(|| tape::vprobe::ask(&w)) { Ok(s) => println!("{s}"), Err(_) => println!("PANIC") }
    }
}
'''


def span(rng, k=3, big=False):
    out = []
    for _ in range(rng.choice((0, 0, 1, 1, 2, 3, 4, 5, 8, 14)[:10 if big else 7])):
        out.append([rng.randrange(k), rng.choice((1, 1, 2, 3, rng.randrange(1, 400) if big else 2))])
    fixed = []
    for c, n in out:
        if fixed and fixed[-1][0] == c:
            c = (c + 1) % k
        fixed.append([c, n])
    while fixed and fixed[-1][0] == 0:
        fixed.pop()
    return [tuple(x) for x in fixed]


def enc(s):
    return ','.join(f'{c}:{n}' for c, n in s)


def dec(s):
    return [tuple(int(v) for v in x.split(':')) for x in s.split(',') if x]


def cells(s):
    return [c for c, n in s for _ in range(n)]


def runs(cs):
    out = []
    for c in cs:
        if out and out[-1][0] == c:
            out[-1][1] += 1
        else:
            out.append([c, 1])
    while out and out[-1][0] == 0:
        out.pop()
    return [tuple(x) for x in out]


def rd(t):
    a, b, c = t.split(' ')
    return int(a), dec(b), dec(c)


def step(scan, l, r, right, color, skip):
    """the step on cells"""
    pull, push = (cells(r), cells(l)) if right else (cells(l), cells(r))
    n = 1
    if skip:
        while pull and pull[0] == scan:
            pull.pop(0)
            n += 1
    nxt = pull.pop(0) if pull else 0
    push = [color] * n + push
    a, b = runs(pull), runs(push)
    return (nxt, b, a, n) if right else (nxt, a, b, n)


def run(pid, exe):
    def gen(rng, hints, stats):
        p = rust.Probe(exe)

        def fail(what, words, got, want):
            raise Found(what=what, input=' '.join(words), got=str(got), want=str(want), code=code(words, got, want))
        while True:
            big = rng.random() < .3
            nc = rng.choice((3, 3, 3, 5, 10, 300)) if big else 3
            s, l, r = rng.randrange(nc), span(rng, nc, big), span(rng, nc, big)
            base = (str(s), enc(l), enc(r))
            kind = rng.choice(('steps', 'steps', 'look', 'sig', 'count', 'init'))
            if kind == 'steps':
                prog = [(rng.randrange(2), rng.choice((rng.randrange(3), rng.randrange(nc))), rng.randrange(2)) for _ in range(rng.randrange(1, 9))]
                w = ('steps', *base, ';'.join(','.join(map(str, x)) for x in prog))
                got = p.ask(*w)
                if got == 'PANIC':
                    fail('a step panics', w, got, 'no panic')
                cur = (s, l, r)
                head = 0
                # what the enumerated tape has to record
                num = [list(range(1, len(l) + 1)), list(range(1, len(r) + 1))]
                blk = [[[c, n, (0, i + 1)] for i, (c, n) in enumerate(l)], [[c, n, (1, i + 1)] for i, (c, n) in enumerate(r)]]
                off, edge = [0, 0], [False, False]
                for (d, c, k), o in zip(prog, got.split(' ; '), strict=True):
                    ns, nl, nr, n = step(*cur, d, c, k)
                    f = o.split('|')
                    pl, ps = blk[d], blk[1 - d]

                    def look(b):
                        if b[2] is not None:
                            off[b[2][0]] = max(off[b[2][0]], b[2][1])
                    if not pl:
                        edge[d] = True
                    else:
                        look(pl[0])
                        if k and pl[0][0] == cur[0]:
                            if len(pl) == 1:
                                edge[d] = True
                            else:
                                look(pl[1])
                    if ps and ps[0][0] == c:
                        look(ps[0])
                    if k and pl and pl[0][0] == cur[0]:
                        pl.pop(0)
                    if pl:
                        if pl[0][1] > 1:
                            pl[0][1] -= 1
                        else:
                            pl.pop(0)
                    if ps and ps[0][0] == c:
                        ps[0][1] += n
                    elif ps or c:
                        ps.insert(0, [c, n, None])
                    head += n if d else -n
                    if pid != 'T05':
                        if rd(f[1]) != (ns, nl, nr) or f[0].split()[0] != str(n):
                            fail(f'step {(d, c, k)} of {cur}', w, f'{f[0]} {f[1]}', (n, ns, nl, nr))
                        if pid == 'T04' and (rd(f[3]) != (ns, nl, nr) or f[0].split()[2] != str(n) or f[4] != str(head)):
                            fail(f'HeadTape step {(d, c, k)} of {cur}', w, f'{f[0]} {f[3]} head {f[4]}', (n, ns, nl, nr, head))
                    else:
                        if rd(f[2]) != (ns, nl, nr) or f[0].split()[1] != str(n):
                            fail(f'EnumTape step {(d, c, k)} of {cur}', w, f'{f[0]} {f[2]}', (n, ns, nl, nr))
                        want = f'({off[0]}, {off[1]}) ({str(edge[0]).lower()}, {str(edge[1]).lower()})'
                        if f[5] != want:
                            fail(f'EnumTape record after step {(d, c, k)} of {cur}', w, f[5], want)
                        ix = ' '.join(','.join('-' if b[2] is None else f'{b[2][0]}{b[2][1]}' for b in side) for side in blk)
                        if f[6] != ix:
                            fail(f'block numbers after step {(d, c, k)} of {cur}', w, f[6], ix)
                    cur = (ns, nl, nr)
            elif kind == 'look':
                w = ('look', *base)
                f = p.ask(*w).split('|')
                sg = f'{s} ' + ' '.join(','.join(f'{c}:{1 if n == 1 else 2}' for c, n in x) for x in (l, r))
                b = lambda v: str(bool(v)).lower()
                want = [str(sum(1 for c in cells(l) + [s] + cells(r) if c)), str(len(l) + len(r)), str(([n for _, n in l], [n for _, n in r])),
                        str((len(l), len(r))), b(not any(cells(l) + [s] + cells(r))), sg, f'{b(not s and not l)} {b(not s and not r)}',
                        f'{b(not s and not l)} {b(not s and not r)}', sg, str(s), str(s)]
                sel = (0, 1, 2, 3, 4, 5, 6, 7, 10) if pid == 'T04' else (0, 1, 2, 3, 4, 5, 6, 10) if pid == 'T04t' else (8, 9)
                for i in sel:
                    if i >= len(f) or f[i] != want[i]:
                        fail(f'observer {i} of {(s, l, r)}', w, f[i] if i < len(f) else f, want[i])
            elif kind == 'sig' and pid != 'T05':
                def near(x):
                    x = [list(b) for b in x]
                    q = rng.random()
                    if q < .3 and x:
                        x.pop()
                    elif q < .45:
                        x.append([rng.randrange(3), 1])
                    elif q < .6 and x:
                        rng.choice(x)[0] = rng.randrange(3)
                    elif q < .7 and x:
                        rng.choice(x)[1] = rng.randrange(1, 3)
                    return x
                ss, sl, sr = s if rng.random() < .8 else rng.randrange(3), near(l), near(r)
                w = ('sig', *base, str(ss), enc(sl), enc(sr))
                got = p.ask(*w)
                want = ss == s and all(len(a) <= len(t) and all(x[0] == y[0] for x, y in zip(a, t)) for a, t in ((sl, l), (sr, r)))
                if got != str(want).lower():
                    fail('sig_compatible', w, got, want)
            elif kind == 'count':
                side = rng.randrange(2)
                t = (l, r)[side]
                if not t:
                    continue
                i, v = rng.randrange(len(t)), rng.randrange(1, 99)
                w = ('count', *base, str(side), str(i), str(v))
                f = p.ask(*w).split('|')
                n2 = [list(l), list(r)]
                n2[side][i] = (t[i][0], v)
                if pid != 'T05':
                    if f[0].split()[0] != str(t[i][1]) or rd(f[1]) != (s, *n2):
                        fail('get_count/set_count', w, f, (t[i][1], s, *n2))
                elif f[0].split()[1] != str(t[i][1]) or rd(f[2]) != (s, *n2) or f[3] != '(0, 0) (false, false)':
                    fail('EnumTape get_count/set_count', w, f, (t[i][1], s, *n2))
            elif kind == 'init' and pid == 'T04':
                w = ('init', str(s))
                got = p.ask(*w)
                want = f'{s}  |0 1:1 |1 0 1:1 '
                if got != want:
                    fail('new tape', w, got, want)
            yield
    return gen


def code(words, got, want, mod='rtape_fz'):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    return (f'sys.path.insert(0, {here!r})\nfrom fz import rust, {mod} as m\n'
            f'p = rust.Probe(rust.build(m.MAIN, m.PROBES))\ngot = p.ask(*{list(words)!r})\nprint("the compiled crate answers:", got)\n'
            f'print({("reported: " + str(got) + "; expected: " + str(want))!r})\n')
