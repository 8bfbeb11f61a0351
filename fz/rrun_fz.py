"""Concrete search for src/machine.rs and src/prover.rs: the compiled machine and prover against runs made here and against a second
prover, written over the same tapes and the same rule inference."""
from __future__ import annotations
import os
from . import rust
from .common import Found
from .rtape_fz import code as _code
from .rreason_fz import Prog

HERE = os.path.dirname(os.path.abspath(__file__))
PROGS = [p for p in open(os.path.join(HERE, 'progs.txt')).read().split('\n') if p]

MACHINE = '''
pub mod vprobe {
    use super::*;
    fn show(r: &MachineResult) -> String {
        let b = r.blanks().iter().map(|(k, v)| format!("{k}:{v}")).collect::<Vec<_>>().join(",");
        format!("{:?} {} {} {} {} {:?}|{:?} {:?} {:?} {:?} {:?} {:?} {:?}|{}", r.result(), r.steps(), r.cycles(), r.marks(), r.rulapp(), r.last_slot,
                r.undfnd(), r.simple_termination(), r.halted(), r.infrul(), r.spnout(), r.xlimit(), r.cfglim(), b)
    }
    fn reference(prog: &str, lim: Step) -> MachineResult {
        let comp = CompProg::from_str(prog);
        let mut tape = Tape::init(0);
        let mut prover = Prover::new(&comp);
        let (mut q, mut steps, mut rulapp, mut n) = (0, 0, 0, 0);
        let mut blanks = Blanks::new();
        let mut last = None;
        let result = loop {
            if n >= lim { break TermRes::xlimit }
            match prover.try_rule(n as i32, q, &tape) {
                Some(ProverResult::ConfigLimit) => break TermRes::cfglim,
                Some(ProverResult::InfiniteRule) => break TermRes::infrul,
                Some(ProverResult::MultRule) => break TermRes::mulrul,
                Some(ProverResult::Got(r)) => if let Some(k) = apply_rule(&r, &mut tape) { rulapp += k; n += 1; continue },
                None => {},
            }
            match comp.get(&(q, tape.scan)) {
                None => { last = Some((q, tape.scan)); break TermRes::undfnd },
                Some(&(_, sh, to)) if to == q && tape.at_edge(sh) => break TermRes::spnout,
                Some(&(pr, sh, to)) => { steps += tape.step(sh, pr, to == q); q = to; },
            }
            if tape.blank() {
                let seen = blanks.contains_key(&q);
                if !seen { blanks.insert(q, steps); }
                if seen || q == 0 { break TermRes::infrul }
            }
            n += 1;
        };
        MachineResult { result, steps, cycles: n, marks: tape.marks(), rulapp, blanks, last_slot: last }
    }
    pub fn ask(w: &[&str]) -> String {
        let lim: Step = w[2].parse().unwrap();
        match w[0] {
            "quick" => show(&run_quick_machine(w[1], lim)),
            "prove" => {
                let want = std::panic::catch_unwind(|| show(&reference(w[1], lim))).unwrap_or("PANIC".to_owned());
                let got = std::panic::catch_unwind(|| show(&run_prover(w[1], lim))).unwrap_or("PANIC".to_owned());
                format!("{got} ; {want}")
            },
            "rec" => format!("{}", quick_term_or_rec(&CompProg::from_str(w[1]), w[2].parse().unwrap(), w[3] == "1")),
            _ => "?".to_owned(),
        }
    }
}
'''
PROVER = '''
pub mod vprobe {
    use super::*;
    use crate::instrs::{CompProg, Parse as _};
    struct Ref<'p> { prog: &'p CompProg, rules: Vec<(State, Signature, (bool, bool), Rule)>, seen: Vec<(Signature, Vec<(State, Vec<i64>)>)> }
    enum Out { Nothing, Rule(Rule), Name(&'static str) }
    fn deltas(v: &[i64]) -> Option<[i64; 3]> {
        for i in 1..=4 {
            let p: Vec<i64> = (0..4).map(|k| v[k + 1] - v[k] * i).collect();
            let g = p[1] - p[0];
            if p[2] - p[1] != g || p[3] - p[2] != g { continue }
            let mut x = v[4];
            let mut out = [0; 3];
            for k in 0..3 {
                let y = x * i + p[3] + g * (k as i64 + 1);
                out[k] = y - x;
                x = y;
            }
            return if out.iter().all(|&d| d >= 0) { Some(out) } else { None };
        }
        None
    }
    impl Ref<'_> {
        fn known(&self, q: State, sig: &Signature) -> Option<Rule> {
            for (s, m, (le, re), r) in &self.rules {
                let ok = |e: &bool, a: &Vec<_>, b: &Vec<_>| if *e { a == b } else { a.len() <= b.len() && a[..] == b[..a.len()] };
                if *s == q && m.scan == sig.scan && ok(le, &m.lspan, &sig.lspan) && ok(re, &m.rspan, &sig.rspan) { return Some(r.clone()) }
            }
            None
        }
        fn run(&self, n: i64, mut q: State, t: &mut BasicTape) -> Option<State> {
            for _ in 0..n {
                if let Some(r) = self.known(q, &t.signature()) { if apply_rule(&r, t).is_some() { continue } }
                let &(pr, sh, to) = self.prog.get(&(q, t.scan))?;
                t.step(sh, pr, q == to);
                q = to;
            }
            Some(q)
        }
        fn cut(&self, n: i64, mut q: State, mut t: EnumTape, sig: &Signature) -> (Signature, (bool, bool)) {
            for _ in 0..n {
                if let Some(r) = self.known(q, &t.signature()) { if apply_rule(&r, &mut t).is_some() { continue } }
                let &(pr, sh, to) = self.prog.get(&(q, t.scan())).unwrap();
                t.step(sh, pr, q == to);
                q = to;
            }
            let (l, r) = t.offsets();
            (Signature { scan: sig.scan, lspan: sig.lspan[..l].to_vec(), rspan: sig.rspan[..r].to_vec() }, t.edges())
        }
        fn ask(&mut self, n: i64, q: State, t: &BasicTape) -> Out {
            let sig = t.signature();
            if let Some(r) = self.known(q, &sig) { return Out::Rule(r) }
            let Some(at) = self.seen.iter().position(|(s, _)| *s == sig) else {
                if self.seen.len() > 100_000 { return Out::Name("config") }
                self.seen.push((sig, vec![(q, vec![n])]));
                return Out::Nothing;
            };
            let past = &mut self.seen[at].1;
            let i = match past.iter().position(|(s, _)| *s == q) { Some(i) => i, None => { past.push((q, vec![n])); past.len() - 1 } };
            let v = &mut past[i].1;
            v.push(n);
            if v.len() < 5 { return Out::Nothing }
            let d = deltas(v);
            v.remove(0);
            let Some(d) = d else { return Out::Nothing };
            if d.iter().any(|&x| x > 90_000) { return Out::Nothing }
            let mut u = t.clone();
            let mut c = vec![t.counts()];
            for k in d {
                if self.run(k, q, &mut u) != Some(q) || !u.sig_compatible(&sig) { return Out::Nothing }
                c.push(u.counts());
            }
            let Some(r) = make_rule(&c[0], &c[1], &c[2], &c[3]) else { return Out::Nothing };
            let plus: Vec<i64> = r.values().filter_map(|o| if let Op::Plus(p) = o { Some(*p as i64) } else { None }).collect();
            if plus.iter().all(|&p| p >= 0) { return Out::Name("endless") }
            if plus.len() < r.len() { return Out::Name("mult") }
            if r.len() == 2 && t.span_lens() == (1, 1) && plus[0].abs() == plus[1].abs() { return Out::Nothing }
            self.seen[at].1.retain(|(s, _)| *s != q);
            let (m, e) = self.cut(d[0], q, t.into(), &sig);
            self.rules.push((q, m, e, r.clone()));
            Out::Rule(r)
        }
    }
    /* the tape with these blocks, built by steps */
    fn build(l: &[(u64, bool)], scan: u64, r: &[(u64, bool)]) -> BasicTape {
        let flat = |b: &[(u64, bool)]| b.iter().flat_map(|&(c, m)| vec![c; if m { 2 } else { 1 }]).collect::<Vec<u64>>();
        let (l, r) = (flat(l), flat(r));
        let mut t = BasicTape::init(0);
        for &c in r.iter().rev() { t.step(false, c, false); }
        t.step(false, scan, false);
        for &c in &l { t.step(false, c, false); }
        t.step(true, t.scan, false);
        for _ in &l { t.step(true, t.scan, false); }
        t
    }
    fn near(sig: &Signature) -> Vec<BasicTape> {
        let flat = |v: &Vec<_>| -> Vec<(u64, bool)> { v.iter().map(|c| match c { crate::tape::ColorCount::Just(c) => (*c, false), crate::tape::ColorCount::Mult(c) => (*c, true) }).collect() };
        let sides = [flat(&sig.lspan), flat(&sig.rspan)];
        let mut out = vec![build(&sides[0], sig.scan, &sides[1])];
        for k in 0..2 {
            for i in 0..=sides[k].len() {
                for how in 0..5 {
                    let mut s = sides.clone();
                    let v = &mut s[k];
                    match how {
                        0 => v.truncate(i),
                        1 if i < v.len() => v[i].1 = !v[i].1,
                        2 if i < v.len() => v[i].0 = if v[i].0 > 1 { 0 } else { v[i].0 + 1 },
                        3 => v.insert(i, (1, false)),
                        4 => v.insert(i, (2, true)),
                        _ => continue,
                    }
                    out.push(build(&s[0], sig.scan, &s[1]));
                }
            }
        }
        out
    }
    fn real_ask(real: &mut Prover<CompProg>, n: i64, q: State, t: &BasicTape) -> Out {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match real.try_rule(n as i32, q, t) {
            None => Out::Nothing,
            Some(ProverResult::ConfigLimit) => Out::Name("config"),
            Some(ProverResult::InfiniteRule) => Out::Name("endless"),
            Some(ProverResult::MultRule) => Out::Name("mult"),
            Some(ProverResult::Got(r)) => Out::Rule(r),
        })).unwrap_or(Out::Name("panic"))
    }
    fn show(o: &Out) -> String { match o { Out::Nothing => "-".to_owned(), Out::Rule(r) => format!("{r:?}"), Out::Name(s) => (*s).to_owned() } }
    fn both(prog: &str, lim: i64) -> String {
        let comp = CompProg::from_str(prog);
        let mut tape = BasicTape::init(0);
        let mut q = 0;
        let mut real = Prover::new(&comp);
        let mut other = Ref { prog: &comp, rules: vec![], seen: vec![] };
        let mut rules = 0;
        let mut made: Vec<(State, Signature)> = vec![];
        for n in 0..lim {
            let before = format!("{tape}");
            let Ok(want) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| other.ask(n, q, &tape))) else { return "skip".to_owned() };
            let got = real_ask(&mut real, n, q, &tape);
            if show(&got) != show(&want) { return format!("cycle {n}, state {q}, tape {before};{};{}", show(&got), show(&want)) }
            match want {
                Out::Name(_) => return format!("same {rules}"),
                Out::Rule(r) => {
                    rules += 1;
                    if made.len() < 6 && !made.iter().any(|(a, b)| *a == q && *b == tape.signature()) { made.push((q, tape.signature())); }
                    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| apply_rule(&r, &mut tape))) { Err(_) => return "skip".to_owned(), Ok(Some(_)) => continue, Ok(None) => {} }
                },
                Out::Nothing => {},
            }
            let Some(&(pr, sh, to)) = comp.get(&(q, tape.scan)) else { break };
            if to == q && tape.at_edge(sh) { break }
            tape.step(sh, pr, q == to);
            q = to;
        }
        let mut n = lim;
        for (q, sig) in &made {
            if sig.lspan.len() + sig.rspan.len() > 12 { continue }
            for t in near(sig) {
                n += 1;
                let Ok(want) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| other.ask(n, *q, &t))) else { return "skip".to_owned() };
                let got = real_ask(&mut real, n, *q, &t);
                if show(&got) != show(&want) { return format!("after {lim} cycles, asked for state {q}, tape {t};{};{}", show(&got), show(&want)) }
            }
        }
        format!("same {rules}")
    }
    pub fn ask(w: &[&str]) -> String {
        match w[0] {
            "both" => both(w[1], w[2].parse().unwrap()),
            "past" => {
                let mut p: Option<PastConfigs> = None;
                let mut out = vec![];
                for e in w[1].split(',') {
                    let v: Vec<i32> = e.split(':').map(|x| x.parse().unwrap()).collect();
                    let q = v[0] as State;
                    match (v.len(), &mut p) {
                        (1, Some(p)) => p.delete_configs(q),
                        (1, None) => {},
                        (_, None) => { p = Some(PastConfigs::new(q, v[1])); out.push("None".to_owned()); },
                        (_, Some(p)) => out.push(format!("{:?}", p.next_deltas(q, v[1]))),
                    }
                }
                out.join(";")
            },
            _ => crate::machine::vprobe::ask(w),
        }
    }
}
'''
PROBES = {'machine': MACHINE, 'prover': PROVER}
FALLBACK = {'machine': MACHINE, 'prover': 'pub mod vprobe { pub fn ask(w: &[&str]) -> String { crate::machine::vprobe::ask(w) } }\n'}
MAIN = '''
use std::io::BufRead;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let w: Vec<&str> = l.split('\\t').collect();
        match std::panic::catch_unwind(|| prover::vprobe::ask(&w)) { Ok(s) => println!("{s}"), Err(_) => println!("PANIC") }
    }
}
'''


def code(words, got, want):
    return _code(words, got, want, 'rrun_fz')


def prog(rng):
    """a program text, and its table"""
    if rng.random() < .35:
        t = rng.choice(PROGS)
        rows = [[None if '.' in i or '_' in i else (int(i[0]), i[1] == 'R', ord(i[2]) - 65) for i in r.split(' ')] for r in t.strip().split('  ')]
        if all(i is None or 0 <= i[2] < 26 for r in rows for i in r):
            if rng.random() < .3:
                s = rng.randrange(len(rows))
                c = rng.randrange(len(rows[s]))
                rows[s][c] = rng.choice((None, (rng.randrange(len(rows[s])), rng.random() < .5, rng.randrange(len(rows)))))
            return Prog([[None if i is None else (i[0], i[1], i[2]) for i in r] for r in rows])
    s, c = rng.choice(((2, 2), (2, 2), (3, 2), (3, 2), (4, 2), (2, 3), (2, 3), (3, 3), (2, 4), (5, 2)))
    table = [[(rng.randrange(c) if rng.random() < .8 else 0, rng.random() < .5, rng.randrange(s)) for _ in range(c)] for _ in range(s)]
    if rng.random() < .8:
        table[0][0] = (1, True, 1)
    for _ in range(rng.choice((0, 0, 1, 1, 2, 3))):
        table[rng.randrange(s)][rng.randrange(c)] = None
    return Prog(table)


def some(v):
    return 'None' if v is None else f'Some({v})'


def quick(p, lim):
    """(verdict, steps, cycles, marks, slot, blanks) of the run from the blank tape, one cycle at a time"""
    tape, pos, q, steps, blanks, nz = {}, 0, 0, 0, {}, 0
    lo = hi = 0
    res, slot, cyc = 'xlimit', None, None
    for n in range(lim):
        c = tape.get(pos, 0)
        i = p.d.get((q, c))
        if i is None:
            res, slot, cyc = 'undfnd', (q, c), n
            break
        pr, sh, to = i
        d = 1 if sh else -1
        same = to == q
        if same and c == 0 and not any(v and ((k > pos) if sh else (k < pos)) for k, v in tape.items()):
            res, cyc = 'spnout', n
            break
        while True:
            c0 = tape.get(pos, 0)
            nz += (pr != 0) - (c0 != 0)
            tape[pos] = pr
            lo, hi = min(lo, pos), max(hi, pos)
            pos += d
            steps += 1
            if not same or tape.get(pos, 0) != c or (c == 0 and not lo <= pos <= hi):
                break
        q = to
        if nz == 0:
            seen = q in blanks
            if not seen:
                blanks[q] = steps
            if seen or q == 0:
                res = 'infrul'
                break
    return res, steps, cyc, nz, slot, blanks


def want_quick(p, lim):
    r, steps, cyc, marks, slot, blanks = quick(p, lim)
    st = some(steps)
    g = [f'Some(({steps}, ({slot[0]}, {slot[1]})))' if r == 'undfnd' else 'None', st if r in ('undfnd', 'spnout') else 'None']
    g += [st if r == k else 'None' for k in ('undfnd', 'infrul', 'spnout', 'xlimit', 'cfglim')]
    b = ','.join(f'{k}:{v}' for k, v in sorted(blanks.items()))
    return r, steps, cyc, marks, 0, f'Some(({slot[0]}, {slot[1]}))' if slot else 'None', ' '.join(g), b


def read(got):
    a, g, b = got.split('|')
    w = a.split(' ', 5)
    return w[0], int(w[1]), int(w[2]), int(w[3]), int(w[4]), w[5], g, b


def plain_run(p, steps):
    """('undfnd' | 'spnout' | None, step, marks, slot): base steps"""
    tape, pos, q, nz = {}, 0, 0, 0
    for n in range(steps):
        c = tape.get(pos, 0)
        i = p.d.get((q, c))
        if i is None:
            return 'undfnd', n, nz, (q, c)
        pr, sh, to = i
        if c == 0 and to == q and not any(v and ((k > pos) if sh else (k < pos)) for k, v in tape.items()):
            return 'spnout', n, nz, None
        nz += (pr != 0) - (c != 0)
        tape[pos] = pr
        pos += 1 if sh else -1
        q = to
    return None, steps, nz, None


def deltas(v):
    e, d, c, b, a = v
    for i in range(1, 5):
        p = [d - e * i, c - d * i, b - c * i, a - b * i]
        g = p[1] - p[0]
        if p[2] - p[1] == g == p[3] - p[2]:
            out, x = [], a
            for k in (1, 2, 3):
                y = x * i + p[3] + g * k
                out.append(y - x)
                x = y
            return out if min(out) >= 0 else None
    return None


def past(rng):
    """observations of a few states at one signature, and the answers"""
    seqs = {}
    for q in range(rng.choice((1, 1, 2, 3))):
        i, p, g, x = rng.choice((1, 1, 1, 2, 2, 3, 4, 5)), rng.randrange(1, 30), rng.choice((0, 0, 1, 2, -1, 5)), rng.randrange(1, 20)
        xs = [x]
        for k in range(8):
            x = x * i + p + g * k + (rng.choice((0, 1, 3)) if rng.random() < .04 else 0)
            xs.append(x)
        seqs[q] = xs if xs[-1] < 2 ** 18 else [n % 5000 for n in xs]
    words, want, mem = [], [], None
    order = [q for q in seqs for _ in range(9)]
    if rng.random() < .7:
        rng.shuffle(order)
    at = {q: 0 for q in seqs}
    for q in order:
        if mem is not None and rng.random() < .03:
            words.append(str(q))
            mem.pop(q, None)
            continue
        c = seqs[q][at[q]]
        at[q] += 1
        words.append(f'{q}:{c}')
        if mem is None:
            mem = {q: [c]}
            want.append('None')
            continue
        v = mem.setdefault(q, [c])
        v.append(c)
        if len(v) < 5:
            want.append('None')
            continue
        d = deltas(v)
        v.pop(0)
        want.append('None' if d is None else f'Some(({d[0]}, {d[1]}, {d[2]}))')
    return words, want


def run(pid, exe):
    def gen(rng, hints, stats):
        q = rust.Probe(exe)
        inner = not getattr(exe, 'fallback', False)

        def fail(what, words, got, want):
            raise Found(what=what, input=' '.join(map(str, words)), got=str(got), want=str(want), code=code(words, got, want))
        while True:
            p = prog(rng)
            k = rng.random()
            if pid == 'P03' and inner:
                if k < .3:
                    ws, want = past(rng)
                    w = ('past', ','.join(ws))
                    got = q.ask(*w)
                    if got != ';'.join(want):
                        fail('the distances between observations', w, got, ';'.join(want))
                else:
                    w = ('both', p.text, rng.choice((100, 400, 1500)))
                    got = q.ask(*w)
                    if got.startswith('same'):
                        stats['rules'] = stats.get('rules', 0) + int(got[5:])
                    elif got != 'skip' and got:
                        f = got.split(';')
                        fail(f'try_rule: {f[0]}', w, f[-2], f[-1])
            elif pid == 'X02' and k < .5:
                lim = rng.choice((0, 1, 2, 5, 20, 100, 400))
                w = ('quick', p.text, lim)
                got = q.ask(*w)
                want = want_quick(p, lim)
                if got == 'PANIC':
                    fail('run_quick_machine panics', w, got, want)
                g = read(got)
                if any(a != b for n, (a, b) in enumerate(zip(g, want)) if n != 2 or want[2] is not None):
                    fail('run_quick_machine', w, g, want)
            else:
                lim = rng.choice((1, 5, 30, 200, 1000))
                w = ('prove', p.text, lim)
                a, b = q.ask(*w).split(' ; ')
                if b == 'PANIC':
                    yield
                    continue
                if a == 'PANIC':
                    fail('run_prover panics', w, a, b)
                g, want = read(a), read(b)
                cyc = want[0] not in ('xlimit', 'infrul')
                if any(x != y for n, (x, y) in enumerate(zip(g, want)) if n != 2 or cyc):
                    fail('run_prover', w, g, want)
                if rng.random() < .3 and g[0] != 'xlimit':
                    r, n, marks, slot = plain_run(p, 3000)
                    if r is not None and g[0] in ('undfnd', 'spnout', 'infrul') and (
                            g[0] != r or g[3] != marks or g[4] == 0 and g[1] != n or slot and g[5] != f'Some(({slot[0]}, {slot[1]}))'):
                        fail('run_prover against a run of single steps', w, g, (r, n, marks, slot))
            yield
    return gen
