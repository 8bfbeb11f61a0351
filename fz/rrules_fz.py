"""Concrete search for src/rules.rs: learning and applying rules in the compiled crate against arithmetic done here."""
from __future__ import annotations
from . import rust
from .common import Found
from .rtape_fz import code

PROBES = {'rules': '''
pub mod vprobe {
    use super::*;
    struct Counts2 { l: Vec<Count>, r: Vec<Count> }
    impl IndexTape for Counts2 {
        fn get_count(&self, &(s, i): &Index) -> Count { if s { self.r[i] } else { self.l[i] } }
        fn set_count(&mut self, &(s, i): &Index, v: Count) { if s { self.r[i] = v } else { self.l[i] = v } }
    }
    fn ns(s: &str) -> Vec<u64> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() }
    pub fn ask(w: &[&str]) -> String {
        match w[0] {
            "diff" => {
                let v: Vec<Diff> = w[1].split(',').map(|x| x.parse().unwrap()).collect();
                match calculate_diff(v[0], v[1], v[2], v[3]) {
                    None => "same".to_owned(), Some(DiffResult::Unknown) => "unknown".to_owned(),
                    Some(DiffResult::Got(Op::Plus(p))) => format!("plus {p}"), Some(DiffResult::Got(Op::Mult((q, r)))) => format!("mult {q} {r}") }
            },
            "make" => {
                let c: Vec<Counts> = (0..4).map(|i| (ns(w[1 + 2 * i]), ns(w[2 + 2 * i]))).collect();
                match make_rule(&c[0], &c[1], &c[2], &c[3]) {
                    None => "none".to_owned(),
                    Some(r) => { let mut o = vec!["rule".to_owned()];
                        for (&(s, i), op) in r.iter() { o.push(match op { Op::Plus(p) => format!("{}:{}:plus {}", s as u8, i, p), Op::Mult((q, r)) => format!("{}:{}:mult {} {}", s as u8, i, q, r) }); }
                        o.join(";") } }
            },
            "apply" => {
                let mut t = Counts2 { l: ns(w[1]), r: ns(w[2]) };
                let mut rule = Rule::new();
                for e in w[3].split(';').filter(|x| !x.is_empty()) { let v: Vec<i64> = e.split(',').map(|x| x.parse().unwrap()).collect();
                    rule.insert((v[0] == 1, v[1] as usize), Op::Plus(v[2] as Diff)); }
                let a = count_apps(&rule, &t);
                let x = apply_rule(&rule, &mut t);
                format!("{:?}|{:?}|{:?}|{:?}", a.map(|(n, _, _)| n), x, t.l, t.r)
            },
            _ => "?".to_owned(),
        }
    }
}
'''}
MAIN = '''
use std::io::BufRead;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let w: Vec<&str> = l.split('\\t').collect();
        match std::panic::catch_unwind(|| rules::vprobe::ask(&w)) { Ok(s) => println!("{s}"), Err(_) => println!("PANIC") }
    }
}
'''


def quad(rng):
    """four counts in a row, of a kind"""
    k = rng.random()
    a = rng.choice((1, 2, 3, rng.randrange(1, 40), rng.randrange(1, 2000)))
    if k < .25:
        return [a] * 4
    if k < .6:
        d = rng.randrange(-12, 13)
        if a + 3 * d < 1:
            a += 36
        v = [a + i * d for i in range(4)]
    elif k < .85:
        q, r = rng.randrange(1, 5), rng.randrange(0, 6)
        a = rng.randrange(1, 30)
        v = [a]
        for _ in range(3):
            v.append(v[-1] * q + r)
    else:
        v = [rng.randrange(1, 9) for _ in range(4)]
    if rng.random() < .25:
        i = rng.randrange(4)
        v[i] = max(1, v[i] + rng.choice((-1, 1, 2, -2)))
    if rng.random() < .08:
        i = rng.randrange(4)
        v[i] = v[rng.randrange(4)]
    return v


def bad_op(ans, v):
    """why the answer for these four counts is wrong"""
    pairs = list(zip(v, v[1:]))
    const = len({b - a for a, b in pairs}) == 1
    w = ans.split()
    if w[0] == 'same':
        return None if len(set(v)) == 1 else 'the counts differ'
    if len(set(v)) == 1:
        return 'the counts are all equal'
    if w[0] == 'unknown':
        return 'a constant difference explains the counts' if const else None
    if w[0] == 'plus':
        return None if all(b == a + int(w[1]) for a, b in pairs) else 'the op does not lead from each count to the next'
    if w[0] == 'mult':
        return None if all(b == a * int(w[1]) + int(w[2]) for a, b in pairs) else 'the op does not lead from each count to the next'
    return 'no answer'


def run(pid, exe):
    def gen(rng, hints, stats):
        p = rust.Probe(exe)

        def fail(what, words, got, want):
            raise Found(what=what, input=' '.join(words), got=str(got), want=str(want), code=code(words, got, want, 'rrules_fz'))
        while True:
            kind = rng.choice(('diff', 'make', 'make', 'apply', 'apply', 'apply'))
            if kind == 'diff':
                v = quad(rng)
                w = ('diff', ','.join(map(str, v)))
                got = p.ask(*w)
                why = bad_op(got, v)
                if why:
                    fail(f'calculate_diff{tuple(v)}', w, got, why)
            elif kind == 'make':
                calm = rng.random() < .8
                sides = []
                for s in range(2):
                    side = []
                    for _ in range(rng.choice((0, 1, 1, 2, 3))):
                        v = quad(rng)
                        while calm and (lambda: p.ask('diff', ','.join(map(str, v))) == 'unknown')():
                            v = quad(rng)
                        side.append(v)
                    sides.append(side)
                w = ('make', *(x for j in range(4) for x in (','.join(str(v[j]) for v in side) for side in sides)))
                got = p.ask(*w)
                if got == 'PANIC':
                    fail('make_rule panics', w, got, 'no panic')
                if got == 'none':
                    if all(len({b - a for a, b in zip(v, v[1:])}) == 1 for side in sides for v in side):
                        fail('make_rule', w, got, 'a constant difference explains every position')
                    continue
                ops = {}
                for e in got.split(';')[1:]:
                    s, i, o = e.split(':')
                    ops[int(s), int(i)] = o
                for s in range(2):
                    for i, v in enumerate(sides[s]):
                        o = ops.pop((s, i), 'same')
                        why = bad_op(o, v)
                        if why or o == 'unknown':
                            fail(f'make_rule: position {(s, i)}', w, got, f'{v}: {why}')
                if ops:
                    fail('make_rule: positions outside the tapes', w, got, ops)
            else:
                ls = [[rng.choice((1, 2, 3, 5, rng.randrange(1, 60), rng.randrange(1, 3000))) for _ in range(rng.choice((0, 1, 2, 3)))] for _ in range(2)]
                pos = [(s, i) for s in range(2) for i in range(len(ls[s]))]
                rng.shuffle(pos)
                pos = sorted(pos[:rng.randrange(len(pos) + 1)])
                rule = [(s, i, rng.choice((-1, -1, -2, -3, 1, 2, rng.randrange(-9, 10) or 1))) for s, i in pos]
                w = ('apply', *(','.join(map(str, x)) for x in ls), ';'.join(','.join(map(str, e)) for e in rule))
                got = p.ask(*w)
                # how often it can be applied, every count staying positive
                downs = [(ls[s][i] - 1) // -d for s, i, d in rule if d < 0]
                n = min(downs) if downs else 0
                new = [list(x) for x in ls]
                if n:
                    for s, i, d in rule:
                        new[s][i] += d * n
                o = f'Some({n})' if n else 'None'
                want = f'{o}|{o}|{new[0]}|{new[1]}'
                if got != want:
                    fail('applying a rule', w, got, want)
            yield
    return gen
