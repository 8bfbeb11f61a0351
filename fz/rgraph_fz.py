"""Concrete search for src/graph.rs: what the compiled functions answer about a table, against a plain search in its graph."""
from __future__ import annotations
from . import rinstr_fz
from .common import Found
from .rtape_fz import code as _code
from . import rust

FALLBACK = {'graph': '''
pub mod vprobe { pub use super::*; pub fn exits(_p: &CompProg) -> String { "?".to_owned() } }
''', 'instrs': rinstr_fz.PROBE}
PROBES = {'graph': '''
pub mod vprobe {
    pub use super::*;
    pub fn exits(p: &CompProg) -> String {
        let e = get_exitpoints(p);
        let mut v = vec![];
        for (q, xs) in &e {
            let ys: Vec<String> = xs.iter().map(|x| x.to_string()).collect();
            v.push(format!("{q}:{}", ys.join(",")));
        }
        v.join(" ")
    }
}
''', 'instrs': rinstr_fz.PROBE}
MAIN = '''
use std::io::BufRead;
fn ask(w: &[&str]) -> String {
    let p = instrs::vprobe::table(w[1]);
    if w[0] == "exits" { graph::vprobe::exits(&p) } else { graph::is_connected(&p, w[2].parse().unwrap()).to_string() }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let w: Vec<&str> = l.split('\\t').collect();
        match std::panic::catch_unwind(|| ask(&w)) { Ok(s) => println!("{s}"), Err(_) => println!("PANIC") }
    }
}
'''


def edges(t):
    return [sorted({i[2] for i in r if i} - {q}) for q, r in enumerate(t)]


def connected(t):
    e = edges(t)
    if not all(e):
        return False
    seen, todo = set(), list(e[-1])
    while todo:
        q = todo.pop()
        if q not in seen:
            seen.add(q)
            todo += e[q]
    return 0 in seen


def table(rng):
    s, c = rng.choice((1, 2, 2, 3, 4, 4, 5, 5, 6, 7, 9, 14, 30)), rng.choice((2, 2, 2, 3, 4))
    few = rng.choice((0, 0, .02, .1, .4))
    near = rng.choice((0, 1, 2, 3, s))
    t = []
    lonely = rng.random() < .5 and s > 2        # nobody but late states enters A
    for q in range(s):
        row = []
        for _ in range(c):
            if rng.random() < few:
                row.append(None)
                continue
            to = rng.randrange(s) if near == 0 else (q + rng.randint(-near, near)) % s
            if lonely and to == 0 and rng.random() < .85:
                to = rng.randrange(1, s)
            row.append((rng.randrange(c), rng.random() < .5, to))
        t.append(row)
    return t


def run(pid, exe):
    def gen(rng, hints, stats):
        q = rust.Probe(exe)
        while True:
            for _ in range(30):
                t = table(rng)
                e = rinstr_fz.entries(t)
                if rng.random() < .3 and not exe.fallback:
                    w = ('exits', e)
                    want = ' '.join(f'{a}:{",".join(map(str, b))}' for a, b in enumerate(edges(t)) if b)
                    stats['exits'] = stats.get('exits', 0) + 1
                else:
                    w = ('connected', e, len(t))
                    want = 'true' if connected(t) else 'false'
                    stats[want] = stats.get(want, 0) + 1
                got = q.ask(*w)
                if w[0] == 'exits' and got != want and got != 'PANIC':
                    # the order within a vector is no matter of theirs
                    norm = lambda s: [(x.split(':')[0], sorted(x.split(':')[1].split(','))) for x in s.split(' ') if x]
                    if norm(got) == norm(want):
                        continue
                if got != want:
                    raise Found(what=f'{w[0]} of graph.rs', input=' '.join(map(str, w)), got=got, want=want, code=_code(w, got, want, 'rgraph_fz'))
            yield
    return gen
