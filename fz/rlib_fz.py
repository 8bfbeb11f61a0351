"""Concrete search for src/lib.rs: what the functions Python calls answer for a text, against the functions of the crate called directly on
the table that text means (built here, not by the crate's reader)."""
from __future__ import annotations
import os
from . import rust, rinstr_fz
from .common import Found
from .rtape_fz import code as _code

PROBES = {'instrs': rinstr_fz.PROBE}
ASK = '''
fn vask(w: &[&str]) -> String {
    use instrs::vprobe::{shown, table};
    let n: usize = w.get(3).map_or(0, |x| x.parse().unwrap());
    let p = table(w.get(2).unwrap_or(&""));
    let pair = |a: String, b: String| if a == b { format!("ok\\t{a}") } else { format!("bad\\t{a}\\t{b}") };
    let t = w[1];
    macro_rules! both { ($a:expr, $b:expr) => { pair(
        std::panic::catch_unwind(|| format!("{:?}", $a)).unwrap_or_else(|_| "PANIC".to_owned()),
        std::panic::catch_unwind(|| format!("{:?}", $b)).unwrap_or_else(|_| "PANIC".to_owned())) } }
    match w[0] {
        "cant_halt" => both!(wrappers::py_cant_halt(t, n.try_into().unwrap()), reason::cant_halt(&p, n.try_into().unwrap())),
        "cant_blank" => both!(wrappers::py_cant_blank(t, n.try_into().unwrap()), reason::cant_blank(&p, n.try_into().unwrap())),
        "cant_spin_out" => both!(wrappers::py_cant_spin_out(t, n.try_into().unwrap()), reason::cant_spin_out(&p, n.try_into().unwrap())),
        "is_connected" => both!(wrappers::py_is_connected(t, n as u64), graph::is_connected(&p, n as u64)),
        "opt_block" => both!(wrappers::py_opt_block(t, n), blocks::opt_block(&p, n)),
        "quick" => both!(wrappers::py_quick_term_or_rec(t, n), machine::quick_term_or_rec(&p, n, false)),
        "segment" => {
            let s = 1 + p.iter().map(|(k, i)| k.0.max(i.2)).max().unwrap_or(0);
            let c = 1 + p.iter().map(|(k, i)| k.1.max(i.0)).max().unwrap_or(0);
            both!(wrappers::py_segment_cant_halt(t, n), segment::segment_cant_halt(&p, (s, c), n))
        },
        "tcompile" => pair(shown(&wrappers::tcompile(t)), shown(&p)),
        "show" => { use instrs::Parse as _; both!(wrappers::py_show_comp(table(w[2]), None), table(w[2]).show(None)) },
        "showp" => { use instrs::Parse as _; let q = (n as u64, w[4].parse().unwrap()); both!(wrappers::py_show_comp(table(w[2]), Some(q)), table(w[2]).show(Some(q))) },
        _ => "?".to_owned(),
    }
}
'''


def MAIN(src):
    with open(os.path.join(src, 'lib.rs'), encoding='utf-8') as f:
        lines, out, skip = f.read().splitlines(), [], False
    for l in lines:
        if l.startswith('#!['):
            skip = True
        if skip:
            skip = not l.rstrip().endswith(']')
            continue
        if l.startswith(('mod ', 'pub mod ')) and l.rstrip().endswith(';'):
            continue
        out.append(l)
    return '\n'.join(out) + ASK + rinstr_fz.MAIN.replace('instrs::vprobe::ask(&w)', 'vask(&w)')


def run(pid, exe):
    def gen(rng, hints, stats):
        q = rust.Probe(exe)
        kinds = ('cant_halt', 'cant_blank', 'cant_spin_out', 'is_connected', 'opt_block', 'quick', 'quick', 'segment', 'segment', 'segment', 'tcompile', 'show', 'showp')
        while True:
            for _ in range(30):
                kind = rng.choice(kinds)
                s, c = rng.choice(((2, 2), (3, 2), (2, 3), (4, 2), (3, 3), (2, 4)))
                few = rng.choice((.05, .2, .5))
                t = [[None if rng.random() < few else (rng.randrange(c), rng.random() < .5, rng.randrange(s)) for _ in range(c)] for _ in range(s)]
                if rng.random() < .7:
                    t[0][0] = (1, True, 1)
                if rng.random() < .2 and kind in ('segment', 'tcompile', 'show', 'showp', 'quick'):
                    # a state with no instructions, a colour never read
                    t[-1] = [None] * c
                    for r in t:
                        r[-1] = None
                if kind == 'segment' and (max([a for a, r in enumerate(t) if any(r)] + [i[2] for r in t for i in r if i], default=0) < 1 or
                                          max([i[0] for r in t for i in r if i], default=0) < 1):
                    continue
                n = {'is_connected': s, 'opt_block': rng.choice((0, 1, 10, 100, 300, 2000)), 'quick': rng.choice((1, 10, 100, 400, 2000, 20000) if rng.random() < .3 else (10, 100)),
                     'segment': rng.choice((2, 3, 3, 4, 5, 7, 10))}.get(kind, rng.choice((1, 2, 3, 5, 8, 14, 25)))
                w = (kind, rinstr_fz.text(t), rinstr_fz.entries(t), n, rng.randrange(1, 6))
                r = q.ask(*w).split('\t')
                if r[0] == 'bad':
                    raise Found(what=f'{kind} of lib.rs', input=' '.join(map(str, w)), got=r[1], want=r[2], code=_code(w, r[1], r[2], 'rlib_fz'))
                key = kind if r[0] == 'ok' else 'other'
                stats[key] = stats.get(key, 0) + 1
                if r[0] == 'ok' and kind in ('cant_halt', 'segment', 'quick') and r[1] not in ('None', 'PANIC', 'false'):
                    stats[kind + '_yes'] = stats.get(kind + '_yes', 0) + 1
            yield
    return gen
