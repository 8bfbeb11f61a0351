"""Decides one property: verifies every function it rests on against its contract, from /repo's current source.

usage: python3-vt -m pyvc.check <property> [--tier quick|thorough]      (cwd /verif)
exit 0: every obligation discharged (recorded findings excepted); exit 1 + VIOLATION line otherwise."""
from __future__ import annotations
import argparse, itertools, json, multiprocessing as mp, os, queue, re, sys, time, traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))
NPROC = int(os.environ.get('VERIF_PROCS', '8'))
SLICE = 6.0
sys.dont_write_bytecode = True
sys.setrecursionlimit(6000)


# ------------------------------------------------------------------ verification of one slice, in a worker
def work(job):
    fam, key, start, must, variant, until = job
    t0 = time.time()
    out = dict(fam=fam, key=key, start=start, variant=variant, verdicts=[], left=[], restart=False, must=must, sites={},
               used=[], inlined=[], paths=0, done=0)
    try:
        from .families import FAMILIES
        F = FAMILIES[fam]
        w = F.world()
        cs = F.contracts(w)
        X = F.interp(w, cs, dict(timeout=int(os.environ.get('PYVC_TIMEOUT', '4000'))))
        X.deadline = until
        X.loop_variant = dict(variant)
        left, restart = X.explore(cs[key], start, must, SLICE)
        out.update(left=left, restart=restart, must={k: sorted(v) for k, v in X.must_havoc.items()},
                   sites=dict(X.loop_sites), used=sorted(X.used), inlined=sorted(X.inlined), paths=X.npaths, done=X.paths_done,
                   verdicts=[v.as_dict() for v in X.verdicts])
    except MemoryError:
        out['verdicts'] = [dict(name=f'{key}#memory', status='unknown', backend='', secs=0, detail='out of memory', model=None)]
    except BaseException:
        out['verdicts'] = [dict(name=f'{key}#translate', status='untranslatable', backend='', secs=0,
                                detail=traceback.format_exc()[-3000:], model=None)]
    out['secs'] = time.time() - t0
    return out


def _loop(jobs, results):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    while True:
        j = jobs.get()
        if j is None:
            return
        n, job = j
        results.put((n, work(job)))


class Pool:
    def __init__(self, n):
        self.jobs, self.results = mp.Queue(), mp.Queue()
        self.ps = [mp.Process(target=_loop, args=(self.jobs, self.results), daemon=True) for _ in range(n)]
        for p in self.ps:
            p.start()
        self.open = {}
        self.n = itertools.count()

    def put(self, job):
        i = next(self.n)
        self.open[i] = job
        self.jobs.put((i, job))

    def get(self, timeout):
        i, r = self.results.get(timeout=timeout)
        return self.open.pop(i), r

    def close(self):
        for p in self.ps:
            p.kill()
        for p in self.ps:
            p.join(1)


class KeyRun:
    """all slices of one function under one choice of loop-variable roles"""
    def __init__(self, key, variant=(), must=None):
        self.key, self.variant, self.must = key, tuple(sorted(variant)), must or {}
        self.open = 0
        self.verdicts, self.sites = [], {}
        self.paths = self.done = 0
        self.secs = 0.0
        self.dead = False


def verify_all(fam, keys, callees, deadline, log):
    """returns {key: KeyRun}; callees(used) -> further keys"""
    pool = Pool(NPROC)
    best, tried, current, gen = {}, {}, {}, {}
    used_all = {}

    def start(kr):
        current.setdefault(kr.key, []).append(kr)
        kr.open += 1
        k = (kr.key, kr.variant)
        gen[k] = gen.get(k, 0) + 1
        kr.gen = gen[k]
        pool.put((fam, kr.key, [[]], kr.must, kr.variant, deadline))
        index[(kr.key, kr.variant)] = kr

    index = {}
    for k in keys:
        start(KeyRun(k))
    scheduled = set(keys)
    try:
        while pool.open:
            try:
                job, r = pool.get(1.0)
            except queue.Empty:
                if time.time() > deadline + 45:
                    for j in pool.open.values():
                        kr = index[(j[1], j[4])]
                        kr.verdicts.append(dict(name=f'{j[1]}#time', status='unknown', backend='', secs=0,
                                                detail='time limit', model=None))
                        kr.open = 0
                        best.setdefault(kr.key, kr)
                    break
                if not all(p.is_alive() for p in pool.ps):
                    dead = [i for i, p in enumerate(pool.ps) if not p.is_alive()]
                    if len(dead) == len(pool.ps) or time.time() > deadline:
                        deadline = 0
                continue
            kr = index[(job[1], job[4])]
            kr.open -= 1
            kr.secs += r['secs']
            used_all.setdefault(kr.key, set()).update(r['used'])
            if kr.dead:
                pass
            elif r['restart']:
                kr.dead = True
                must = {k: set(v) for k, v in kr.must.items()}
                for k, v in r['must'].items():
                    must.setdefault(k, set()).update(v)
                kr2 = KeyRun(kr.key, kr.variant, {k: sorted(v) for k, v in must.items()})
                kr2.secs = kr.secs
                # slices of the old run still under way report to the old object
                for i, j in list(pool.open.items()):
                    if (j[1], j[4]) == (kr.key, kr.variant):
                        pool.open[i] = j[:4] + (('stale',) + tuple(j[4]),) + j[5:]
                        index[(kr.key, ('stale',) + tuple(j[4]))] = kr
                kr.dead = True
                start(kr2)
                continue
            else:
                kr.must = r['must']
                kr.verdicts += r['verdicts']
                kr.sites.update(r['sites'])
                kr.paths += r['paths']
                kr.done += r['done']
                left = r['left']
                if left:
                    n = max(1, min(NPROC, len(left)))
                    for i in range(n):
                        chunk = left[i::n]
                        kr.open += 1
                        pool.put((fam, kr.key, chunk, kr.must, kr.variant, deadline))
            if kr.open or kr.dead:
                continue
            bad = [v for v in kr.verdicts if v['status'] not in ('ok', 'known')]
            b = best.get(kr.key)
            if b is None or len(bad) < len([v for v in b.verdicts if v['status'] not in ('ok', 'known')]):
                best[kr.key] = kr
            if bad and kr.variant == ():
                sites = [(s, n) for s, n in kr.sites.items() if n > 1]
                if sites and len(sites) <= 3:
                    alts = list(itertools.product(*[range(n) for _, n in sites]))[1:25]
                    for a in alts:
                        start(KeyRun(kr.key, tuple((s, i) for (s, _), i in zip(sites, a))))
            for k in callees(used_all[kr.key]):
                if k not in scheduled:
                    scheduled.add(k)
                    start(KeyRun(k))
    finally:
        pool.close()
    for k in scheduled:
        if k not in best:
            kr = KeyRun(k)
            kr.verdicts = [dict(name=f'{k}#worker', status='unknown', backend='', secs=0, detail='no answer', model=None)]
            best[k] = kr
    return best


def retry(fname, runs, deadline):
    """functions with obligations the solvers gave up on (none refuted) are verified once more, with more solver time"""
    again = []
    for k, r in runs.items():
        bad = [v for v in r.verdicts if v['status'] not in ('ok', 'known')]
        if bad and all(v['status'] == 'unknown' for v in bad):
            again.append(k)
    if not again or len(again) > 8 or time.time() > deadline - 120:
        return
    os.environ['PYVC_TIMEOUT'] = '20000'
    new = verify_all(fname, again, lambda u: (), deadline, None)
    for k in again:
        bad = [[v for v in r.verdicts if v['status'] not in ('ok', 'known')] for r in (runs[k], new[k])]
        if len(bad[1]) < len(bad[0]):
            runs[k] = new[k]


# ------------------------------------------------------------------ findings on record
def known_findings(pid):
    out = []
    try:
        for line in open(os.path.join(HERE, 'known_findings.txt'), encoding='utf-8'):
            m = re.match(r'KNOWN-FINDING: property=(\S+) obligation=(\S+) (.*)', line.strip())
            if m:
                out.append((m.group(1), m.group(2), m.group(3)))
    except OSError:
        pass
    return out


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp'
    with open(tmp, 'w', encoding='utf-8') as f:
        json.dump(obj, f, indent=1, default=str)
    os.replace(tmp, path)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-fz', action='store_true')
    a = ap.parse_args()
    pid, tier = a.property, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from .families import DEPS, FAMILIES, PROPS
    fname = PROPS[pid]
    F = FAMILIES[fname]
    problems = []
    runs = {}
    keys, missing = [], []
    try:
        w = F.world()
        cs = F.contracts(w)
        keys, missing = F.roots(w, cs, pid)
        runs = verify_all(fname, keys, lambda u: F.callees(w, cs, u, pid), t0 + (560 if tier == 'quick' else 3000), None)
    except BaseException:
        problems.append(dict(name=f'{pid}#translate', status='untranslatable', backend='', secs=0,
                             detail=traceback.format_exc()[-3000:], model=None))
    try:
        retry(fname, runs, t0 + (560 if tier == 'quick' else 3000))
    except BaseException:
        traceback.print_exc()
    for m in missing:
        problems.append(dict(name=f'{m}#missing', status='untranslatable', backend='', secs=0,
                             detail='no function under contract resolves to this name', model=None))
    known = known_findings(pid)
    obligations = discharged = 0
    backends, solver = {}, 0.0
    hit = {}
    for n, ok in F.lemmas():
        obligations += 1
        if ok:
            discharged += 1
            backends['z3 (lemma by induction)'] = backends.get('z3 (lemma by induction)', 0) + 1
        else:
            problems.append(dict(name=f'lemma:{n}', status='unknown', backend='z3', secs=0, detail='power lemma', model=None))
    for k, r in sorted(runs.items()):
        if not r.verdicts or not r.done:
            if not any(v['status'] != 'ok' for v in r.verdicts):
                problems.append(dict(name=f'{k}#vacuous', status='failed', backend='', secs=0,
                                     detail=f'no execution reaches the postcondition ({r.paths} paths)', model=None))
        for v in r.verdicts:
            obligations += 1
            solver += v['secs']
            if v['status'] == 'ok':
                discharged += 1
                b = v['backend'] or 'evaluation'
                backends[b] = backends.get(b, 0) + 1
            elif v['status'] == 'known':
                for p, o, text in known:
                    if o == v['name']:
                        hit[o] = (p, text)
                        break
                else:
                    problems.append(v)
            else:
                problems.append(v)
    if not obligations:
        problems.append(dict(name=f'{pid}#vacuous', status='failed', backend='', secs=0, detail='no obligation', model=None))
    verify_s = time.time() - t0

    # concrete search on the real code: cross-check, or the failing input of a failed obligation
    fz = dict(evaluations=0)
    info = None
    secs = (60 if problems else 12) if tier == 'quick' else (240 if problems else 120)
    if not a.no_fz and F.falsifier(pid):
        fz, info = F.falsify(pid, secs, seed, problems)
        for dep in () if info else DEPS.get(pid, ()):
            n, info = FAMILIES[PROPS[dep.rstrip('t')]].falsify(dep, secs // 3, seed, [])
            fz.setdefault('relies_on', {})[dep.rstrip('t')] = n.get('evaluations', 0)
            if info:
                break

    for o, (p, text) in hit.items():
        if p == pid:
            print(f'KNOWN-FINDING: property={pid} {text}')
        else:
            print(f'relies on a function with a finding recorded under {p}: {o}')
    base = os.path.join(EVID, pid)
    ev = dict(
        property=pid, tier=tier, seed=seed, level='proof',
        coverage=dict(
            obligations=obligations, discharged=discharged,
            checker_cmd=f'python3-vt -m pyvc.check {pid} --tier {tier}',
            trusted_base=list(F.trusted),
            functions={k: dict(obligations=len(r.verdicts), paths=r.paths, reached_post=r.done, secs=round(r.secs, 2),
                               names=sorted({v['name'].split(':', 2)[-1] for v in r.verdicts})[:40])
                       for k, r in sorted(runs.items())},
            discharged_by=backends, solver_s=round(solver, 2),
            known_findings=sorted(hit), failed=[p['name'] for p in problems][:60],
            concrete_cross_check=fz),
        assumptions=list(F.assumptions), wall_s=round(time.time() - t0, 2), violations=len(problems) + bool(info))
    write_json(base + '.json', ev)
    print(f'{pid}: {len(runs)} functions under contract, {discharged}/{obligations} obligations discharged '
          f'({len(hit)} recorded findings), {verify_s:.1f}s; concrete cross-check: {fz.get("evaluations", 0)} evaluations')
    if not problems and not info:
        return 0
    for p in problems[:12]:
        print(f'  {p["status"]}: {p["name"]}')
        print('    ' + p['detail'][:300].replace('\n', '\n    '))
    replay = base + '.replay.json'
    rep = dict(property=pid, failed_obligations=problems[:40], failing_input=info)
    if info and info.get('code'):
        py = base + '.replay.py'
        with open(py, 'w', encoding='utf-8') as f:
            f.write(f'# {info.get("what")}: expected {info.get("want")}, got {info.get("got")}\n'
                    f'# run with cwd {REPO}\nimport sys\nsys.path.insert(0, {REPO!r})\n{info["code"]}\n')
        rep['replay_cmd'] = f'cd {REPO} && python3-vt {py}'
    write_json(replay, rep)
    if info:
        print(f'  failing input: {info.get("input")}: got {info.get("got")}, want {info.get("want")}')
        print(f'VIOLATION property={pid} replay={replay}')
    else:
        print(f'VIOLATION property={pid} replay={replay} no-failing-input-found')
    return 1


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
