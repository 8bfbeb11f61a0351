"""Shared driver of the concrete replay searches: N worker processes, a time limit, one seed."""
from __future__ import annotations
import json, multiprocessing as mp, os, random, sys, time, traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.setrecursionlimit(4000)


class Found(Exception):
    """a failing input: dict(what=..., input=..., got=..., want=..., code=<python reproducing it>)"""
    def __init__(self, **kw):
        self.info = kw


def _worker(fn, seed, deadline, hints, q):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull
    rng = random.Random(seed)
    n = 0
    stats = {}
    try:
        it = fn(rng, hints, stats)
        for _ in it:
            n += 1
            if n % 8 == 0 and time.time() > deadline:
                break
        q.put(('done', n, stats, None))
    except Found as e:
        q.put(('found', n, stats, e.info))
    except BaseException:
        q.put(('error', n, stats, traceback.format_exc()[-2000:]))


def search(fn, seed, secs, hints=None, procs=8):
    """run generator function fn(rng, hints, stats) in processes; returns (evaluations, info|None, stats)"""
    q = mp.Queue()
    deadline = time.time() + secs
    ps = [mp.Process(target=_worker, args=(fn, seed * 1000 + i, deadline, hints or {}, q)) for i in range(procs)]
    for p in ps:
        p.start()
    total, found, errors, stats = 0, None, [], {}
    left = len(ps)
    hard = deadline + 20
    while left and time.time() < hard:
        try:
            kind, n, st, info = q.get(timeout=0.5)
        except Exception:
            if not any(p.is_alive() for p in ps):
                try:
                    kind, n, st, info = q.get(timeout=0.5)
                except Exception:
                    break
            else:
                continue
        left -= 1
        total += n
        for k, v in st.items():
            if isinstance(v, int):
                stats[k] = stats.get(k, 0) + v
            elif isinstance(v, list):
                stats.setdefault(k, []).extend(v[:3])
        if kind == 'found':
            found = info
            break
        if kind == 'error':
            errors.append(info)
    for p in ps:
        if p.is_alive():
            p.kill()
    for p in ps:
        p.join(1)
    stats['errors'] = errors[:2]
    return total, found, stats
