"""python3 tools/quiet.py [substr]: behaviour-preserving edits (tools/quiet_edits.py), each in a scratch copy of /repo;
the checks of the properties it concerns have to stay quiet."""
import os, shutil, subprocess, sys, json, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(f'{V}/tools/quiet_edits.py').read(), ns)
man = {c['property']: c for c in json.load(open(f'{V}/MANIFEST.json'))['checks']}


def one(e):
    d = tempfile.mkdtemp(prefix='quiet')
    out = []
    try:
        subprocess.run(f'cp -r /repo/tm /repo/tools /repo/src /repo/machines /repo/Makefile /repo/*.py /repo/test /repo/data {d}/', shell=True)
        for f, old, new in e['edits']:
            t = open(f'{d}/{f}').read()
            if t.count(old) != 1:
                return [f'{e["id"]}: {t.count(old)} matches in {f}: {old[:50]!r}']
            open(f'{d}/{f}', 'w').write(t.replace(old, new))
        r = subprocess.run(f'cd {d} && python3 -m unittest test.test_num test.test_rules test.test_tape 2>&1 | tail -1', shell=True, capture_output=True, text=True)
        for p in e['props']:
            t = time.time()
            r2 = subprocess.run(man[p]['quick_cmd'], shell=True, cwd=V, capture_output=True, text=True,
                                env=dict(os.environ, VERIF_REPO=d, VERIF_SEED='1', VERIF_TIER='quick', VERIF_EVIDENCE=d + '/ev'))
            if r2.returncode:
                more = [x.strip()[:230] for x in r2.stdout.splitlines() if x.strip().startswith(('failed:', 'unknown:', 'untrans', 'failing'))][:3]
                det = ''
                try:
                    j = json.load(open(f'{d}/ev/{p}.replay.json'))
                    det = json.dumps(j)[:600]
                except Exception:
                    pass
                out.append(f'ALARM {e["id"]} {p} {r2.stdout.strip().splitlines()[-1:]} {more} {det} {r2.stderr[-300:]}')
            else:
                err = ''
                try:
                    fz = json.load(open(f'{d}/ev/{p}.json'))
                    err = json.dumps(fz)
                    i = err.find('"errors": ["')
                    err = err[i:i + 900] if i >= 0 else ''
                except Exception:
                    pass
                out.append(f'quiet {e["id"]} {p} {time.time()-t:.0f}s unit tests {r.stdout.strip()[:40]} {err}')
    finally:
        shutil.rmtree(d)
    return out


es = [e for e in ns['EDITS'] if len(sys.argv) < 2 or any(a in e['id'] for a in sys.argv[1:])]
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, es):
        print(*r, sep='\n', flush=True)
