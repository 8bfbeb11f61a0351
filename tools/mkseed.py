"""Makes and confirms a planted bug: python3 tools/mkseed.py spec.py
spec.py defines SEEDS = [dict(id, property, file, old, new, demo (python or shell text), needs, breaks, [more edits])].
The change is applied in /repo, built, tested, its demo run with and without it, and undone."""
import json, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, cwd=REPO, capture_output=True, text=True, timeout=600, **kw)


def main(path):
    ns = {}
    exec(open(path).read(), ns)
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    assert not sh('git status --porcelain').stdout.strip()
    for s in ns['SEEDS']:
        if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]:
            continue
        d = f'{VERIF}/seeded/{s["id"]}'
        if os.path.exists(d + '/patch.diff') and len(sys.argv) <= 2:
            continue
        os.makedirs(d, exist_ok=True)
        ok, why = True, ''
        try:
            for f, old, new in [(s['file'], s['old'], s['new'])] + s.get('more', []):
                t = open(f'{REPO}/{f}').read()
                if t.count(old) != 1:
                    ok, why = False, f'{t.count(old)} matches in {f}'
                    break
                open(f'{REPO}/{f}', 'w').write(t.replace(old, new))
            if ok:
                open(d + '/patch.diff', 'w').write(sh('git diff').stdout)
                lang = s.get('lang', 'py')
                if lang == 'py':
                    open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
                    body = f'#!/bin/bash\n# run with cwd /repo\nhere=$(cd "$(dirname "$0")" && pwd)\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=. timeout 200 python3 "$here/demo.py"\n'
                else:
                    body = s['demo'].lstrip('\n')
                for n, t in s.get('files', {}).items():
                    open(f'{d}/{n}', 'w').write(t.lstrip('\n'))
                open(d + '/demo.sh', 'w').write(body)
                json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']),
                          open(d + '/meta.json', 'w'), indent=1)
                b = sh('bash /opt/vp/build.sh')
                t = sh('bash /opt/vp/test.sh /tmp/seed_out.json')
                res = json.load(open('/tmp/seed_out.json'))
                passed = set(res.get('passed', res.get('pass', [])))
                lost = [x for x in base if x not in passed]
                dm = sh(f'bash {d}/demo.sh')
                if b.returncode or lost or dm.returncode == 0:
                    ok = False
                    why = f'build {b.returncode}, lost {lost[:3]}, demo {dm.returncode} {dm.stdout[-200:]}{dm.stderr[-200:]}'
        finally:
            sh('git checkout -- .')
        if ok:
            sh('bash /opt/vp/build.sh')
            dm = sh(f'bash {d}/demo.sh')
            if dm.returncode:
                ok, why = False, f'demo fails on the unchanged tree: {dm.stdout[-300:]}{dm.stderr[-300:]}'
        print(s['id'], 'KEPT' if ok else 'DROPPED ' + why, flush=True)
        if not ok:
            subprocess.run(['rm', '-rf', d])


main(sys.argv[1])
