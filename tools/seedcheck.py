"""python3 tools/seedcheck.py [ids]: applies each planted bug in /repo, runs its property's quick check, undoes it"""
import json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = {c['property']: c for c in json.load(open(f'{V}/MANIFEST.json'))['checks']}
for d in sorted(os.listdir(f'{V}/seeded')):
    if len(sys.argv) > 1 and not any(a in d for a in sys.argv[1:]):
        continue
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    c = man.get(m['property'])
    if not c:
        print(d, m['property'], 'no check')
        continue
    assert not subprocess.run('git -C /repo status --porcelain', shell=True, capture_output=True, text=True).stdout.strip()
    subprocess.run(['git', '-C', '/repo', 'apply', f'{V}/seeded/{d}/patch.diff'], check=True)
    t = time.time()
    try:
        r = subprocess.run(c['quick_cmd'], shell=True, cwd=V, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', VERIF_EVIDENCE='/tmp/ev'))
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'], check=True)
    lines = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
    more = [x.strip() for x in r.stdout.splitlines() if x.strip().startswith(('failed:', 'unknown:', 'untrans', 'failing'))][:3]
    print(f'{d:28s} {m["property"]} exit {r.returncode} {time.time()-t:.0f}s', lines[0][10:] if lines else '', '|', more, flush=True)
