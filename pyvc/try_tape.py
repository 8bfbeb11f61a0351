import sys, time
from collections import Counter
from .source import World
from .engine import Interp
from .families import FAMILIES
F = FAMILIES[sys.argv[1]]
for key in F.contracts(World()):
    if len(sys.argv) > 2 and not any(p in key for p in sys.argv[2:]):
        continue
    if not F.contracts(World())[key].verify:
        continue
    w = World(); cs = F.contracts(w)
    X = Interp(w, cs, F.domain(), F.loops)
    X.deadline = time.time() + 300
    t = time.time()
    if w.func(key) is None:
        print(key, 'ABSENT'); continue
    vs = X.verify(cs[key])
    print(f'{key:45s} paths={X.npaths} done={X.paths_done} {dict(Counter(v.status for v in vs))} {time.time()-t:.1f}s', flush=True)
    shown = set()
    for v in vs:
        if v.status != 'ok' and (v.name, v.detail[-200:]) not in shown:
            shown.add((v.name, v.detail[-200:]))
            if len(shown) <= 4:
                print('   ', v.status, v.name, v.detail[:1500].replace('\n', '\n       '))
